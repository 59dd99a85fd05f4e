------------------------------- MODULE Sharing ------------------------------
(***************************************************************************)
(* N05: storing a result over what it is computed from.  Every session     *)
(* makes one call with all arguments apart and then the same call with the *)
(* result in the place of an input, for each input of the result's type.   *)
(***************************************************************************)
EXTENDS Library

\* operations with a variant per shared input ...
Places == [ eqecl |-> << "eqecl&" >>, ecleq |-> << "ecleq&" >>, eqgal |-> << "eqgal&" >>, galeq |-> << "galeq&" >>, galsup |-> << "galsup&" >>,
            supgal |-> << "supgal&" >>, eg50 |-> << "eg50&" >>, ge50 |-> << "ge50&" >>, addet |-> << "addet&" >>, subet |-> << "subet&" >>,
            pm |-> << "pm&", "pm&&" >>, tp2s |-> << "tp2s&" >>, dtp2s |-> << "dtp2s&" >>, tp2v |-> << "tp2v&" >>, dtp2v |-> << "dtp2v&" >> ]
PlacedOps == << "eqecl", "ecleq", "eqgal", "galeq", "galsup", "supgal", "eg50", "ge50", "addet", "subet", "pm", "tp2s", "dtp2s", "tp2v", "dtp2v" >>
\* ... and with the sharing as their first argument: how many ways there are besides none
ModeOps == << "vxv", "dvxv", "vn", "dvn", "mxv", "dmxv", "imxv", "dimxv", "mxm", "dmxm", "refv", "invf" >>
Modes(op) == CASE op \in { "vxv", "dvxv", "mxm", "dmxm" } -> 2 [] OTHER -> 1
NOps == Len(PlacedOps) + Len(ModeOps)
SharingSession(j, k) ==
    IF j \leq Len(PlacedOps)
    THEN LET op == PlacedOps[j] a == Tup(Gen(op, k)) IN << << op, a >> >> \o [ i \in 1..Len(Places[op]) |-> << Places[op][i], a >> ]
    ELSE LET op == ModeOps[j - Len(PlacedOps)] a == Tup(Gen(op, k)) IN [ i \in 1..(1 + Modes(op)) |-> << op, << i - 1 >> \o Tail(a) >> ]
\* without an inverse nothing is stored
Nothing(e) == e.op = "invf" /\ e.r[1] = FALSE
=============================================================================
