-------------------------------- MODULE SkyMC -------------------------------
(***************************************************************************)
(* A pair of directions carried from frame to frame by the conversions of  *)
(* Frames.tla and Precession.tla: equatorial of several epochs, ecliptic   *)
(* of several dates, galactic and supergalactic.  Whatever the path, the   *)
(* angle between them stays, and on returning to a frame they are where    *)
(* they were, to the closure of the models involved.                       *)
(***************************************************************************)
EXTENDS Frames
VARIABLES at, path          \* the directions (degrees) in the first frame; the frames visited
vars == << at, path >>
Deep == Param("tier") = "thorough"
MaxHops == IF Deep THEN 4 ELSE 3
Eq(m, e) == << "eq", m, e >>
Ec(mjd) == << "ec", "iau", mjd >>
Gal == << "gal", "", 0 >>
Sup == << "sup", "", 0 >>
Model(n) == CASE n = "iau" -> Iau1976 [] n = "long" -> LongTerm [] n = "bess" -> Besselian
IauEpochs == { 2000, 1950, 2050 } \cup (IF Deep THEN { 1900, 2100 } ELSE {})
Dates == { 51544, 33000, 65000 }
Frames == { Eq("iau", e) : e \in IauEpochs } \cup { Ec(m) : m \in Dates } \cup { Gal, Sup }
\* the rotation from frame a to frame b where there is one, and how well the path closes (radians)
Direct(a, b) ==
    CASE a[1] = "eq" /\ b[1] = "eq" -> [ m |-> PrecessionMatrix(Model(a[2]), R(a[3]), R(b[3])), s |-> R("1e-12") * (1 + Sq((b[3] - 2000) / 10) + Sq((a[3] - 2000) / 10)) ]
      [] a = Eq("iau", 2000) /\ b[1] = "ec" -> [ m |-> Ecliptic(R(b[3])), s |-> R("1e-14") ]
      [] a[1] = "ec" /\ b = Eq("iau", 2000) -> [ m |-> Transpose(Ecliptic(R(a[3]))), s |-> R("1e-14") ]
      [] a = Eq("iau", 2000) /\ b = Gal -> [ m |-> Galactic2000, s |-> R("1e-10") ]
      [] a = Gal /\ b = Eq("iau", 2000) -> [ m |-> Transpose(Galactic2000), s |-> R("1e-10") ]
      [] a = Gal /\ b = Sup -> [ m |-> Supergalactic, s |-> R("1e-14") ]
      [] a = Sup /\ b = Gal -> [ m |-> Transpose(Supergalactic), s |-> R("1e-14") ]
      [] OTHER -> [ m |-> << >>, s |-> 0 ]
Starts == { << lo, la, p >> : lo \in { 0, 77, 180, 291 }, la \in { -90, -66, -1, 0, 23, 89 }, p \in { << 240, -17 >>, << 57, 86 >> } }
Origins == { Eq("iau", 2000), Gal }
Init == at \in Starts /\ path \in { << o >> : o \in Origins }
frame == path[Len(path)]
hops == Len(path) - 1
Next == /\ hops < MaxHops
        /\ \E b \in Frames \ { frame } : Len(Direct(frame, b).m) = 9 /\ path' = Append(path, b)
        /\ UNCHANGED at
Spec == Init /\ [][Next]_vars
RECURSIVE Carried(_, _), Slack(_)
Carried(x, n) == IF n = 1 THEN x ELSE Tup(MatVec(Direct(path[n - 1], path[n]).m, Carried(x, n - 1)))
Slack(n) == IF n = 1 THEN R("1e-14") ELSE Direct(path[n - 1], path[n]).s + Slack(n - 1)
u0 == Dir(R(at[1]) * D2R, R(at[2]) * D2R)
v0 == Dir(R(at[3][1]) * D2R, R(at[3][2]) * D2R)
u == Carried(u0, Len(path))
v == Carried(v0, Len(path))
slack == Slack(Len(path))
AnglesStay == Near(Angle(u, v), Angle(u0, v0), R("2e-14") + slack) /\ Near(Norm(u), 1, R("1e-14") + slack)
Returns == (frame = path[1]) => Angle(u, u0) < slack + R("1e-12")
\* what a conversion's acceptance relation admits is the direction itself and none a hundredth of a milliarcsecond away
Lon(x) == LET a == Atan2(x[2], x[1]) IN IF a < 0 THEN a + TwoPi ELSE a
Lat(x) == Atan2(x[3], Norm(<< x[1], x[2], 0 >>))
Coords(x) == << Lon(x), Lat(x) >>
Moved(c) == << c[1], IF c[2] > 0 THEN c[2] - R("5e-11") ELSE c[2] + R("5e-11") >>
Both(op, a, r) == FrameAccept(op, a, r) /\ ~FrameAccept(op, a, Moved(r))
Admitted == hops = 0 =>
    IF frame = Gal THEN /\ Both("galeq", Coords(u), Coords(MatVec(Transpose(Galactic2000), u)))
                        /\ Both("galsup", Coords(u), Coords(MatVec(Supergalactic, u)))
    ELSE /\ Both("eqgal", Coords(u), Coords(MatVec(Galactic2000, u)))
         /\ \A m \in Dates : Both("eqecl", Coords(u) \o << R(m) >>, Coords(MatVec(Ecliptic(R(m)), u)))
\* the E-terms: adding and removing them are inverse to second order, and they never exceed k = 20.5 arcseconds times e
ETermsSmall == hops = 0 => \A be \in { 1850, 1900, 1950, 2000 } :
    /\ Norm(ETerms(R(be))) < R("20.5") * AS2R * R("0.0172")
    /\ Abs(Dot(ETerms(R(be)), << 0, Sin(R("0.409")), -Cos(R("0.409")) >>)) < R("1e-8")                 \* in the plane of the ecliptic
    /\ LET w == WithETerms(u, R(be)) b == WithoutETerms(Unit(w), R(be)) IN Angle(b, u) < R("2e-12")
\* frozen constants against each other: the pole of the ecliptic and of the Galaxy, FK4 and FK5 forms, long-term and IAU precession
Agreement == hops = 0 =>
    /\ IsRotation(Galactic2000, R("1e-10")) /\ IsRotation(Supergalactic, R("1e-14")) /\ IsRotation(Galactic50, R("1e-14"))
    /\ Near(Angle(MatVec(Transpose(Galactic2000), << 0, 0, 1 >>), Dir(R("192.85948") * D2R, R("27.12825") * D2R)), 0, R("1e-7"))
    /\ \A e \in { 1900, 1950, 2050, 2100 } :
          /\ Angle(MatVec(PrecessionMatrix(Iau1976, R("2000"), R(e)), u), MatVec(PrecessionMatrix(LongTerm, R("2000"), R(e)), u)) < R("2e-6")
          /\ Angle(MatVec(PrecessionMatrix(Iau1976, R("2000"), R(e)), u), MatVec(PrecessionMatrix(Besselian, R("2000"), R(e)), u)) < R("7e-6")
=============================================================================
