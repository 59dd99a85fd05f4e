--------------------------- MODULE TraceDeviates ----------------------------
(***************************************************************************)
(* Validates recorded histories of the random generators: s is the         *)
(* session, pos the calls taken, nu and ng the elements consumed from the  *)
(* uniform and the Gaussian stream, seed the argument of the first uniform *)
(* call (the stream's name).                                               *)
(***************************************************************************)
EXTENDS Deviates
VARIABLES s, pos, nu, ng, seed, ok
vars == << s, pos, nu, ng, seed, ok >>
Sessions == LoadTrace(0)
NRefs == 13
GaussRef == Sessions[1][1].r
UniformRefs == 2..NRefs
UniformRef(x) == Sessions[CHOOSE i \in UniformRefs : Sessions[i][1].a[1] \doteq x][1].r

\* the argument of the first call does choose: these share no stream
Choosing == << R("0"), R("1"), R("0.5"), R("3"), R("10"), F32(R("12345.6")) >>
Chosen(e) == (e.a[1] \doteq 0) => \A i, j \in 1..Len(Choosing) : i < j =>
                \E q \in 1..20 : ~(UniformRef(Choosing[i])[q] \doteq UniformRef(Choosing[j])[q])

Init == s \in 1..Len(Sessions) /\ pos = 0 /\ nu = 0 /\ ng = 0 /\ seed = R("0") /\ ok = TRUE
Far == { "random_far", "gresid_far" }
Uniform == { "random", "random_n" }
IsLong(e) == Len(e.a) = 2 /\ Len(e.r) > 1000
UniformOk(e, from, x) == /\ Len(e.r) = (IF e.op = "random" THEN 1 ELSE e.a[2])
                         /\ AllFinite(e.r) /\ UniformRange(e.r)
                         /\ IF IsLong(e) THEN UniformSpread(e.r) /\ Fresh(e.r) /\ Chosen(e)
                            ELSE \A i \in 1..Len(e.r) : e.r[i] \doteq UniformRef(x)[from + i]
GaussOk(e, from) == /\ Len(e.r) = (IF e.op = "gresid" THEN 1 ELSE e.a[2])
                    /\ AllFinite(e.r)
                    /\ IF IsLong(e) THEN NormalSpread(e.r) /\ Fresh(e.r) /\ ~(e.r[1] \doteq 0)
                       ELSE \A i \in 1..Len(e.r) : Near(e.r[i], e.a[1] * GaussRef[from + i], R("3e-7") * Abs(e.a[1] * GaussRef[from + i]))
Next == /\ ok
        /\ pos < Len(Sessions[s])
        /\ pos' = pos + 1
        /\ s' = s
        /\ LET e == Sessions[s][pos + 1] IN
           IF e.op \in Far
           THEN ok' = (e.ok /\ IF e.op = "random_far" THEN FarUniform(e.a[2], e.r) ELSE FarNormal(e.a[2], e.r)) /\ UNCHANGED << nu, ng, seed >>
           ELSE IF e.op \in Uniform
           THEN LET x == IF nu = 0 THEN e.a[1] ELSE seed IN
                /\ seed' = x /\ nu' = nu + Len(e.r) /\ ng' = ng
                /\ ok' = (e.ok /\ UniformOk(e, nu, x))
           ELSE /\ ng' = ng + Len(e.r) /\ nu' = nu /\ seed' = seed
                /\ ok' = (e.ok /\ GaussOk(e, ng))
Spec == Init /\ [][Next]_vars
Accepted == ok
=============================================================================
