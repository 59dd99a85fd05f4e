------------------------------- MODULE PlateMC ------------------------------
(***************************************************************************)
(* Plate models built step by step from shifts, scalings, turns, shears,   *)
(* reflections and a projection.  The inverse is built alongside from the  *)
(* inverses of the steps, and a set of stars is carried along; Plate.tla   *)
(* has to admit exactly these for the application, inversion, fit,         *)
(* prediction and decomposition of the model reached.                      *)
(***************************************************************************)
EXTENDS Plate, FiniteSets
VARIABLE path
vars == << path >>
Deep == Param("tier") = "thorough"
Depth == IF Deep THEN 5 ELSE 4
Third == R("0.52359877559829887")
Rot(t) == << R("0"), Cos(t), -Sin(t), R("0"), Sin(t), Cos(t) >>
Mod(a, b, c, d, e, f) == << R(a), R(b), R(c), R(d), R(e), R(f) >>
Step(s) == CASE s = "shift" -> Mod("2", "1", "0", "-1", "0", "1")
             [] s = "large" -> Mod("0", "3", "0", "0", "0", "3")
             [] s = "tall" -> Mod("0", "1", "0", "0", "0", "0.5")
             [] s = "turn" -> Rot(Third)
             [] s = "shear" -> Mod("0", "1", "0.75", "0", "0", "1")
             [] s = "mirror" -> Mod("0", "-1", "0", "0", "0", "1")
             [] s = "flat" -> Mod("0.5", "1", "0", "0", "1", "0")
Undo(s) == CASE s = "shift" -> Mod("-2", "1", "0", "1", "0", "1")
             [] s = "large" -> [ Step(s) EXCEPT ![2] = R("1") / 3, ![6] = R("1") / 3 ]
             [] s = "tall" -> Mod("0", "1", "0", "0", "0", "2")
             [] s = "turn" -> Rot(-Third)
             [] s = "shear" -> Mod("0", "1", "-0.75", "0", "0", "1")
             [] s = "mirror" -> Step(s)
             [] s = "flat" -> Step(s)
Steps == { "shift", "large", "tall", "turn", "shear", "mirror", "flat" }
\* first m, then e
After(e, m) == LET o == Applied(e, m[1], m[4]) IN
    << o[1], e[2] * m[2] + e[3] * m[5], e[2] * m[3] + e[3] * m[6], o[2], e[5] * m[2] + e[6] * m[5], e[5] * m[3] + e[6] * m[6] >>
RECURSIVE Model(_), Back(_)
Model(n) == IF n = 0 THEN Mod("0", "1", "0", "0", "0", "1") ELSE Tup(After(Step(path[n]), Model(n - 1)))
Back(n) == IF n = 0 THEN Mod("0", "1", "0", "0", "0", "1") ELSE Tup(After(Back(n - 1), Undo(path[n])))
Init == path = << >>
Next == Len(path) < Depth /\ \E s \in Steps : path' = Append(path, s)
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
m == Model(Len(path))
back == Back(Len(path))
Has(s) == \E i \in 1..Len(path) : path[i] = s
Count(s) == Cardinality({ i \in 1..Len(path) : path[i] = s })
Stars == << << R("0"), R("0") >>, << R("1"), R("0.25") >>, << R("-0.5"), R("1") >>, << R("0.75"), R("-1") >>, << R("-1"), R("-0.5") >> >>
RECURSIVE Carried(_, _)
Carried(p, n) == IF n = 0 THEN p ELSE Tup(LET q == Carried(p, n - 1) IN Applied(Step(path[n]), q[1], q[2]))
NS == Len(Stars)
Image == Tup([ i \in 1..NS |-> Carried(Stars[i], Len(path)) ])
Flat(s) == Tup([ q \in 1..(2 * NS) |-> s[(q + 1) \div 2][2 - (q % 2)] ])
Size == MaxAbs(Flat(Image)) + 1
\* the model carries every star as the steps did
Carries == \A i \in 1..NS :
    /\ XyAccept(Stars[i] \o m, Image[i])
    /\ ~XyAccept(Stars[i] \o m, << Image[i][1] + R("1e-12") * Size, Image[i][2] >>)
\* and the inverse carries it back; a projection has none
Inverts ==
    IF Has("flat") THEN /\ Count("turn") = 0 /\ Count("shear") = 0 /\ Count("large") = 0 => InvAccept(<< 0 >> \o m, << FALSE >> \o [ i \in 1..6 |-> DSent ]) /\ InvAccept(<< 1 >> \o m, << FALSE >> \o m)
                                                                 /\ ~InvAccept(<< 0 >> \o m, << TRUE >> \o back)
    ELSE /\ \A i \in 1..NS : NearSeq(Applied(back, Image[i][1], Image[i][2]), Stars[i], R("1e-12"))
         /\ \A sh \in 0..1 : InvAccept(<< sh >> \o m, << TRUE >> \o back) /\ ~InvAccept(<< sh >> \o m, << FALSE >> \o back)
         /\ \A i \in 1..6 : ~InvAccept(<< 0 >> \o m, << TRUE >> \o [ back EXCEPT ![i] = @ + R("1e-11") * Size ])
\* the stars and their images give the model back, whichever way it is fitted
Similar == \A i \in 1..Len(path) : path[i] \in { "shift", "large", "turn", "mirror" }
FitArgs(rigid) == << rigid, NS >> \o Flat(Image) \o Flat(Stars)
Fits ==
    /\ FitAccept(FitArgs(FALSE), << FITOk >> \o m)
    /\ \A i \in 1..6 : ~FitAccept(FitArgs(FALSE), << FITOk >> \o [ m EXCEPT ![i] = @ + R("1e-11") * Size ])
    /\ ~FitAccept(FitArgs(FALSE), << FITNone >> \o m) /\ ~FitAccept(FitArgs(FALSE), << FITInsufficient >> \o [ i \in 1..6 |-> DSent ])
    /\ LET s == IF Count("mirror") % 2 = 1 THEN -1 ELSE 1
           rm == Tup([ i \in 1..6 |-> IF i = 5 THEN -(s * m[3]) ELSE IF i = 6 THEN s * m[2] ELSE m[i] ])
       IN Similar => /\ NearSeq(rm, m, R("1e-13") * Size)
                     /\ FitAccept(FitArgs(TRUE), << FITOk >> \o rm)
                     /\ ~FitAccept(FitArgs(TRUE), << FITOk >> \o [ rm EXCEPT ![1] = @ + R("1e-11") * Size ])
                     /\ ~FitAccept(FitArgs(TRUE), << FITOk >> \o [ rm EXCEPT ![2] = @ + R("0.01"), ![6] = s * (rm[2] + R("0.01")) ])
Predicts ==
    LET args == << NS >> \o Flat(Image) \o Flat(Stars) \o m z == R("0")
        off == << NS >> \o Flat(Tup([ i \in 1..NS |-> << Image[i][1] + 3, Image[i][2] - 4 >> ])) \o Flat(Stars) \o m
    IN /\ PxyAccept(args, << z, z, z >> \o Flat(Image))
       /\ PxyAccept(off, << R("3"), R("4"), R("5") >> \o Flat(Image))
       /\ ~PxyAccept(off, << R("4"), R("3"), R("5") >> \o Flat(Image))
       /\ ~PxyAccept(off, << R("3"), R("4"), R("3.5") >> \o Flat(Image))
\* scales, nonperpendicularity and orientation read off the images of the axes
Decomposition ==
    LET x == << m[2], m[5] >> y == << m[3], m[6] >>
        sx == Sqrt(Sq(x[1]) + Sq(x[2])) sy == Sqrt(Sq(y[1]) + Sq(y[2]))
        det == m[2] * m[6] - m[3] * m[5]
        xs == IF det < 0 THEN -sx ELSE sx
        \* directions (counterclockwise) of the images of +x -- reversed if reflected -- and +y
        ax == Atan2(Sgn(xs) * x[2], Sgn(xs) * x[1]) ay == Atan2(y[2], y[1])
        gap == Fmod(ay - ax + 3 * Pi, TwoPi) - Pi
        perp == HalfPi - gap
        mid == ax + gap / 2 - QuarterPi
        orient == LET t == Fmod(-mid + 7 * Pi, TwoPi) - Pi IN t
        o == Applied(back, R("0"), R("0"))
    IN << -o[1], -o[2], xs, sy, perp, orient >>
Good == ~Has("flat") =>
    LET d == Tup(Decomposition) IN
    /\ DcmpAccept(m, d)
    /\ ~DcmpAccept(m, [ d EXCEPT ![3] = -@ ]) /\ ~DcmpAccept(m, [ d EXCEPT ![6] = -@ + R("1e-9") ]) /\ ~DcmpAccept(m, [ d EXCEPT ![5] = @ + R("1e-12") ])
    /\ ~DcmpAccept(m, [ d EXCEPT ![1] = @ + R("1e-6") ])
=============================================================================
