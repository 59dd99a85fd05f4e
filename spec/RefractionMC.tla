---------------------------- MODULE RefractionMC ----------------------------
(***************************************************************************)
(* A star goes down from the zenith over sites of different height and     *)
(* weather, and the refraction by the integral through the atmosphere, by  *)
(* the constants A and B in their several forms and by the inverted forms  *)
(* are followed together: against each other, within the accuracies their  *)
(* documentation states, and against the published tables.                 *)
(***************************************************************************)
EXTENDS Refraction
VARIABLES site, i
vars == << site, i >>
Deep == Param("tier") = "thorough"
Heights == IF Deep THEN { 0, 2500, 5000 } ELSE { 0, 4200 }
Warm == { -10, 20 }
Damp == { 0, 2 }
Waves == { 40, 60, 200, 1000000 }              \* hundredths of a micrometre
Lapses == IF Deep THEN { 55, 75 } ELSE { 65 }
Latits == { 0, 75 }
Last == 36                                      \* steps of two and a half degrees, to the horizon
Init == i = 0 /\ site \in Heights \X Warm \X Damp \X Waves \X Lapses \X (IF Deep THEN Latits ELSE { 25 })
Next == i < Last /\ i' = i + 1 /\ UNCHANGED site
Spec == Init /\ [][Next]_vars
h == R(site[1])
lapse == R(site[5]) / 10000
tk == 280 + R(site[2]) - lapse * h
press == R("1013.25") * Pow(1 - (R("0.0065") * h) / 288, R("5.2561"))
rh == R(site[3]) / 2
wl == R(site[4]) / 100
phi == site[6] * D2R
radio == site[4] = 1000000
Air(p, w) == Atmosphere(h, tk, p, rh, w, phi, lapse)
z == (R("2.5") * i) * D2R
Eps == R("1e-8")
Bent(x) == RefractionAt(Air(press, wl), x, Eps)
Sec == AS2R
AB(w) == RefcoOf(<< h, tk, press, rh, w, phi, lapse, Eps >>)
Model(ab, x) == ab[1] * Tan(x) + ab[2] * Tan(x) * Sq(Tan(x))
\* none at the zenith, growing ever faster with the zenith distance, odd, less in thinner air, and bounded
Integral == LET r == Bent(z) IN
    /\ i = 0 => r \doteq 0
    /\ Bent(-z) \doteq -r
    /\ i > 0 => LET a == Bent(z - R("2.5") * D2R) b == Bent(z + R("2.5") * D2R) IN r > a /\ (i < 36 => b - 2 * r + a > 0)
    /\ i > 0 => RefractionAt(Air(R("0.9") * press, wl), z, Eps) < r
    /\ i \leq (IF radio THEN 34 ELSE 36) => r < R("0.0125")
    \* a finer integration changes it by less than was asked for
    /\ i \in { 20, 32, 36 } => Near(RefractionAt(Air(press, wl), z, R("1e-10")), r, Eps)
\* A tan z + B tan^3 z: exact at two places, as good as documented between
Constants == (i < 32) =>
    LET ab == AB(wl) q == RefcoqOf(<< tk, press, rh, wl >>) r == Bent(z) m == Model(ab, z) IN
    /\ Near(m, r, Sec * (IF i < 18 THEN R("0.0015") ELSE IF i < 24 THEN R("0.02") ELSE R("0.6")) * (IF radio THEN R("2") ELSE R("1")))
    /\ i \in { 6, 18, 30 } => Near(Model(q, z), r, Sec * (IF radio THEN R("0.4") ELSE R("0.08")))
\* from the place in vacuo back to the observed one
Inverse == LET ab == AB(wl) m == Model(ab, z) zu == z + m IN
    \* Newton's method does give back the place from which A and B started
    /\ i < 32 => Near(zu - RefzOf(<< zu, ab[1], ab[2] >>), z, IF i < 29 THEN R("1e-13") ELSE IF radio THEN R("1e-9") ELSE R("1e-12"))
    /\ i < 28 => LET v == RefvOf(<< 0, Sin(zu), R("0"), Cos(zu), ab[1], ab[2] >>) IN Near(Atan2(v[1], v[3]), z, Sec * (IF radio THEN R("0.002") ELSE R("0.001")))
    /\ i = 12 => LET v == RefvOf(<< 0, Sin(zu), R("0"), Cos(zu), ab[1], ab[2] >>) IN Near(Atan2(v[1], v[3]), z, Sec * (IF radio THEN R("0.00001") ELSE R("0.000002")))
    \* and the integral, within the tabulated errors
    /\ (~radio /\ i \in 32..36) =>
       LET u == z + Bent(z) worst == CASE i = 32 -> R("0.7") [] i = 33 -> R("4.7") [] i = 34 -> R("6.4") [] i = 35 -> R("13") [] i = 36 -> R("60")
       IN Near(u - RefzOf(<< u, ab[1], ab[2] >>), z, Sec * worst * R("2.2"))
    \* no glitch at 83 degrees, and none of it changes beyond 93
    /\ i = 0 => /\ Near(RefzOf(<< Deg83 - R("1e-9"), ab[1], ab[2] >>), RefzOf(<< Deg83 + R("1e-9"), ab[1], ab[2] >>), R("1e-10"))
                /\ Near(RefzOf(<< R("93.00001") * D2R, ab[1], ab[2] >>), RefzOf(<< R("99") * D2R, ab[1], ab[2] >>), R("1e-15"))
                /\ Near(RefzOf(<< R("92.99999") * D2R, ab[1], ab[2] >>), RefzOf(<< R("93") * D2R, ab[1], ab[2] >>), R("5e-7"))
\* constants carried from blue light to another wavelength, at an elevation of 15 degrees
Dispersion == (i = 30 /\ ~radio) =>
    LET blue == AB(R("0.4")) ab == AB(wl) w == AtmdspOf(<< tk, press, rh, R("0.4"), blue[1], blue[2], wl >>) IN
    Near(Model(w, z), Model(ab, z), Sec * R("0.02"))
\* air mass: one at the zenith, growing, never that of a plane layer, close to it high up
Mass == LET x == AirmassOf(z) IN
    /\ i = 0 => x \doteq 1
    /\ (i > 0 /\ i < 34) => x > AirmassOf(z - R("2.5") * D2R) /\ x < 1 / Cos(z) /\ (i \leq 24 => Near(x, 1 / Cos(z), R("0.008")))
    /\ AirmassOf(-z) \doteq x
---------------------------------------------------------------------------
\* the table published with the quick form: zenith distance, refraction by integration and by the quick form (arcseconds);
\* made with the formulae for the refractivity of before 2002, two parts in ten thousand apart
Published == << << 10, "10.27", "10.27" >>, << 20, "21.19", "21.20" >>, << 30, "33.61", "33.61" >>, << 40, "48.82", "48.83" >>, << 45, "58.16", "58.18" >>,
                << 50, "69.28", "69.30" >>, << 55, "82.97", "82.99" >>, << 60, "100.51", "100.54" >>, << 65, "124.23", "124.26" >>, << 70, "158.63", "158.68" >>,
                << 72, "177.32", "177.37" >>, << 74, "200.35", "200.38" >>, << 76, "229.45", "229.43" >>, << 78, "267.44", "267.29" >>, << 80, "319.13", "318.55" >> >>
Tabulated == (i \in 1..Len(Published)) =>
    LET m == Atmosphere(R("0"), R("280.15"), R("1005"), R("0.8"), R("0.574"), R("50") * D2R, R("0.0065"))
        q == RefcoqOf(<< R("280.15"), R("1005"), R("0.8"), R("0.574") >>)
        row == Published[i] x == row[1] * D2R
    IN Near(RefractionAt(m, x, Eps), R(row[2]) * Sec, Sec * (R("0.006") + R("2.5e-4") * R(row[2]))) /\ Near(Model(q, x), R(row[3]) * Sec, Sec * (R("0.006") + R("8e-5") * R(row[3])))
=============================================================================
