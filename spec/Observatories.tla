--------------------------- MODULE Observatories ----------------------------
(***************************************************************************)
(* O03: the catalogue of observatories, by number or by (abbreviated)      *)
(* identifier.                                                             *)
(***************************************************************************)
EXTENDS Common

Sites == Table("obs.tbl")
SiteAngle(s, j) == s[j] * (s[j + 1] * 3600 + s[j + 2] * 60 + s[j + 3]) * AS2R
SiteNames == [ i \in 1..Len(Sites) |-> Chars(Sites[i][1]) ]
BeginsWith(cs, p) == Len(p) \leq Len(cs) /\ \A j \in 1..Len(p) : cs[j] = p[j]
NoId == "~null"
\* number of the entry that is found, 0 if none
SiteFound(n, id) ==
    IF n \geq 0 THEN (IF n < Len(Sites) THEN n + 1 ELSE 0)
    ELSE LET m == { i \in 1..Len(Sites) : BeginsWith(SiteNames[i], Chars(id)) } IN
         IF m = {} THEN 0 ELSE CHOOSE i \in m : \A j \in m : i \leq j
SiteIs(i, r) ==
    LET s == Sites[i] IN
    /\ r[1] = TRUE /\ r[2] = s[1] /\ r[3] = s[2]
    /\ Near(r[4], SiteAngle(s, 3), R("1e-15")) /\ Near(r[5], SiteAngle(s, 7), R("1e-15")) /\ r[6] \doteq s[11]
NoSite(r) == r[1] = FALSE /\ r[2] = "?" /\ r[3] = "?" /\ \A j \in 4..6 : r[j] \doteq 0
SiteOps == { "obs" }
SiteAccept(op, a, r) == Len(r) = 6 /\ LET i == SiteFound(a[1], a[2]) IN IF i = 0 THEN NoSite(r) ELSE SiteIs(i, r)

RECURSIVE Join(_, _)
Join(cs, n) == IF n = 0 THEN "" ELSE Join(cs, n - 1) \o cs[n]
\* every identifier cut at every length
CutIds == LET cut(i) == [ n \in 1..Len(SiteNames[i]) |-> Join(SiteNames[i], n) ]
              F[i \in 0..Len(Sites)] == IF i = 0 THEN << >> ELSE F[i - 1] \o cut(i)
          IN F[Len(Sites)]
OddIds == << "", NoId, "aat", "Aat", "AATX", "AAT ", " AAT", "?", "QQ", "JCMT2", "GEMININORTH", "0", "VLT9", "VLT", "ESO", "GEMINI", "MAGELLAN", "KECK", "UKIRT.", "Z", "ATCA123", "*" >>
SiteGen(op, k) ==
    LET c == RndInt(k, 1, 9, 6) s == Pick(k, 2, SiteNames) IN
    CASE c = 0 -> << IntUni(k, 3, 0, Len(Sites) + 3), Pick(k, 4, OddIds) >>
      [] c = 1 -> << IntUni(k, 3, 0, 2000000000), Join(s, Len(s)) >>
      [] c = 2 -> << -IntUni(k, 3, 1, 2000000000), Join(s, Len(s)) >>
      [] c = 3 -> << -1, Pick(k, 4, OddIds) >>
      [] c = 4 -> << -1, Join(s, IntUni(k, 3, 1, Len(s))) \o Pick(k, 5, << "X", "0", " ", "1" >>) >>
      [] c = 5 -> << -1, Join(s, IntUni(k, 3, 1, Len(s))) >>
SiteDirected(op) ==
    [ i \in 1..(Len(Sites) + 4) |-> << i - 1, NoId >> ] \o [ i \in 1..Len(OddIds) |-> << -1, OddIds[i] >> ]
    \o LET c == Tup(CutIds) IN [ i \in 1..Len(c) |-> << -1, c[i] >> ]
SiteNoMix == {}
=============================================================================
