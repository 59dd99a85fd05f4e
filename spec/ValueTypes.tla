----------------------------- MODULE ValueTypes -----------------------------
(***************************************************************************)
(* The library's value types as records of numbered components.  A type is *)
(* given by the components a setter writes and the components its getters  *)
(* and views show; several names may denote one component (longitude, ra   *)
(* and ha; hours and degrees).  A store maps slots to values; objects are  *)
(* values: a copy is independent of its original.                          *)
(***************************************************************************)
EXTENDS Common
Types == << "sphf", "sphd", "posf", "posd", "vpvf", "vpvd", "spvf", "spvd", "mount", "conv", "fit" >>
Width(t) == CASE t \in { "sphf", "sphd" } -> 2 [] t \in { "posf", "posd" } -> 3 [] t \in { "vpvf", "vpvd", "spvf", "spvd", "fit" } -> 6
              [] t = "mount" -> 9 [] t = "conv" -> 5
\* setters: name and component
SphNames == << << "longitude", 1 >>, << "ra", 1 >>, << "ha", 1 >>, << "latitude", 2 >>, << "dec", 2 >> >>
Setters(t) ==
    CASE t \in { "sphf", "sphd" } -> SphNames
      [] t \in { "posf", "posd" } -> SphNames \o << << "dist", 3 >> >>
      [] t \in { "vpvf", "vpvd" } -> << << "x", 1 >>, << "y", 2 >>, << "z", 3 >>, << "dx", 4 >>, << "dy", 5 >>, << "dz", 6 >> >>
      [] t \in { "spvf", "spvd" } -> << << "longitude", 1 >>, << "ra", 1 >>, << "latitude", 2 >>, << "dec", 2 >>, << "dist", 3 >>, << "dlong", 4 >>, << "dra", 4 >>,
                                        << "dlat", 5 >>, << "ddec", 5 >>, << "ddist", 6 >> >>
      [] t = "mount" -> << << "azimuth", 1 >>, << "az_velocity", 2 >>, << "az_acceleration", 3 >>, << "elevation", 4 >>, << "el_velocity", 5 >>,
                           << "el_acceleration", 6 >>, << "pangle", 7 >>, << "pa_velocity", 8 >>, << "pa_acceleration", 9 >> >>
      [] t = "conv" -> << << "hours", 1 >>, << "minutes", 2 >>, << "seconds", 3 >>, << "degrees", 1 >>, << "arcminutes", 2 >>, << "arcseconds", 3 >>,
                          << "fraction", 4 >>, << "sign", 5 >>, << "signchar", 5 >> >>
      [] t = "fit" -> << << "a", 1 >>, << "b", 2 >>, << "c", 3 >>, << "d", 4 >>, << "e", 5 >>, << "f", 6 >>,
                         << "i0", 1 >>, << "i1", 2 >>, << "i2", 3 >>, << "i3", 4 >>, << "i4", 5 >>, << "i5", 6 >>,
                         << "p0", 1 >>, << "p1", 2 >>, << "p2", 3 >>, << "p3", 4 >>, << "p4", 5 >>, << "p5", 6 >>,
                         << "v0", 1 >>, << "v1", 2 >>, << "v2", 3 >>, << "v3", 4 >>, << "v4", 5 >>, << "v5", 6 >> >>
\* what an observation shows: components in the order of the getters, then of the views
Shown(t) ==
    CASE t \in { "sphf", "sphd" } -> << 1, 1, 1, 2, 2, 1, 2 >>
      [] t \in { "posf", "posd" } -> << 1, 1, 1, 2, 2, 1, 2, 3, 3 >>
      [] t \in { "vpvf", "vpvd" } -> << 1, 2, 3, 4, 5, 6, 1, 2, 3, 4, 5, 6 >>
      [] t \in { "spvf", "spvd" } -> << 1, 1, 2, 2, 3, 4, 4, 5, 5, 6, 1, 2, 1, 2, 3, 4, 5, 6 >>
      [] t = "mount" -> << 1, 2, 3, 4, 5, 6, 7, 8, 9 >>
      [] t = "conv" -> << 1, 2, 3, 1, 2, 3, 4, 5 >>
      [] t = "fit" -> << 1, 2, 3, 4, 5, 6, 1, 2, 3, 4, 5, 6, 1, 2, 3, 4, 5, 6, 1, 2, 3, 4, 5, 6 >>
Component(t, name) == LET ss == Setters(t) IN ss[CHOOSE i \in 1..Len(ss) : ss[i][1] = name][2]
\* a sign is kept as a character; "+" is plus, anything else is minus
Kept(t, name, v) == CASE name = "sign" -> (IF v THEN "+" ELSE "-") [] name = "signchar" -> (IF v = "+" THEN "+" ELSE "-") [] OTHER -> v
Made(t, vs) == [ type |-> t, comp |-> IF t = "conv" THEN << vs[1], vs[2], vs[3], vs[4], Kept(t, "sign", vs[5]) >> ELSE vs ]
Written(obj, name, v) == [ obj EXCEPT !.comp[Component(obj.type, name)] = Kept(obj.type, name, v) ]
View(obj) == LET sh == Shown(obj.type) cs == [ i \in 1..Len(sh) |-> obj.comp[sh[i]] ] IN IF obj.type = "fit" THEN Append(cs, 6) ELSE cs
=============================================================================
