----------------------------- MODULE TraceValues ----------------------------
(***************************************************************************)
(* Validates recorded histories of value objects: the store is the state,  *)
(* each event a transition, and every observation shows the store.         *)
(***************************************************************************)
EXTENDS ValueTypes
VARIABLES s, pos, store, ok
vars == << s, pos, store, ok >>
Sessions == LoadTrace(0)
Nothing == [ type |-> "none", comp |-> << >> ]
Init == s \in 1..Len(Sessions) /\ pos = 0 /\ store = << Nothing, Nothing, Nothing >> /\ ok = TRUE
Values(a, from) == Tup([ i \in 1..(Len(a) - from + 1) |-> a[from + i - 1] ])
New(e) == /\ e.op = "obj_new"
          /\ store' = [ store EXCEPT ![e.a[1]] = Made(e.a[2], Values(e.a, 3)) ]
          /\ ok' = e.ok
Set(e) == /\ e.op = "obj_set"
          /\ store' = [ store EXCEPT ![e.a[1]] = Written(@, e.a[2], e.a[3]) ]
          /\ ok' = e.ok
Copy(e) == /\ e.op = "obj_copy"
           /\ store' = [ store EXCEPT ![e.a[1]] = store[e.a[2]] ]
           /\ ok' = e.ok
Look(e) == /\ e.op = "obj_view"
           /\ ok' = (e.ok /\ Same(e.r, Tup(View(store[e.a[1]]))))
           /\ UNCHANGED store
Next == /\ ok
        /\ pos < Len(Sessions[s])
        /\ pos' = pos + 1
        /\ s' = s
        /\ LET e == Sessions[s][pos + 1] IN New(e) \/ Set(e) \/ Copy(e) \/ Look(e)
Spec == Init /\ [][Next]_vars
Accepted == ok
=============================================================================
