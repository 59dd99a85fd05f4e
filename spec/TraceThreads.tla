---------------------------- MODULE TraceThreads ----------------------------
(***************************************************************************)
(* Validates recorded concurrent sessions: run[t] is the line thread t is  *)
(* in the middle of (0: none), nu[t] and ng[t] what it has taken from its  *)
(* uniform and Gaussian streams.                                           *)
(***************************************************************************)
EXTENDS Threads
VARIABLES s, pos, run, nu, ng, ok
vars == << s, pos, run, nu, ng, ok >>
Sessions == LoadTrace(0)
Zero == << 0, 0, 0, 0, 0, 0 >>
Init == s \in 1..Len(Sessions) /\ pos = 0 /\ run = Zero /\ nu = Zero /\ ng = Zero /\ ok = TRUE
Alone(e) == s \leq NRefs /\ ok' = e.ok /\ UNCHANGED << run, nu, ng >>
Begin(e) == /\ s > NRefs /\ e.op = "begin"
            /\ LET t == e.a[1] i == e.a[2] IN
               /\ ok' = (e.ok /\ t \in 1..NThreads /\ i \in 1..Lines(s - NRefs) /\ ThreadOf(s - NRefs, i) = t /\ run[t] = 0)
               /\ run' = [ run EXCEPT ![t] = i ]
            /\ UNCHANGED << nu, ng >>
Stretch(ref, from, r) == from + Len(r) \leq Len(ref) /\ \A j \in 1..Len(r) : r[j] \doteq ref[from + j]
End(e) == /\ s > NRefs /\ e.op = "end"
          /\ LET t == e.a[1] i == e.a[2] h == s - NRefs IN
             /\ run' = [ run EXCEPT ![t] = 0 ]
             /\ IF IsStream(h)
                THEN LET c == StreamCall(h, i) IN
                     IF c[1] \in { "random", "random_n" }
                     THEN /\ ok' = (e.ok /\ run[t] = i /\ Len(e.r) > 0 /\ Stretch(Sessions[Pool + 1 + StreamSeed(h, t)][1].r, nu[t], e.r))
                          /\ nu' = [ nu EXCEPT ![t] = @ + Len(e.r) ] /\ ng' = ng
                     ELSE /\ ok' = (e.ok /\ run[t] = i /\ Len(e.r) > 0 /\ Stretch(Sessions[Pool + 1][1].r, ng[t], e.r))
                          /\ ng' = [ ng EXCEPT ![t] = @ + Len(e.r) ] /\ nu' = nu
                ELSE /\ ok' = (e.ok /\ run[t] = i /\ Same(e.r, Sessions[LineRef(h, i)][1].r))
                     /\ UNCHANGED << nu, ng >>
Next == /\ ok
        /\ pos < Len(Sessions[s])
        /\ pos' = pos + 1
        /\ s' = s
        /\ LET e == Sessions[s][pos + 1] IN Alone(e) \/ Begin(e) \/ End(e)
Spec == Init /\ [][Next]_vars
Accepted == ok
=============================================================================
