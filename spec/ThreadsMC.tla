------------------------------ MODULE ThreadsMC -----------------------------
(***************************************************************************)
(* Why the library is safe to call from several threads: a computation     *)
(* works in a frame of its own call, and a generator's state belongs to    *)
(* the calling thread.  All interleavings of a few threads making a few    *)
(* calls, each in several steps; a computation of x returns x * x + 1, and *)
(* the i-th deviate a thread draws is i.  Shared (set only to see the      *)
(* model fail) puts the frame and the generator in static storage.         *)
(***************************************************************************)
EXTENDS Common
Shared == Param("shared") = "yes"
NT == IF Param("tier") = "thorough" THEN 4 ELSE 3
NC == 2
Home(t) == IF Shared THEN 1 ELSE t
VARIABLES pc, arg, calls, frame, gen, drawn, ret
vars == << pc, arg, calls, frame, gen, drawn, ret >>
Threads == 1..NT
Init == /\ pc = [ t \in Threads |-> "idle" ] /\ arg = [ t \in Threads |-> 0 ] /\ calls = [ t \in Threads |-> 0 ]
        /\ frame = [ t \in Threads |-> 0 ] /\ gen = [ t \in Threads |-> 0 ] /\ drawn = [ t \in Threads |-> 0 ] /\ ret = [ t \in Threads |-> -1 ]
Call(t) == /\ pc[t] = "idle" /\ calls[t] < NC
           /\ calls' = [ calls EXCEPT ![t] = @ + 1 ]
           /\ ret' = [ ret EXCEPT ![t] = -1 ]
           /\ \/ /\ \E x \in { t, t + 5 } : arg' = [ arg EXCEPT ![t] = x ]
                 /\ pc' = [ pc EXCEPT ![t] = "load" ]
              \/ arg' = [ arg EXCEPT ![t] = 0 ] /\ pc' = [ pc EXCEPT ![t] = "step" ]
           /\ UNCHANGED << frame, gen, drawn >>
Load(t) == /\ pc[t] = "load"
           /\ frame' = [ frame EXCEPT ![Home(t)] = arg[t] ]
           /\ pc' = [ pc EXCEPT ![t] = "square" ]
           /\ UNCHANGED << arg, calls, gen, drawn, ret >>
Square(t) == /\ pc[t] = "square"
             /\ frame' = [ frame EXCEPT ![Home(t)] = @ * arg[t] ]
             /\ pc' = [ pc EXCEPT ![t] = "finish" ]
             /\ UNCHANGED << arg, calls, gen, drawn, ret >>
Finish(t) == /\ pc[t] = "finish"
             /\ ret' = [ ret EXCEPT ![t] = frame[Home(t)] + 1 ]
             /\ pc' = [ pc EXCEPT ![t] = "idle" ]
             /\ UNCHANGED << arg, calls, frame, gen, drawn >>
\* a deviate: the state is advanced, then read
Step(t) == /\ pc[t] = "step"
           /\ gen' = [ gen EXCEPT ![Home(t)] = @ + 1 ]
           /\ pc' = [ pc EXCEPT ![t] = "deliver" ]
           /\ UNCHANGED << arg, calls, frame, drawn, ret >>
Deliver(t) == /\ pc[t] = "deliver"
              /\ ret' = [ ret EXCEPT ![t] = gen[Home(t)] ]
              /\ drawn' = [ drawn EXCEPT ![t] = @ + 1 ]
              /\ pc' = [ pc EXCEPT ![t] = "idle" ]
              /\ UNCHANGED << arg, calls, frame, gen >>
Next == \E t \in Threads : Call(t) \/ Load(t) \/ Square(t) \/ Finish(t) \/ Step(t) \/ Deliver(t)
Spec == Init /\ [][Next]_vars
\* what a thread gets is what it would get alone
AsAlone == \A t \in Threads : pc[t] = "idle" /\ ret[t] # -1 => ret[t] = (IF arg[t] = 0 THEN drawn[t] ELSE arg[t] * arg[t] + 1)
=============================================================================
