------------------------------- MODULE WaitMC -------------------------------
(***************************************************************************)
(* A caller asks for a delay, in quarters of a second; the clock ticks;    *)
(* signals that the process handles arrive at any moment and wake the      *)
(* sleeper.  The way the delay is made either is right in every schedule   *)
(* of signals (Kept), or is one of the wrong ways, and then the delays and *)
(* signals that the check tries (Tried) tell it from the right one         *)
(* (Noticed).                                                              *)
(***************************************************************************)
EXTENDS Services
Right == { "until", "remaining" }
Wrong == { "once", "again", "floor", "up", "no longer than two", "magnitude", "each a second" }
Q == 4 \* ticks in a second
Most == IF Param("tier") = "thorough" THEN 6 ELSE 4
Asked == { q \in -6..16 : q % 4 # 2 } \* clear of the half seconds
Nearest(q) == (IF q < 0 THEN 0 ELSE (q + 2) \div Q)
Intended(how, q) ==
    CASE how = "floor" -> (IF q < 0 THEN 0 ELSE q \div Q) * Q
      [] how = "up" -> (IF q < 0 THEN 0 ELSE (q + Q - 1) \div Q) * Q
      [] how = "no longer than two" -> (IF Nearest(q) > 2 THEN 2 ELSE Nearest(q)) * Q
      [] how = "magnitude" -> Nearest(IF q < 0 THEN -q ELSE q) * Q
      [] OTHER -> Nearest(q) * Q
\* the delay so far, what is left of it, signals so far and the tick of the latest
VARIABLES how, asked, now, left, signals, latest, state
vars == << how, asked, now, left, signals, latest, state >>
Init == /\ how \in Right \cup Wrong /\ asked \in Asked
        /\ now = 0 /\ left = Intended(how, asked) /\ signals = 0 /\ latest = -1
        /\ state = "asleep"
Tick == /\ state = "asleep" /\ left > 0
        /\ now' = now + 1 /\ left' = left - 1 /\ UNCHANGED << how, asked, signals, latest, state >>
Wake == /\ state = "asleep" /\ left = 0
        /\ state' = "back" /\ UNCHANGED << how, asked, now, left, signals, latest >>
\* a signal: the sleep ends; what then?
Signal == /\ state = "asleep" /\ left > 0 /\ signals < Most
          /\ latest # now
          /\ signals' = signals + 1 /\ latest' = now
          /\ CASE how = "once" -> state' = "back" /\ left' = left
               [] how = "again" -> state' = state /\ left' = Intended(how, asked)
               [] how = "each a second" -> \* one sleep per second; a broken one counts as made
                    state' = state /\ left' = ((left - 1) \div Q) * Q
               [] OTHER -> state' = state /\ left' = left
          /\ UNCHANGED << how, asked, now >>
Next == Tick \/ Wake \/ Signal
Spec == Init /\ [][Next]_vars
Fits == WaitOk(R(asked) / Q, << R(now) / Q >>)
Kept == state = "back" /\ how \in Right => Fits /\ now = Nearest(asked) * Q
\* what is tried: delays alone and delays with signals in every second tick
Tried == { 0, 1, 3, 5, 7, 8, 9, 12, -1, -8 }
\* a wrong way is wrong for one of the delays tried, with signals or without: the outcomes in a list by delay
Outcome(h, q, interrupted) ==
    LET I == Intended(h, q)
        hits == { t \in 1..(I - 1) : interrupted /\ t % 2 = 1 /\ t \leq 2 * Most - 1 }
    IN CASE h = "once" -> IF hits = {} THEN I ELSE 1
         [] h = "again" -> IF hits = {} THEN I ELSE (LET last == IF I > 2 * Most - 1 THEN 2 * Most - 1 ELSE CHOOSE t \in hits : \A u \in hits : u \leq t IN last + I)
         [] h = "each a second" -> IF hits = {} THEN I ELSE 1 + ((I - 2) \div Q) * Q
         [] OTHER -> I
Noticed == now = 0 => (how \in Wrong <=> \E q \in Tried, b \in BOOLEAN : ~WaitOk(R(q) / Q, << R(Outcome(how, q, b)) / Q >>))
=============================================================================
