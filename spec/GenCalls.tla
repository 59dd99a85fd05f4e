------------------------------ MODULE GenCalls ------------------------------
(***************************************************************************)
(* Behaviours of the specification's environment: TLC draws sessions of    *)
(* calls of the property's operations and writes them out for the driver.  *)
(* Each state is one session.                                              *)
(***************************************************************************)
EXTENDS Library, Nearby
VARIABLE n

Prop == Param("prop")
Ops == PropOps[Prop]
Blocks == Param("blocks")          \* random sessions per operation
Size == 16                         \* calls per random session
ChunkSize == 40                    \* directed calls per session

\* one call drawn at random; every third one takes its arguments from the two previous draws, position by position, so
\* that neighbouring calls share some of their arguments but not others; every seventh nearly repeats the previous one
Draw(op, k) ==
    IF k % 3 = 2 /\ op \notin NoMix THEN
        LET a == Tup(Gen(op, k - 1)) b == Tup(Gen(op, k - 2))
        IN [ j \in 1..Len(a) |-> IF RndInt(k, j, 77, 2) = 0 THEN a[j] ELSE b[j] ]
    ELSE IF k % 7 = 6 /\ op \notin NoMix THEN Shrunk(Tup(Gen(op, k - 1)), k, R("-10"), R("-1"))
    ELSE Gen(op, k)
RandomSession(op, b) == [ i \in 1..Size |-> << op, Draw(op, b * Size + i) >> ]
\* the operation number is part of the draw, so that different operations see different values
Draws == Len(Ops) * Blocks

DirectedOf(op) == Tup(Directed(op))
DirectedChunks(op) == (Len(DirectedOf(op)) + ChunkSize - 1) \div ChunkSize
DirectedSession(op, c) ==
    LET d == DirectedOf(op) from == (c - 1) * ChunkSize to == IF c * ChunkSize < Len(d) THEN c * ChunkSize ELSE Len(d)
    IN [ i \in 1..(to - from) |-> << op, d[from + i] >> ]

Init == n = 0
Next == \/ /\ n < Draws
           /\ EmitSession(RandomSession(Ops[1 + (n % Len(Ops))], n))
           /\ n' = n + 1
        \/ /\ n \geq Draws /\ n < Draws + Len(Ops)
           /\ LET op == Ops[n - Draws + 1] IN \A c \in 1..DirectedChunks(op) : EmitSession(DirectedSession(op, c))
           /\ n' = n + 1
        \/ /\ n = Draws + Len(Ops)
           /\ EmitDone(n)
           /\ n' = n + 1
Spec == Init /\ [][Next]_n
=============================================================================
