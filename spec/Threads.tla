------------------------------- MODULE Threads ------------------------------
(***************************************************************************)
(* Concurrent use of the library (built with SLALIB_THREAD_SAFE set).      *)
(* Threads make calls that begin and end at any time; a call's result is   *)
(* what the same call returns on its own, and each thread has its own      *)
(* stream of random deviates.  This module names the calls (functions of   *)
(* the run's seed, so that generation and validation agree).               *)
(***************************************************************************)
EXTENDS History
NThreads == 6
PerThread == 2
Seeds == << R("0"), R("3"), R("12345.6"), R("-1e10") >>
RefLen == 800
\* reference sessions: every pool call alone, then the Gaussian stream, then one uniform stream per seed
NRefs == Pool + 1 + Len(Seeds)
RefCall(j) == IF j \leq Pool THEN PoolCall(j)
              ELSE IF j = Pool + 1 THEN << "gresid_n", << R("1"), RefLen >> >> ELSE << "random_n", << Seeds[j - Pool - 1], RefLen >> >>
(* Sessions: per operation, all threads making different calls of it;      *)
(* drawn ones, every thread with calls of its own; and streams.            *)
NSame == Len(AllOps)
NDrawn == Param("blocks")
NStream == Param("blocks") \div 4
NSessions == NSame + NDrawn + NStream
IsStream(h) == h > NSame + NDrawn
Lines(h) == IF IsStream(h) THEN NThreads * 30 ELSE NThreads * PerThread
ThreadOf(h, i) == 1 + ((i - 1) % NThreads)
\* which pool call line i of session h is
LineRef(h, i) == IF h \leq NSame THEN (h - 1) * Depth + 1 + ((i - 1 + RndInt(h, 0, 41, Depth)) % Depth)
                 ELSE LET op == RndInt(h, (i - 1) % 3, 42, Len(AllOps)) IN op * Depth + 1 + RndInt(h, i, 43, Depth)
\* a stream thread keeps to one seed (its first uniform call decides)
StreamSeed(h, t) == 1 + RndInt(h, t, 44, Len(Seeds))
StreamCall(h, i) ==
    LET t == ThreadOf(h, i) c == RndInt(h, i, 45, 4) seed == Seeds[StreamSeed(h, t)] IN
    CASE c = 0 -> << "random", << seed >> >> [] c = 1 -> << "gresid", << R("1") >> >>
      [] c = 2 -> << "random_n", << seed, IntUni(h, i, 1, 25) >> >> [] c = 3 -> << "gresid_n", << R("1"), IntUni(h, i, 1, 25) >> >>
Names == << "1", "2", "3", "4", "5", "6" >>
Line(h, i) == IF IsStream(h) THEN << ThreadOf(h, i), "=", StreamCall(h, i) >> ELSE << ThreadOf(h, i), ":", PoolCall(LineRef(h, i)) >>
=============================================================================
