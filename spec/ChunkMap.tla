------------------------------ MODULE ChunkMap ------------------------------
(* Column processing: T columns are handed out in chunks of C to workers     *)
(* which finish in any order; results are put together in column order.      *)
(* Abstracts every parallel section of the simulator (allocation, sub-grid   *)
(* liquid, lidar moments, radar moments, total spectral width).  Column t    *)
(* yields F(t); a worker only ever reads its own column.                     *)
(* Step/Append/Slack parametrise realistic mistakes for negative checks.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS T, C, Step, Slack, InOrder, Emit
VARIABLES j, pending, done, order, out, log
vars == <<j, pending, done, order, out, log>>

F(t) == 100 + t
Hi == IF j + C + Slack >= T THEN T ELSE j + C + Slack      \* end of this chunk
Cols(a, b) == {x \in 0..(T - 1) : a <= x /\ x < b}

Init == /\ j = 0 /\ pending = Cols(0, IF C >= T THEN T ELSE C + Slack) /\ done = {}
        /\ order = <<>> /\ out = <<>> /\ log = <<>>

Finish(t) == /\ t \in pending
             /\ pending' = pending \ {t} /\ done' = done \cup {t}
             /\ order' = Append(order, t)
             /\ UNCHANGED <<j, out, log>>

RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y
                                      IN <<m>> \o Sorted(S \ {m})
Results == LET s == IF InOrder THEN Sorted(done) ELSE order
           IN [i \in 1..Len(s) |-> F(s[i])]

Collect == /\ pending = {} /\ done # {}
           /\ out' = out \o Results /\ log' = Append(log, order)
           /\ j' = j + Step
           /\ pending' = IF j + Step >= T THEN {}
                         ELSE Cols(j + Step, IF j + Step + C + Slack >= T THEN T ELSE j + Step + C + Slack)
           /\ done' = {} /\ order' = <<>>

Finished == j >= T /\ pending = {} /\ done = {}
Report == /\ Finished /\ Emit /\ log # <<>>
          /\ PrintT("SCHED " \o ToString(log)) /\ log' = <<>>
          /\ UNCHANGED <<j, pending, done, order, out>>
Stop == Finished /\ (Emit => log = <<>>) /\ UNCHANGED vars
Next == (\E t \in pending : Finish(t)) \/ Collect \/ Report \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Serial == [i \in 1..T |-> F(i - 1)]
\* whatever the workers did: the assembled result is the serial one
Deterministic == Finished => out = Serial
\* and already while running it is a prefix of it: no column twice, none skipped
Prefix == Len(out) <= T /\ \A i \in 1..Len(out) : out[i] = F(i - 1)
Terminates == <>Finished
=============================================================================
