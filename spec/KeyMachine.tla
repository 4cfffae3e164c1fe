---------------------------- MODULE KeyMachine ----------------------------
(* The key of a cell as a machine: value (an integer with a leading one)   *)
(* against the digit sequence, for all histories of push, pop, truncate.   *)
(* Shows that the integer encoding used by the code (sentinel bit, shifts) *)
(* implements the digit stack, and that integer order is key order.        *)
EXTENDS Keys
CONSTANTS Dim, MaxDepth
VARIABLES v, k
B == Pow(2, Dim)
RECURSIVE Val(_, _)
Val(s, n) == IF n = 0 THEN 1 ELSE Val(s, n - 1) * B + s[n]
RECURSIVE DepthOf(_)
DepthOf(x) == IF x < B THEN 0 ELSE 1 + DepthOf(x \div B)
Init == v = 1 /\ k = << >>
Push(b) == Len(k) < MaxDepth /\ v' = v * B + b /\ k' = Append(k, b)
Pop(n) == n <= Len(k) /\ v' = v \div Pow(B, n) /\ k' = SubSeq(k, 1, Len(k) - n)
Trunc(d) == /\ v' = IF DepthOf(v) < d THEN v ELSE v \div Pow(B, DepthOf(v) - d)
            /\ k' = IF Len(k) <= d THEN k ELSE SubSeq(k, 1, d)
Next == (\E b \in 0..(B - 1) : Push(b)) \/ (\E n \in 1..MaxDepth : Pop(n)) \/ (\E d \in 0..MaxDepth : Trunc(d))
Spec == Init /\ [][Next]_<<v, k>>
Inv == /\ v = Val(k, Len(k))
       /\ DepthOf(v) = Len(k)
       /\ \A d \in 0..Len(k) : Val(SubSeq(k, 1, d), d) = v \div Pow(B, Len(k) - d)
       /\ (Len(k) = MaxDepth =>
             \A j \in [1..MaxDepth -> 0..(B - 1)] : LexLess(k, j) <=> v < Val(j, MaxDepth))
=============================================================================
