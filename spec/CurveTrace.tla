---------------------------- MODULE CurveTrace ----------------------------
(* C01.  The curve as a process of refinement: at depth 0 it is the one    *)
(* cell of the range; Refine replaces every cell by its 2^Dim children, in *)
(* place.  A key is a sequence of digits with the operations of a stack.   *)
(* The trace of harness/curve.cc must be a run of this process.            *)
EXTENDS TraceBase

Dim == Sc.dim
Full == Pow(2, Dim)

Scenario == /\ E.e = "scenario"
            /\ l' = l + 1
            /\ st' = [sc |-> l, d |-> -1, cells |-> << >>, key |-> << >>]

\* the i-th digit sequence of length d, i = 0..Full^d - 1, in order
RECURSIVE DigitsOf(_, _, _)
DigitsOf(i, d, acc) == IF d = 0 THEN acc ELSE DigitsOf(i \div Full, d - 1, <<i % Full>> \o acc)

Half(c) == [j \in 1..Dim |-> c[j] \div 2]
RECURSIVE L1(_, _, _)
L1(a, b, j) == IF j = 0 THEN 0 ELSE Abs(a[j] - b[j]) + L1(a, b, j - 1)

\* the cells of depth d listed in the order of their keys
Refine ==
  /\ E.e = "grid"
  /\ \E cs \in {E.cells} :
     \E n \in {Len(cs)} :
     LET ok ==
       /\ Pre("depths in order", E.d = st.d + 1 /\ n = Pow(Full, E.d))
       /\ Chk("C01", "every key value of the depth is used once",
              \A i \in 1..n : E.keys[i] = DigitsOf(i - 1, E.d, << >>))
       /\ Chk("C01", "reported depth", E.dep)
       /\ Chk("C01", "every cell has a key", \A i \in 1..n : \A j \in 1..Dim : cs[i][j] \in 0..(Pow(2, E.d) - 1))
       /\ Chk("C01", "no two cells share a key", NoDup(cs))
       /\ Chk("C01", "keys of a depth refine those of the depth above",
              E.d > 0 => \A i \in 1..n : Half(cs[i]) = st.cells[(i - 1) \div Full + 1])
       /\ Chk("C01", "consecutive Hilbert keys are neighbours",
              ~Sc.morton => \A i \in 1..(n - 1) : L1(cs[i], cs[i + 1], Dim) = 1)
     IN Goto(ok, [st EXCEPT !.d = E.d, !.cells = cs], l + 1)

\* a point at full depth, and its keys of smaller depths
Point ==
  /\ E.e = "pt"
  /\ LET md == Sc.md
         ok ==
       /\ Chk("C01", "depth of a full key", Len(E.key) = md /\ E.depth = md)
       /\ Chk("C01", "keys of smaller depth are the ancestors",
              \A i \in 1..Len(E.sub) : /\ E.sub[i] = SubSeq(E.key, 1, E.td[i])
                                       /\ E.sd[i] = E.td[i])
       /\ Chk("C01", "truncation gives the ancestor",
              \A i \in 1..Len(E.tr) : E.tr[i] = SubSeq(E.key, 1, E.td[i]))
       /\ Chk("C01", "Morton digits are the bits of the position",
              Sc.morton => E.key = [i \in 1..md |-> SumBits(E.xb, i, Dim)])
       /\ Chk("C01", "decoded position lies in the cell",
              IF Sc.morton THEN E.dev <= 1 /\ E.dev2 <= 1 ELSE E.dev = 0)
       /\ Chk("C01", "box of a Morton key", E.box = 0)
     IN Goto(ok, st, l + 1)

Const ==
  /\ E.e = "const"
  /\ Goto(Chk("C01", "root, smallest, largest and null key",
            /\ E.root = << >>
            /\ E.min = [i \in 1..Sc.md |-> 0]
            /\ E.max = [i \in 1..Sc.md |-> Full - 1]
            /\ E.null
            /\ Sc.md = Sc.wd),
          [st EXCEPT !.key = << >>], l + 1)

Front(s, n) == SubSeq(s, 1, Len(s) - n)

KeyOp ==
  /\ E.e \in {"push", "pop", "popv", "trunc", "last", "copy", "cmp"}
  /\ \E k \in {CASE E.e = "push"  -> Append(st.key, E.v)
                 [] E.e = "pop"   -> Front(st.key, E.v)
                 [] E.e = "popv"  -> Front(st.key, 1)
                 [] E.e = "trunc" -> IF Len(st.key) <= E.v THEN st.key ELSE SubSeq(st.key, 1, E.v)
                 [] OTHER         -> st.key} :
     LET ok ==
       /\ Chk("C01", "key after the operation", E.k = k)
       /\ Chk("C01", "depth after the operation", E.depth = Len(k))
       /\ Chk("C01", "digit returned", E.e \in {"popv", "last"} => E.v = st.key[Len(st.key)])
       /\ Chk("C01", "parent", Len(k) > 0 => E.par = Front(k, 1))
       /\ Chk("C01", "comparison of keys",
              E.e = "cmp" =>
                /\ E.eq = (k = E.o) /\ E.ne = (k # E.o)
                /\ Len(k) = Len(E.o) => /\ E.lt = LexLess(k, E.o) /\ E.gt = LexLess(E.o, k)
                                        /\ E.le = LexLeq(k, E.o) /\ E.ge = LexLeq(E.o, k))
     IN Goto(ok, [st EXCEPT !.key = k], l + 1)

RECURSIVE Common(_, _, _)
Common(a, b, n) == IF n < Len(a) /\ a[n + 1] = b[n + 1] THEN Common(a, b, n + 1) ELSE n
Conflict ==
  /\ E.e = "conf"
  /\ Goto(Chk("C01", "depth at which two keys part", E.v = Common(E.a, E.b, 0)), st, l + 1)

Init == l = 1 /\ st = [sc |-> 1, d |-> -1, cells |-> << >>, key |-> << >>]
Step == Scenario \/ Refine \/ Point \/ Const \/ KeyOp \/ Conflict
Next == RunNext(Step)
Spec == Init /\ [][Next]_vars
=============================================================================
