---------------------------- MODULE TensorTrace ----------------------------
(* C22.  A tensor is a map from component classes to values: for a generic *)
(* tensor every multi-index is a class of its own, for a symmetric one the *)
(* class of a multi-index is its sorted permutation.                       *)
EXTENDS TraceBase

RECURSIVE Insert(_, _)
Insert(s, x) == IF s = << >> THEN <<x>>
                ELSE IF x <= Head(s) THEN <<x>> \o s ELSE <<Head(s)>> \o Insert(Tail(s), x)
RECURSIVE Sorted(_)
Sorted(s) == IF s = << >> THEN << >> ELSE Insert(Sorted(Tail(s)), Head(s))
Class(i) == IF Sc.sym THEN Sorted(i) ELSE i

\* mem: values by position in Sc.ix; cls[p]: representative position of the class
Scenario ==
  /\ E.e = "scenario"
  /\ \E n \in {Len(E.ix)} :
     \E c \in {TLCEval([p \in 1..n |-> IF E.sym THEN Sorted(E.ix[p]) ELSE E.ix[p]])} :
     \E pos \in {TLCEval([k \in SeqRange(c) |-> CHOOSE p \in 1..n : E.ix[p] = k])} :
     LET s0 == [sc |-> l, n |-> n, cls |-> TLCEval([p \in 1..n |-> pos[c[p]]]), mem |-> [p \in 1..n |-> 0],
                pos |-> TLCEval([i \in SeqRange(E.ix) |-> CHOOSE p \in 1..n : E.ix[p] = i])]
         size == IF n > 0 THEN Cardinality(SeqRange(c)) ELSE E.size
         ok ==
           \* every distinct component has its own slot; equal components share one
           /\ size = E.size
           /\ n > 0 => SeqRange(E.flat) = 0..(size - 1)
           /\ \A p \in 1..n : E.flat[p] = E.flat[s0.cls[p]]
         msg == IF ok THEN TRUE ELSE PrintT(<<"REJECT", "C22", "slots of the components", E.name, l, E.e>>)
     IN IF ok THEN st' = s0 /\ l' = l + 1
        ELSE msg /\ PrintT(<<"SKIP", E.name, l>>) /\ st' = [s0 EXCEPT !.sc = l] /\ l' = E.nx

RECURSIVE Writes(_, _, _)
Writes(mem, w, i) ==
  IF i > Len(w) THEN mem
  ELSE Writes(TLCEval([mem EXCEPT ![st.cls[st.pos[w[i].i]]] = w[i].v]), w, i + 1)

Set  == /\ E.e = "set"
        /\ l' = l + 1
        /\ st' = [st EXCEPT !.mem = Writes(@, E.w, 1)]
Map(Op(_)) == st' = [st EXCEPT !.mem = TLCEval([p \in 1..st.n |-> Op(st.mem[p])])]
Fill == /\ E.e = "fill" /\ l' = l + 1 /\ LET f(x) == E.v IN Map(f)
AddC == /\ E.e = "addc" /\ l' = l + 1 /\ LET f(x) == x + E.v IN Map(f)
Mul  == /\ E.e = "mul"  /\ l' = l + 1 /\ LET f(x) == x * E.v IN Map(f)
Div  == /\ E.e = "div"  /\ l' = l + 1 /\ LET f(x) == x \div E.v IN Map(f)
AddF == /\ E.e = "addf" /\ l' = l + 1
        /\ st' = [st EXCEPT !.mem = TLCEval([p \in 1..st.n |-> st.mem[p] + E.v * (Sc.flat[p] + 1)])]

Dump ==
  /\ E.e = "dump"
  /\ Goto(/\ Chk("C22", "components read by their indices", Len(E.byc) = st.n /\ \A p \in 1..st.n : E.byc[p] = st.mem[st.cls[p]])
          /\ Chk("C22", "components read by their names", Len(E.byn) \in {0, st.n} /\ \A p \in 1..Len(E.byn) : E.byn[p] = st.mem[st.cls[p]]),
          st, l + 1)
Cmp == /\ E.e = "cmp"
       /\ Goto(Chk("C22", "comparison", E.eq /\ ~E.ne /\ ~E.eq2 /\ E.ne2), st, l + 1)

Vec ==
  /\ E.e = "vec"
  /\ LET a == E.a b == E.b s == E.s D == Len(a)
         Cw(f(_)) == [i \in 1..D |-> f(i)]
         dot(u, v) == SumOf([i \in 1..D |-> u[i] * v[i]])
         dif == [i \in 1..D |-> a[i] - b[i]]
         cr == IF D = 3 THEN << a[2]*b[3] - a[3]*b[2], a[3]*b[1] - a[1]*b[3], a[1]*b[2] - a[2]*b[1] >>
               ELSE [i \in 1..D |-> 0]
         cm == IF D = 1 THEN 0 ELSE IF D = 2 THEN (a[1]*b[2] - a[2]*b[1]) ELSE 0
     IN Goto(
          /\ Chk("C22", "vector sum", E.add = [i \in 1..D |-> a[i] + b[i]])
          /\ Chk("C22", "vector difference", E.sub = dif)
          /\ Chk("C22", "scalar multiple", E.mul = [i \in 1..D |-> s * a[i]] /\ E.lmul = E.mul /\ E.div8 = [i \in 1..D |-> 8 * a[i]])
          /\ Chk("C22", "compound assignments", E.chain = a)
          /\ Chk("C22", "dot product", E.dot = dot(a, b))
          /\ Chk("C22", "distance and magnitude", E.dist2 = dot(dif, dif) /\ E.mag2 = dot(a, a))
          /\ Chk("C22", "midpoint and centroid",
                 /\ E.mid2 = [i \in 1..D |-> a[i] + b[i]]
                 /\ E.cen4 = [i \in 1..D |-> 2 * a[i] + b[i] + E.c[i]])
          /\ Chk("C22", "vector comparison", E.eq = (a = b) /\ E.ne = (a # b))
          /\ Chk("C22", "cross product", E.cross = cr)
          /\ Chk("C22", "normal", D = 1 \/ (D = 3 /\ E.normal = cr) \/ (D = 2 /\ E.normal = <<a[2] - b[2], b[1] - a[1]>>))
          /\ Chk("C22", "cross magnitude",
                 E.cm2 = IF D = 3 THEN dot(cr, cr) ELSE cm * cm)
          /\ Chk("C22", "constructors", E.fill7 = [i \in 1..D |-> 7] /\ E.list = a /\ E.var = a),
          st, l + 1)

Init == l = 1 /\ st = [sc |-> 1, n |-> 0, cls |-> << >>, mem |-> << >>, pos |-> << >>]
Step == Scenario \/ Set \/ Fill \/ AddC \/ Mul \/ Div \/ AddF \/ Dump \/ Cmp \/ Vec
Next == RunNext(Step)
Spec == Init /\ [][Next]_vars
=============================================================================
