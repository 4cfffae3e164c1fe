----------------------------- MODULE TreeDefs -----------------------------
(* What a correct decomposition, a correct tree and correct neighbour sets *)
(* are.  The operators are used twice: on the states of the models         *)
(* (TreeModel, SphModel), where TLC explores small scopes exhaustively,    *)
(* and on the states recorded from the real code (TreeTrace).              *)
(*                                                                         *)
(* Global order.  After the sort the particles of the whole system have    *)
(* positions 1..N in key order: gk[i] is the full key, gid[i] the id.      *)
(* A cell is a record                                                      *)
(*   k    key                     own  recorded owner    *)
(*   t    "node" | "ent" | "unset"                                         *)
(*   a,b  the positions a..b of the global order below the cell (b=a-1     *)
(*        when there is none); checked by IntervalOK                       *)
(* and, for nodes, cnt, m (mass), s (sum of m*x), lo, hi (extent, doubled),*)
(* rad (radius times mass, rounded up); for entities id, x, h, m, fk.      *)
EXTENDS Keys

---------------------------------------------------------------------------
\* Decomposition

\* s is sorted by (key, id); ks keys, is ids
SortedBy(ks, is) ==
  \A i \in 1..(Len(ks) - 1) :
     \/ LexLess(ks[i], ks[i + 1])
     \/ ks[i] = ks[i + 1] /\ is[i] <= is[i + 1]

RECURSIVE ConcatAll(_, _)
ConcatAll(f, n) == IF n = 0 THEN << >> ELSE ConcatAll(f, n - 1) \o f[n]

SeqRange(s) == {s[i] : i \in DOMAIN s}
NoDup(s)    == Cardinality(SeqRange(s)) = Len(s)

\* a box contains a particle with its smoothing length
Covers(lo, hi, x, h) ==
  \A d \in 1..Len(x) : lo[d] <= x[d] - h /\ x[d] + h <= hi[d]

---------------------------------------------------------------------------
\* Trees

\* a..b is exactly the set of positions whose key lies below cell key k
IntervalOK(k, a, b, gk) ==
  LET n == Len(gk)
  IN /\ 1 <= a /\ a <= n + 1 /\ b <= n /\ b >= a - 1
     /\ IF a <= b
        THEN /\ IsPrefix(k, gk[a]) /\ IsPrefix(k, gk[b])
             /\ (a > 1 => ~IsPrefix(k, gk[a - 1]))
             /\ (b < n => ~IsPrefix(k, gk[b + 1]))
        ELSE /\ (a > 1  => LexLess(gk[a - 1], k))
             /\ (a <= n => LexLess(k, gk[a]) /\ ~IsPrefix(k, gk[a]))

\* cells are listed in lexicographic order of their keys, without repetition
OrderedCells(cs) == \A i \in 1..(Len(cs) - 1) : LexLess(cs[i].k, cs[i + 1].k)

\* every cell but the root has its parent in the list (index pa)
ParentsOK(cs) ==
  \A i \in 1..Len(cs) :
    IF cs[i].k = << >> THEN cs[i].pa = 0
    ELSE /\ cs[i].pa \in 1..Len(cs)
         /\ cs[cs[i].pa].k = SubSeq(cs[i].k, 1, Len(cs[i].k) - 1)
         /\ cs[cs[i].pa].t # "ent"

\* the children marked in a cell are exactly the cells listed below it
\* kids: indices of the cells whose parent index is i, in order
ChildrenOK(cs) ==
  \A i \in 1..Len(cs) :
    /\ Cardinality(SeqRange(cs[i].ch)) = Len(cs[i].ch)
    /\ Len(cs[i].ch) = Len(cs[i].kids)
    /\ \A j \in 1..Len(cs[i].kids) :
         LET c == cs[cs[i].kids[j]]
         IN c.pa = i /\ c.k[Len(c.k)] \in SeqRange(cs[i].ch)

\* a cell at which the rank's knowledge ends
Terminal(c) == c.t = "ent" \/ Len(c.ch) = 0

\* the terminal cells partition the particles of the whole system
RECURSIVE CoverFrom(_, _, _)
CoverFrom(cs, i, next) ==
  IF i > Len(cs) THEN next
  ELSE IF Terminal(cs[i])
       THEN IF cs[i].b < cs[i].a THEN CoverFrom(cs, i + 1, next)
            ELSE IF cs[i].a = next THEN CoverFrom(cs, i + 1, cs[i].b + 1)
            ELSE -1
       ELSE CoverFrom(cs, i + 1, next)
PartitionOK(cs, n) == CoverFrom(cs, 1, 1) = n + 1

\* leaves hold one particle, the one of their key; loc[id] = its owner
LeafOK(c, gid, loc) ==
  c.t = "ent" =>
    /\ c.a = c.b
    /\ gid[c.a] = c.id
    /\ c.own = loc[c.id]

\* nodes exist only where at least two particles lie below
NodeOK(c) == c.t # "ent" => c.b > c.a /\ c.t = "node"

\* every particle of the rank itself is in a local leaf of the rank's tree
OwnLeaves(cs, r, gid, loc) ==
  {cs[i].id : i \in {j \in 1..Len(cs) : cs[j].t = "ent" /\ cs[j].own = r}}
    = {gid[p] : p \in {q \in 1..Len(gid) : loc[gid[q]] = r}}

\* A terminal node is remote, and its owner holds at least one of the
\* particles below it (so it has the cell); ServedBy is checked against the
\* owner's own dump in TreeTrace
TerminalOK(c, r, gid, loc) ==
  (Terminal(c) /\ c.t = "node") =>
    /\ c.own # r
    /\ \E p \in c.a..c.b : loc[gid[p]] = c.own

---------------------------------------------------------------------------
\* Cell summaries.  pm, ps: prefix sums of m and m*x over the global order;
\* X, H: position and smoothing length by global position.

CountOK(c) == c.t = "node" => c.cnt = c.b - c.a + 1
MassOK(c, pm) == c.t = "node" => c.m = pm[c.b + 1] - pm[c.a]
CenterOK(c, ps) ==
  c.t = "node" => \A d \in 1..Len(c.s) : c.s[d] = ps[c.b + 1][d] - ps[c.a][d]
ExtentOK(c, X, H) ==
  c.t = "node" =>
    \A p \in c.a..c.b : \A d \in 1..Len(c.lo) :
       /\ c.lo[d] <= 2 * X[p][d] - H[p]
       /\ c.hi[d] >= 2 * X[p][d] + H[p]
RECURSIVE SumSq(_, _)
SumSq(v, n) == IF n = 0 THEN 0 ELSE SumSq(v, n - 1) + v[n] * v[n]
Q == 8
RadiusOK(c, X) ==
  c.t = "node" =>
    \A p \in c.a..c.b :
       LET v == [d \in 1..Len(c.s) |-> Abs(c.m * X[p][d] - c.s[d])]
       IN IF Len(v) = 1 THEN v[1] <= c.rad
          ELSE SumSq([d \in 1..Len(v) |-> v[d] \div Q], Len(v))
                 <= (c.rad \div Q + 1) * (c.rad \div Q + 1)
EntValuesOK(c, gid, gk, X, H, M) ==
  c.t = "ent" =>
    (c.a = c.b => /\ c.x = X[c.a] /\ c.h = H[c.a] /\ c.m = M[c.a] /\ c.fk = gk[c.a])

---------------------------------------------------------------------------
\* Neighbours: positions p, q of the global order

Dist2(x, y) == SumSq([d \in 1..Len(x) |-> x[d] - y[d]], Len(x))
MustSee(x, h, y, g) == 4 * Dist2(x, y) <= (h + g) * (h + g)
MaySee(x, h, y, g)  == MustSee(x, h, y, g)
=============================================================================
