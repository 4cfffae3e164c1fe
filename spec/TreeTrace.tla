----------------------------- MODULE TreeTrace -----------------------------
(* Validates runs of the real body_system / tree_topology, recorded by     *)
(* harness/tree.cc on simulated ranks, against the system's specification. *)
(*                                                                         *)
(* The abstract state is the one of SphSystem: the particles (id, owner,   *)
(* position, smoothing length, mass, version), their global key order, the *)
(* phase of the iteration, and the set of particles already visited in the *)
(* current pass.  Each line of the trace is one step (or, for the lines    *)
(* all ranks write at a barrier, one step per group), allowed only if its  *)
(* guards hold.  A scenario with a refused step is reported and skipped.   *)
EXTENDS TreeDefs, TLC, Json, IOUtils

CONSTANT Props          \* the properties whose guards are active

TR == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, st
vars == <<l, st>>

E == TR[l]
Sc == TR[st.sc]
NR == Sc.nr

\* the step is taken if ok, otherwise the scenario is reported and skipped
Goto(ok, s, n) ==
  IF ok THEN l' = n /\ st' = s
  ELSE /\ PrintT(<<"SKIP", TR[st.sc].name, l>>)
       /\ l' = TR[st.sc].nx
       /\ st' = st
Dim == Sc.dim

Chk(prop, name, cond) ==
  prop \in Props =>
    (cond \/ (PrintT(<<"REJECT", prop, name, TR[st.sc].name, l, E.e>>) /\ FALSE))
\* needed by every property
Pre(name, cond) ==
  cond \/ (PrintT(<<"REJECT", "PRE", name, TR[st.sc].name, l, E.e>>) /\ FALSE)

\* the lines of the current group, one per rank
Grp == TLCEval([r \in 0..(NR - 1) |->
          TR[CHOOSE j \in l..(l + NR - 1) : TR[j].r = r]])
Ranks == 0..(NR - 1)

RECURSIVE CatField(_, _, _)
\* concatenation over the ranks of a field of the group's lines
CatField(g, r, f) == IF r < 0 THEN << >> ELSE CatField(g, r - 1, f) \o g[r][f]

Index(s) == TLCEval([v \in SeqRange(s) |-> CHOOSE i \in 1..Len(s) : s[i] = v])

---------------------------------------------------------------------------
Scenario ==
  /\ E.e = "scenario"
  /\ st' = [st EXCEPT !.sc = l, !.it = 0]
  /\ l' = l + 1

\* before an iteration starts: what every rank holds
DoInit ==
  /\ E.e = "init"
  /\ \E g \in {Grp} :
     \E ids \in {TLCEval(CatField(g, NR - 1, "ids"))} :
     \E xs \in {TLCEval(CatField(g, NR - 1, "x"))} :
     \E hs \in {TLCEval(CatField(g, NR - 1, "h"))} :
     \E ms \in {TLCEval(CatField(g, NR - 1, "m"))} :
     \E vs \in {TLCEval(CatField(g, NR - 1, "ver"))} :
     \E ix \in {Index(ids)} :
     Goto(Pre("initial particles", SeqRange(ids) = 1..Sc.n /\ Len(ids) = Sc.n),
             [st EXCEPT
              !.it = E.it,
              !.P = TLCEval([i \in 1..Sc.n |-> [x |-> xs[ix[i]], h |-> hs[ix[i]], m |-> ms[ix[i]], v |-> vs[ix[i]]]]),
              !.cnt = [r \in Ranks |-> Len(g[r].ids)]],
             l + NR)

Attr(id, j) == IF j = 28 THEN (IF id % 3 = 0 THEN 1 ELSE 0)
               ELSE IF j = 29 THEN id % 4
               ELSE id * 64 + (j - 1)

\* update_iteration: the sorted redistribution
DoSorted ==
  /\ E.e = "sorted"
  /\ \E g \in {Grp} :
     \E gid \in {TLCEval(CatField(g, NR - 1, "ids"))} :
     \E gk \in {TLCEval(CatField(g, NR - 1, "keys"))} :
     \E xs \in {TLCEval(CatField(g, NR - 1, "x"))} :
     \E hs \in {TLCEval(CatField(g, NR - 1, "h"))} :
     \E ms \in {TLCEval(CatField(g, NR - 1, "m"))} :
     \E vs \in {TLCEval(CatField(g, NR - 1, "ver"))} :
     \E at \in {TLCEval(CatField(g, NR - 1, "at"))} :
     \E n \in {Len(gid)} :
     \E depth \in {CASE Dim = 1 -> 24 [] Dim = 2 -> 31 [] Dim = 3 -> 21} :
     \E P \in {st.P} :
     LET ok ==
        /\ Pre("no particle lost or duplicated", n = Sc.n /\ SeqRange(gid) = 1..Sc.n)
        /\ Pre("keys globally sorted", \A i \in 1..(n - 1) : LexLeq(gk[i], gk[i + 1]))
        /\ Pre("keys distinct", \A i \in 1..(n - 1) : gk[i] # gk[i + 1])
        /\ Chk("C02", "sorted by key, id", SortedBy(gk, gid))
        /\ Chk("C02", "particles balanced over the ranks",
               \A r \in Ranks : Len(g[r].ids) \in {Sc.n \div NR, (Sc.n + NR - 1) \div NR})
        /\ Chk("C02", "attributes kept",
               /\ \A i \in 1..n : /\ xs[i] = P[gid[i]].x /\ hs[i] = P[gid[i]].h
                                  /\ ms[i] = P[gid[i]].m /\ vs[i] = P[gid[i]].v
               /\ Len(at) \in {0, n}
               /\ \A i \in 1..Len(at) : /\ Len(at[i]) = 29
                                        /\ \A j \in 1..29 : at[i][j] = Attr(gid[i], j))
        /\ Chk("C02", "one range on all ranks, containing every particle",
               /\ \A r \in Ranks : g[r].lo = g[0].lo /\ g[r].hi = g[0].hi
               /\ \A i \in 1..n : Covers(g[0].lo, g[0].hi, P[gid[i]].x, P[gid[i]].h))
        /\ Chk("C02", "keys are those of the current positions",
               \A i \in 1..n :
                 LET k == MortonKey(P[gid[i]].x, g[0].lo, g[0].hi, depth)
                 IN /\ Len(gk[i]) = (IF Dim = 1 THEN 63 ELSE depth)
                    /\ SubSeq(gk[i], 1, depth) = k)
        /\ Chk("C06", "reported number of owned particles",
               \A r \in Ranks : g[r].nloc = Len(g[r].ids) /\ g[r].ntot = Sc.n)
     IN Goto(ok,
             [st EXCEPT
              !.gid = gid, !.gk = gk,
              !.loc = TLCEval([i \in 1..Sc.n |-> CHOOSE r \in Ranks : i \in SeqRange(g[r].ids)]),
              !.vis = {}, !.done = {}, !.acc = << >>, !.exp = << >>],
             l + NR)

RECURSIVE Pref(_, _, _)
Pref(f(_), n, acc) == IF n = Len(acc) - 1 THEN acc ELSE Pref(f, n, Append(acc, acc[Len(acc)] + f(Len(acc))))
RECURSIVE PrefV(_, _, _)
PrefV(f(_), n, acc) ==
  IF n = Len(acc) - 1 THEN acc
  ELSE LET t == acc[Len(acc)] v == f(Len(acc)) IN
       PrefV(f, n, Append(acc, TLCEval([d \in 1..Len(v) |-> t[d] + v[d]])))

\* all ranks dump their tree
DoTree ==
  /\ E.e \in {"tree", "tree2"}
  /\ \E g \in {Grp} :
     \E N \in {Sc.n} :
     \E gk \in {st.gk} :
     \E gid \in {st.gid} :
     \E X \in {TLCEval([p \in 1..N |-> st.P[gid[p]].x])} :
     \E H \in {TLCEval([p \in 1..N |-> st.P[gid[p]].h])} :
     \E M \in {TLCEval([p \in 1..N |-> st.P[gid[p]].m])} :
     \E pm \in {TLCEval(Pref(LAMBDA p : M[p], N, <<0>>))} :
     \E ps \in {TLCEval(PrefV(LAMBDA p : TLCEval([d \in 1..Dim |-> M[p] * X[p][d]]), N, <<[d \in 1..Dim |-> 0]>>))} :
     LET ok ==
        \A r \in Ranks :
        LET cs == g[r].cells IN
        /\ Pre("cells located", \A i \in 1..Len(cs) : IntervalOK(cs[i].k, cs[i].a, cs[i].b, gk))
        /\ Chk("C03", "cell keys distinct", OrderedCells(cs))
        /\ Chk("C03", "no orphan cell", Len(cs) > 0 /\ ParentsOK(cs))
        /\ Chk("C03", "child marks match cells", ChildrenOK(cs))
        /\ Chk("C03", "terminal cells partition the particles", PartitionOK(cs, N))
        /\ Chk("C03", "leaves hold the right particle", \A i \in 1..Len(cs) : LeafOK(cs[i], gid, st.loc))
        /\ Chk("C03", "nodes hold at least two particles", N > 1 => \A i \in 1..Len(cs) : NodeOK(cs[i]))
        /\ Chk("C03", "own particles in local leaves", OwnLeaves(cs, r, gid, st.loc))
        /\ Chk("C03", "remote nodes labelled with a rank that has contents",
               \A i \in 1..Len(cs) : TerminalOK(cs[i], r, gid, st.loc))
        /\ Chk("C03", "recorded owner has the cell",
               \A i \in 1..Len(cs) :
                 LET c == cs[i] IN
                 c.own # r =>
                   /\ c.own \in Ranks
                   /\ LET oc == g[c.own].cells IN
                      /\ c.sv \in 1..Len(oc)
                      /\ oc[c.sv].k = c.k
                      /\ oc[c.sv].t = c.t
                      /\ (Terminal(c) /\ c.t = "node" => ~Terminal(oc[c.sv])))
        /\ Chk("C04", "particle count", \A i \in 1..Len(cs) : CountOK(cs[i]))
        /\ Chk("C04", "mass", \A i \in 1..Len(cs) : MassOK(cs[i], pm))
        /\ Chk("C04", "centre of mass", \A i \in 1..Len(cs) : CenterOK(cs[i], ps))
        /\ Chk("C04", "extent contains the particles with half their smoothing length",
               \A i \in 1..Len(cs) : ExtentOK(cs[i], X, H))
        /\ Chk("C04", "radius bounds the distances", \A i \in 1..Len(cs) : RadiusOK(cs[i], X))
        /\ Chk("C08", "copies hold the owner's values",
               \A i \in 1..Len(cs) : EntValuesOK(cs[i], gid, gk, X, H, M))
     IN Goto(ok, st, l + NR)

\* one particle processed in a smoothing-length loop
DoVisit ==
  /\ E.e = "visit"
  /\ LET nb == E.nb
         N  == Sc.n
         me == E.id
         P  == st.P
         known == \A i \in 1..Len(nb) : nb[i] \in 1..N
         ok ==
        /\ Chk("C06", "visited on its owner", me \in 1..N /\ st.loc[me] = E.r)
        /\ Chk("C06", "visited once", me \notin st.vis)
        /\ Chk("C05", "neighbours are particles", me \in 1..N /\ known)
        /\ Chk("C05", "no neighbour twice", NoDup(nb))
        /\ (me \in 1..N /\ known) =>
           /\ Chk("C05", "every interacting particle found",
                  LET s == SeqRange(nb) IN
                  \A q \in 1..N : (q \notin s) => ~MustSee(P[me].x, P[me].h, P[q].x, P[q].h))
           /\ Chk("C05", "no particle beyond the mean smoothing length",
                  \A i \in 1..Len(nb) : MaySee(P[me].x, P[me].h, P[nb[i]].x, P[nb[i]].h))
           /\ Chk("C08", "neighbour values are those of the latest refresh",
                  \A i \in 1..Len(nb) :
                    LET q == P[nb[i]] IN
                    /\ E.ver[i] = q.v
                    /\ E.nx[i] = q.x[1] + (IF Dim > 1 THEN 1024 * q.x[2] ELSE 0)
                                        + (IF Dim > 2 THEN 1048576 * q.x[3] ELSE 0)
                    /\ E.nh[i] = 1000 * q.h + q.m)
     IN Goto(ok, [st EXCEPT !.vis = @ \cup {E.id}], l + 1)

---------------------------------------------------------------------------
\* Gravity.  acc[i]: the particles accounted for so far for particle i in
\* this pass; exp[r]: the cells whose expansion rank r still has to pass on.

Acc(s) == IF s.acc = << >> THEN [i \in 1..Sc.n |-> {}] ELSE s.acc
Exp(s) == IF s.exp = << >> THEN [r \in Ranks |-> {}] ELSE s.exp
Ids(a, b) == {st.gid[p] : p \in a..b}
\* sinks of a cell on rank r
Own(a, b, r) == {i \in Ids(a, b) : st.loc[i] = r}

Account(r, sinks, srcs, exps) ==
  [st EXCEPT
     !.acc = LET a == Acc(st) IN TLCEval([i \in 1..Sc.n |-> IF i \in sinks THEN a[i] \cup srcs ELSE a[i]]),
     !.exp = LET x == Exp(st) IN TLCEval([q \in Ranks |-> IF q = r THEN x[q] \cup exps ELSE x[q]])]
Fresh(sinks, srcs) == \A i \in sinks : i \notin srcs /\ Acc(st)[i] \cap srcs = {}

\* a cell acts on a cell, or a particle on a cell
DoC2C ==
  /\ E.e \in {"c2c", "p2c"}
  /\ \E sinks \in {TLCEval(Own(E.ka, E.kb, E.r))} :
     \E srcs \in {IF E.e = "c2c" THEN TLCEval(Ids(E.qa, E.qb)) ELSE {E.id}} :
     Goto(/\ Pre("cells located", /\ IntervalOK(E.k, E.ka, E.kb, st.gk)
                                  /\ (E.e = "c2c" => IntervalOK(E.q, E.qa, E.qb, st.gk)))
          /\ Chk("C09", "sources are particles", srcs \subseteq 1..Sc.n)
          /\ Chk("C09", "pair accounted for once", Fresh(sinks, srcs))
          /\ Chk("C09", "accepted by the criterion", E.rr * 100 < Sc.mac * E.dd),
          Account(E.r, sinks, srcs, {E.k}),
          l + 1)

\* particles or a cell act on particles
DoP2P ==
  /\ E.e = "p2p"
  /\ \E sinks \in {SeqRange(E.ids)} :
     \E nbs \in {SeqRange(E.nb)} :
     \E cel \in {IF E.q = << >> THEN {} ELSE TLCEval(Ids(E.qa, E.qb))} :
     LET known == sinks \cup nbs \subseteq 1..Sc.n
         ok ==
          /\ Pre("cells located", E.q # << >> => IntervalOK(E.q[1], E.qa, E.qb, st.gk))
          /\ Chk("C06", "gravity on own particles", known /\ \A i \in sinks : st.loc[i] = E.r)
          /\ Chk("C09", "sources are particles", known)
          /\ Chk("C09", "no particle twice", NoDup(E.ids) /\ NoDup(E.nb))
          /\ known =>
             /\ Chk("C09", "pair accounted for once",
                    /\ cel \cap nbs = {}
                    /\ Fresh(sinks, cel)
                    /\ \A i \in sinks : Acc(st)[i] \cap (nbs \ {i}) = {})
             /\ Chk("C09", "accepted by the criterion", E.q # << >> => E.rr * 100 < Sc.mac * E.dd)
     IN Goto(ok,
             [st EXCEPT !.acc = LET a == Acc(st) IN
                TLCEval([i \in 1..Sc.n |-> IF i \in sinks THEN a[i] \cup cel \cup (nbs \ {i}) ELSE a[i]])],
             l + 1)

\* the expansion of a cell is passed on to the particles below it
DoC2P ==
  /\ E.e = "c2p"
  /\ LET ok ==
          /\ Pre("cells located", IntervalOK(E.k, E.ka, E.kb, st.gk))
          /\ Chk("C06", "gravity on own particles",
                 \A i \in SeqRange(E.ids) : i \in 1..Sc.n /\ st.loc[i] = E.r)
          /\ Chk("C09", "expansion passed on once", E.k \in Exp(st)[E.r])
          /\ Chk("C09", "to exactly the particles below the cell",
                 NoDup(E.ids) /\ SeqRange(E.ids) = Own(E.ka, E.kb, E.r))
     IN Goto(ok, [st EXCEPT !.exp = [q \in Ranks |-> IF q = E.r THEN Exp(st)[q] \ {E.k} ELSE Exp(st)[q]]], l + 1)

DoFmmDone ==
  /\ E.e = "fmmdone"
  /\ Goto(/\ Pre("one end of pass per rank", E.r \notin st.done)
          /\ Chk("C09", "every pair accounted for",
                 \A i \in 1..Sc.n : st.loc[i] = E.r => Acc(st)[i] = (1..Sc.n) \ {i})
          /\ Chk("C09", "every expansion passed on", Exp(st)[E.r] = {}),
          IF Cardinality(st.done) = NR - 1
          THEN [st EXCEPT !.done = {}, !.acc = << >>, !.exp = << >>]
          ELSE [st EXCEPT !.done = @ \cup {E.r}],
          l + 1)

---------------------------------------------------------------------------
DoSphDone ==
  /\ E.e = "sphdone"
  /\ Goto(/\ Pre("one end of pass per rank", E.r \notin st.done)
          /\ Chk("C06", "every own particle visited",
                 \A i \in 1..Sc.n : st.loc[i] = E.r => i \in st.vis),
          IF Cardinality(st.done) = NR - 1
          THEN [st EXCEPT !.done = {}, !.vis = {}]
          ELSE [st EXCEPT !.done = @ \cup {E.r}],
          l + 1)

\* loop over all own particles
DoAll ==
  /\ E.e = "all"
  /\ \E g \in {Grp} :
     LET ok == \A r \in Ranks :
       /\ Chk("C06", "loop over all particles: each own particle once",
              /\ NoDup(g[r].ids)
              /\ SeqRange(g[r].ids) = {i \in 1..Sc.n : st.loc[i] = r})
       /\ Chk("C06", "reported number is the number processed",
              g[r].nloc = Len(g[r].ids) /\ g[r].nb = Len(g[r].ids))
     IN Goto(ok, st, l + NR)

\* owners change values of their particles (version + 1)
DoUpd ==
  /\ E.e = "upd"
  /\ \E g \in {Grp} :
     \E ids \in {TLCEval(CatField(g, NR - 1, "ids"))} :
     \E hs \in {TLCEval(CatField(g, NR - 1, "h"))} :
     \E ms \in {TLCEval(CatField(g, NR - 1, "m"))} :
     \E ix \in {Index(ids)} :
     Goto(Pre("update covers all particles", SeqRange(ids) = 1..Sc.n /\ Len(ids) = Sc.n),
             [st EXCEPT !.P = TLCEval([i \in 1..Sc.n |->
                    [x |-> st.P[i].x, h |-> hs[ix[i]], m |-> ms[ix[i]], v |-> st.P[i].v + 1]])],
             l + NR)

\* a refresh leaves the owners' particles alone
DoReset ==
  /\ E.e = "reset"
  /\ \E g \in {Grp} :
     LET ok == \A r \in Ranks :
       LET ids == g[r].ids IN
       /\ Chk("C08", "refresh keeps own particles",
              /\ Len(ids) = Cardinality({i \in 1..Sc.n : st.loc[i] = r})
              /\ \A j \in 1..Len(ids) :
                   LET p == st.P[ids[j]] IN
                   /\ ids[j] \in 1..Sc.n /\ st.loc[ids[j]] = r
                   /\ g[r].h[j] = p.h /\ g[r].m[j] = p.m /\ g[r].ver[j] = p.v /\ g[r].x[j] = p.x)
       /\ Chk("C06", "refresh keeps own particles",
              Len(ids) = Cardinality({i \in 1..Sc.n : st.loc[i] = r}))
     IN Goto(ok, st, l + NR)

DoFinish ==
  /\ E.e = "finish"
  /\ Goto(/\ Pre("the run completes", E.ok)
          /\ Chk("C07", "no message left behind", E.left = 0),
          st, l + 1)

---------------------------------------------------------------------------
Init == /\ l = 1
        /\ st = [sc |-> 1, it |-> 0, P |-> << >>, cnt |-> << >>, gid |-> << >>, gk |-> << >>,
                 loc |-> << >>, vis |-> {}, done |-> {}, acc |-> << >>, exp |-> << >>]

Step == \/ Scenario \/ DoInit \/ DoSorted \/ DoTree \/ DoVisit \/ DoSphDone
        \/ DoAll \/ DoC2C \/ DoP2P \/ DoC2P \/ DoFmmDone \/ DoUpd \/ DoReset \/ DoFinish

Next ==
  \/ l <= Len(TR) /\ Step
  \/ /\ l = Len(TR) + 1
     /\ PrintT(<<"END", l>>)
     /\ l' = l + 1
     /\ UNCHANGED st

Spec == Init /\ [][Next]_vars
View == l
=============================================================================
