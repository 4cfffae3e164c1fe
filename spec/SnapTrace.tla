----------------------------- MODULE SnapTrace ------------------------------
(* C14, C15.  Snapshots and restarts.  The state is the directory the        *)
(* program works in: file name -> its steps -> header and particles, plus    *)
(* foreign files; and what one run of the program remembers: the number of   *)
(* the next snapshot and the iteration it resumed from.  Every run is a      *)
(* sequence of Read and Write; when it has ended the real directory, read    *)
(* by an independent program, must be the one of the specification.          *)
(* A particle is the row <<id, type, state, x, v, m, rho, h, P, u, dt, ...>>; *)
(* real numbers appear as their bits.                                        *)
EXTENDS TraceBase, SnapRules

Restrict(f, S) == [x \in S |-> f[x]]
Restored(r) == SubSeq(r, 1, 11)
Rows(q) == {q[i] : i \in DOMAIN q}
Flat(s) == LET F[i \in 0..Len(s)] == IF i = 0 THEN <<>> ELSE F[i - 1] \o s[i] IN F[Len(s)]
Known(f) == KnownIn(st.files, f)

Scenario ==
  /\ E.e = "scenario"
  /\ l' = l + 1
  /\ st' = [sc |-> l, files |-> [x \in {} |-> 0], old |-> [x \in {} |-> 0], np |-> 0, sep |-> FALSE,
            next |-> 0, resumed |-> -1, live |-> FALSE, expect |-> TRUE]

\* files of others which stand around
Foreign ==
  /\ E.e = "foreign"
  /\ l' = l + 1
  /\ st' = [st EXCEPT !.files = [x \in DOMAIN @ \cup {E.file} |-> IF x = E.file THEN [h5 |-> FALSE, size |-> E.size] ELSE @[x]]]

\* a dataset is taken out of a snapshot by hand
Strip ==
  /\ E.e = "strip"
  /\ Goto(Pre("step to strip", Known(E.file) /\ E.name = "id"),
     [st EXCEPT !.files[E.file].steps = [i \in DOMAIN @ |->
        IF @[i].s # E.s THEN @[i]
        ELSE [@[i] EXCEPT !.p = [k \in DOMAIN @ |-> [@[k] EXCEPT ![1] = "none"]]]]], l + 1)

\* the program starts
Session ==
  /\ E.e = "session"
  /\ l' = l + 1
  /\ st' = [st EXCEPT !.np = E.np, !.sep = (E.sep = 1), !.next = 0, !.resumed = -1, !.live = TRUE, !.expect = TRUE, !.old = st.files]

SameParticles(rows, p) ==
  LET a == TLCEval(Rows(rows)) b == TLCEval({Restored(p[i]) : i \in DOMAIN p})
  IN IF \E i \in DOMAIN p : p[i][1] = "none"
     THEN /\ Cardinality({r[1] : r \in a}) = Len(rows)
          /\ {SubSeq(r, 2, 11) : r \in a} = {SubSeq(r, 2, 11) : r \in b}
     ELSE a = b

\* the program refuses to start (or must do so): nothing is touched
Read ==
  /\ E.e = "read"
  /\ \E S \in {Sources(st.files, E.in, E.start)} :
     \E good \in {{s \in S : ~Refused(st.files, st.sep, E.in, E.out, E.start, s)}} :
     IF ~E.ok
     THEN Goto(
            /\ Pre("program runs", st.live)
            /\ Chk("C14", "a snapshot that is there is read", good = {})
            /\ Chk("C15", "resumes from an iteration that is there", good = {}),
            [st EXCEPT !.live = FALSE, !.expect = FALSE], l + 1)
     ELSE IF good = {}
     THEN Goto(
            /\ Chk("C15", IF S = {} THEN "stops when there is no such iteration" ELSE "stops when output would be overwritten", FALSE)
            /\ Pre("impossible start", FALSE), st, l + 1)
     ELSE \E s \in good :
          \E step \in {st.files[s[1]].steps[s[2]]} :
          \E rows \in {TLCEval(Flat(E.p))} :
          \E n \in {Len(step.p)} :
          \E same \in {E.in = E.out} :
          Goto(
            /\ Pre("program runs", st.live)
            /\ Chk("C14", "number of particles", Len(rows) = n)
            /\ Chk("C14", "particles as written", SameParticles(rows, step.p))
            /\ Chk("C14", "balanced", \A r \in DOMAIN E.p : Len(E.p[r]) \in {n \div st.np, (n + st.np - 1) \div st.np})
            /\ Chk("C14", "reported numbers", \A r \in DOMAIN E.p : E.nloc[r] = Len(E.p[r]) /\ E.ntot[r] = n)
            /\ Chk("C14", "time and time step of the snapshot",
                   E.start # 0 => \A r \in DOMAIN E.p : E.t[r] = step.t /\ E.dt[r] = step.dt)
            /\ Chk("C15", "the particles of the iteration asked for", SameParticles(rows, step.p))
            /\ Chk("C15", "the time of the iteration asked for", E.start # 0 => \A r \in DOMAIN E.p : E.t[r] = step.t),
            [st EXCEPT !.files = Restrict(@, DOMAIN @ \ Stale(st.files, st.sep, E.in, E.out, s[3])),
                       !.next = IF same THEN s[3] + 1 ELSE 0,
                       !.resumed = IF same THEN E.start ELSE -1], l + 1)

\* a snapshot is written, unless it is the one the run resumed from
Write ==
  /\ E.e = "write"
  /\ \E rows \in {TLCEval(Flat(E.p))} :
     \E f \in {IF st.sep THEN StepFile(E.prefix, st.next) ELSE OneFile(E.prefix)} :
     \E new \in {[s |-> st.next, t |-> E.t, it |-> E.it, dt |-> E.dt, p |-> rows]} :
     Goto(
       /\ Pre("program runs", st.live)
       /\ (~E.ok => /\ Chk("C14", "snapshot is written", FALSE)
                    /\ Chk("C15", "snapshot is written", FALSE)
                    /\ Pre("run died", FALSE))
       /\ Pre("file of another kind", f \in DOMAIN st.files => Known(f) /\ ~st.sep),
       IF E.it = st.resumed THEN st
       ELSE [st EXCEPT !.next = @ + 1,
               !.files = [x \in DOMAIN @ \cup {f} |->
                  IF x # f THEN @[x]
                  ELSE IF f \in DOMAIN @ THEN [@[f] EXCEPT !.steps = Append(@, new)]
                  ELSE [h5 |-> TRUE, dim |-> Sc.dim, steps |-> <<new>>]]], l + 1)

\* the program has ended
End ==
  /\ E.e = "end"
  /\ Goto(
       /\ Chk("C14", "run ends well", ~E.hang /\ (st.expect => E.ok))
       /\ Chk("C15", IF st.expect THEN "run ends well" ELSE "run ends with an error", ~E.hang /\ E.ok = st.expect),
       [st EXCEPT !.live = FALSE], l + 1)

\* the directory afterwards
Header(s) == <<s.s, s.it, s.t, s.dt>>
Headers(f) == {Header(f.steps[k]) : k \in DOMAIN f.steps}
Step(f, n) == LET k == CHOOSE k \in DOMAIN f.steps : f.steps[k].s = n IN f.steps[k]
SameStep(a, b) == Header(a) = Header(b) /\ Len(a.p) = Len(b.p) /\ Rows(a.p) = Rows(b.p)
Files ==
  /\ E.e = "files"
  /\ \E now \in {[x \in {E.files[i].file : i \in DOMAIN E.files} |->
                   LET i == CHOOSE i \in DOMAIN E.files : E.files[i].file = x IN E.files[i]]} :
     LET Both == {f \in DOMAIN now \cap DOMAIN st.files : Known(f)}
         Was(f, n) == f \in DOMAIN st.old /\ st.old[f].h5 /\ \E k \in DOMAIN st.old[f].steps : st.old[f].steps[k].s = n
         Have(f, n) == \E k \in DOMAIN now[f].steps : now[f].steps[k].s = n
     IN Goto(
       /\ Chk("C15", "no file is lost", DOMAIN st.files \subseteq DOMAIN now)
       /\ Chk("C15", "no file is left over or misplaced", DOMAIN now \subseteq DOMAIN st.files)
       /\ Chk("C15", "foreign files are untouched",
              \A f \in DOMAIN now \cap DOMAIN st.files : ~Known(f) => ~now[f].h5 /\ now[f].size = st.files[f].size)
       /\ Chk("C15", "numbers and iterations of the snapshots", \A f \in Both : now[f].h5 /\ Headers(now[f]) = Headers(st.files[f]))
       /\ Chk("C15", "earlier snapshots are unaltered", \A f \in Both : \A k \in DOMAIN st.files[f].steps :
              LET s == st.files[f].steps[k] IN Was(f, s.s) => now[f].h5 /\ Have(f, s.s) /\ SameStep(Step(now[f], s.s), s))
       /\ Chk("C14", "snapshots are in the file", DOMAIN st.files \subseteq DOMAIN now /\ \A f \in Both : now[f].h5 /\ \A k \in DOMAIN st.files[f].steps : Have(f, st.files[f].steps[k].s))
       /\ Chk("C14", "dimension", \A f \in Both : now[f].dim = st.files[f].dim)
       /\ Chk("C14", "snapshot holds the particles written", \A f \in Both : \A k \in DOMAIN st.files[f].steps :
              LET s == st.files[f].steps[k] IN SameStep(Step(now[f], s.s), s)),
       st, l + 1)

Init == l = 1 /\ st = [sc |-> 1]
Next == RunNext(Scenario \/ Foreign \/ Strip \/ Session \/ Read \/ Write \/ End \/ Files)
Spec == Init /\ [][Next]_vars
=============================================================================
