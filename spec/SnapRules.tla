----------------------------- MODULE SnapRules ------------------------------
(* The rules of the snapshot directory: names of the files, where a run     *)
(* finds its particles, what it removes and when it refuses to start.  Used  *)
(* by SnapModel.tla (all histories, small) and SnapTrace.tla (real runs).   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANT MaxStep
Pad(n) == LET s == ToString(n) IN SubSeq("00000", 1, 5 - Len(s)) \o s
OneFile(p)     == p \o ".h5part"
StepFile(p, n) == p \o "_" \o Pad(n) \o ".h5part"

KnownIn(F, f) == f \in DOMAIN F /\ F[f].h5
\* where a run finds its particles: {<<file, index of the step, step number>>}
Sources(F, in, start) ==
  LET one == OneFile(in)
      at(f, n) == {k \in DOMAIN F[f].steps : F[f].steps[k].s = n}
  IN IF KnownIn(F, one)
     THEN LET K == IF start = 0 THEN at(one, 0)
                   ELSE {k \in DOMAIN F[one].steps : F[one].steps[k].it = start}
              low == {k \in K : \A j \in K : k <= j}
          IN {<<one, k, F[one].steps[k].s>> : k \in low}
     ELSE LET D == {n \in (IF start = 0 THEN {0} ELSE 0..MaxStep) :
                      KnownIn(F, StepFile(in, n)) /\ \E k \in at(StepFile(in, n), n) :
                        start = 0 \/ F[StepFile(in, n)].steps[k].it = start}
          IN {<<StepFile(in, n), CHOOSE k \in at(StepFile(in, n), n) : TRUE, n>> : n \in D}

\* what is removed when a run starts
Stale(F, sep, in, out, n) ==
  IF ~sep THEN IF in = out THEN {} ELSE {OneFile(out)} \cap DOMAIN F
  ELSE {StepFile(out, k) : k \in (IF in = out THEN n + 1 ELSE 0)..MaxStep} \cap DOMAIN F
Refused(F, sep, in, out, start, src) ==
  in = out /\ IF sep THEN start = 0
              ELSE \E k \in DOMAIN F[src[1]].steps : F[src[1]].steps[k].s > src[3]

=============================================================================
