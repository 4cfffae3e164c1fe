----------------------------- MODULE SnapModel ------------------------------
(* All histories of runs on a directory of snapshots, small.  A run resumes  *)
(* somewhere, advances, writes when it likes and ends (or dies) anywhere.    *)
(* The content of a snapshot is the list of the runs that made each of its   *)
(* iterations.  Shows that the rules keep what they are for: the snapshots   *)
(* of a prefix are always one history, and only what the resumed run makes   *)
(* anew is ever removed.                                                     *)
EXTENDS SnapRules
CONSTANTS Sep, Runs, MaxIt
Prefixes == {"a", "b"}
Starts == 0..MaxIt
VARIABLES files, run, live, out, next, resumed, it, cont, gone
vars == <<files, run, live, out, next, resumed, it, cont, gone>>
Snap(s, i, c) == [s |-> s, it |-> i, c |-> c]
Put(F, f, x) == IF f \in DOMAIN F THEN [F EXCEPT ![f].steps = Append(@, x)]
                ELSE [g \in DOMAIN F \cup {f} |-> IF g = f THEN [h5 |-> TRUE, steps |-> <<x>>] ELSE F[g]]
File(p, n) == IF Sep THEN StepFile(p, n) ELSE OneFile(p)

Init == /\ files = Put([x \in {} |-> 0], File("a", 0), Snap(0, 0, << >>))
        /\ run = 0 /\ live = FALSE /\ out = "a" /\ next = 0 /\ resumed = 0 /\ it = 0 /\ cont = << >>
        /\ gone = {}

Begin(in, o, start) ==
  /\ ~live /\ run < Runs
  /\ \E s \in Sources(files, in, start) :
     LET x == files[s[1]].steps[s[2]]
         old == Stale(files, Sep, in, o, s[3]) IN
     /\ ~Refused(files, Sep, in, o, start, s)
     /\ files' = [f \in DOMAIN files \ old |-> files[f]]
     /\ gone' = UNION {{<<f, files[f].steps[k].it>> : k \in DOMAIN files[f].steps} : f \in old}
     /\ it' = x.it /\ cont' = x.c
     /\ next' = IF in = o THEN s[3] + 1 ELSE 0
     /\ resumed' = IF in = o THEN x.it ELSE MaxIt + 1
  /\ out' = o /\ live' = TRUE /\ run' = run + 1
Advance == /\ live /\ it < MaxIt
           /\ it' = it + 1 /\ cont' = Append(cont, run)
           /\ UNCHANGED <<files, run, live, out, next, resumed, gone>>
Write == /\ live /\ it # resumed /\ next <= MaxStep
         /\ ~\E f \in DOMAIN files : f = File(out, next - 1) /\ \E k \in DOMAIN files[f].steps : files[f].steps[k].s = next - 1 /\ files[f].steps[k].it = it
         /\ files' = Put(files, File(out, next), Snap(next, it, cont))
         /\ next' = next + 1
         /\ UNCHANGED <<run, live, out, resumed, it, cont, gone>>
End == live /\ live' = FALSE /\ UNCHANGED <<files, run, out, next, resumed, it, cont, gone>>
Next == (\E i, o \in Prefixes, k \in Starts : Begin(i, o, k)) \/ Advance \/ Write \/ End
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Of(p) == {f \in DOMAIN files : f = OneFile(p) \/ \E n \in 0..MaxStep : f = StepFile(p, n)}
Snaps(p) == UNION {{files[f].steps[k] : k \in DOMAIN files[f].steps} : f \in Of(p)}
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
\* the snapshots of a prefix are numbered without gap or repetition from zero, ...
Numbered == \A p \in Prefixes : {x.s : x \in Snaps(p)} = 0..(Cardinality(Snaps(p)) - 1)
\* ... their iterations increase, and they are one history
OneHistory == \A p \in Prefixes : \A x, y \in Snaps(p) : x.s < y.s => x.it < y.it /\ IsPrefix(x.c, y.c)
\* each holds what its iteration says
Content == \A p \in Prefixes : \A x \in Snaps(p) : Len(x.c) = x.it
\* a restart removes only what lies after it, or the output of the prefix it starts anew
OnlyLater == \A g \in gone : live => (g[1] \in {OneFile(out)} \cup {StepFile(out, n) : n \in 0..MaxStep}) /\ (resumed <= MaxIt => g[2] > resumed)
\* every snapshot is found again by its iteration
Found == \A p \in Prefixes : \A x \in Snaps(p) : x.it > 0 => Cardinality(Sources(files, p, x.it)) = 1
=============================================================================
