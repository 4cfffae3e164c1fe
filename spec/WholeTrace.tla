----------------------------- MODULE WholeTrace -----------------------------
(* Chains of runs of the program: one run from the initial data to the end  *)
(* (the reference), and the same simulation in several runs, each resumed   *)
(* from a snapshot of the one before, on other numbers of processes.        *)
(* State: the iterations the snapshots of each directory hold.  A snapshot  *)
(* line gives, field by field, the changes since the resumed snapshot in    *)
(* both runs; the step is so short that what the scheme itself may do       *)
(* differently after a restart is far below the tolerance.                  *)
EXTENDS TraceBase

Near(a, b, tol) == Abs(a - b) <= tol
\* multiples of every up to n
Due(n) == [i \in 1..(n \div Sc.every + 1) |-> (i - 1) * Sc.every]

Run ==
  LET old == st.have[E.who]
      ok == /\ Chk("C31", "a run fails", E.ok)
            /\ Pre("resumed where nothing was written", E.start = 0 \/ \E i \in DOMAIN old : old[i] = E.start)
            /\ Chk("C31", "the files do not hold every snapshot up to the end of the run exactly once", E.its = Due(E.stop))
            /\ Chk("C31", "time of a snapshot is not its number of steps", \A i \in DOMAIN E.its : Near(E.t[i], E.its[i] * 4096, Sc.ttol))
            /\ Chk("C31", "time step is not the prescribed one", \A i \in DOMAIN E.its : Near(E.dt[i], 4096, Sc.ttol))
  IN Goto(ok, [st EXCEPT !.have[E.who] = E.its, !.start = E.start, !.stop = E.stop], l + 1)

Snap ==
  LET ok == /\ Pre("snapshot outside of the run", st.start <= E.it /\ E.it <= st.stop)
            /\ Chk("C31", "particles are lost, duplicated or renamed over a restart", E.same)
            /\ Chk("C31", "state after a restart is not that of the uninterrupted run",
                   \A f \in DOMAIN E.a : \A i \in DOMAIN E.a[f] : Near(E.a[f][i], E.b[f][i], Sc.tol))
  IN Goto(ok, st, l + 1)

Tot ==
  LET ok == Chk("C31", "totals after a restart are not those of the uninterrupted run", \A i \in DOMAIN E.a : Near(E.a[i], E.b[i], 20))
  IN Goto(ok, st, l + 1)

Begin == Goto(TRUE, [sc |-> l, have |-> [ref |-> <<>>, chain |-> <<>>], start |-> 0, stop |-> 0], l + 1)
End == Goto(Chk("C31", "the chain ends early", \A w \in {"ref", "chain"} : st.have[w] = Due(Sc.n)), st, l + 1)

Init == l = 1 /\ st = [sc |-> 1]
Step == \/ E.e = "scenario" /\ Begin
        \/ E.e = "run"  /\ Run
        \/ E.e = "snap" /\ Snap
        \/ E.e = "tot"  /\ Tot
        \/ E.e = "end"  /\ End
Spec == Init /\ [][RunNext(Step)]_vars
=============================================================================
