----------------------------- MODULE HashTrace -----------------------------
(* C23.  The cell table is a partial map from keys to values (0: absent)    *)
(* and the number of insertions since the last clear.                        *)
EXTENDS TraceBase

Scenario ==
  /\ E.e = "scenario" /\ l' = l + 1
  /\ st' = [sc |-> l, mem |-> [k \in 1..E.n |-> 0], size |-> IF "base" \in DOMAIN E THEN E.base ELSE -1]

\* scenarios that reuse a table begin with a clear; a new table is empty
Size == IF st.size = -1 THEN 0 ELSE st.size
SizeOk(n) == Chk("C23", "size is the number of insertions since the last clear", E.size = n)

Insert == /\ E.e = "insert"
          /\ Goto(/\ Pre("new key", st.mem[E.k] = 0)
                  /\ SizeOk(Size + 1),
                  [st EXCEPT !.mem[E.k] = E.v, !.size = Size + 1], l + 1)
Update == /\ E.e = "update"
          /\ Goto(/\ Pre("stored key", st.mem[E.k] # 0)
                  /\ SizeOk(Size),
                  [st EXCEPT !.mem[E.k] = E.v], l + 1)
Find   == /\ E.e = "find"
          /\ Goto(/\ Chk("C23", "look-up yields the last value stored", E.r = st.mem[E.k])
                  /\ SizeOk(Size), st, l + 1)
Lost   == /\ E.e = "lost"
          /\ Goto(Chk("C23", "a stored key is found", FALSE), st, l + 1)
Clear  == /\ E.e = "clear"
          /\ Goto(SizeOk(0), [st EXCEPT !.mem = [k \in DOMAIN st.mem |-> 0], !.size = 0], l + 1)
Probe  == /\ E.e = "probe"
          /\ Goto(/\ Chk("C23", "the table holds exactly the stored keys", \A k \in DOMAIN st.mem : E.r[k] = st.mem[k])
                  /\ SizeOk(Size), st, l + 1)

Init == l = 1 /\ st = [sc |-> 1, mem |-> << >>, size |-> 0]
Step == Scenario \/ Insert \/ Update \/ Find \/ Lost \/ Clear \/ Probe
Spec == Init /\ [][RunNext(Step)]_vars
=============================================================================
