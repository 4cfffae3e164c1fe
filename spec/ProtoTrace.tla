---------------------------- MODULE ProtoTrace ----------------------------
(* The messages of real traversals (recorded by the simulated network) as  *)
(* steps of the protocol of GhostProtocol.tla: one action per kind of      *)
(* message, the state is what each rank asked, answered and announced.     *)
EXTENDS TraceBase
\* the message kinds of the exchange (tree_topology.h)
Req == {10, 11}
Rep == {12, 13}
Fin == 14

Ranks == 0..(st.nr - 1)
Zero(n) == [a \in 0..(n - 1) |-> [b \in 0..(n - 1) |-> 0]]
Fresh(n) == [sc |-> l, nr |-> n, in |-> [r \in 0..(n - 1) |-> FALSE], fl |-> Zero(n),
             req |-> Zero(n), seen |-> Zero(n), rep |-> Zero(n), got |-> Zero(n), fs |-> Zero(n), fg |-> Zero(n)]
Inc(f, a, b) == [f EXCEPT ![a][b] = @ + 1]
Row(f, a) == [f EXCEPT ![a] = [b \in DOMAIN f |-> 0]]
Col(f, a) == [x \in DOMAIN f |-> [f[x] EXCEPT ![a] = 0]]

Scenario == E.e = "scenario" /\ Goto(TRUE, Fresh(E.nr), l + 1)

\* a rank enters a traversal: nothing of an earlier one is on its way from it
Enter == /\ E.e = "enter"
         /\ Goto(Pre("phases alternate", ~st.in[E.r]),
                 [st EXCEPT !.in[E.r] = TRUE, !.req = Row(@, E.r), !.rep = Row(@, E.r), !.fs = Row(@, E.r),
                            !.seen = Row(@, E.r), !.got = Row(@, E.r), !.fg = Row(@, E.r)], l + 1)

Asked(r) == \E p \in Ranks : st.fs[r][p] > 0

SendReq == /\ E.e = "send" /\ E.tag \in Req
           /\ Goto(/\ Chk("C07", "a rank asks others, within a traversal", E.peer # E.r /\ st.in[E.r])
                   /\ Chk("C07", "no request follows the announcement of the end", ~Asked(E.r)),
                   [st EXCEPT !.req = IF E.tag = 10 THEN Inc(@, E.r, E.peer) ELSE @, !.fl = Inc(@, E.r, E.peer)], l + 1)
SendRep == /\ E.e = "send" /\ E.tag \in Rep
           /\ Goto(/\ Chk("C07", "an answer follows a request", st.in[E.r] /\ st.seen[E.r][E.peer] > 0),
                   [st EXCEPT !.rep = Inc(@, E.r, E.peer), !.fl = Inc(@, E.r, E.peer)], l + 1)
SendFin == /\ E.e = "send" /\ E.tag = Fin
           /\ Goto(/\ Chk("C07", "the end is announced once to each rank", st.in[E.r] /\ st.fs[E.r][E.peer] = 0)
                   /\ Chk("C07", "the end is announced when every request was answered",
                          \A p \in Ranks : st.got[E.r][p] >= st.req[E.r][p]),
                   [st EXCEPT !.fs = Inc(@, E.r, E.peer), !.fl = Inc(@, E.r, E.peer)], l + 1)
Dec(f, a, b) == [f EXCEPT ![a][b] = @ - 1]
MatchReq == /\ E.e = "match" /\ E.tag \in Req
            /\ Goto(/\ Chk("C07", "requests reach a rank before the announcement of their sender", st.in[E.r] /\ st.fg[E.r][E.peer] = 0),
                    [st EXCEPT !.seen = Inc(@, E.r, E.peer), !.fl = Dec(@, E.peer, E.r)], l + 1)
MatchRep == /\ E.e = "match" /\ E.tag \in Rep
            /\ Goto(/\ Chk("C07", "answers reach a rank within its traversal", st.in[E.r] /\ st.req[E.r][E.peer] > 0),
                    [st EXCEPT !.got = Inc(@, E.r, E.peer), !.fl = Dec(@, E.peer, E.r)], l + 1)
MatchFin == /\ E.e = "match" /\ E.tag = Fin
            /\ Goto(/\ Chk("C07", "announcements reach a rank within its traversal", st.in[E.r] /\ st.fg[E.r][E.peer] = 0),
                    [st EXCEPT !.fg = Inc(@, E.r, E.peer), !.fl = Dec(@, E.peer, E.r)], l + 1)

\* a rank leaves: all announced, everything of its own was received
Leave == /\ E.e = "leave"
         /\ Goto(/\ Chk("C07", "a rank leaves when all others announced their end",
                        st.nr = 1 \/ \A p \in Ranks \ {E.r} : st.fg[E.r][p] = 1 /\ st.fs[E.r][p] = 1)
                 /\ Chk("C07", "every request got its answer", \A p \in Ranks : st.rep[E.r][p] >= st.seen[E.r][p] /\ st.got[E.r][p] >= st.req[E.r][p])
                 /\ Chk("C07", "all messages of a rank that leaves were received", \A p \in Ranks : st.fl[E.r][p] = 0 /\ st.fl[p][E.r] = 0),
                 [st EXCEPT !.in[E.r] = FALSE], l + 1)
Finish == /\ E.e = "finish"
          /\ Goto(Chk("C07", "nobody stays in a traversal", \A r \in Ranks : ~st.in[r]), st, l + 1)

Init == l = 1 /\ st = [Fresh(1) EXCEPT !.sc = 1]
Step == Scenario \/ Enter \/ SendReq \/ SendRep \/ SendFin \/ MatchReq \/ MatchRep \/ MatchFin \/ Leave \/ Finish
Next == RunNext(Step)
Spec == Init /\ [][Next]_vars
=============================================================================
