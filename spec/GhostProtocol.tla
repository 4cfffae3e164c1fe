-------------------------- MODULE GhostProtocol --------------------------
(* The exchange of remote cells during a traversal, as a protocol between  *)
(* ranks: request, reply with nodes, reply with entities, done; synchronous *)
(* sends; a rank serves the others while it works and while it waits.      *)
(* Explored for all interleavings of small trees.  ProtoTrace.tla holds    *)
(* the message events of the real code against the same rules.             *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Shape,      \* which tree
          Fetch       \* "wait": a cell is finished when its nodes are there
                      \* "after": whole subtrees are requested, used after the end

\* Own[n]: owner of node n; Kids[n]: children nodes; Ents[n]: children entities
\* Work[r]: the cells of rank r, each with the nodes it has to open
NR == CASE Shape \in {1, 3} -> 2 [] Shape \in {2, 4} -> 3
Ranks == 0..(NR - 1)
Own  == CASE Shape = 1 -> <<0, 0, 1, 1, 1>>
          [] Shape = 2 -> <<0, 1, 2, 2>>
          [] Shape = 3 -> <<0, 0, 0, 0, 1>>
          [] Shape = 4 -> <<0, 0, 1, 2>>
Kids == CASE Shape = 1 -> <<{2}, {}, {}, {5}, {}>>
          [] Shape = 2 -> <<{}, {}, {4}, {}>>
          [] Shape = 3 -> <<{2, 3}, {4}, {}, {}, {}>>
          [] Shape = 4 -> <<{2}, {}, {}, {}>>
Ents == CASE Shape = 1 -> <<{11}, {21, 22}, {31}, {}, {51}>>
          [] Shape = 2 -> <<{11}, {21}, {}, {41}>>
          [] Shape = 3 -> <<{}, {21}, {31}, {41}, {51}>>
          [] Shape = 4 -> <<{}, {21}, {31}, {41}>>
Work == CASE Shape = 1 -> [r \in Ranks |-> IF r = 0 THEN {{3}, {3, 4, 5}} ELSE {{1}, {1, 2}}]
          [] Shape = 2 -> [r \in Ranks |-> CASE r = 0 -> {{2}, {3}} [] r = 1 -> {{1}, {3, 4}} [] r = 2 -> {{1}}]
          [] Shape = 3 -> [r \in Ranks |-> IF r = 0 THEN {{5}} ELSE {{1, 2, 3}, {1, 2, 4}}]
          [] Shape = 4 -> [r \in Ranks |-> CASE r = 0 -> {{3}} [] r = 1 -> {{1, 2}, {4}} [] r = 2 -> {{1}}]
Nodes == 1..Len(Own)
Kin(n) == Kids[n] \cup Ents[n]
Parent(x) == CHOOSE n \in Nodes : x \in Kin(n)
HasParent(x) == \E n \in Nodes : x \in Kin(n)
Top == {n \in Nodes : ~HasParent(n)}        \* known to every rank from the start
RECURSIVE Below(_)
Below(n) == UNION {{<<n, x>> : x \in Kin(n)}, UNION {Below(k) : k \in Kids[n]}}

VARIABLES pc, todo, kin, asked, net, done
vars == <<pc, todo, kin, asked, net, done>>
\* kin[r][n]: the children of n which r holds; net[s][d]: in flight, in order
Full(r, n) == Own[n] = r \/ kin[r][n] = Kin(n)
Known(r, n) == Own[n] = r \/ n \in Top \/ n \in kin[r][Parent(n)]

Init == /\ pc = [r \in Ranks |-> "work"]
        /\ todo = Work
        /\ kin = [r \in Ranks |-> [n \in Nodes |-> IF Own[n] = r THEN Kin(n) ELSE {}]]
        /\ asked = [r \in Ranks |-> {}]
        /\ net = [s \in Ranks |-> [d \in Ranks |-> << >>]]
        /\ done = [r \in Ranks |-> {}]

\* messages of r, one list per destination, appended to the channels
Post(nt, r, out) == [nt EXCEPT ![r] = [d \in Ranks |-> nt[r][d] \o out[d]]]
Drop(nt, s, d) == [nt EXCEPT ![s][d] = Tail(@)]
Nothing == [d \in Ranks |-> << >>]

\* the highest nodes the cell has to open and cannot
Front(r, c) == {n \in c : ~Full(r, n) /\ (n \in Top \/ Full(r, Parent(n)))}

Finish(r, c) == /\ pc[r] = "work" /\ c \in todo[r] /\ \A n \in c : Full(r, n)
                /\ todo' = [todo EXCEPT ![r] = @ \ {c}]
                /\ UNCHANGED <<pc, kin, asked, net, done>>

Request(r, c) ==
  /\ pc[r] = "work" /\ c \in todo[r] /\ Front(r, c) \ asked[r] # {}
  /\ LET new == Front(r, c) \ asked[r]
         of(o) == {n \in new : Own[n] = o} IN
     /\ asked' = [asked EXCEPT ![r] = @ \cup new]
     /\ net' = Post(net, r, [d \in Ranks |-> IF of(d) = {} THEN << >> ELSE <<[t |-> "req", a |-> of(d)]>>])
     /\ todo' = IF Fetch = "after" THEN [todo EXCEPT ![r] = @ \ {c}] ELSE todo
  /\ UNCHANGED <<pc, kin, done>>

Handle(r, s) ==
  /\ pc[r] \in {"work", "wait"} /\ net[s][r] # << >>
  /\ LET m == Head(net[s][r])
         nt == Drop(net, s, r) IN
     CASE m.t = "req" ->
          LET all == IF Fetch = "after" THEN UNION {Below(n) : n \in m.a} ELSE UNION {{<<n, x>> : x \in Kin(n)} : n \in m.a}
              ns == {p \in all : p[2] \in Nodes}
              es == all \ ns
              rep == (IF ns = {} THEN << >> ELSE <<[t |-> "rn", a |-> ns]>>) \o (IF es = {} THEN << >> ELSE <<[t |-> "re", a |-> es]>>) IN
          /\ net' = Post(nt, r, [Nothing EXCEPT ![s] = rep])
          /\ UNCHANGED <<pc, todo, kin, asked, done>>
       [] m.t \in {"rn", "re"} ->
          /\ kin' = [kin EXCEPT ![r] = [n \in Nodes |-> @[n] \cup {p[2] : p \in {q \in m.a : q[1] = n}}]]
          /\ net' = nt
          /\ UNCHANGED <<pc, todo, asked, done>>
       [] m.t = "done" ->
          /\ done' = [done EXCEPT ![r] = @ \cup {s}]
          /\ net' = nt
          /\ UNCHANGED <<pc, todo, kin, asked>>

Announce(r) == /\ pc[r] = "work" /\ todo[r] = {}
               /\ net' = Post(net, r, [d \in Ranks |-> <<[t |-> "done", a |-> {}]>>])
               /\ pc' = [pc EXCEPT ![r] = "wait"]
               /\ UNCHANGED <<todo, kin, asked, done>>

\* all others are done; then the own announcements have to be received
Leave(r) == /\ pc[r] = "wait" /\ done[r] = Ranks
            /\ pc' = [pc EXCEPT ![r] = "flush"] /\ UNCHANGED <<todo, kin, asked, net, done>>
Flush(r) == /\ pc[r] = "flush"
            /\ \A d \in Ranks : \A i \in 1..Len(net[r][d]) : net[r][d][i].t # "done"
            /\ pc' = [pc EXCEPT ![r] = "end"] /\ UNCHANGED <<todo, kin, asked, net, done>>

Next == \/ \E r \in Ranks : \/ \E c \in todo[r] : Finish(r, c) \/ Request(r, c)
                            \/ \E s \in Ranks : Handle(r, s)
                            \/ Announce(r) \/ Leave(r) \/ Flush(r)
        \/ (\A r \in Ranks : pc[r] = "end") /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

---------------------------------------------------------------------------
Msgs == {<<s, d, i>> : s \in Ranks, d \in Ranks, i \in 1..8}
InNet == {m \in Msgs : m[3] <= Len(net[m[1]][m[2]])}
At(m) == net[m[1]][m[2]][m[3]]
\* a request goes to the owner, which can answer it
ToOwner == \A m \in InNet : At(m).t = "req" => m[1] # m[2] /\ \A n \in At(m).a : Own[n] = m[2]
\* nothing is delivered twice, and what is delivered fits into what is there
Fresh == \A m \in InNet : At(m).t \in {"rn", "re"} =>
           \A p \in At(m).a : /\ p[2] \notin kin[m[2]][p[1]]
                              /\ \A k \in InNet : k # m /\ k[2] = m[2] /\ At(k).t \in {"rn", "re"} => p \notin At(k).a
Fits == \A m \in InNet : At(m).t = "rn" /\ m[3] = 1 =>
           \A p \in At(m).a : Known(m[2], p[1]) \/ \E q \in At(m).a : q[2] = p[1]
\* whoever left has no message of his own in flight and gets none
Clean == \A r \in Ranks : pc[r] = "end" => \A d \in Ranks : net[r][d] = << >> /\ net[d][r] = << >>
\* whoever announced his end asks and waits for nothing
Silent == \A r \in Ranks : pc[r] # "work" => \A d \in Ranks : \A i \in 1..Len(net[r][d]) : net[r][d][i].t # "req"
\* what was asked for is there at the end
Served == \A r \in Ranks : pc[r] = "end" => \A n \in asked[r] : Full(r, n)
\* the channels stay short
Short == \A s, d \in Ranks : Len(net[s][d]) <= 8
Ends == <>(\A r \in Ranks : pc[r] = "end")
=============================================================================
