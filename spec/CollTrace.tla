----------------------------- MODULE CollTrace -----------------------------
(* C20.  One step is one collective operation of all ranks: the operands   *)
(* of every rank are consumed, and every rank receives what the meaning of *)
(* the operation says.  Ranks are 1..N here; elements are integers.        *)
EXTENDS TraceBase

N == TR[st.sc].ranks
Ranks == 1..N
RECURSIVE Cat(_, _)
Cat(f, n) == IF n = 0 THEN << >> ELSE Cat(f, n - 1) \o f[n]   \* f[1] \o .. \o f[n]
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x

Scenario == E.e = "scenario" /\ l' = l + 1 /\ st' = [sc |-> l]
\* every rank receives all contributions, in the order of the ranks
Gather ==
  /\ E.e = "gather"
  /\ Goto(/\ Chk("C20", "gather delivers every element in order", \A r \in Ranks : E.recv[r] = Cat(E.send, N))
          /\ Chk("C20", "gather reports the counts", \A r \in Ranks : E.count[r] = [q \in Ranks |-> Len(E.send[q])]),
          st, l + 1)
\* send[q][r]: from q to r; received flat
Exchange ==
  /\ E.e = "exchange"
  /\ Goto(Chk("C20", "exchange delivers exactly the elements addressed to a rank, in order of the senders",
            \A r \in Ranks : E.recv[r] = Cat([q \in Ranks |-> E.send[q][r]], N)), st, l + 1)
\* received by sender
ExchangeBy ==
  /\ E.e = "exchangeby"
  /\ Goto(Chk("C20", "exchange delivers exactly the elements addressed to a rank, by sender",
            \A r \in Ranks : E.recv[r] = [q \in Ranks |-> E.send[q][r]]), st, l + 1)
\* componentwise over the ranks
Reduce ==
  /\ E.e = "reduce"
  /\ LET Col(k) == {E.send[q][k] : q \in Ranks}
         Val(k) == CASE E.op = "min" -> MinOf(Col(k))
                     [] E.op = "max" -> MaxOf(Col(k))
                     [] OTHER -> SumOf([q \in Ranks |-> E.send[q][k]])
     IN Goto(Chk("C20", "a reduction gives every rank the minimum, maximum or sum over all ranks",
               \A r \in Ranks : /\ Len(E.recv[r]) = Len(E.send[r])
                                /\ \A k \in 1..Len(E.recv[r]) : E.recv[r][k] = Val(k)), st, l + 1)
End ==
  /\ E.e = "end"
  /\ Goto(/\ Chk("C20", "the operations complete on every rank", E.outcome = "ok")
          /\ Chk("C20", "no message is left over", E.leftover = 0), st, l + 1)

Init == l = 1 /\ st = [sc |-> 1]
Step == Scenario \/ Gather \/ Exchange \/ ExchangeBy \/ Reduce \/ End
Spec == Init /\ [][RunNext(Step)]_vars
=============================================================================
