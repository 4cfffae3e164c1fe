----------------------------- MODULE TraceBase -----------------------------
(* Common part of the trace specifications.  A trace is a sequence of      *)
(* scenarios; a line is one step of the real code.  The step is allowed    *)
(* only if the guards of its action hold; a scenario with a refused step   *)
(* is reported (REJECT) and skipped.                                       *)
EXTENDS Keys, TLC, Json, IOUtils

CONSTANT Props          \* the properties whose guards are active

TR == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, st         \* the next line; the abstract state (st.sc: line of the scenario)
vars == <<l, st>>
E  == TR[l]
Sc == TR[st.sc]
Here == IF E.e = "scenario" THEN E ELSE Sc     \* the scenario of this line

\* the step is taken if ok, otherwise the scenario is reported and skipped
Goto(ok, s, n) ==
  IF ok THEN l' = n /\ st' = s
  ELSE /\ PrintT(<<"SKIP", Here.name, l>>)
       /\ l' = Here.nx
       /\ st' = st
Chk(prop, name, cond) ==
  prop \in Props =>
    (cond \/ (PrintT(<<"REJECT", prop, name, Here.name, l, E.e>>) /\ FALSE))
\* needed by every property
Pre(name, cond) ==
  cond \/ (PrintT(<<"REJECT", "PRE", name, Here.name, l, E.e>>) /\ FALSE)

SeqRange(s) == {s[i] : i \in DOMAIN s}
NoDup(s)    == Cardinality(SeqRange(s)) = Len(s)
RECURSIVE SumSeq(_, _)
SumSeq(s, n) == IF n = 0 THEN 0 ELSE SumSeq(s, n - 1) + s[n]
SumOf(s) == SumSeq(s, Len(s))

RunNext(Step) ==
  \/ l <= Len(TR) /\ Step
  \/ /\ l = Len(TR) + 1
     /\ PrintT(<<"END", l>>)
     /\ l' = l + 1
     /\ UNCHANGED st
View == l
=============================================================================
