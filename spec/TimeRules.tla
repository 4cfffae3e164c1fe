----------------------------- MODULE TimeRules -----------------------------
(* The rules of time control: output times, the interval the unrestricted   *)
(* step may lie in, the step actually taken.  Shared by the model, which     *)
(* explores every behaviour they allow, and by the trace specification.      *)
EXTENDS Integers, Sequences
VARIABLE conf      \* configuration: tol, base, ch (interval of each channel), adaptive, dt0, fi, ft

Lesser(a, b)  == IF a < b THEN a ELSE b
Greater(a, b) == IF a > b THEN a ELSE b

Tol   == conf.tol
ByTime(c) == conf.ch[c].dt > 0
Chans == 1..3
SeqMin(s) == LET RECURSIVE F(_, _)
                 F(i, m) == IF i > Len(s) THEN m ELSE F(i + 1, IF s[i] < m THEN s[i] ELSE m)
             IN F(2, s[1])

\* first output time after t
NextOut(c, t) ==
  LET d == conf.ch[c].dt
      k == (t + Tol - conf.base) \div d
  IN  conf.base + (k + 1) * d

\* nearest output time; no channel by time: none
Gap(s) ==
  LET g == {s.nxt[c] - s.t : c \in {c \in Chans : ByTime(c)}}
  IN  IF g = {} THEN 2000000000 ELSE CHOOSE x \in g : \A y \in g : x <= y

\* the unrestricted step after the limits of one iteration
RECURSIVE Limits(_, _, _)
Limits(I, ls, i) ==
  IF i > Len(ls) THEN I
  ELSE LET L  == SeqMin(ls[i])
           lo == IF L >= I.hi THEN I.lo
                 ELSE IF L < I.lo THEN L \div 2
                 ELSE Lesser(I.lo, L \div 2)
       IN  Limits([lo |-> lo, hi |-> Lesser(L, 2 * I.hi)], ls, i + 1)

\* the interval after a step of length d
After(s, d) ==
  LET g == Gap(s)
  IN  IF ~conf.adaptive THEN [lo |-> s.lo, hi |-> s.hi]
      ELSE IF d < g - Tol THEN [lo |-> d, hi |-> d]
      ELSE [lo |-> Lesser(Greater(s.lo, d), s.hi), hi |-> s.hi]

\* which steps may be taken
PassesOutput(s, d) == d > Gap(s) + Tol
BeyondLimit(s, d)  == d > s.hi + Tol
TooShort(s, d)     == d < Gap(s) - Tol /\ d < s.lo - Tol

More(s) == /\ ~(conf.fi > 0 /\ s.it > conf.fi)
           /\ ~(conf.ft > 0 /\ s.t > conf.ft + Tol)
Stop(s) == \/ conf.fi > 0 /\ s.it > conf.fi
           \/ conf.ft > 0 /\ s.t > conf.ft - Tol
=============================================================================
