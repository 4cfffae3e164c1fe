----------------------------- MODULE TimeModel ------------------------------
(* Every run the rules of time control allow, small: any limits, any choice  *)
(* of step within the rules, any pair of output intervals.  Shows that the   *)
(* rules give what is asked for: no output time is skipped, none is taken    *)
(* twice or in the wrong order, the run ends, and a step cut short for an    *)
(* output leaves no trace in the steps that follow.                          *)
EXTENDS TimeRules, FiniteSets
CONSTANTS MaxL, MaxT, MaxD
VARIABLES s, fired, free
vars == <<conf, s, fired, free>>

Configs == [tol : {0}, base : {0, 1}, adaptive : {TRUE}, dt0 : 1..MaxD, fi : {0, 5}, ft : {0, MaxT - 3},
            ch : [Chans -> [dt : 0..3]]]
S0(c) == [t |-> c.base, it |-> 0, lo |-> c.dt0, hi |-> c.dt0, lim |-> MaxL,
          nxt |-> [k \in Chans |-> c.base + c.ch[k].dt]]
Init == /\ conf \in {c \in Configs : c.fi + c.ft > 0 /\ c.ch[3].dt = 0 /\ c.ch[1].dt <= c.ch[2].dt}
        /\ s = S0(conf)
        /\ fired = [k \in Chans |-> IF conf.ch[k].dt > 0 THEN <<conf.base>> ELSE << >>]
        /\ free = conf.dt0          \* the step a run without outputs could take at least

\* the limits are evaluated, then a step is taken, then the due channels record
Step ==
  /\ ~Stop(s) /\ s.t < MaxT + 3
  /\ \E L \in 1..MaxL :
     LET I == Limits([lo |-> s.lo, hi |-> s.hi], <<<<L>>>>, 1)
         u == [s EXCEPT !.lo = I.lo, !.hi = I.hi, !.lim = L] IN
     \E d \in 1..MaxL :
       /\ ~PassesOutput(u, d) /\ ~BeyondLimit(u, d) /\ ~TooShort(u, d)
       /\ LET A == After(u, d) t1 == s.t + d
              due == {k \in Chans : ByTime(k) /\ t1 >= s.nxt[k]} IN
          /\ s' = [t |-> t1, it |-> s.it + 1, lo |-> A.lo, hi |-> A.hi, lim |-> L,
                   nxt |-> [k \in Chans |-> IF k \in due THEN NextOut(k, t1) ELSE s.nxt[k]]]
          /\ fired' = [k \in Chans |-> IF k \in due THEN Append(fired[k], t1) ELSE fired[k]]
          /\ free' = Lesser(L, IF d < Gap(u) THEN d ELSE Greater(free, d))
  /\ UNCHANGED conf
Next == Step
Spec == Init /\ [][Next]_vars

\* every requested output time is taken exactly, in order, none skipped
Outputs == \A k \in Chans : ByTime(k) =>
  /\ Len(fired[k]) = (s.t - conf.base) \div conf.ch[k].dt + 1
  /\ \A i \in DOMAIN fired[k] : fired[k][i] = conf.base + (i - 1) * conf.ch[k].dt
\* the next output time lies ahead
Ahead == \A k \in Chans : ByTime(k) => s.nxt[k] > s.t /\ s.nxt[k] <= s.t + conf.ch[k].dt
\* the interval of the next step: within the last limit
Within == s.lo <= s.hi /\ s.hi <= Greater(s.lim, conf.dt0)
\* a run is never stuck: some step is always possible until it ends
Alive == Stop(s) \/ s.t >= MaxT + 3 \/ ENABLED Step
Grow == [][s'.t - s.t <= 2 * s.hi]_vars
Inv == Outputs /\ Ahead /\ Within
=============================================================================
