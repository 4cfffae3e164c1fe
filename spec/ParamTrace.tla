---------------------------- MODULE ParamTrace ----------------------------
(* C16.  Reading a parameter file: the lines of the file are consumed one  *)
(* by one; each line is a comment, an assignment of a value of the type of *)
(* the parameter, or an error, which stops the run.  Afterwards every rank *)
(* has the assigned values, and the defaults for everything else.          *)
(* Characters are one-character strings, except TAB, CR, DQ (").           *)
EXTENDS TraceBase

Blank   == {" ", "TAB", "CR"}
Quotes  == {"DQ", "'"}
Digits  == {"0","1","2","3","4","5","6","7","8","9"}
DigVal  == [d \in Digits |-> CHOOSE v \in 0..9 : ToString(v) = d]
Upper   == << "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z" >>
LowerS  == << "a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z" >>
LowMap  == [c \in SeqRange(Upper) |-> LowerS[CHOOSE i \in 1..26 : Upper[i] = c]]
Low(c)  == IF c \in DOMAIN LowMap THEN LowMap[c] ELSE c
Under(c) == IF c = " " THEN "_" ELSE Low(c)

RECURSIVE Join(_)
Join(s) == IF s = << >> THEN "" ELSE Head(s) \o Join(Tail(s))
Map(Op(_), s) == [i \in DOMAIN s |-> Op(s[i])]
\* first index >= i of s whose character is in C (Len(s)+1: none), and not in C
RECURSIVE FirstIn(_, _, _)
FirstIn(s, i, C) == IF i > Len(s) \/ s[i] \in C THEN i ELSE FirstIn(s, i + 1, C)
RECURSIVE FirstOut(_, _, _)
FirstOut(s, i, C) == IF i > Len(s) \/ s[i] \notin C THEN i ELSE FirstOut(s, i + 1, C)
RECURSIVE LastOut(_, _, _)
LastOut(s, i, C) == IF i = 0 \/ s[i] \notin C THEN i ELSE LastOut(s, i - 1, C)
Trim(s) == SubSeq(s, FirstOut(s, 1, Blank), LastOut(s, Len(s), Blank))

Bad == [k |-> "bad"]
----------------------------------------------------------------------------
\* the text of a value: quoted, or up to a comment
ValueText(s) ==
  IF s = << >> THEN Bad
  ELSE IF s[1] \in Quotes
  THEN LET q == FirstIn(s, 2, {s[1]}) IN
       IF q > Len(s) THEN Bad
       ELSE LET r == Trim(SubSeq(s, q + 1, Len(s))) IN
            IF r # << >> /\ r[1] # "#" THEN Bad ELSE [k |-> "text", s |-> SubSeq(s, 2, q - 1)]
  ELSE LET t == Trim(SubSeq(s, 1, FirstIn(s, 1, {"#"}) - 1)) IN
       IF t = << >> THEN Bad ELSE [k |-> "text", s |-> t]

\* a line: nothing, an error, or [n: name, s: text]
Line(s) ==
  LET f == FirstOut(s, 1, Blank) IN
  IF f > Len(s) \/ s[f] = "#" THEN [k |-> "none"]
  ELSE LET e == FirstIn(s, 1, {"="}) IN
       IF e > Len(s) THEN Bad
       ELSE LET n == Trim(SubSeq(s, 1, e - 1))
                v == ValueText(Trim(SubSeq(s, e + 1, Len(s))))
            IN IF n = << >> \/ v = Bad THEN Bad ELSE [k |-> "assign", n |-> Join(n), s |-> v.s]
----------------------------------------------------------------------------
\* numbers in normal form: sign, digits without outer zeros, power of ten
Normal(neg, digits, ex) ==
  LET a == FirstOut(digits, 1, {"0"})
      b == LastOut(digits, Len(digits), {"0"})
  IN IF a > Len(digits) THEN [neg |-> FALSE, d |-> << >>, x |-> 0]
     ELSE [neg |-> neg, d |-> SubSeq(digits, a, b), x |-> ex + Len(digits) - b]
RECURSIVE IntVal(_, _)
IntVal(s, n) == IF n = 0 THEN 0 ELSE 10 * IntVal(s, n - 1) + DigVal[s[n]]
Signed(s) == s # << >> /\ s[1] \in {"+", "-"}

IntMax == [int |-> << "2","1","4","7","4","8","3","6","4","7" >>,
           int64 |-> << "9","2","2","3","3","7","2","0","3","6","8","5","4","7","7","5","8","0","7" >>,
           ushort |-> << "6","5","5","3","5" >>]
\* digit strings without leading zeros
RECURSIVE DigLex(_, _, _)
DigLex(a, b, i) == \/ i > Len(a)
                   \/ DigVal[a[i]] < DigVal[b[i]]
                   \/ (a[i] = b[i] /\ DigLex(a, b, i + 1))
DigLeq(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ DigLex(a, b, 1))

ReadInt(s, type) ==
  LET neg == s # << >> /\ s[1] = "-"
      i0 == IF Signed(s) THEN 2 ELSE 1
      j  == FirstOut(s, i0, Digits)
      d  == SubSeq(s, i0, j - 1)
      v  == SubSeq(d, FirstOut(d, 1, {"0"}), Len(d))
  IN IF j = i0 \/ j <= Len(s) THEN Bad
     ELSE IF (type = "ushort" /\ neg) \/ ~DigLeq(v, IntMax[type]) THEN Bad
     ELSE [k |-> "num", v |-> Normal(neg, d, 0)]

ReadReal(s) ==
  LET neg == s # << >> /\ s[1] = "-"
      i0 == IF Signed(s) THEN 2 ELSE 1
      j1 == FirstOut(s, i0, Digits)
      point == j1 <= Len(s) /\ s[j1] = "."
      j2 == IF point THEN FirstOut(s, j1 + 1, Digits) ELSE j1
      ip == SubSeq(s, i0, j1 - 1)
      fp == IF point THEN SubSeq(s, j1 + 1, j2 - 1) ELSE << >>
      rest == SubSeq(s, j2, Len(s))
      ex  == Tail(rest)
      exd == IF Signed(ex) THEN Tail(ex) ELSE ex
      exv == IntVal(exd, Len(exd))
  IN IF ip \o fp = << >> THEN Bad
     ELSE IF rest = << >> THEN [k |-> "num", v |-> Normal(neg, ip \o fp, 0 - Len(fp))]
     ELSE IF rest[1] \notin {"e", "E"} \/ exd = << >> \/ FirstOut(exd, 1, Digits) <= Len(exd) THEN Bad
     ELSE [k |-> "num", v |-> Normal(neg, ip \o fp, (IF ex[1] = "-" THEN 0 - exv ELSE exv) - Len(fp))]

ReadBool(s) ==
  LET w == Join(Map(Low, s)) IN
  IF w \in {"yes", "true"} THEN [k |-> "bool", v |-> TRUE]
  ELSE IF w \in {"no", "false"} THEN [k |-> "bool", v |-> FALSE] ELSE Bad

Keyword == [
  sph_kernel |-> [cubic_spline |-> "cubic_spline", quintic_spline |-> "quintic_spline", wendland_c2 |-> "wendland_c2",
                  wendland_c4 |-> "wendland_c4", wendland_c6 |-> "wendland_c6", gaussian |-> "gaussian",
                  super_gaussian |-> "super_gaussian", sinc_ker |-> "sinc_ker"],
  eos_type |-> [ideal_fluid |-> "eos_ideal", polytropic |-> "eos_polytropic", wd |-> "eos_wd", white_dwarf |-> "eos_wd",
                ppt |-> "eos_ppt", piecewise_polytropic |-> "eos_ppt", no_eos |-> "eos_no_eos", none |-> "eos_no_eos"],
  sph_viscosity |-> [constant |-> "visc_constant", cullen |-> "visc_cullen"]]
ReadWord(s, name) ==
  LET w == Join(Map(Under, s)) IN
  IF w \in DOMAIN Keyword[name] THEN [k |-> "word", v |-> Keyword[name][w]] ELSE Bad

Read(s, name, type) ==
  CASE type = "bool"   -> ReadBool(s)
    [] type = "double" -> ReadReal(s)
    [] type = "string" -> IF Len(s) > 510 THEN Bad ELSE [k |-> "string", v |-> s]
    [] type = "word"   -> ReadWord(s, name)
    [] OTHER           -> ReadInt(s, type)
----------------------------------------------------------------------------
Types == [n \in {TR[st.sc].types[i].n : i \in DOMAIN TR[st.sc].types} |->
            TR[st.sc].types[CHOOSE i \in DOMAIN TR[st.sc].types : TR[st.sc].types[i].n = n].t]
NoMap == [n \in {} |-> 0]

Scenario == /\ E.e = "scenario" /\ l' = l + 1
            /\ st' = [sc |-> l, mode |-> IF E.exists THEN "reading" ELSE "stopped", set |-> NoMap]
\* the reader stops at the first bad line
ReadLine ==
  /\ E.e = "line"
  /\ IF st.mode # "reading" THEN Goto(TRUE, st, l + 1)
     ELSE \E L \in {TLCEval(Line(E.c))} :
          IF L.k = "none" THEN Goto(TRUE, st, l + 1)
          ELSE IF L.k = "bad" \/ L.n \notin DOMAIN Types THEN Goto(TRUE, [st EXCEPT !.mode = "stopped"], l + 1)
          ELSE \E v \in {TLCEval(Read(L.s, L.n, Types[L.n]))} :
               IF v = Bad THEN Goto(TRUE, [st EXCEPT !.mode = "stopped"], l + 1)
               ELSE Goto(TRUE, [st EXCEPT !.set = (L.n :> v.v) @@ st.set], l + 1)
End ==
  /\ E.e = "end"
  /\ Goto(/\ Chk("C16", "a file without error is read to the end on every rank", st.mode = "reading" => E.outcome = "ok")
          /\ Chk("C16", "an unknown parameter or malformed value stops the run", st.mode = "stopped" => E.outcome = "stop"),
          st, l + 1)
Rank ==
  /\ E.e = "rank"
  /\ \E now \in {TLCEval([n \in {E.v[i].n : i \in DOMAIN E.v} |-> E.v[CHOOSE i \in DOMAIN E.v : E.v[i].n = n].v])} :
     Goto(/\ Chk("C16", "assigned parameters have the value written", \A n \in DOMAIN st.set : n \in DOMAIN now /\ now[n] = st.set[n])
          /\ Chk("C16", "parameters not mentioned keep their default", SeqRange(E.changed) \subseteq DOMAIN st.set),
          st, l + 1)

Init == l = 1 /\ st = [sc |-> 1, mode |-> "reading", set |-> NoMap]
Step == Scenario \/ ReadLine \/ End \/ Rank
Spec == Init /\ [][RunNext(Step)]_vars
=============================================================================
