------------------------------- MODULE MCFloat ------------------------------
(* Straight-line programs over variables of the integer and floating types: one statement per step.
   A statement whose evaluation C leaves undefined (overflow, division by zero, conversions out of range) has
   no effect and is reported, so that the replayed program leaves it out.                          *)
EXTENDS CFloat, Json, IOUtils, FiniteSets
Cases == TLCEval(JsonDeserialize(IOEnv.VF_PROGS))
IsF(t) == t \in FltTypes
PromF(t) == IF IsF(t) THEN t ELSE Promote(t)
UsualF(a, b) == IF IsF(a) \/ IsF(b)
                THEN (IF ~IsF(a) THEN b ELSE IF ~IsF(b) THEN a ELSE IF FRank(a) >= FRank(b) THEN a ELSE b)
                ELSE Usual(a, b)
\* values: [d: defined, t, v, x: no rounding took place on the way]
Val(t, v, x) == [d |-> TRUE, t |-> t, v |-> v, x |-> x]
Bad(t) == [d |-> FALSE, t |-> t, v |-> W0, x |-> TRUE]
OfDef(t, r, x) == IF r.def THEN Val(t, Norm(t, r.v), x) ELSE Bad(t)
To(t, a) == IF ~a.d THEN Bad(t)
            ELSE IF IsF(t) THEN (LET r == IF IsF(a.t) THEN FCvt(t, a.v) ELSE FFromInt(t, a.t, a.v) IN Val(t, r.v, a.x /\ r.exact))
            ELSE IF IsF(a.t) THEN OfDef(t, FToInt(t, a.v), a.x)
            ELSE Val(t, Norm(t, a.v), a.x)
True(a) == IF IsF(a.t) THEN FTrue(a.v) ELSE ~WIsZero(a.v)
Bit1(b, x) == Val("i", Bool(b), x)
RECURSIVE TypeOf(_, _), Ev(_, _)
TypeOf(e, env) ==
  CASE e.k \in {"num", "fnum", "bits"} -> e.t
    [] e.k = "var" -> env[e.n].t
    [] e.k = "cast" -> e.t
    [] e.k = "un" -> IF e.op = "!" THEN "i" ELSE PromF(TypeOf(e.a, env))
    [] e.k = "bin" -> IF e.op \in RelOps \cup LogOps THEN "i" ELSE IF e.op \in ShiftOps THEN PromF(TypeOf(e.a, env)) ELSE UsualF(TypeOf(e.a, env), TypeOf(e.b, env))
    [] e.k = "cond" -> UsualF(TypeOf(e.a, env), TypeOf(e.b, env))
Arith(op, a0, b0) ==
  IF ~a0.d \/ ~b0.d THEN Bad(IF op \in RelOps THEN "i" ELSE UsualF(a0.t, b0.t))
  ELSE IF ~IsF(a0.t) /\ ~IsF(b0.t)
       THEN OfDef(IF op \in RelOps THEN "i" ELSE IF op \in ShiftOps THEN Promote(a0.t) ELSE Usual(a0.t, b0.t), BinOp(op, a0.t, a0.v, b0.t, b0.v), a0.x /\ b0.x)
  ELSE LET t == UsualF(a0.t, b0.t)
           a == To(t, a0)
           b == To(t, b0)
       IN IF op \in RelOps THEN Bit1(FRel(op, a.v, b.v), a.x /\ b.x)
          ELSE LET r == FArith(op, t, a.v, b.v) IN Val(t, r.v, a.x /\ b.x /\ r.exact)
Digits10(dg) == NTrim(FoldLeft(LAMBDA a, c: NAdd(NMulLimb(a, 10), NNat(c)), <<>>, dg))
Ev(e, env) ==
  CASE e.k = "num" -> Val(e.t, e.v, TRUE)
    [] e.k = "fnum" -> (LET r == FOfDec(e.t, Digits10(e.dg), e.e10) IN Val(e.t, r.v, r.exact))
    [] e.k = "bits" -> Val(e.t, FOfBits(e.t, NTrim(e.v)), TRUE)
    [] e.k = "var" -> env[e.n]
    [] e.k = "cast" -> To(e.t, Ev(e.a, env))
    [] e.k = "un" -> (LET a == Ev(e.a, env)
                      IN IF ~a.d THEN Bad(TypeOf(e, env))
                         ELSE IF e.op = "!" THEN Bit1(~True(a), a.x)
                         ELSE IF IsF(a.t) THEN Val(a.t, IF e.op = "-" THEN FNeg(a.v) ELSE a.v, a.x)
                         ELSE OfDef(Promote(a.t), UnOp(e.op, a.t, a.v), a.x))
    [] e.k = "bin" /\ e.op = "&&" -> (LET a == Ev(e.a, env) IN IF ~a.d THEN Bad("i") ELSE IF ~True(a) THEN Bit1(FALSE, a.x) ELSE LET b == Ev(e.b, env) IN IF b.d THEN Bit1(True(b), a.x /\ b.x) ELSE Bad("i"))
    [] e.k = "bin" /\ e.op = "||" -> (LET a == Ev(e.a, env) IN IF ~a.d THEN Bad("i") ELSE IF True(a) THEN Bit1(TRUE, a.x) ELSE LET b == Ev(e.b, env) IN IF b.d THEN Bit1(True(b), a.x /\ b.x) ELSE Bad("i"))
    [] e.k = "bin" -> Arith(e.op, Ev(e.a, env), Ev(e.b, env))
    [] e.k = "cond" -> (LET c == Ev(e.c, env)
                            r == IF True(c) THEN Ev(e.a, env) ELSE Ev(e.b, env)
                        IN IF ~c.d \/ ~r.d THEN Bad(TypeOf(e, env)) ELSE [To(TypeOf(e, env), r) EXCEPT !.x = @ /\ c.x])
\* products of a constant zero and something else that are not +0: known not to be right, the compiler's own
\* tests ask for 0 (known_findings.txt); the replayed programs leave them out, except for one that shows it
RECURSIVE Fixed(_)
Fixed(e) == CASE e.k = "var" -> FALSE [] e.k \in {"num", "fnum", "bits"} -> TRUE [] e.k \in {"cast", "un"} -> Fixed(e.a)
              [] e.k = "bin" -> e.op \in LogOps \/ (Fixed(e.a) /\ Fixed(e.b)) [] e.k = "cond" -> TRUE
TimesZero(a, b, fa, fb) == LET r == Arith("*", a, b)
                               zero(v) == v.d /\ ~True(v)
                           IN r.d /\ IsF(r.t) /\ r.v # Zero(0) /\ ((fa /\ zero(a)) \/ (fb /\ zero(b)))
RECURSIVE HasTZ(_, _)
HasTZ(e, env) ==
  CASE e.k \in {"num", "fnum", "bits", "var"} -> FALSE
    [] e.k \in {"cast", "un"} -> HasTZ(e.a, env)
    [] e.k = "bin" -> HasTZ(e.a, env) \/ HasTZ(e.b, env) \/ (e.op = "*" /\ TimesZero(Ev(e.a, env), Ev(e.b, env), Fixed(e.a), Fixed(e.b)))
    [] e.k = "cond" -> HasTZ(e.a, env) \/ HasTZ(e.b, env) \/ HasTZ(e.c, env)
One == Val("i", <<1, 0, 0, 0>>, TRUE)
\* the observation of a value: words of integers, bits of floating values
Obs(id, a) == [id |-> id, t |-> a.t, x |-> a.x, nan |-> IsF(a.t) /\ a.v.c = "nan", n |-> IF IsF(a.t) THEN FBits(a.t, a.v) ELSE a.v]
VARIABLES case, act
\* one statement: [env, out, skip]
Exec(st, s) ==
  LET e == st.env
      skip == [st EXCEPT !.skip = Append(@, st.pc)]
      put(n, v) == [st EXCEPT !.env[n] = v]
  IN CASE ~st.zt /\ s.k # "inc" /\ (HasTZ(s.e, e) \/ (s.k = "set" /\ s.op = "*" /\ TimesZero(e[s.n], Ev(s.e, e), FALSE, Fixed(s.e)))) -> skip
       [] s.k = "set" -> (LET old == e[s.n]
                              r == Ev(s.e, e)
                              v == To(old.t, IF s.op = "" THEN r ELSE Arith(s.op, old, r))
                          IN IF v.d THEN put(s.n, v) ELSE skip)
       [] s.k = "inc" -> (LET old == e[s.n]
                              v == To(old.t, Arith(s.op, old, One))
                          IN IF ~v.d THEN skip
                             ELSE IF s.id = 0 THEN put(s.n, v) ELSE [put(s.n, v) EXCEPT !.out = Append(@, Obs(s.id, IF s.pre THEN v ELSE old))])
       [] s.k = "obs" -> (LET v == Ev(s.e, e) IN IF v.d THEN [st EXCEPT !.out = Append(@, Obs(s.id, v))] ELSE skip)
       [] s.k = "if" -> (LET v == Ev(s.e, e) IN IF v.d THEN [st EXCEPT !.out = Append(@, Obs(s.id, Bit1(True(v), v.x)))] ELSE skip)

vars == <<case, act>>
Nothing == [none |-> TRUE]
Init == case \in 1..Len(Cases) /\ act = Nothing
Begin == /\ "none" \in DOMAIN act
         /\ act' = [env |-> [n \in DOMAIN Cases[case].vars |-> LET d == Cases[case].vars[n] IN To(d.t, Ev(d.e, <<>>))], body |-> Cases[case].body, zt |-> Cases[case].zt, pc |-> 1, out |-> <<>>, skip |-> <<>>, end |-> FALSE]
         /\ UNCHANGED case
Run == "none" \notin DOMAIN act /\ ~act.end /\ act.pc <= Len(act.body) /\ act' = [Exec(act, act.body[act.pc]) EXCEPT !.pc = @ + 1] /\ UNCHANGED case
Finish == /\ "none" \notin DOMAIN act /\ ~act.end /\ act.pc > Len(act.body)
          /\ JsonSerialize(IOEnv.VF_OUT \o "/" \o ToString(case), [out |-> act.out, skip |-> act.skip])
          /\ act' = [act EXCEPT !.end = TRUE, !.body = <<>>, !.out = <<>>] /\ UNCHANGED case
Next == Begin \/ Run \/ Finish
Spec == Init /\ [][Next]_vars
\* every variable holds a value of its type: in range, and unchanged by its own representation
Loaded == "none" \notin DOMAIN act
Typed == Loaded => \A n \in DOMAIN act.env : LET a == act.env[n] IN
           IF IsF(a.t) THEN (a.v.c # "nan" => FCmp(FOfBits(a.t, FBits(a.t, a.v)), a.v) = 0 /\ FCvt(a.t, a.v).exact) ELSE Fits(a.t, a.v)
=============================================================================
