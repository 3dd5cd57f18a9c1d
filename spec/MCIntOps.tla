------------------------------- MODULE MCIntOps -------------------------------
(***************************************************************************)
(* Enumerates every operator site (operator, operand types) of C's integer  *)
(* expressions and tabulates its defined results over boundary operands.    *)
(* One state per site; the action Tabulate evaluates it and writes the      *)
(* table out for the conformance replay.                                    *)
(***************************************************************************)
EXTENDS CInt, Json, IOUtils

Extra == JsonDeserialize(IOEnv.VF_EXTRA)       \* further 64-bit patterns chosen by the seed
Base == <<W0, FromInt(1), FromInt(-1), FromInt(2), FromInt(3), FromInt(7), FromInt(8), FromInt(31), FromInt(32), FromInt(63),
          FromInt(100), FromInt(-5), FromInt(255), FromInt(128), FromInt(-128), FromInt(-129), FromInt(32768), FromInt(-32769), FromInt(65535), FromInt(65536),
          <<0, 32768, 0, 0>>, <<65535, 65535, 0, 0>>, <<0, 0, 1, 0>>, <<4660, 22136, 39612, 57072>>,
          <<0, 32768, 65535, 65535>>, <<65535, 32767, 0, 0>>, <<0, 0, 0, 32768>>, <<65535, 65535, 65535, 32767>> >> \o Extra
Dedup(s) == FoldLeft(LAMBDA acc, x: IF \E k \in 1..Len(acc) : acc[k] = x THEN acc ELSE Append(acc, x), <<>>, s)
ValTab == [t \in IntTypes |-> Dedup([k \in 1..Len(Base) |-> Norm(t, Base[k])])]

Vals(t) == ValTab[t]
Map(f(_), s) == [k \in 1..Len(s) |-> f(s[k])]
R(d) == IF d.def THEN d.v ELSE <<>>
BinTable(op, t1, t2) ==
  [kind |-> "bin", op |-> op, t1 |-> t1, t2 |-> t2, rt |-> ResultType(op, t1, t2), a |-> Vals(t1), b |-> Vals(t2),
   r |-> Map(LAMBDA x: Map(LAMBDA y: R(BinOp(op, t1, x, t2, y)), Vals(t2)), Vals(t1))]
UnTable(op, t1) ==
  [kind |-> "un", op |-> op, t1 |-> t1, t2 |-> "", rt |-> UnResultType(op, t1), a |-> Vals(t1), b |-> <<>>,
   r |-> Map(LAMBDA x: R(UnOp(op, t1, x)), Vals(t1))]
CastTable(t1, t2) ==
  [kind |-> "cast", op |-> "cast", t1 |-> t1, t2 |-> t2, rt |-> t2, a |-> Vals(t1), b |-> <<>>,
   r |-> Map(LAMBDA x: Norm(t2, x), Vals(t1))]
\* lvalue op= rhs: the operation in the usual type, converted back to the lvalue's type
CompTable(op, t1, t2) ==
  [kind |-> "comp", op |-> op, t1 |-> t1, t2 |-> t2, rt |-> t1, a |-> Vals(t1), b |-> Vals(t2),
   r |-> Map(LAMBDA x: Map(LAMBDA y: LET d == BinOp(op, t1, x, t2, y) IN IF d.def THEN Norm(t1, d.v) ELSE <<>>, Vals(t2)), Vals(t1))]
IncTable(op, t1) ==
  [kind |-> "inc", op |-> op, t1 |-> t1, t2 |-> "", rt |-> t1, a |-> Vals(t1), b |-> <<>>,
   r |-> Map(LAMBDA x: LET d == BinOp(IF op = "++" THEN "+" ELSE "-", t1, x, "i", FromInt(1)) IN IF d.def THEN Norm(t1, d.v) ELSE <<>>, Vals(t1))]

VARIABLES n, done
vars == <<n, done>>
Sites == {<<"bin", op, t1, t2>> : op \in BinOps \cup LogOps, t1 \in IntTypes, t2 \in IntTypes}
         \cup {<<"un", op, t1, "">> : op \in UnOps, t1 \in IntTypes}
         \cup {<<"cast", "cast", t1, t2>> : t1 \in IntTypes, t2 \in IntTypes}
         \cup {<<"comp", op, t1, t2>> : op \in ArithOps \cup ShiftOps, t1 \in IntTypes, t2 \in IntTypes}
         \cup {<<"inc", op, t1, "">> : op \in {"++", "--"}, t1 \in IntTypes}
SiteSeq == SetToSeq(Sites)
Init == n \in 1..Len(SiteSeq) /\ done = FALSE
Table(s) == CASE s[1] = "bin" -> BinTable(s[2], s[3], s[4])
              [] s[1] = "un" -> UnTable(s[2], s[3])
              [] s[1] = "cast" -> CastTable(s[3], s[4])
              [] s[1] = "comp" -> CompTable(s[2], s[3], s[4])
              [] s[1] = "inc" -> IncTable(s[2], s[3])
\* every defined result is a value of the result type
WellTyped(tab) == IF tab.b = <<>> THEN \A k \in DOMAIN tab.r : tab.r[k] = <<>> \/ Fits(tab.rt, tab.r[k])
                  ELSE \A k \in DOMAIN tab.r : \A j \in DOMAIN tab.r[k] : tab.r[k][j] = <<>> \/ Fits(tab.rt, tab.r[k][j])
Tabulate == /\ ~done
            /\ LET site == SiteSeq[n]
                   tab == Table(site)
               IN /\ Assert(WellTyped(tab), <<"ill-typed result", site>>)
                                         /\ JsonSerialize(IOEnv.VF_OUT \o "/" \o ToString(n), tab)
            /\ done' = TRUE
            /\ UNCHANGED n
Next == Tabulate
Spec == Init /\ [][Next]_vars
=============================================================================
