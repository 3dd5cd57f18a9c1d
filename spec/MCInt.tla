-------------------------------- MODULE MCInt --------------------------------
(* Sanity theorems of CInt, checked exhaustively over boundary values.      *)
EXTENDS CInt, FiniteSets
Vals(t) == {Norm(t, w) : w \in {W0, FromInt(1), FromInt(2), FromInt(3), FromInt(7), FromInt(100), FromInt(255), FromInt(256),
             FromInt(-1), FromInt(-2), FromInt(-7), FromInt(65537), FromInt(-65536), <<4660, 22136, 39612, 57072>>, MinVal(t), MaxVal(t),
             WSub(MaxVal(t), FromInt(1)), WAdd(MinVal(t), FromInt(1)), <<0, 0, 1, 0>>, <<65535, 65535, 0, 0>>, <<0, 32768, 0, 0>>}}
VARIABLES t, a, b
Init == t \in IntTypes /\ a \in Vals(t) /\ b \in Vals(t)
Next == UNCHANGED <<t, a, b>>
AddSub == WSub(WAdd(a, b), b) = a
Comm == WMul(a, b) = WMul(b, a)
Distr == WMul(a, WAdd(b, FromInt(3))) = WAdd(WMul(a, b), WMul(a, FromInt(3)))
NegMul == WMul(a, WM1) = WNeg(a)
DivMod == ~WIsZero(b) => LET u == WUDivMod(a, b) s == WSDivMod(a, b)
                         IN /\ WAdd(WMul(u[1], b), u[2]) = a /\ WULt(u[2], b)
                            /\ WAdd(WMul(s[1], b), s[2]) = a
                            /\ (WIsZero(s[2]) \/ WNegative(s[2]) = WNegative(a))
                            /\ WULt(WAbs(s[2]), WAbs(b))
Shifts == \A n \in {0, 1, 5, 15, 16, 17, 31, 32, 47, 48, 63} :
             /\ WShl(a, n) = FoldLeft(LAMBDA x, i: WAdd(x, x), a, [i \in 1..n |-> i])
             /\ WShr(WShl(WShr(a, n), n), n) = WShr(a, n)
             /\ WSar(a, n) = IF WNegative(a) THEN WNot(WShr(WNot(a), n)) ELSE WShr(a, n)
Logic == /\ WAdd(WAnd(a, b), WOr(a, b)) = WAdd(a, b)
         /\ WXor(a, b) = WSub(WOr(a, b), WAnd(a, b))
Idem == Norm(t, a) = a
SmallRoundTrip == IsSmall(a) => FromInt(ToInt(a)) = a
ClosedUnderOps == \A op \in BinOps : LET r == BinOp(op, t, a, t, b) IN Norm(ResultType(op, t, t), r.v) = r.v
=============================================================================
