-------------------------------- MODULE CInt --------------------------------
(***************************************************************************)
(* 64-bit machine integers and the integer types of C on LP64.             *)
(* A word is a tuple of four 16-bit limbs, least significant first (TLC's   *)
(* own integers have 32 bits).  A value of an integer type is always held   *)
(* as the word that is its sign- or zero-extension to 64 bits.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Bitwise, SequencesExt

B == 65536
W0 == <<0, 0, 0, 0>>
WM1 == <<65535, 65535, 65535, 65535>>
FromInt(n) == IF n >= 0 THEN <<n % B, n \div B, 0, 0>>
              ELSE <<n % B, (n \div B) % B, 65535, 65535>>     \* |n| < 2^31
\* The TLC integer a word stands for, when -2^31 < value < 2^31
IsSmallNat(w) == w[3] = 0 /\ w[4] = 0 /\ w[2] < 32768
IsSmall(w) == IsSmallNat(w) \/ (w[3] = 65535 /\ w[4] = 65535 /\ w[2] >= 32768 /\ ~(w[2] = 32768 /\ w[1] = 0))
ToInt(w) == IF w[4] = 0 THEN w[1] + B * w[2] ELSE (w[1] + B * (w[2] - 32768)) - 2147483647 - 1
WIsZero(w) == w[1] = 0 /\ w[2] = 0 /\ w[3] = 0 /\ w[4] = 0
WNegative(w) == w[4] >= 32768

WNot(a) == <<65535 - a[1], 65535 - a[2], 65535 - a[3], 65535 - a[4]>>
WAdd3(a, b, c0) ==
  LET s1 == a[1] + b[1] + c0
      s2 == a[2] + b[2] + (s1 \div B)
      s3 == a[3] + b[3] + (s2 \div B)
      s4 == a[4] + b[4] + (s3 \div B)
  IN <<s1 % B, s2 % B, s3 % B, s4 % B>>
WAdd(a, b) == WAdd3(a, b, 0)
WSub(a, b) == WAdd3(a, WNot(b), 1)
WNeg(a) == WAdd3(W0, WNot(a), 1)
WAnd(a, b) == <<a[1] & b[1], a[2] & b[2], a[3] & b[3], a[4] & b[4]>>
WOr(a, b)  == <<a[1] | b[1], a[2] | b[2], a[3] | b[3], a[4] | b[4]>>
WXor(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4]>>

WULt(a, b) == IF a[4] # b[4] THEN a[4] < b[4] ELSE IF a[3] # b[3] THEN a[3] < b[3]
              ELSE IF a[2] # b[2] THEN a[2] < b[2] ELSE a[1] < b[1]
WSLt(a, b) == IF WNegative(a) # WNegative(b) THEN WNegative(a) ELSE WULt(a, b)

Pow2(n) == CASE n = 0 -> 1 [] n = 1 -> 2 [] n = 2 -> 4 [] n = 3 -> 8 [] n = 4 -> 16 [] n = 5 -> 32
             [] n = 6 -> 64 [] n = 7 -> 128 [] n = 8 -> 256 [] n = 9 -> 512 [] n = 10 -> 1024
             [] n = 11 -> 2048 [] n = 12 -> 4096 [] n = 13 -> 8192 [] n = 14 -> 16384 [] n = 15 -> 32768
             [] n = 16 -> 65536

\* product: the limbs of b are split into bytes so that no partial product exceeds 31 bits
WMulByte(a, m) ==         \* a * m, 0 <= m < 256
  LET p1 == a[1] * m
      p2 == a[2] * m + (p1 \div B)
      p3 == a[3] * m + (p2 \div B)
      p4 == a[4] * m + (p3 \div B)
  IN <<p1 % B, p2 % B, p3 % B, p4 % B>>
WLimbUp(a) == <<0, a[1], a[2], a[3]>>
WByteUp(a) == WMulByte(<<a[1], a[2], a[3], a[4] % 256>>, 128) \* helper, see WMul
WShl8(a) == LET x == WMulByte(a, 128) IN WAdd(x, x)
WMulLimb(a, m) == WAdd(WMulByte(a, m % 256), WShl8(WMulByte(a, m \div 256)))
WMul(a, b) ==
  LET t4 == IF b[4] = 0 THEN W0 ELSE WMulLimb(a, b[4])
      t3 == IF b[3] = 0 THEN WLimbUp(t4) ELSE WAdd(WLimbUp(t4), WMulLimb(a, b[3]))
      t2 == IF b[2] = 0 THEN WLimbUp(t3) ELSE WAdd(WLimbUp(t3), WMulLimb(a, b[2]))
  IN WAdd(WLimbUp(t2), WMulLimb(a, b[1]))

RECURSIVE WShlLimbs(_, _), WShrLimbs(_, _, _)
WShlLimbs(a, n) == IF n = 0 THEN a ELSE WShlLimbs(<<0, a[1], a[2], a[3]>>, n - 1)
WShrLimbs(a, n, f) == IF n = 0 THEN a ELSE WShrLimbs(<<a[2], a[3], a[4], f>>, n - 1, f)
WShl(a, n) ==             \* 0 <= n < 64
  LET x == WShlLimbs(a, n \div 16)
      k == n % 16
      hi(v) == v \div Pow2(16 - k)
      lo(v) == (v % Pow2(16 - k)) * Pow2(k)
  IN IF k = 0 THEN x ELSE <<lo(x[1]), lo(x[2]) + hi(x[1]), lo(x[3]) + hi(x[2]), lo(x[4]) + hi(x[3])>>
WShrFill(a, n, f) ==
  LET x == WShrLimbs(a, n \div 16, f)
      k == n % 16
      lo(v) == v \div Pow2(k)
      up(v) == (v % Pow2(k)) * Pow2(16 - k)
  IN IF k = 0 THEN x ELSE <<lo(x[1]) + up(x[2]), lo(x[2]) + up(x[3]), lo(x[3]) + up(x[4]), lo(x[4]) + up(f)>>
WShr(a, n) == WShrFill(a, n, 0)
WSar(a, n) == WShrFill(a, n, IF WNegative(a) THEN 65535 ELSE 0)
WBit(a, n) == (a[(n \div 16) + 1] \div Pow2(n % 16)) % 2

\* unsigned division by binary long division; <<quotient, remainder>>
WUDivMod(a, b) ==
  IF IsSmallNat(a) /\ IsSmallNat(b)
    THEN <<FromInt(ToInt(a) \div ToInt(b)), FromInt(ToInt(a) % ToInt(b))>>
  ELSE IF WULt(a, b) THEN <<W0, a>>
  ELSE FoldLeft(LAMBDA qr, i:
         LET bit == WBit(a, 64 - i)
             top == WNegative(qr[2])
             r2 == WAdd3(qr[2], qr[2], bit)
             ge == top \/ ~WULt(r2, b)
         IN <<WAdd3(qr[1], qr[1], IF ge THEN 1 ELSE 0), IF ge THEN WSub(r2, b) ELSE r2>>,
         <<W0, W0>>, [i \in 1..64 |-> i])
WAbs(a) == IF WNegative(a) THEN WNeg(a) ELSE a
WSDivMod(a, b) ==         \* truncating, remainder has the sign of the dividend
  LET qr == WUDivMod(WAbs(a), WAbs(b))
  IN <<IF WNegative(a) # WNegative(b) THEN WNeg(qr[1]) ELSE qr[1],
       IF WNegative(a) THEN WNeg(qr[2]) ELSE qr[2]>>

(***************************************************************************)
(* Integer types                                                            *)
(***************************************************************************)
IntTypes == {"c", "uc", "s", "us", "i", "u", "l", "ul"}
Signed(t) == t \in {"c", "s", "i", "l"}
SizeOf(t) == CASE t \in {"c", "uc"} -> 1 [] t \in {"s", "us"} -> 2 [] t \in {"i", "u"} -> 4 [] t \in {"l", "ul"} -> 8
Bits(t) == 8 * SizeOf(t)
Rank(t) == SizeOf(t)

\* conversion of a 64-bit pattern to type t
Norm(t, w) ==
  CASE t = "l" \/ t = "ul" -> w
    [] t = "i" -> IF w[2] >= 32768 THEN <<w[1], w[2], 65535, 65535>> ELSE <<w[1], w[2], 0, 0>>
    [] t = "u" -> <<w[1], w[2], 0, 0>>
    [] t = "s" -> IF w[1] >= 32768 THEN <<w[1], 65535, 65535, 65535>> ELSE <<w[1], 0, 0, 0>>
    [] t = "us" -> <<w[1], 0, 0, 0>>
    [] t = "c" -> LET x == w[1] % 256 IN IF x >= 128 THEN <<x + 65280, 65535, 65535, 65535>> ELSE <<x, 0, 0, 0>>
    [] t = "uc" -> <<w[1] % 256, 0, 0, 0>>
Fits(t, w) == Norm(t, w) = w

Promote(t) == IF t \in {"c", "uc", "s", "us"} THEN "i" ELSE t
ToUnsigned(t) == CASE t = "i" -> "u" [] t = "l" -> "ul" [] t = "c" -> "uc" [] t = "s" -> "us" [] OTHER -> t
Usual(t1, t2) ==
  LET p == Promote(t1)
      q == Promote(t2)
  IN IF p = q THEN p
     ELSE IF Signed(p) = Signed(q) THEN (IF Rank(p) >= Rank(q) THEN p ELSE q)
     ELSE LET u == IF Signed(p) THEN q ELSE p
              s == IF Signed(p) THEN p ELSE q
          IN IF Rank(u) >= Rank(s) THEN u ELSE s      \* on LP64 a signed type of higher rank holds all values

ArithOps == {"+", "-", "*", "/", "%", "&", "|", "^"}
ShiftOps == {"<<", ">>"}
RelOps == {"<", ">", "<=", ">=", "==", "!="}
LogOps == {"&&", "||"}
BinOps == ArithOps \cup ShiftOps \cup RelOps

ResultType(op, t1, t2) ==
  IF op \in RelOps \cup LogOps THEN "i"
  ELSE IF op \in ShiftOps THEN Promote(t1)
  ELSE Usual(t1, t2)

Bool(b) == IF b THEN <<1, 0, 0, 0>> ELSE W0
Undef == [def |-> FALSE, v |-> W0]
Def(w) == [def |-> TRUE, v |-> w]

MulOverflows(t, a, b) ==  \* signed multiplication out of the range of t ("i" or "l")
  IF WIsZero(a) \/ WIsZero(b) THEN FALSE
  ELSE IF t = "i" THEN ~Fits("i", WMul(a, b))
  ELSE LET p == WMul(a, b)
       IN (a = WM1 /\ WNeg(b) = b) \/ (b = WM1 /\ WNeg(a) = a)
          \/ WSDivMod(p, b)[1] # a
AddOverflows(t, a, b) ==
  LET s == WAdd(a, b) IN IF t = "i" THEN ~Fits("i", s)
  ELSE WNegative(a) = WNegative(b) /\ WNegative(s) # WNegative(a)
SubOverflows(t, a, b) ==
  LET s == WSub(a, b) IN IF t = "i" THEN ~Fits("i", s)
  ELSE WNegative(a) # WNegative(b) /\ WNegative(s) # WNegative(a)
MinOf(t) == IF t = "i" THEN <<0, 32768, 65535, 65535>> ELSE <<0, 0, 0, 32768>>

\* a op b for operands of types t1, t2; def = FALSE where C leaves the behaviour undefined.
\* (>> of a negative value is implementation-defined: arithmetic here.)
BinOp(op, t1, a, t2, b) ==
  LET t == Usual(t1, t2)
      x == Norm(t, a)
      y == Norm(t, b)
      sg == Signed(t)
      p == Promote(t1)
      lt == IF sg THEN WSLt(x, y) ELSE WULt(x, y)
      gt == IF sg THEN WSLt(y, x) ELSE WULt(y, x)
  IN CASE op = "+" -> IF sg /\ AddOverflows(t, x, y) THEN Undef ELSE Def(Norm(t, WAdd(x, y)))
       [] op = "-" -> IF sg /\ SubOverflows(t, x, y) THEN Undef ELSE Def(Norm(t, WSub(x, y)))
       [] op = "*" -> IF sg /\ MulOverflows(t, x, y) THEN Undef ELSE Def(Norm(t, WMul(x, y)))
       [] op \in {"/", "%"} ->
            IF WIsZero(y) \/ (sg /\ y = WM1 /\ x = MinOf(t)) THEN Undef
            ELSE LET qr == IF sg THEN WSDivMod(x, y) ELSE WUDivMod(x, y)
                 IN Def(Norm(t, IF op = "/" THEN qr[1] ELSE qr[2]))
       [] op = "&" -> Def(WAnd(x, y))
       [] op = "|" -> Def(WOr(x, y))
       [] op = "^" -> Def(Norm(t, WXor(x, y)))
       [] op = "==" -> Def(Bool(x = y))
       [] op = "!=" -> Def(Bool(x # y))
       [] op = "<" -> Def(Bool(lt))
       [] op = ">" -> Def(Bool(gt))
       [] op = "<=" -> Def(Bool(~gt))
       [] op = ">=" -> Def(Bool(~lt))
       [] op = "<<" ->
            IF ~(b[2] = 0 /\ b[3] = 0 /\ b[4] = 0 /\ b[1] < Bits(p)) THEN Undef
            ELSE LET r == Norm(p, WShl(a, b[1]))
                 IN IF Signed(p) /\ (WNegative(a) \/ WSar(r, b[1]) # a) THEN Undef ELSE Def(r)
       [] op = ">>" ->
            IF ~(b[2] = 0 /\ b[3] = 0 /\ b[4] = 0 /\ b[1] < Bits(p)) THEN Undef
            ELSE Def(IF Signed(p) THEN WSar(a, b[1]) ELSE WShr(a, b[1]))
       [] op = "&&" -> Def(Bool(~WIsZero(a) /\ ~WIsZero(b)))
       [] op = "||" -> Def(Bool(~WIsZero(a) \/ ~WIsZero(b)))

UnOps == {"-", "~", "!", "+"}
UnResultType(op, t) == IF op = "!" THEN "i" ELSE Promote(t)
UnOp(op, t, a) ==
  LET p == Promote(t)
  IN CASE op = "-" -> IF Signed(p) /\ a = MinOf(p) THEN Undef ELSE Def(Norm(p, WNeg(a)))
       [] op = "~" -> Def(Norm(p, WNot(a)))
       [] op = "+" -> Def(a)
       [] op = "!" -> Def(Bool(WIsZero(a)))

\* boundary values of a type
MinVal(t) == CASE t = "c" -> FromInt(-128) [] t = "s" -> FromInt(-32768) [] t = "i" -> MinOf("i") [] t = "l" -> MinOf("l") [] OTHER -> W0
MaxVal(t) == IF Signed(t) THEN WNot(MinVal(t)) ELSE Norm(t, WM1)
=============================================================================
