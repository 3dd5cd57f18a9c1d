------------------------------- MODULE CFloat -------------------------------
(* IEEE 754 binary arithmetic, exact: a finite value is (-1)^s * m * 2^e with m a natural number of any size
   (limbs of 12 bits, least significant first, no leading zero limb); results are rounded to nearest even.
   Formats: "f" binary32, "d" binary64, "ld" the 80-bit extended format of the x87.               *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, TLC, CInt
LB == 4096
\* ---- natural numbers
RECURSIVE NTrim(_)
NTrim(a) == IF a = <<>> \/ a[Len(a)] # 0 THEN a ELSE NTrim(SubSeq(a, 1, Len(a) - 1))
Lm(a, k) == IF k <= Len(a) THEN a[k] ELSE 0
Hi(x, y) == IF x > y THEN x ELSE y
NNat(n) == NTrim(<<n % LB, (n \div LB) % LB, n \div (LB * LB)>>)
NAdd(a, b) == LET r == FoldLeft(LAMBDA x, k: LET s == Lm(a, k) + Lm(b, k) + x.c IN [o |-> Append(x.o, s % LB), c |-> s \div LB],
                                [o |-> <<>>, c |-> 0], [k \in 1..Hi(Len(a), Len(b)) |-> k])
              IN IF r.c = 0 THEN r.o ELSE Append(r.o, r.c)
NSub(a, b) == NTrim(FoldLeft(LAMBDA x, k: LET s == Lm(a, k) - Lm(b, k) - x.c IN [o |-> Append(x.o, IF s < 0 THEN s + LB ELSE s), c |-> IF s < 0 THEN 1 ELSE 0],
                             [o |-> <<>>, c |-> 0], [k \in 1..Len(a) |-> k]).o)
RECURSIVE NLtAt(_, _, _)
NLtAt(a, b, k) == IF k = 0 THEN FALSE ELSE IF a[k] # b[k] THEN a[k] < b[k] ELSE NLtAt(a, b, k - 1)
NLt(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE NLtAt(a, b, Len(a))
NMulLimb(a, m) == LET r == FoldLeft(LAMBDA x, d: LET s == d * m + x.c IN [o |-> Append(x.o, s % LB), c |-> s \div LB], [o |-> <<>>, c |-> 0], a)
                  IN NTrim(IF r.c = 0 THEN r.o ELSE Append(r.o, r.c))
NMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>>
              ELSE FoldLeft(LAMBDA x, k: NAdd(NMulLimb(a, b[k]), IF x = <<>> THEN <<>> ELSE <<0>> \o x), <<>>, [k \in 1..Len(b) |-> Len(b) + 1 - k])
BitsOf(n) == IF n = 0 THEN 0 ELSE CHOOSE k \in 1..12 : n >= Pow2(k - 1) /\ (k = 12 \/ n < Pow2(k))
NBits(a) == IF a = <<>> THEN 0 ELSE 12 * (Len(a) - 1) + BitsOf(a[Len(a)])
NShl(a, n) == IF a = <<>> THEN <<>> ELSE [k \in 1..(n \div 12) |-> 0] \o NMulLimb(a, Pow2(n % 12))
NShr(a, n) == LET q == n \div 12
                  b == SubSeq(a, q + 1, Len(a))
                  r == n % 12
              IN NTrim([k \in 1..Len(b) |-> b[k] \div Pow2(r) + (Lm(b, k + 1) % Pow2(r)) * Pow2(12 - r)])
NBit(a, n) == (Lm(a, n \div 12 + 1) \div Pow2(n % 12)) % 2
NLowZero(a, n) == /\ \A k \in 1..(IF n \div 12 < Len(a) THEN n \div 12 ELSE Len(a)) : a[k] = 0
                  /\ Lm(a, n \div 12 + 1) % Pow2(n % 12) = 0
NDivMod(a, b) == FoldLeft(LAMBDA x, k: LET r == NAdd(NShl(x.r, 1), IF NBit(a, k) = 1 THEN <<1>> ELSE <<>>)
                                           ge == ~NLt(r, b)
                                       IN [q |-> NAdd(NShl(x.q, 1), IF ge THEN <<1>> ELSE <<>>), r |-> IF ge THEN NSub(r, b) ELSE r],
                          [q |-> <<>>, r |-> <<>>], [j \in 1..NBits(a) |-> NBits(a) - j])
RECURSIVE NPow10(_)
NPow10(n) == IF n = 0 THEN <<1>> ELSE IF n >= 3 THEN NMulLimb(NPow10(n - 3), 1000) ELSE NMulLimb(NPow10(n - 1), 10)

\* ---- words of CInt
NOfWord(w) == NAdd(NAdd(NNat(w[1]), NShl(NNat(w[2]), 16)), NAdd(NShl(NNat(w[3]), 32), NShl(NNat(w[4]), 48)))
Low16(a) == Lm(a, 1) + (Lm(a, 2) % 16) * LB
WordOfN(a) == <<Low16(a), Low16(NShr(a, 16)), Low16(NShr(a, 32)), Low16(NShr(a, 48))>>

\* ---- formats: precision, exponent of the least subnormal, greatest exponent, bias
Prc(t) == CASE t = "f" -> 24 [] t = "d" -> 53 [] t = "ld" -> 64
EMin(t) == CASE t = "f" -> -149 [] t = "d" -> -1074 [] t = "ld" -> -16445
EMax(t) == CASE t = "f" -> 127 [] t = "d" -> 1023 [] t = "ld" -> 16383
FltTypes == {"f", "d", "ld"}
FRank(t) == CASE t = "f" -> 1 [] t = "d" -> 2 [] t = "ld" -> 3
NaN == [c |-> "nan", s |-> 0, m |-> <<>>, e |-> 0]
Inf(s) == [c |-> "inf", s |-> s, m |-> <<>>, e |-> 0]
Fin(s, m, e) == [c |-> "num", s |-> s, m |-> m, e |-> e]
Zero(s) == Fin(s, <<>>, 0)
IsZero(v) == v.c = "num" /\ v.m = <<>>
\* the value (-1)^s (m + x) 2^e, 0 <= x < 1, x = 0 iff ~sticky, in format t; sticky only with m of more than Prc(t) + 1 bits
Round(t, s, m, e, sticky) ==
  IF m = <<>> /\ ~sticky THEN [v |-> Zero(s), exact |-> TRUE]
  ELSE LET bl == NBits(m)
           e1 == Hi(e + bl - Prc(t), EMin(t))
           k == e1 - e
           q == NShr(m, k)
           up == NBit(m, k - 1) = 1 /\ (sticky \/ ~NLowZero(m, k - 1) \/ NBit(q, 0) = 1)
           r == IF up THEN NAdd(q, <<1>>) ELSE q
           ov(n, x) == x + NBits(n) - 1 > EMax(t)
       IN IF k <= 0 THEN (IF ov(m, e) THEN [v |-> Inf(s), exact |-> FALSE] ELSE [v |-> Fin(s, m, e), exact |-> ~sticky])
          ELSE IF ov(r, e1) THEN [v |-> Inf(s), exact |-> FALSE]
          ELSE [v |-> IF r = <<>> THEN Zero(s) ELSE Fin(s, r, e1), exact |-> ~sticky /\ NLowZero(m, k)]
Ex(v) == [v |-> v, exact |-> TRUE]

\* ---- arithmetic in format t
FNeg(v) == IF v.c = "nan" THEN v ELSE [v EXCEPT !.s = 1 - @]
FAdd(t, a, b) ==
  IF a.c = "nan" \/ b.c = "nan" THEN Ex(NaN)
  ELSE IF a.c = "inf" THEN Ex(IF b.c = "inf" /\ b.s # a.s THEN NaN ELSE a)
  ELSE IF b.c = "inf" THEN Ex(b)
  ELSE IF IsZero(a) THEN Ex(IF IsZero(b) /\ a.s # b.s THEN Zero(0) ELSE b)
  ELSE IF IsZero(b) THEN Ex(a)
  ELSE LET top(v) == v.e + NBits(v.m)
           big == IF top(a) >= top(b) THEN a ELSE b
           sml == IF top(a) >= top(b) THEN b ELSE a
       IN IF top(big) - top(sml) > 2 * Prc(t) + 8
          THEN \* the small one only decides the rounding
               LET m1 == NShl(big.m, Prc(t) + 4)
                   e1 == big.e - Prc(t) - 4
               IN IF big.s = sml.s THEN Round(t, big.s, m1, e1, TRUE) ELSE Round(t, big.s, NSub(m1, <<1>>), e1, TRUE)
          ELSE LET e == IF a.e < b.e THEN a.e ELSE b.e
                   ma == NShl(a.m, a.e - e)
                   mb == NShl(b.m, b.e - e)
               IN IF a.s = b.s THEN Round(t, a.s, NAdd(ma, mb), e, FALSE)
                  ELSE IF ma = mb THEN Ex(Zero(0))
                  ELSE IF NLt(ma, mb) THEN Round(t, b.s, NSub(mb, ma), e, FALSE) ELSE Round(t, a.s, NSub(ma, mb), e, FALSE)
FSub(t, a, b) == FAdd(t, a, FNeg(b))
XorS(a, b) == IF a.s = b.s THEN 0 ELSE 1
FMul(t, a, b) ==
  IF a.c = "nan" \/ b.c = "nan" THEN Ex(NaN)
  ELSE IF a.c = "inf" \/ b.c = "inf" THEN Ex(IF IsZero(a) \/ IsZero(b) THEN NaN ELSE Inf(XorS(a, b)))
  ELSE Round(t, XorS(a, b), NMul(a.m, b.m), a.e + b.e, FALSE)
FDiv(t, a, b) ==
  IF a.c = "nan" \/ b.c = "nan" THEN Ex(NaN)
  ELSE IF a.c = "inf" THEN Ex(IF b.c = "inf" THEN NaN ELSE Inf(XorS(a, b)))
  ELSE IF b.c = "inf" THEN Ex(Zero(XorS(a, b)))
  ELSE IF IsZero(b) THEN Ex(IF IsZero(a) THEN NaN ELSE Inf(XorS(a, b)))
  ELSE IF IsZero(a) THEN Ex(Zero(XorS(a, b)))
  ELSE LET n == Hi(0, Prc(t) + 3 + NBits(b.m) - NBits(a.m))
           d == NDivMod(NShl(a.m, n), b.m)
       IN Round(t, XorS(a, b), d.q, a.e - b.e - n, d.r # <<>>)
FArith(op, t, a, b) == CASE op = "+" -> FAdd(t, a, b) [] op = "-" -> FSub(t, a, b) [] op = "*" -> FMul(t, a, b) [] op = "/" -> FDiv(t, a, b)
FCvt(t, v) == IF v.c # "num" THEN Ex(v) ELSE Round(t, v.s, v.m, v.e, FALSE)
\* -1, 0, 1, or 2 if unordered
FCmp(a, b) ==
  IF a.c = "nan" \/ b.c = "nan" THEN 2
  ELSE LET sg(v) == IF IsZero(v) THEN 0 ELSE IF v.s = 1 THEN -1 ELSE 1
           mag == IF a.c = "inf" THEN (IF b.c = "inf" THEN 0 ELSE 1) ELSE IF b.c = "inf" THEN -1
                  ELSE LET e == IF a.e < b.e THEN a.e ELSE b.e
                           top(v) == v.e + NBits(v.m)
                           x == NShl(a.m, a.e - e)
                           y == NShl(b.m, b.e - e)
                       IN IF top(a) # top(b) THEN (IF top(a) < top(b) THEN -1 ELSE 1) ELSE IF NLt(x, y) THEN -1 ELSE IF x = y THEN 0 ELSE 1
       IN IF sg(a) # sg(b) THEN (IF sg(a) < sg(b) THEN -1 ELSE 1) ELSE IF sg(a) = 0 THEN 0 ELSE sg(a) * mag
FRel(op, a, b) == LET c == FCmp(a, b)
                  IN CASE op = "<" -> c = -1 [] op = ">" -> c = 1 [] op = "<=" -> c \in {-1, 0} [] op = ">=" -> c \in {0, 1} [] op = "==" -> c = 0 [] op = "!=" -> c # 0
FTrue(v) == ~IsZero(v)
\* ---- conversions between integers and floating values
FFromInt(t, it, w) == LET neg == Signed(it) /\ WNegative(w) IN Round(t, IF neg THEN 1 ELSE 0, NOfWord(IF neg THEN WNeg(w) ELSE w), 0, FALSE)
\* truncation; not defined if the result does not fit
FToInt(it, v) ==
  IF v.c # "num" THEN Undef
  ELSE LET q == IF v.e >= 0 THEN NShl(v.m, IF v.e > 70 THEN 70 ELSE v.e) ELSE NShr(v.m, -v.e)
           nb == NBits(q)
           w == IF v.s = 1 THEN WNeg(WordOfN(q)) ELSE WordOfN(q)
       IN IF nb > 64 THEN Undef
          ELSE IF Signed(it) THEN (IF (nb <= 63 /\ Fits(it, w)) \/ (nb = 64 /\ v.s = 1 /\ it = "l" /\ w = MinOf("l")) THEN Def(w) ELSE Undef)
          ELSE IF q = <<>> THEN Def(W0) ELSE IF v.s = 0 /\ Fits(it, w) THEN Def(w) ELSE Undef
\* ---- the decimal number dg * 10^k (dg a natural number) in format t
FOfDec(t, dg, k) ==
  IF dg = <<>> THEN Ex(Zero(0))
  ELSE IF k >= 0 THEN Round(t, 0, NMul(dg, NPow10(k)), 0, FALSE)
  ELSE LET d == NPow10(-k)
           n == Hi(0, Prc(t) + 3 + NBits(d) - NBits(dg))
           x == NDivMod(NShl(dg, n), d)
       IN Round(t, 0, x.q, -n, x.r # <<>>)
\* ---- the bits of a value: a natural number
FBits(t, v) ==
  LET p == Prc(t)
      ebits == CASE t = "f" -> 8 [] t = "d" -> 11 [] t = "ld" -> 15
      frac == IF t = "ld" THEN 64 ELSE p - 1     \* bits below the exponent
      ones == NSub(NShl(<<1>>, ebits), <<1>>)
      sign(s) == IF s = 1 THEN NShl(<<1>>, frac + ebits) ELSE <<>>
      bl == NBits(v.m)
      E == v.e + bl - 1
      norm == E >= EMin(t) + p - 1
      mant == IF norm THEN (IF bl > p THEN NShr(v.m, bl - p) ELSE NShl(v.m, p - bl)) ELSE IF v.e >= EMin(t) THEN NShl(v.m, v.e - EMin(t)) ELSE NShr(v.m, EMin(t) - v.e)
      body == IF t # "ld" /\ norm THEN NSub(mant, NShl(<<1>>, p - 1)) ELSE mant
  IN IF v.c = "nan" THEN <<0>>
     ELSE NAdd(sign(v.s), IF v.c = "inf" THEN NAdd(NShl(ones, frac), IF t = "ld" THEN NShl(<<1>>, 63) ELSE <<>>)
                          ELSE IF v.m = <<>> THEN <<>>
                          ELSE NAdd(body, IF norm THEN NShl(NNat(E + EMax(t)), frac) ELSE <<>>))
\* the value of bits, the inverse of FBits
FOfBits(t, n) ==
  LET p == Prc(t)
      frac == IF t = "ld" THEN 64 ELSE p - 1
      ebits == CASE t = "f" -> 8 [] t = "d" -> 11 [] t = "ld" -> 15
      s == NBit(n, frac + ebits)
      hi == NShr(n, frac)
      E == Lm(hi, 1) + LB * (Lm(hi, 2) % 16) - (IF s = 1 THEN Pow2(ebits) ELSE 0)
      low == NSub(n, NShl(hi, frac))
      top == IF t = "ld" THEN NShl(<<1>>, 63) ELSE <<>>
  IN IF E = Pow2(ebits) - 1 THEN (IF low = top THEN Inf(s) ELSE NaN)
     ELSE IF E = 0 THEN (IF low = <<>> THEN Zero(s) ELSE Fin(s, low, EMin(t)))
     ELSE Fin(s, IF t = "ld" THEN low ELSE NAdd(low, NShl(<<1>>, p - 1)), E - EMax(t) - p + 1)
=============================================================================
