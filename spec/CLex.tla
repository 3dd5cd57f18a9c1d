-------------------------------- MODULE CLex --------------------------------
(* Translation phases 5 to 7 up to tokens: preprocessing tokens become keywords, identifiers, constants with
   types and values, and string literals with their elements; the machine executes a small language of statements
   made of these tokens:  int NAME = number ;   obs ( number , E ) ;   obsl ( number , floating ) ;
   obsb ( number , strings , sizeof ( strings ) ) ;
   with E one of  constant,  NAME,  sizeof ( constant or strings ),  constant * 0 - 1 < 0,  strings [ number ].
   Phases 1 to 3 are those of CPre; a case may carry a second text, which must have the same tokens.   *)
EXTENDS CPre, CFloat
CodeOf == TLCEval(JsonDeserialize(IOEnv.VF_CODES))
Keywords == {"auto", "break", "case", "char", "const", "continue", "default", "do", "double", "else", "enum", "extern", "float", "for", "goto", "if",
             "int", "long", "register", "return", "short", "signed", "sizeof", "static", "struct", "switch", "typedef", "union", "unsigned", "void", "volatile", "while"}

\* ---- numbers
HexDigits == Digits \cup {"a", "b", "c", "d", "e", "f", "A", "B", "C", "D", "E", "F"}
HexVal(c) == CASE c \in Digits -> CodeOf[c] - 48 [] c \in Lower -> CodeOf[c] - 87 [] OTHER -> CodeOf[c] - 55
RunOf(cs, i, set) == LET k == SelectInSubSeq(cs, i, Len(cs), LAMBDA c: c \notin set) IN IF k = 0 THEN Len(cs) + 1 ELSE k
ValueOf(cs, base) == FoldLeft(LAMBDA a, c: NAdd(NMulLimb(a, base), NNat(HexVal(c))), <<>>, cs)
From(cs, i) == SubSeq(cs, i, Len(cs))
Sfx(s) == CASE s = "" -> "" [] s \in {"u", "U"} -> "u" [] s \in {"l", "L", "ll", "LL"} -> "l"
            [] s \in {"ul", "uL", "Ul", "UL", "lu", "lU", "Lu", "LU", "ull", "uLL", "Ull", "ULL", "llu", "llU", "LLu", "LLU"} -> "ul" [] OTHER -> "bad"
Invalid == [c |-> "invalid"]
Unspec(f) == [c |-> "unspecified", f |-> f]
IntConst(dec, n, sfx) ==
  LET nb == NBits(n)
      types == CASE sfx = "" /\ dec -> <<"i", "l">> [] sfx = "" -> <<"i", "u", "l", "ul">> [] sfx = "u" -> <<"u", "ul">>
                 [] sfx = "l" /\ dec -> <<"l">> [] sfx = "l" -> <<"l", "ul">> [] OTHER -> <<"ul">>
      room(t) == CASE t = "i" -> 31 [] t = "u" -> 32 [] t = "l" -> 63 [] t = "ul" -> 64
      ok == SelectSeq(types, LAMBDA t: nb <= room(t))
  IN IF ok = <<>> THEN Unspec("too large") ELSE [c |-> "int", t |-> ok[1], w |-> WordOfN(n)]
\* the constant a preprocessing number stands for
Number(s) ==
  LET cs == CharsOf(s)
      hex == Len(cs) >= 2 /\ cs[1] = "0" /\ cs[2] \in {"x", "X"}
      he == RunOf(cs, 3, HexDigits)
      de == RunOf(cs, 1, Digits)
      isf == de <= Len(cs) /\ cs[de] \in {".", "e", "E"}
      oct == cs[1] = "0"
      \* floating: digits, fraction, exponent, suffix
      fe == IF de <= Len(cs) /\ cs[de] = "." THEN RunOf(cs, de + 1, Digits) ELSE de
      dg == SelectSeq(SubSeq(cs, 1, fe - 1), LAMBDA c: c \in Digits)
      hasx == fe <= Len(cs) /\ cs[fe] \in {"e", "E"}
      xs == IF hasx /\ fe + 1 <= Len(cs) /\ cs[fe + 1] \in {"+", "-"} THEN fe + 2 ELSE fe + 1
      xe == IF hasx THEN RunOf(cs, xs, Digits) ELSE fe
      xv == FoldLeft(LAMBDA a, c: IF a > 9999 THEN a ELSE 10 * a + HexVal(c), 0, SubSeq(cs, xs, xe - 1))
      x == IF ~hasx THEN 0 ELSE IF cs[xs - 1] = "-" THEN 0 - xv ELSE xv
      fs == Cat(From(cs, xe))
      frac == IF fe > de THEN fe - de - 1 ELSE 0
      ft == CASE fs = "" -> "d" [] fs \in {"f", "F"} -> "f" [] fs \in {"l", "L"} -> "ld" [] OTHER -> "bad"
  IN IF hex
     THEN IF \E k \in DOMAIN cs : cs[k] \in {"p", "P"} THEN Unspec("hexadecimal floating constant")
          ELSE IF he = 3 \/ Sfx(Cat(From(cs, he))) = "bad" THEN Invalid
          ELSE IntConst(FALSE, ValueOf(SubSeq(cs, 3, he - 1), 16), Sfx(Cat(From(cs, he))))
     ELSE IF ~isf
     THEN IF Sfx(Cat(From(cs, de))) = "bad" THEN Invalid
          ELSE IF oct THEN (IF \E k \in 1..(de - 1) : cs[k] \in {"8", "9"} THEN Invalid ELSE IntConst(FALSE, ValueOf(SubSeq(cs, 1, de - 1), 8), Sfx(Cat(From(cs, de)))))
          ELSE IntConst(TRUE, ValueOf(SubSeq(cs, 1, de - 1), 10), Sfx(Cat(From(cs, de))))
     ELSE IF dg = <<>> \/ ft = "bad" \/ (hasx /\ xe = xs) THEN Invalid
     ELSE IF xv > 400 THEN Unspec("large exponent")
     ELSE [c |-> "flt", t |-> ft, v |-> FOfDec(ft, ValueOf(dg, 10), x - frac).v]

\* ---- characters: the elements of a literal body, natural numbers
Simple == [x \in {"'", "\"", "?", "\\", "a", "b", "f", "n", "r", "t", "v"} |->
            CASE x = "'" -> 39 [] x = "\"" -> 34 [] x = "?" -> 63 [] x = "\\" -> 92 [] x = "a" -> 7 [] x = "b" -> 8 [] x = "f" -> 12 [] x = "n" -> 10 [] x = "r" -> 13 [] x = "t" -> 9 [] OTHER -> 11]
Octal == {"0", "1", "2", "3", "4", "5", "6", "7"}
RECURSIVE Elements(_, _, _)
Elements(cs, i, acc) ==
  IF i > Len(cs) THEN acc
  ELSE LET c == cs[i]
           d == IF i < Len(cs) THEN cs[i + 1] ELSE ""
           oe == LET e == RunOf(cs, i + 1, Octal) IN IF e > i + 4 THEN i + 4 ELSE e
           xe == RunOf(cs, i + 2, HexDigits)
           put(n) == [acc EXCEPT !.e = Append(@, n)]
       IN IF c # "\\" THEN Elements(cs, i + 1, [put(NNat(CodeOf[c])) EXCEPT !.hi = @ \/ CodeOf[c] > 127])
          ELSE IF d \in DOMAIN Simple THEN Elements(cs, i + 2, put(NNat(Simple[d])))
          ELSE IF d \in Octal THEN Elements(cs, oe, put(ValueOf(SubSeq(cs, i + 1, oe - 1), 8)))
          ELSE IF d = "x" THEN (IF xe = i + 2 THEN [acc EXCEPT !.bad = TRUE] ELSE Elements(cs, xe, put(ValueOf(SubSeq(cs, i + 2, xe - 1), 16))))
          ELSE Elements(cs, i + 2, [acc EXCEPT !.unk = TRUE])
IsWide(s) == SubSeq(s, 1, 1) = "L"
Body(s) == LET cs == CharsOf(s) IN SubSeq(cs, IF IsWide(s) THEN 3 ELSE 2, Len(cs) - 1)
Literal(s) == Elements(Body(s), 1, [e |-> <<>>, hi |-> FALSE, bad |-> FALSE, unk |-> FALSE])
\* does every element fit?
Fit(l, wide) == \A k \in DOMAIN l.e : NBits(l.e[k]) <= (IF wide THEN 32 ELSE 8)
SignedByte(n) == IF Lm(n, 1) > 127 THEN WNeg(WordOfN(NSub(<<256>>, n))) ELSE WordOfN(n)
Sext32(n) == IF NBits(n) = 32 THEN WNeg(WordOfN(NSub(NShl(<<1>>, 32), n))) ELSE WordOfN(n)
Character(s) ==
  LET l == Literal(s)
  IN IF l.bad \/ Body(s) = <<>> THEN Invalid
     ELSE IF l.unk THEN Unspec("unknown escape")
     ELSE IF Len(l.e) > 1 THEN Unspec("several characters")
     ELSE IF ~Fit(l, IsWide(s)) \/ (IsWide(s) /\ l.hi) THEN Unspec("character out of range")
     ELSE [c |-> "int", t |-> "i", w |-> IF IsWide(s) THEN Sext32(l.e[1]) ELSE SignedByte(l.e[1])]
\* adjacent string literals
Strings(ts) ==
  LET ls == [k \in DOMAIN ts |-> Literal(ts[k].s)]
      wide == \E k \in DOMAIN ts : IsWide(ts[k].s)
  IN IF \E k \in DOMAIN ls : ls[k].bad THEN Invalid
     ELSE IF \E k \in DOMAIN ls : ls[k].unk THEN Unspec("unknown escape")
     ELSE IF \E k \in DOMAIN ls : ~Fit(ls[k], wide) \/ (wide /\ ls[k].hi) THEN Unspec("character out of range")
     ELSE [c |-> "str", wide |-> wide, e |-> Append(FoldLeft(LAMBDA a, l: a \o l.e, <<>>, ls), <<>>)]
SizeOfT(t) == CASE t \in {"i", "u", "f"} -> 4 [] t = "ld" -> 16 [] OTHER -> 8
Width(s) == IF s.wide THEN 4 ELSE 1
BytesOf(s) == FoldLeft(LAMBDA a, n: a \o (IF s.wide THEN [k \in 1..4 |-> (Low16(NShr(n, 8 * (k - 1)))) % 256] ELSE <<Low16(n) % 256>>), <<>>, s.e)

\* ---- tokens to constants
ConstOf(t) == CASE t.k = "num" -> Number(t.s) [] t.k = "chr" -> Character(t.s) [] OTHER -> Invalid
TokenOk(t) == CASE t.k \in {"num", "chr"} -> ConstOf(t).c # "invalid" [] t.k = "str" -> ~Literal(t.s).bad [] t.k \in {"bad", "lone", "oth"} -> FALSE [] t.k = "op" -> t.s \notin {"#", "##"} [] OTHER -> TRUE

\* ---- statements
Op(t, s) == t.k = "op" /\ t.s = s
W(n) == <<n, 0, 0, 0>>
\* the value of E: a word, [c |-> "w", w], or unspecified
WordVal(w) == [c |-> "w", w |-> w]
Expr(ts, env) ==
  LET n == Len(ts)
      inner == SubSeq(ts, 3, n - 1)
      strs(x) == x # <<>> /\ \A k \in DOMAIN x : x[k].k = "str"
      const(t, f(_)) == LET v == ConstOf(t) IN IF v.c \in {"invalid", "unspecified"} THEN v ELSE f(v)
  IN IF n = 1 /\ ts[1].k = "id" THEN (IF ts[1].s \in DOMAIN env THEN WordVal(env[ts[1].s]) ELSE Unspec("name"))
     ELSE IF n = 1 THEN const(ts[1], LAMBDA v: IF v.c = "int" THEN WordVal(v.w) ELSE Unspec("floating value"))
     ELSE IF ts[1].s = "sizeof"
          THEN IF strs(inner) THEN (LET s == Strings(inner) IN IF s.c = "str" THEN WordVal(W(Len(s.e) * Width(s))) ELSE s)
               ELSE const(inner[1], LAMBDA v: WordVal(W(SizeOfT(v.t))))
     ELSE IF Op(ts[n], "]")
          THEN LET s == Strings(SubSeq(ts, 1, n - 3))
                   k == ConstOf(ts[n - 1])
               IN IF s.c # "str" THEN s ELSE IF k.c # "int" THEN k ELSE LET e == s.e[k.w[1] + 1] IN WordVal(IF s.wide THEN Sext32(e) ELSE SignedByte(e))
     ELSE const(ts[1], LAMBDA v: WordVal(IF v.t \in {"u", "ul"} THEN W(0) ELSE W(1)))
CommaAt(ts) == CHOOSE k \in DOMAIN ts : Op(ts[k], ",") /\ \A j \in 1..(k - 1) : ~Op(ts[j], ",")
Exec1(st, ts) ==
  LET c == CommaAt(ts)
      id == ConstOf(ts[3]).w[1]
      rest == SubSeq(ts, c + 1, Len(ts) - 2)
      put(t, n) == [st EXCEPT !.out = Append(@, <<id, t, n>>)]
      un(v) == [st EXCEPT !.fl = @ \cup {IF v.c = "invalid" THEN "invalid" ELSE v.f}]
  IN CASE ts[1].s = "int" -> LET v == ConstOf(ts[4]) IN IF ts[2].s \in Keywords \/ v.c # "int" THEN un(Unspec("name")) ELSE [st EXCEPT !.env = [x \in DOMAIN @ \cup {ts[2].s} |-> IF x = ts[2].s THEN v.w ELSE @[x]]]
       [] ts[1].s = "obs" -> LET v == Expr(rest, st.env) IN IF v.c = "w" THEN put("w", v.w) ELSE un(v)
       [] ts[1].s = "obsl" -> LET v == ConstOf(rest[1]) IN IF v.c = "flt" THEN put("ld", FBits("ld", v.v)) ELSE un(IF v.c = "int" THEN Unspec("name") ELSE v)
       [] ts[1].s = "obsb" -> LET c2 == CommaAt(rest)
                                  a == Strings(SubSeq(rest, 1, c2 - 1))
                                  b == Expr(SubSeq(rest, c2 + 1, Len(rest)), st.env)
                              IN IF a.c # "str" THEN un(a) ELSE IF b.c # "w" THEN un(b) ELSE IF Len(BytesOf(a)) # b.w[1] THEN un(Unspec("size")) ELSE put("b", BytesOf(a))
       [] OTHER -> un(Unspec("statement"))

\* ---- the machine
TextToks(p) == FileToks(Cases[p].text, Cases[p].tri)
Real(ts) == SelectSeq(ts, LAMBDA t: t.k # "nl")
Shape(ts) == LET r == Real(ts) IN [k \in DOMAIN r |-> <<r[k].k, r[k].s>>]
LineOf(ts, k) == LET a == {j \in 1..k : j = 1 \/ ts[j - 1].k = "nl"}
                     s == CHOOSE j \in a : \A x \in a : x <= j
                     e == EolFrom(ts, k)
                 IN [lo |-> ts[s].l, hi |-> ts[IF e > Len(ts) THEN Len(ts) ELSE e].m]
LStart(p) ==
  LET ts == TextToks(p)
      bad == SelectInSubSeq(ts, 1, Len(ts), LAMBDA t: t.k \in {"bad", "lone"})
      inv == IF bad # 0 THEN bad ELSE SelectInSubSeq(ts, 1, Len(ts), LAMBDA t: ~TokenOk(t))
      ln == LineOf(ts, inv)
      other == Cases[p].same # <<>> /\ Shape(ts) # Shape(FileToks(Cases[p].same, FALSE))
  IN [ts |-> Real(ts), env |-> <<>>, out |-> <<>>, done |-> inv # 0 \/ other \/ ~Cases[p].run,
      err |-> IF inv = 0 THEN "" ELSE ts[inv].k, lo |-> IF inv = 0 THEN 0 ELSE ln.lo, hi |-> IF inv = 0 THEN 0 ELSE ln.hi, inv |-> IF inv = 0 THEN "" ELSE ts[inv].s,
      fl |-> IF other THEN {"other tokens"} ELSE {}]
LInit == case \in 1..Len(Cases) /\ act = Nothing /\ phase = "load"
LBegin == phase = "load" /\ act' = LStart(case) /\ phase' = "run" /\ UNCHANGED case
LRun == /\ phase = "run" /\ ~act.done
        /\ LET e == SelectInSubSeq(act.ts, 1, Len(act.ts), LAMBDA t: Op(t, ";"))
           IN act' = IF e = 0 THEN [act EXCEPT !.done = TRUE] ELSE [Exec1(act, SubSeq(act.ts, 1, e)) EXCEPT !.ts = From(act.ts, e + 1)]
        /\ UNCHANGED <<case, phase>>
LFinish == /\ phase = "run" /\ act.done
           /\ JsonSerialize(IOEnv.VF_OUT \o "/" \o ToString(case), [out |-> act.out, err |-> act.err, lo |-> act.lo, hi |-> act.hi, inv |-> act.inv, fl |-> SetToSeq(act.fl)])
           /\ phase' = "end" /\ act' = Nothing /\ UNCHANGED case
LNext == LBegin \/ LRun \/ LFinish
LSpec == LInit /\ [][LNext]_vars
\* constants are values of their types, string literals end in a zero element, an invalid text observes nothing
LTyped == phase = "run" => /\ (act.err # "" => act.out = <<>>)
                           /\ \A k \in DOMAIN act.ts : LET t == act.ts[k] IN
                                t.k \in {"num", "chr"} /\ act.err = "" => LET v == ConstOf(t) IN v.c = "int" => Fits(v.t, v.w)
=============================================================================
