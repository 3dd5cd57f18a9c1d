-------------------------------- MODULE CPre --------------------------------
(* Translation phases 1 to 4 of C as a state machine: source files are sequences of characters;
   trigraphs, line splices and comments are removed, the text is split into preprocessing tokens,
   directives are executed and macros expanded (Prosser's algorithm with hide sets and placemarkers).
   The state is the stack of open files, each with its stack of open conditionals, the macro
   table, the text being expanded and the tokens produced so far.                              *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC, CInt
Cases == TLCEval(JsonDeserialize(IOEnv.VF_PROGS))

(*---------------------------- phases 1 to 3 ------------------------------*)
Lower == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z"}
Upper == {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
Digits == {"0","1","2","3","4","5","6","7","8","9"}
Letters == Lower \cup Upper \cup {"_"}
Blank == {" ", "\t", "\f", "\r", ""}
P3 == {"...", "<<=", ">>="}
P2 == {"->", "++", "--", "<<", ">>", "<=", ">=", "==", "!=", "&&", "||", "*=", "/=", "%=", "+=", "-=", "&=", "^=", "|=", "##"}
P1 == {"[", "]", "(", ")", "{", "}", ".", "&", "*", "+", "-", "~", "!", "/", "%", "<", ">", "^", "|", "?", ":", ";", "=", ",", "#"}
Cat(s) == FoldLeft(LAMBDA a, x: a \o x, "", s)
CharsOf(s) == [k \in 1..Len(s) |-> SubSeq(s, k, k)]

TriOf(c) == CASE c = "=" -> "#" [] c = "(" -> "[" [] c = "/" -> "\\" [] c = ")" -> "]" [] c = "'" -> "^"
              [] c = "<" -> "{" [] c = "!" -> "|" [] c = ">" -> "}" [] c = "-" -> "~" [] OTHER -> ""
\* phase 1: every character with its physical line; trigraphs replaced
Phys(text, tri) ==
  LET num == FoldLeft(LAMBDA a, c: [l |-> IF c = "\n" THEN a.l + 1 ELSE a.l, o |-> Append(a.o, [c |-> c, l |-> a.l])], [l |-> 1, o |-> <<>>], text).o
      n(o) == Len(o)
  IN IF ~tri THEN num
     ELSE FoldLeft(LAMBDA o, x: IF n(o) >= 2 /\ o[n(o)].c = "?" /\ o[n(o) - 1].c = "?" /\ TriOf(x.c) # ""
                                THEN Append(SubSeq(o, 1, n(o) - 2), [c |-> TriOf(x.c), l |-> o[n(o) - 1].l]) ELSE Append(o, x), <<>>, num)
\* phase 2: backslash newline removed; the text ends in a newline
Spliced(o) == LET joins(k) == o[k].c = "\n" /\ k > 1 /\ o[k - 1].c = "\\"
                  s == FoldLeft(LAMBDA a, k: IF joins(k) \/ (k < Len(o) /\ joins(k + 1)) THEN a ELSE Append(a, o[k]), <<>>, [k \in 1..Len(o) |-> k])
              IN IF s # <<>> /\ s[Len(s)].c # "\n" THEN Append(s, [c |-> "\n", l |-> s[Len(s)].l]) ELSE s

\* phase 3
At(s, i) == IF i <= Len(s) THEN s[i].c ELSE ""
RECURSIVE IdEnd(_, _), NumEnd(_, _), LitEnd(_, _, _), ComEnd(_, _), LineEnd(_, _), Space(_, _, _), HdrEnd(_, _)
IdEnd(s, i) == IF At(s, i) \in Letters \cup Digits THEN IdEnd(s, i + 1) ELSE i
NumEnd(s, i) == IF At(s, i) \in {"e", "E"} /\ At(s, i + 1) \in {"+", "-"} THEN NumEnd(s, i + 2)
                ELSE IF At(s, i) \in Letters \cup Digits \cup {"."} THEN NumEnd(s, i + 1) ELSE i
\* the index after the closing quote, 0 if the literal does not end on its line
LitEnd(s, i, q) == IF At(s, i) \in {"", "\n"} THEN 0 ELSE IF At(s, i) = q THEN i + 1
                   ELSE IF At(s, i) = "\\" THEN (IF At(s, i + 1) \in {"", "\n"} THEN 0 ELSE LitEnd(s, i + 2, q)) ELSE LitEnd(s, i + 1, q)
HdrEnd(s, i) == IF At(s, i) \in {"", "\n"} THEN 0 ELSE IF At(s, i) = ">" THEN i + 1 ELSE HdrEnd(s, i + 1)
ComEnd(s, i) == IF At(s, i) = "" THEN 0 ELSE IF At(s, i) = "*" /\ At(s, i + 1) = "/" THEN i + 2 ELSE ComEnd(s, i + 1)
LineEnd(s, i) == IF At(s, i) \in {"", "\n"} THEN i ELSE LineEnd(s, i + 1)
Space(s, i, w) == IF At(s, i) \in Blank THEN Space(s, i + 1, 1)
                  ELSE IF At(s, i) = "/" /\ At(s, i + 1) = "/" THEN Space(s, LineEnd(s, i), 1)
                  ELSE IF At(s, i) = "/" /\ At(s, i + 1) = "*" THEN (LET e == ComEnd(s, i + 2) IN IF e = 0 THEN [i |-> 0, w |-> i] ELSE Space(s, e, 1))
                  ELSE [i |-> i, w |-> w]
Tok(k, s, w, l, m) == [k |-> k, s |-> s, w |-> w, l |-> l, m |-> m, h |-> {}, f |-> ""]
BadTok(l) == Tok("bad", "", 0, l, l)
Munch(s, i) == LET s3 == At(s, i) \o At(s, i + 1) \o At(s, i + 2)
                   s2 == At(s, i) \o At(s, i + 1)
               IN IF s3 \in P3 THEN i + 3 ELSE IF s2 \in P2 THEN i + 2 ELSE i + 1
RECURSIVE Lex(_, _, _)
Lex(s, i, acc) ==
  LET sp == Space(s, i, 0)
      b == sp.i
      c == At(s, b)
      d == At(s, b + 1)
      n == Len(acc)
      inc == n >= 2 /\ acc[n].s = "include" /\ acc[n - 1].s = "#" /\ (n = 2 \/ acc[n - 2].k = "nl")
      lit(q, from) == [k |-> IF q = "'" THEN "chr" ELSE "str", e |-> LitEnd(s, from, q)]
      r == CASE c = "\n" -> [k |-> "nl", e |-> b + 1]
             [] c = "<" /\ inc -> [k |-> "hdr", e |-> HdrEnd(s, b + 1)]
             [] c \in {"'", "\""} -> lit(c, b + 1)
             [] c = "L" /\ d \in {"'", "\""} -> lit(d, b + 2)
             [] c \in Letters -> [k |-> "id", e |-> IdEnd(s, b)]
             [] c \in Digits \/ (c = "." /\ d \in Digits) -> [k |-> "num", e |-> NumEnd(s, b + 1)]
             [] c \in P1 -> [k |-> "op", e |-> Munch(s, b)]
             [] OTHER -> [k |-> "oth", e |-> Munch(s, b)]
  IN IF b = 0 THEN Append(acc, BadTok(s[sp.w].l))
     ELSE IF c = "" THEN acc
     ELSE IF r.e = 0 THEN (IF c = "L" THEN Lex(s, IdEnd(s, b), Append(acc, Tok("id", Cat([x \in 1..(IdEnd(s, b) - b) |-> s[b + x - 1].c]), sp.w, s[b].l, s[b].l)))
                           ELSE IF c = "<" THEN Lex(s, Munch(s, b), Append(acc, Tok("op", Cat([x \in 1..(Munch(s, b) - b) |-> s[b + x - 1].c]), sp.w, s[b].l, s[b].l)))
                           ELSE Lex(s, b + 1, Append(acc, Tok("lone", c, sp.w, s[b].l, s[b].l))))
     ELSE Lex(s, r.e, Append(acc, Tok(r.k, Cat([x \in 1..(r.e - b) |-> s[b + x - 1].c]), sp.w, s[b].l, s[r.e - 1].l)))
FileToks(text, tri) == Lex(Spliced(Phys(text, tri)), 1, <<>>)
\* the tokens of a string on its own
LexStr(x) == Lex([k \in 1..Len(x) |-> [c |-> SubSeq(x, k, k), l |-> 1]], 1, <<>>)

(*---------------------------- macro expansion ----------------------------*)
OpAt(ts, i) == IF i <= Len(ts) /\ ts[i].k = "op" THEN ts[i].s ELSE ""
Pm(w) == Tok("pm", "", w, 0, 0)
NoMac == [none |-> TRUE]
SetW(ts, w) == IF ts = <<>> THEN ts ELSE [ts EXCEPT ![1].w = w]
\* placemarkers disappear; white space before one is white space somewhere before the next token
DropPm(ts) == LET r == FoldLeft(LAMBDA a, t: IF t.k = "pm" THEN [a EXCEPT !.p = IF t.w # 0 THEN t.w ELSE @]
                                             ELSE [o |-> Append(a.o, IF a.p # 0 /\ t.w = 0 THEN [t EXCEPT !.w = 2] ELSE t), p |-> 0], [o |-> <<>>, p |-> 0], ts)
              IN [o |-> r.o, p |-> r.p]
\* # : the spelling of the argument as a string literal
Escaped(t) == IF t.k \in {"str", "chr"} THEN Cat([k \in 1..Len(t.s) |-> LET c == SubSeq(t.s, k, k) IN IF c \in {"\"", "\\"} THEN "\\" \o c ELSE c]) ELSE t.s
Stringise(ts, w) == LET s == "\"" \o Cat([k \in 1..Len(ts) |-> (IF k > 1 /\ ts[k].w # 0 THEN " " ELSE "") \o Escaped(ts[k])]) \o "\""
                        lx == LexStr(s)
                    IN [t |-> Tok("str", s, w, 0, 0),
                        fl |-> (IF \E k \in 2..Len(ts) : ts[k].w = 2 THEN {"white space"} ELSE {})
                               \cup (IF \E k \in 1..Len(ts) : ts[k].k = "fuzzy" THEN {"line"} ELSE {})
                               \cup (IF Len(lx) = 1 /\ lx[1].k = "str" THEN {} ELSE {"not a string literal"})]
\* ## : one token from two
Paste(a, b) == IF a.k = "pm" THEN [t |-> [b EXCEPT !.w = IF a.w = b.w THEN a.w ELSE 2], fl |-> {}]
               ELSE IF b.k = "pm" THEN [t |-> a, fl |-> {}]
               ELSE LET lx == LexStr(a.s \o b.s)
                    IN [t |-> IF Len(lx) = 1 THEN [lx[1] EXCEPT !.w = a.w, !.h = a.h \cap b.h] ELSE a,
                        fl |-> (IF Len(lx) = 1 /\ lx[1].k \notin {"bad", "lone"} /\ lx[1].w = 0 THEN {} ELSE {"not a token"})
                               \cup (IF "fuzzy" \in {a.k, b.k} THEN {"line"} ELSE {})]
PasteSeq(os, rs) == \* os ## rs, neither empty
  LET p == Paste(os[Len(os)], rs[1]) IN [o |-> SubSeq(os, 1, Len(os) - 1) \o <<p.t>> \o Tail(rs), fl |-> p.fl]

ParamIx(d, t) == IF d.fn /\ t.k = "id" THEN (LET s == {k \in DOMAIN d.ps : d.ps[k] = t.s} IN IF s = {} THEN 0 ELSE CHOOSE k \in s : TRUE) ELSE 0
OrPm(ts, w) == IF ts = <<>> THEN <<Pm(w)>> ELSE SetW(ts, w)
\* the replacement list with the arguments put in; raw and full: the arguments as spelled and expanded
RECURSIVE Subst(_, _, _, _, _, _)
Subst(d, i, raw, full, os, fl) ==
  IF i > Len(d.body) THEN LET p == DropPm(os) IN [o |-> p.o, p |-> p.p, fl |-> fl]
  ELSE LET t == d.body[i]
           nx == IF i < Len(d.body) THEN d.body[i + 1] ELSE NoMac
           isop(x) == "none" \notin DOMAIN x /\ x.k = "op" /\ x.s = "##"
           hash(k) == d.fn /\ d.body[k].k = "op" /\ d.body[k].s = "#" /\ k < Len(d.body) /\ ParamIx(d, d.body[k + 1]) # 0
           pi == ParamIx(d, t)
       IN IF isop(t)
          THEN LET j == i + 1
                   x == d.body[j]
                   xi == ParamIx(d, x)
                   st == Stringise(raw[ParamIx(d, d.body[j + 1])], x.w)
                   rs == IF hash(j) THEN <<st.t>> ELSE IF xi # 0 THEN OrPm(raw[xi], x.w) ELSE <<x>>
                   p == PasteSeq(os, rs)
               IN Subst(d, IF hash(j) THEN j + 2 ELSE j + 1, raw, full, p.o, fl \cup p.fl \cup (IF hash(j) THEN st.fl ELSE {}))
          ELSE IF hash(i) THEN LET st == Stringise(raw[ParamIx(d, nx)], t.w) IN Subst(d, i + 2, raw, full, Append(os, st.t), fl \cup st.fl)
          ELSE IF pi # 0 /\ isop(nx) THEN Subst(d, i + 1, raw, full, os \o OrPm(raw[pi], t.w), fl)
          ELSE IF pi # 0 THEN Subst(d, i + 1, raw, full, os \o OrPm(full[pi], t.w), fl)
          ELSE Subst(d, i + 1, raw, full, Append(os, t), fl)

\* arguments of an invocation: ts[i] is the "("; the index of the ")" (0: none) and the arguments
RECURSIVE Args(_, _, _, _, _)
Args(ts, i, depth, cur, done) ==
  IF i > Len(ts) THEN [e |-> 0, as |-> <<>>]
  ELSE LET t == ts[i]
           op == t.k = "op"
       IN IF op /\ t.s = ")" /\ depth = 0 THEN [e |-> i, as |-> Append(done, cur)]
          ELSE IF op /\ t.s = "," /\ depth = 0 THEN Args(ts, i + 1, depth, <<>>, Append(done, cur))
          ELSE Args(ts, i + 1, IF op /\ t.s = "(" THEN depth + 1 ELSE IF op /\ t.s = ")" THEN depth - 1 ELSE depth, Append(cur, t), done)

Builtin == {"__LINE__", "__FILE__"}
\* is token number i the name of a macro to be expanded here?
Expandable(ts, i, mac) == /\ ts[i].k = "id" /\ ts[i].s \notin ts[i].h
                          /\ \/ ts[i].s \in Builtin
                             \/ /\ ts[i].s \in DOMAIN mac
                                /\ (mac[ts[i].s].fn => i < Len(ts) /\ ts[i + 1].k = "op" /\ ts[i + 1].s = "(")
First(ts, mac) == SelectInSubSeq(ts, 1, Len(ts), LAMBDA t: t.k = "id" /\ (t.s \in Builtin \/ t.s \in DOMAIN mac) /\ t.s \notin t.h)
RECURSIVE Find(_, _, _)
Find(ts, i, mac) == LET k == SelectInSubSeq(ts, i, Len(ts), LAMBDA t: t.k = "id" /\ t.s \notin t.h /\ (t.s \in Builtin \/ t.s \in DOMAIN mac))
                    IN IF k = 0 THEN 0 ELSE IF Expandable(ts, k, mac) THEN k ELSE Find(ts, k + 1, mac)

Res(o, fl, err) == [o |-> o, fl |-> fl, err |-> err, hi |-> 0]
RECURSIVE Full(_, _, _, _), One(_, _, _)
\* ts with everything in it expanded, from index i on
Full(ts, i, mac, fl) == LET k == Find(ts, i, mac)
                        IN IF k = 0 THEN Res(ts, fl, "")
                           ELSE LET r == One(ts, k, mac)
                                IN IF r.err # "" THEN r ELSE IF Len(r.o) > 3000 THEN Res(r.o, fl \cup {"size"}, "size") ELSE Full(r.o, k, mac, fl \cup r.fl)
\* the expansion of the macro named by token k of ts, put in place
One(ts, k, mac) ==
  LET t == ts[k]
      pre == SubSeq(ts, 1, k - 1)
      \* what follows: white space of a vanished expansion stays
      put(new, p, last) == LET rest == SubSeq(ts, last + 1, Len(ts))
                               gap == IF new = <<>> /\ t.w # 0 THEN t.w ELSE p
                               r2 == IF rest # <<>> /\ gap # 0 /\ rest[1].w = 0 THEN [rest EXCEPT ![1].w = 2] ELSE rest
                           IN pre \o SetW(new, t.w) \o r2
      lines(new, hi) == [x \in DOMAIN new |-> [new[x] EXCEPT !.l = t.l, !.m = hi, !.f = t.f]]
  IN IF t.s = "__LINE__" THEN Res(put(<<[Tok(IF t.l = t.m THEN "num" ELSE "fuzzy", ToString(t.l), t.w, t.l, t.m) EXCEPT !.f = t.f]>>, 0, k), {}, "")
     ELSE IF t.s = "__FILE__" THEN Res(put(<<[Tok("str", "\"" \o t.f \o "\"", t.w, t.l, t.m) EXCEPT !.f = t.f]>>, 0, k), {}, "")
     ELSE LET d == mac[t.s] IN
     IF ~d.fn THEN LET s == Subst(d, 1, <<>>, <<>>, <<>>, {})
                       new == [x \in DOMAIN s.o |-> [s.o[x] EXCEPT !.h = @ \cup t.h \cup {t.s}]]
                   IN Res(put(lines(new, t.m), s.p, k), s.fl, "")
     ELSE LET a == Args(ts, k + 1 + 1, 0, <<>>, <<>>)
              np == Len(d.ps)
          IN IF a.e = 0 THEN Res(ts, {}, "unterminated invocation")
             ELSE IF (np = 0 /\ ~(Len(a.as) = 1 /\ a.as[1] = <<>>)) \/ (np > 0 /\ Len(a.as) # np) THEN Res(ts, {}, "number of arguments")
             ELSE LET fulls == [x \in 1..np |-> Full(a.as[x], 1, mac, {})]
                      used == {x \in 1..np : \E b \in DOMAIN d.body : ParamIx(d, d.body[b]) = x /\ ~(b > 1 /\ OpAt(d.body, b - 1) \in {"#", "##"}) /\ ~(OpAt(d.body, b + 1) = "##")}
                      bad == {x \in used : fulls[x].err # ""}
                      s == Subst(d, 1, a.as, [x \in 1..np |-> fulls[x].o], <<>>, {})
                      hs == (t.h \cap ts[a.e].h) \cup {t.s}
                      new == [x \in DOMAIN s.o |-> [s.o[x] EXCEPT !.h = @ \cup hs]]
                  IN IF bad # {} THEN [Res(ts, {}, "in argument: " \o fulls[CHOOSE x \in bad : TRUE].err) EXCEPT !.hi = ts[a.e].m]
                     ELSE [Res(put(lines(new, LET q == ts[a.e].m IN IF q > t.m THEN q ELSE t.m), s.p, a.e), s.fl \cup UNION {fulls[x].fl : x \in used}, "") EXCEPT !.hi = ts[a.e].m]

(*---------------------------- #if expressions ----------------------------*)
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Code(c) == IF c = "\n" THEN 10 ELSE IF c = "\t" THEN 9 ELSE 31 + (CHOOSE k \in 1..Len(Ascii) : SubSeq(Ascii, k, k) = c)
DigitVal(c) == LET k == Code(c) IN IF k >= 48 /\ k <= 57 THEN k - 48 ELSE IF k >= 97 /\ k <= 122 THEN k - 87 ELSE IF k >= 65 /\ k <= 90 THEN k - 55 ELSE 99
\* the value of a pp-number as an integer constant of #if, type "l" or "ul"
PPNum(s) ==
  LET cs == CharsOf(s)
      hex == Len(cs) > 2 /\ cs[1] = "0" /\ cs[2] \in {"x", "X"}
      base == IF hex THEN 16 ELSE IF cs[1] = "0" THEN 8 ELSE 10
      from == IF hex THEN 3 ELSE 1
      issuf(c) == c \in {"u", "U", "l", "L"}
      firstsuf == LET S == {k \in from..Len(cs) : issuf(cs[k])} IN IF S = {} THEN Len(cs) + 1 ELSE CHOOSE k \in S : \A j \in S : k <= j
      dg == SubSeq(cs, from, firstsuf - 1)
      sf == SubSeq(cs, firstsuf, Len(cs))
      okd == dg # <<>> /\ \A k \in DOMAIN dg : DigitVal(dg[k]) < base
      oks == Cat(sf) \in {"", "u", "U", "l", "L", "ul", "uL", "Ul", "UL", "lu", "lU", "Lu", "LU"}
      v == FoldLeft(LAMBDA a, c: WAdd(WMul(a, FromInt(base)), FromInt(DigitVal(c))), W0, dg)
      uns == (\E k \in DOMAIN sf : sf[k] \in {"u", "U"}) \/ WNegative(v)
  IN IF okd /\ oks THEN [k |-> "num", t |-> IF uns THEN "ul" ELSE "l", v |-> v] ELSE [k |-> "err"]
Escapes(c) == CASE c = "n" -> 10 [] c = "t" -> 9 [] c = "v" -> 11 [] c = "b" -> 8 [] c = "r" -> 13 [] c = "f" -> 12 [] c = "a" -> 7
                [] c = "\\" -> 92 [] c = "'" -> 39 [] c = "\"" -> 34 [] c = "?" -> 63 [] OTHER -> -1
SChar(n) == ToInt(Norm("c", FromInt(n)))
Odd(n) == n % 2 = 1
PPChr(s) == LET cs == CharsOf(s)
                b == SubSeq(cs, 2, Len(cs) - 1)
                oct == SubSeq(b, 2, Len(b))
                val == IF Len(b) = 1 THEN Code(b[1])
                       ELSE IF Len(b) >= 2 /\ b[1] = "\\" /\ Len(b) = 2 /\ Escapes(b[2]) # -1 THEN Escapes(b[2])
                       ELSE IF Len(b) >= 2 /\ Len(b) <= 4 /\ b[1] = "\\" /\ \A k \in DOMAIN oct : DigitVal(oct[k]) < 8 THEN SChar(FoldLeft(LAMBDA a, c: 8 * a + DigitVal(c), 0, oct))
                       ELSE IF Len(b) >= 3 /\ Len(b) <= 4 /\ b[1] = "\\" /\ b[2] = "x" /\ \A k \in 3..Len(b) : DigitVal(b[k]) < 16
                            THEN SChar(FoldLeft(LAMBDA a, c: 16 * a + DigitVal(c), 0, SubSeq(b, 3, Len(b))))
                       ELSE -1000
            IN IF cs[1] # "'" \/ val = -1000 THEN [k |-> "err"] ELSE [k |-> "num", t |-> "l", v |-> FromInt(val)]
Prec(s) == CASE s = "||" -> 1 [] s = "&&" -> 2 [] s = "|" -> 3 [] s = "^" -> 4 [] s = "&" -> 5 [] s \in {"==", "!="} -> 6
             [] s \in {"<", ">", "<=", ">="} -> 7 [] s \in {"<<", ">>"} -> 8 [] s \in {"+", "-"} -> 9 [] s \in {"*", "/", "%"} -> 10 [] OTHER -> 0
PErr == [e |-> [k |-> "err"], i |-> 0]
RECURSIVE PPrim(_, _), PBin(_, _, _), PLoop(_, _, _), PCond(_, _)
PPrim(ts, i) ==
  IF i > Len(ts) THEN PErr
  ELSE LET t == ts[i] IN
    CASE t.k = "num" -> [e |-> PPNum(t.s), i |-> i + 1]
      [] t.k = "chr" -> [e |-> PPChr(t.s), i |-> i + 1]
      [] OpAt(ts, i) = "(" -> LET r == PCond(ts, i + 1) IN IF r.i # 0 /\ OpAt(ts, r.i) = ")" THEN [r EXCEPT !.i = @ + 1] ELSE PErr
      [] OpAt(ts, i) \in {"!", "~", "-", "+"} -> LET r == PPrim(ts, i + 1) IN IF r.i = 0 THEN PErr ELSE [e |-> [k |-> "un", op |-> t.s, a |-> r.e], i |-> r.i]
      [] OTHER -> PErr
PLoop(ts, a, min) == IF a.i = 0 THEN PErr
                     ELSE LET op == OpAt(ts, a.i)
                              p == Prec(op)
                          IN IF p = 0 \/ p < min THEN a
                             ELSE LET b == PBin(ts, a.i + 1, p + 1)
                                  IN IF b.i = 0 THEN PErr ELSE PLoop(ts, [e |-> [k |-> "bin", op |-> op, a |-> a.e, b |-> b.e], i |-> b.i], min)
PBin(ts, i, min) == PLoop(ts, PPrim(ts, i), min)
PCond(ts, i) == LET c == PBin(ts, i, 1)
                IN IF c.i = 0 \/ OpAt(ts, c.i) # "?" THEN c
                   ELSE LET a == PCond(ts, c.i + 1)
                        IN IF a.i = 0 \/ OpAt(ts, a.i) # ":" THEN PErr
                           ELSE LET b == PCond(ts, a.i + 1)
                                IN IF b.i = 0 THEN PErr ELSE [e |-> [k |-> "cond", c |-> c.e, a |-> a.e, b |-> b.e], i |-> b.i]
RECURSIVE PType(_), PVal(_), PBad(_)
PBad(e) == CASE e.k = "num" -> FALSE [] e.k = "un" -> PBad(e.a) [] e.k = "bin" -> PBad(e.a) \/ PBad(e.b) [] e.k = "cond" -> PBad(e.c) \/ PBad(e.a) \/ PBad(e.b) [] OTHER -> TRUE
PType(e) == CASE e.k = "num" -> e.t
              [] e.k = "un" -> IF e.op = "!" THEN "l" ELSE PType(e.a)
              [] e.k = "bin" -> IF e.op \in RelOps \cup LogOps THEN "l" ELSE IF e.op \in ShiftOps THEN PType(e.a) ELSE Usual(PType(e.a), PType(e.b))
              [] e.k = "cond" -> Usual(PType(e.a), PType(e.b))
\* [def, v]: def false where C gives no value
PVal(e) == CASE e.k = "num" -> Def(e.v)
             [] e.k = "un" -> LET a == PVal(e.a) IN IF ~a.def THEN a ELSE IF e.op = "+" THEN a ELSE IF e.op = "!" THEN Def(Bool(WIsZero(a.v))) ELSE UnOp(e.op, PType(e.a), a.v)
             [] e.k = "bin" -> LET a == PVal(e.a) IN
                  IF ~a.def THEN a
                  ELSE IF e.op = "&&" /\ WIsZero(a.v) THEN Def(W0) ELSE IF e.op = "||" /\ ~WIsZero(a.v) THEN Def(Bool(TRUE))
                  ELSE LET b == PVal(e.b) IN IF ~b.def THEN b ELSE IF e.op \in LogOps THEN Def(Bool(~WIsZero(b.v)))
                             ELSE IF e.op \in {"/", "%"} /\ WIsZero(b.v) THEN [def |-> FALSE, zero |-> TRUE] ELSE BinOp(e.op, PType(e.a), a.v, PType(e.b), b.v)
             [] e.k = "cond" -> LET c == PVal(e.c) IN IF ~c.def THEN c ELSE IF ~WIsZero(c.v) THEN PVal(e.a) ELSE PVal(e.b)

\* defined X and defined ( X ) replaced
IsDef(x, mac) == x \in DOMAIN mac \cup Builtin
RECURSIVE Defineds(_, _, _, _)
Defineds(ts, i, mac, o) ==
  IF i > Len(ts) THEN [o |-> o, err |-> ""]
  ELSE LET bit(x) == Tok("num", IF IsDef(x, mac) THEN "1" ELSE "0", 1, ts[i].l, ts[i].m)
       IN IF ~(ts[i].k = "id" /\ ts[i].s = "defined") THEN Defineds(ts, i + 1, mac, Append(o, ts[i]))
          ELSE IF i + 1 <= Len(ts) /\ ts[i + 1].k = "id" THEN Defineds(ts, i + 2, mac, Append(o, bit(ts[i + 1].s)))
          ELSE IF i + 3 <= Len(ts) /\ OpAt(ts, i + 1) = "(" /\ ts[i + 2].k = "id" /\ OpAt(ts, i + 3) = ")" THEN Defineds(ts, i + 4, mac, Append(o, bit(ts[i + 2].s)))
          ELSE [o |-> <<>>, err |-> "defined"]
\* the controlling expression: [v: boolean, err, fl]
Control(ts, mac) ==
  LET d == Defineds(ts, 1, mac, <<>>)
      x == Full(d.o, 1, mac, {})
      z == [k \in DOMAIN x.o |-> IF x.o[k].k = "id" THEN [x.o[k] EXCEPT !.k = "num", !.s = "0"] ELSE x.o[k]]
      p == PCond(z, 1)
      r == PVal(p.e)
  IN IF ts = <<>> \/ d.err # "" THEN [v |-> FALSE, err |-> "expression", fl |-> {}]
     ELSE IF x.err # "" THEN [v |-> FALSE, err |-> x.err, fl |-> x.fl]
     ELSE IF \E k \in DOMAIN x.o : x.o[k].s = "defined" THEN [v |-> FALSE, err |-> "", fl |-> {"defined from a macro"}]
     ELSE IF p.i # Len(z) + 1 \/ PBad(p.e) THEN [v |-> FALSE, err |-> "expression", fl |-> x.fl]
     ELSE IF ~r.def THEN (IF "zero" \in DOMAIN r THEN [v |-> FALSE, err |-> "division by zero", fl |-> x.fl] ELSE [v |-> FALSE, err |-> "", fl |-> {"overflow in #if"}])
     ELSE [v |-> ~WIsZero(r.v), err |-> "", fl |-> x.fl \cup (IF \E k \in DOMAIN x.o : x.o[k].k = "fuzzy" THEN {"line"} ELSE {})]

(*------------------------------- directives ------------------------------*)
\* a #define: [name, d] or [err]
Define(ts) ==
  LET fn == Len(ts) >= 2 /\ OpAt(ts, 2) = "(" /\ ts[2].w = 0
      close == LET S == {k \in 3..Len(ts) : OpAt(ts, k) = ")"} IN IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : k <= j
      inner == SubSeq(ts, 3, close - 1)
      plist == /\ \A k \in DOMAIN inner : IF Odd(k) THEN inner[k].k = "id" ELSE OpAt(inner, k) = ","
               /\ (inner = <<>> \/ Odd(Len(inner)))
      ps == [k \in 1..((Len(inner) + 1) \div 2) |-> inner[2 * k - 1].s]
      body == SetW(SubSeq(ts, IF fn THEN close + 1 ELSE 2, Len(ts)), 0)
      isparam(k) == k <= Len(body) /\ body[k].k = "id" /\ \E j \in DOMAIN ps : ps[j] = body[k].s
  IN IF ts = <<>> \/ ts[1].k # "id" THEN [err |-> "name"]
     ELSE IF fn /\ (close = 0 \/ ~plist) THEN [err |-> "parameters"]
     ELSE IF fn /\ \E j, k \in DOMAIN ps : j < k /\ ps[j] = ps[k] THEN [err |-> "duplicate parameter"]
     ELSE IF body # <<>> /\ (OpAt(body, 1) = "##" \/ OpAt(body, Len(body)) = "##") THEN [err |-> "## at an end"]
     ELSE IF fn /\ \E k \in DOMAIN body : OpAt(body, k) = "#" /\ ~isparam(k + 1) THEN [err |-> "# without a parameter"]
     ELSE [err |-> "", name |-> ts[1].s, d |-> [fn |-> fn, ps |-> IF fn THEN ps ELSE <<>>, body |-> body]]
Same(d1, d2) == /\ d1.fn = d2.fn /\ d1.ps = d2.ps /\ Len(d1.body) = Len(d2.body)
                /\ \A k \in DOMAIN d1.body : d1.body[k].s = d2.body[k].s /\ d1.body[k].w = d2.body[k].w

(*--------------------------- the state machine ---------------------------*)
\* frame: the file's tokens, the position, the presumed name and line offset, the open conditionals
\* conditional: "on" (group processed), "seek" (no group taken yet), "past" (a group was taken), "dead" (all is skipped)
CaseFiles(p) == Cases[p].files
Frame(p, k) == [k |-> k, pos |-> 1, name |-> CaseFiles(p)[k].path, off |-> 0, conds |-> <<>>]
Top(st) == st.stk[Len(st.stk)]
On(fr) == \A k \in DOMAIN fr.conds : fr.conds[k].s = "on"
\* the first physical line of the logical line with physical line l
Logical(ts, l) == FoldLeft(LAMBDA a, t: IF t.k = "nl" /\ t.m < l THEN t.m + 1 ELSE a, 1, ts)
Fail(st, what, l) == [st EXCEPT !.err = what, !.eline = Logical(st.toks[Top(st).k], l) + Top(st).off, !.emax = l + Top(st).off, !.efile = Top(st).name, !.done = TRUE]
FailAt(st, what, l, fl) == [Fail(st, what, l) EXCEPT !.fl = @ \cup fl]
SetTop(st, fr) == [st EXCEPT !.stk[Len(st.stk)] = fr]

EolFrom(ts, i) == LET k == SelectInSubSeq(ts, i, Len(ts), LAMBDA t: t.k = "nl") IN IF k = 0 THEN Len(ts) + 1 ELSE k
LineStart(ts, i) == i = 1 \/ ts[i - 1].k = "nl"
\* the first directive at or after i (the end of the file if there is none)
RECURSIVE NextDir(_, _)
NextDir(ts, i) == IF i > Len(ts) THEN i ELSE IF OpAt(ts, i) = "#" THEN i ELSE NextDir(ts, EolFrom(ts, i) + 1)

Cond(s, else) == [s |-> s, else |-> else]
PushCond(st, c) == [st EXCEPT !.stk[Len(st.stk)].conds = Append(@, c)]
TopCond(st) == Top(st).conds[Len(Top(st).conds)]
SetCond(st, c) == [st EXCEPT !.stk[Len(st.stk)].conds[Len(Top(st).conds)] = c]

FileIx(p, path) == LET S == {k \in 1..Len(CaseFiles(p)) : CaseFiles(p)[k].path = path} IN IF S = {} THEN 0 ELSE CHOOSE k \in S : TRUE
Resolve(p, st, name, system) ==
  LET tries == (IF system THEN <<>> ELSE <<CaseFiles(p)[Top(st).k].dir>>) \o Cases[p].incs
      S == {k \in DOMAIN tries : FileIx(p, tries[k] \o name) # 0}
  IN IF S = {} THEN 0 ELSE FileIx(p, tries[CHOOSE k \in S : \A j \in S : k <= j] \o name)

\* a comment without an end in tokens i to e, a quote without its partner
Bad(ts, i, e) == {k \in i..(IF e > Len(ts) THEN Len(ts) ELSE e) : ts[k].k = "bad"}
Lone(ts, i, e) == \E k \in i..(IF e > Len(ts) THEN Len(ts) ELSE e) : ts[k].k = "lone"

\* the directive at position i of the top file
Directive(p, st, i) ==
  LET fr == Top(st)
      ts == st.toks[fr.k]
      e == EolFrom(ts, i)
      ln == ts[i].l
      body == [x \in 1..(e - i - 1) |-> [ts[i + x] EXCEPT !.l = @ + fr.off, !.m = @ + fr.off, !.f = fr.name]]
      st1 == SetTop(st, [fr EXCEPT !.pos = e + 1])
      name == IF body = <<>> THEN "" ELSE body[1].s
      rest == IF body = <<>> THEN <<>> ELSE Tail(body)
      on == On(fr)
      nc == Len(fr.conds)
      bad(what) == Fail(st1, what, ln)
      ident == rest # <<>> /\ rest[1].k = "id"
      extra(s, n) == IF Len(rest) > n THEN [s EXCEPT !.fl = @ \cup {"extra tokens"}] ELSE s
      ctl == Control(rest, st.mac)
      str(t) == SubSeq(t.s, 2, Len(t.s) - 1)
      \* #include and #line operands
      ops == IF rest # <<>> /\ rest[1].k = "id" THEN Full(rest, 1, st.mac, {}) ELSE Res(rest, {}, "")
  IN CASE Lone(ts, i, e) /\ (on \/ name = "elif") /\ name \notin {"error", "warning", "pragma"} -> [st EXCEPT !.done = TRUE, !.fl = @ \cup {"quote without an end"}]
       [] name \in {"if", "ifdef", "ifndef"} ->
            IF ~on THEN PushCond(st1, Cond("dead", FALSE))
            ELSE IF name = "if" THEN (IF ctl.err # "" THEN FailAt(st1, ctl.err, ln, ctl.fl) ELSE [PushCond(st1, Cond(IF ctl.v THEN "on" ELSE "seek", FALSE)) EXCEPT !.fl = @ \cup ctl.fl])
            ELSE IF ~ident THEN bad("identifier") ELSE extra(PushCond(st1, Cond(IF IsDef(rest[1].s, st.mac) = (name = "ifdef") THEN "on" ELSE "seek", FALSE)), 1)
       [] name = "elif" ->
            IF nc = 0 THEN bad("elif without if")
            ELSE LET c == TopCond(st) IN
                 IF c.else THEN bad("elif after else")
                 ELSE IF c.s = "dead" THEN st1
                 ELSE IF c.s \in {"on", "past"} THEN SetCond(st1, Cond("past", FALSE))
                 ELSE IF ctl.err # "" THEN FailAt(st1, ctl.err, ln, ctl.fl)
                 ELSE [SetCond(st1, Cond(IF ctl.v THEN "on" ELSE "seek", FALSE)) EXCEPT !.fl = @ \cup ctl.fl]
       [] name = "else" ->
            IF nc = 0 THEN bad("else without if")
            ELSE LET c == TopCond(st) IN
                 IF c.else THEN bad("else after else")
                 ELSE extra(SetCond(st1, Cond(CASE c.s = "dead" -> "dead" [] c.s = "seek" -> "on" [] OTHER -> "past", TRUE)), 0)
       [] name = "endif" -> IF nc = 0 THEN bad("endif without if") ELSE extra([st1 EXCEPT !.stk[Len(st1.stk)].conds = SubSeq(@, 1, nc - 1)], 0)
       [] ~on -> st1
       [] name = "" -> st1
       [] name = "define" -> LET d == Define(rest) IN
            IF d.err # "" THEN bad(d.err)
            ELSE IF d.name \in Builtin \cup {"defined"} THEN [st1 EXCEPT !.fl = @ \cup {"reserved"}]
            ELSE [st1 EXCEPT !.mac = [x \in DOMAIN st.mac \cup {d.name} |-> IF x = d.name THEN d.d ELSE st.mac[x]],
                             !.fl = @ \cup (IF d.name \in DOMAIN st.mac /\ ~Same(st.mac[d.name], d.d) THEN {"redefinition"} ELSE {})]
       [] name = "undef" -> IF ~ident THEN bad("identifier") ELSE IF rest[1].s \in Builtin THEN [st1 EXCEPT !.fl = @ \cup {"reserved"}]
                            ELSE extra([st1 EXCEPT !.mac = [x \in DOMAIN st.mac \ {rest[1].s} |-> st.mac[x]]], 1)
       [] name = "include" ->
            IF ops.err # "" THEN FailAt(st1, ops.err, ln, ops.fl)
            ELSE LET o == ops.o
                     sys == o # <<>> /\ (o[1].k = "hdr" \/ OpAt(o, 1) = "<")
                     close == LET S == {k \in DOMAIN o : OpAt(o, k) = ">"} IN IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : k <= j
                     nm == IF o[1].k \in {"hdr", "str"} THEN str(o[1]) ELSE Cat([k \in 1..(close - 2) |-> o[k + 1].s])
                     f == Resolve(p, st, nm, sys)
                 IN IF o = <<>> \/ ~(o[1].k \in {"hdr", "str"} \/ (OpAt(o, 1) = "<" /\ close # 0)) THEN bad("include")
                    ELSE IF f = 0 THEN bad("no such file")
                    ELSE LET s2 == extra([st1 EXCEPT !.stk = Append(@, Frame(p, f)), !.fl = @ \cup ops.fl], IF rest[1].k \in {"hdr", "str"} THEN 1 ELSE 99)
                         IN IF Len(s2.stk) > 12 THEN [s2 EXCEPT !.done = TRUE, !.fl = @ \cup {"depth"}]
                            ELSE IF \E k \in 2..Len(o) : o[1].k \notin {"hdr", "str"} /\ o[k].w # 0 THEN [s2 EXCEPT !.fl = @ \cup {"white space"}] ELSE s2
       [] name = "line" ->
            IF ops.err # "" THEN FailAt(st1, ops.err, ln, ops.fl)
            ELSE LET o == ops.o
                     ok == /\ o # <<>> /\ o[1].k = "num" /\ \A c \in ToSet(CharsOf(o[1].s)) : c \in Digits
                           /\ (Len(o) >= 2 => o[2].k = "str" /\ SubSeq(o[2].s, 1, 1) = "\"")
                     n == FoldLeft(LAMBDA a, c: 10 * a + DigitVal(c), 0, CharsOf(o[1].s))
                 IN IF ~ok THEN bad("line")
                    ELSE [st1 EXCEPT !.stk[Len(st1.stk)].off = n - 1 - (IF e <= Len(ts) THEN ts[e].l ELSE ln), !.stk[Len(st1.stk)].name = IF Len(o) >= 2 THEN str(o[2]) ELSE @,
                                     !.fl = @ \cup ops.fl \cup (IF Len(o) > 2 THEN {"extra tokens"} ELSE {})]
       [] name = "error" -> bad("error")
       [] name \in {"pragma", "warning"} -> st1
       [] body[1].k = "num" -> [st1 EXCEPT !.fl = @ \cup {"line marker"}]
       [] OTHER -> bad("unknown directive")

\* a run of text lines, from i up to the directive or end of file at e
TextRun(st, i, e, ts) ==
  LET fr == Top(st)
      r == FoldLeft(LAMBDA a, x: IF ts[x].k = "nl" THEN [a EXCEPT !.nl = TRUE]
                                 ELSE [o |-> Append(a.o, [ts[x] EXCEPT !.w = IF a.nl THEN 1 ELSE @, !.l = @ + fr.off, !.m = @ + fr.off, !.f = fr.name]), nl |-> FALSE],
                    [o |-> <<>>, nl |-> FALSE], [x \in 1..(e - i) |-> i + x - 1])
  IN r.o
\* lines put together by splices and comments: printed lines may be those of any of their tokens
Joins(st, i, e, ts) == LET fr == Top(st)
                           J == SelectSeq([x \in 1..(e - i) |-> i + x - 1], LAMBDA x: x + 1 < e /\ ts[x].k # "nl" /\ ts[x + 1].k # "nl" /\ ts[x].l < ts[x + 1].m)
                           \* lines before the first token of a line
                           F == SelectSeq([x \in 1..(e - i) |-> i + x - 1], LAMBDA x: ts[x].k # "nl" /\ IF x = 1 THEN ts[x].m > 1 ELSE ts[x - 1].k = "nl" /\ ts[x].m > ts[x - 1].m + 1)
                       IN [k \in DOMAIN J |-> <<fr.name, ts[J[k]].l + fr.off, ts[J[k] + 1].m + fr.off>>]
                          \o [k \in DOMAIN F |-> <<fr.name, (IF F[k] = 1 THEN 0 ELSE ts[F[k] - 1].m) + 1 + fr.off, ts[F[k]].m + fr.off>>]

Step(p, st) ==
  LET fr == Top(st)
      ts == st.toks[fr.k]
      last == Len(st.stk) = 1
      k == Find(st.in, 1, st.mac)
      e == NextDir(ts, fr.pos)
  IN IF st.in # <<>>
     THEN IF k = 0
          THEN LET x == st.in[Len(st.in)]
                   \* a function-like macro name at the end of the run: its "(" would have to come from elsewhere
                   open == x.k = "id" /\ x.s \in DOMAIN st.mac /\ st.mac[x.s].fn /\ x.s \notin x.h /\ ~(last /\ fr.pos > Len(ts))
               IN [st EXCEPT !.out = @ \o st.in, !.in = <<>>, !.fl = @ \cup (IF open THEN {"invocation across a directive"} ELSE {})]
          ELSE LET r == One(st.in, k, st.mac)
               IN IF r.err # "" THEN [FailAt(st, r.err, 0, r.fl \cup (IF r.err = "unterminated invocation" /\ ~(last /\ fr.pos > Len(ts)) THEN {"invocation across a directive"} ELSE {}))
                                      EXCEPT !.eline = st.in[k].l, !.emax = IF r.hi > st.in[k].m THEN r.hi ELSE st.in[k].m]
                  ELSE [st EXCEPT !.out = @ \o SubSeq(r.o, 1, k - 1), !.in = SubSeq(r.o, k, Len(r.o)), !.n = @ + 1,
                                  !.spans = IF r.hi > st.in[k].l THEN Append(@, <<st.in[k].f, st.in[k].l, r.hi>>) ELSE @,
                                  !.done = @ \/ Len(r.o) > 3000 \/ st.n > 3000, !.fl = @ \cup r.fl \cup (IF Len(r.o) > 3000 \/ st.n > 3000 THEN {"size"} ELSE {})]
     ELSE IF Bad(ts, fr.pos, IF e = fr.pos THEN EolFrom(ts, e) ELSE e) # {} THEN Fail(st, "unterminated comment", ts[Len(ts)].l)
     ELSE IF fr.pos > Len(ts)
     THEN IF fr.conds # <<>> THEN Fail(st, "unterminated if", IF ts = <<>> THEN 1 ELSE ts[Len(ts)].l)
          ELSE IF last THEN [st EXCEPT !.done = TRUE] ELSE [st EXCEPT !.stk = SubSeq(@, 1, Len(@) - 1)]
     ELSE IF e = fr.pos THEN Directive(p, st, e)
     ELSE IF ~On(fr) THEN SetTop(st, [fr EXCEPT !.pos = e])
     ELSE IF Lone(ts, fr.pos, e) THEN [st EXCEPT !.done = TRUE, !.fl = @ \cup {"quote without an end"}]
     ELSE [SetTop(st, [fr EXCEPT !.pos = e]) EXCEPT !.in = TextRun(st, fr.pos, e, ts), !.spans = @ \o Joins(st, fr.pos, e, ts)]

Start(p) ==
  LET cli == FoldLeft(LAMBDA m, x: LET b == SetW(FileToks(x.text, FALSE), 0)
                                       d == [fn |-> FALSE, ps |-> <<>>, body |-> SelectSeq(b, LAMBDA t: t.k # "nl")]
                                   IN [y \in DOMAIN m \cup {x.name} |-> IF y = x.name THEN d ELSE m[y]], <<>>, Cases[p].defs)
  IN [toks |-> [k \in 1..Len(Cases[p].files) |-> FileToks(Cases[p].files[k].text, Cases[p].tri)], stk |-> <<Frame(p, 1)>>, mac |-> cli, in |-> <<>>, out |-> <<>>, err |-> "", eline |-> 0, emax |-> 0, efile |-> "", spans |-> <<>>, fl |-> {}, n |-> 0, done |-> FALSE]

VARIABLES case, act, phase
vars == <<case, act, phase>>
Nothing == [none |-> TRUE]
Init == case \in 1..Len(Cases) /\ act = Nothing /\ phase = "load"
Begin == phase = "load" /\ act' = Start(case) /\ phase' = "run" /\ UNCHANGED case
Run == phase = "run" /\ ~act.done /\ act' = Step(case, act) /\ UNCHANGED <<case, phase>>
Finish == /\ phase = "run" /\ act.done
          /\ JsonSerialize(IOEnv.VF_OUT \o "/" \o ToString(case),
               [out |-> [k \in DOMAIN act.out |-> <<act.out[k].s, act.out[k].l, act.out[k].m, act.out[k].f, IF act.out[k].k = "fuzzy" THEN 1 ELSE 0>>],
                err |-> act.err, eline |-> act.eline, emax |-> act.emax, efile |-> act.efile, spans |-> act.spans, fl |-> SetToSeq(act.fl), n |-> act.n])
          /\ phase' = "end" /\ act' = Nothing /\ UNCHANGED case
Next == Begin \/ Run \/ Finish
Spec == Init /\ [][Next]_vars

\* Properties of the machine itself
Running == phase = "run"
\* nothing that could still be expanded is ever output
Expanded == Running => \A k \in DOMAIN act.out : act.out[k].k \notin {"nl", "pm", "bad"}
\* conditionals: a group is processed only if every enclosing one is; what is below a skipped group is dead
Nested == Running => \A f \in DOMAIN act.stk : \A k \in DOMAIN act.stk[f].conds :
             (\E j \in 1..(k - 1) : act.stk[f].conds[j].s # "on") <=> act.stk[f].conds[k].s = "dead"
\* files are entered only from processed groups
Entered == Running => \A f \in 1..(Len(act.stk) - 1) : On(act.stk[f])
\* output is never retracted, and nothing is output while a group is skipped
Monotone == [][phase = "run" /\ phase' = "run" => /\ Len(act.out) <= Len(act'.out) /\ SubSeq(act'.out, 1, Len(act.out)) = act.out
                                                  /\ (~On(Top(act)) => act'.out = act.out)]_vars
\* a token never has more than the macros defined so far in its hide set
=============================================================================
