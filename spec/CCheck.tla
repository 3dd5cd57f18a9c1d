------------------------------- MODULE CCheck -------------------------------
(* The static semantics of C: scopes, name spaces, linkage, labels, switches, the types of expressions and the constraints
   on them. A program is a sequence of events (declarations, statements, block boundaries); the machine checks one after
   the other and stops at the first that violates a constraint. The verdict is "bad" for the constraints the compiler
   diagnoses, "may" where the standard has a constraint that the compiler documents or is known to relax (a warning, or an
   extension), "ok" otherwise. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Progs == JsonDeserialize(IOEnv.VF_PROGS)
VARIABLES prog, s, phase
vars == <<prog, s, phase>>

\* ---- types: [k kind, c const, t <<target>>, n elements, tag, ps parameters, proto, var]
Ty(k) == [k |-> k, c |-> 0, t |-> <<>>, n |-> 0, tag |-> "", ps |-> <<>>, proto |-> 0, var |-> 0]
PtrTo(t) == [Ty("ptr") EXCEPT !.t = <<t>>]
Tgt(t) == t.t[1]
IntKinds == {"char", "schar", "uchar", "short", "ushort", "int", "uint", "long", "ulong", "enum"}
FloatKinds == {"float", "double", "ldouble"}
IsInt(t) == t.k \in IntKinds
IsFloat(t) == t.k \in FloatKinds
IsArith(t) == IsInt(t) \/ IsFloat(t)
IsPtr(t) == t.k = "ptr"
IsScalar(t) == IsArith(t) \/ IsPtr(t)
IsFn(t) == t.k = "fn"
IsRec(t) == t.k \in {"struct", "union"}
IsVoidPtr(t) == IsPtr(t) /\ Tgt(t).k = "void"
\* kinds that are one type to the compiler's compatibility check, which ignores the signedness
Class(k) == CASE k \in {"char", "schar", "uchar"} -> 1 [] k \in {"short", "ushort"} -> 2 [] k \in {"int", "uint", "enum"} -> 3 [] k \in {"long", "ulong"} -> 4 [] OTHER -> 0
Done(st, t) == ~IsRec(t) \/ st[t.tag].done = 1
Incomplete(st, t) == ~Done(st, t) \/ (t.k = "arr" /\ t.n = 0)

\* ---- compatibility: "yes", "no", or "may" where the compiler's check is weaker than the standard's
Worse(a, b) == IF a = "no" \/ b = "no" THEN "no" ELSE IF a = "may" \/ b = "may" THEN "may" ELSE "yes"
RECURSIVE Compat(_, _)
Compat(a, b) ==
  IF a.k # b.k THEN IF Class(a.k) # 0 /\ Class(a.k) = Class(b.k) THEN IF {a.k, b.k} = {"int", "enum"} THEN "yes" ELSE "may" ELSE IF a.k \in {"ptr", "arr"} /\ b.k \in {"ptr", "arr"} THEN "may" ELSE "no"
  ELSE IF a.k \in {"ptr", "arr"} THEN
    LET t == Compat(Tgt(a), Tgt(b)) IN
    IF a.k = "arr" /\ a.n # 0 /\ b.n # 0 /\ a.n # b.n THEN "no" ELSE IF t = "yes" /\ Tgt(a).c # Tgt(b).c THEN "may" ELSE t
  ELSE IF a.k = "fn" THEN
    LET r == IF Tgt(a).c # Tgt(b).c THEN "no" ELSE Compat(Tgt(a), Tgt(b))
        par(i) == IF a.ps[i].c # b.ps[i].c THEN "may" ELSE Compat(a.ps[i], b.ps[i])
    IN IF a.proto = 0 \/ b.proto = 0 THEN IF a.proto = b.proto THEN r ELSE Worse(r, "may")
       ELSE IF a.var # b.var \/ Len(a.ps) # Len(b.ps) THEN "no"
       ELSE FoldLeft(LAMBDA x, i: Worse(x, par(i)), r, [i \in 1..Len(a.ps) |-> i])
  ELSE IF IsRec(a) \/ a.k = "enum" THEN IF a.tag = b.tag THEN "yes" ELSE "may" ELSE "yes"
TopCompat(a, b) == IF a.c # b.c THEN "no" ELSE Compat(a, b)

\* ---- values of expressions
Val(t) == [r |-> "ok", why |-> "", ty |-> t, lv |-> 0, bf |-> 0, cv |-> <<>>, kst |-> "no", reg |-> 0]
Fail(r, why) == [Val(Ty("int")) EXCEPT !.r = r, !.why = why]
Bad(why) == Fail("bad", why)
May(why) == Fail("may", why)
Lv(t) == [Val(t) EXCEPT !.lv = 1]
\* arrays and functions decay
Decay(v) == IF v.ty.k = "arr" THEN [v EXCEPT !.ty = PtrTo(Tgt(v.ty)), !.lv = 0] ELSE IF IsFn(v.ty) THEN [v EXCEPT !.ty = PtrTo(v.ty), !.lv = 0] ELSE v
IsNull(v) == (v.cv = <<0>> /\ IsInt(v.ty)) \/ (v.cv = <<0>> /\ IsVoidPtr(v.ty))
Rank(t) == CASE t.k \in {"long", "ulong"} -> 5 [] t.k = "float" -> 6 [] t.k = "double" -> 7 [] t.k = "ldouble" -> 8 [] OTHER -> 4
Promote(t) == IF IsInt(t) /\ t.k \notin {"uint", "long", "ulong"} THEN Ty("int") ELSE [t EXCEPT !.c = 0]
Usual(a, b) == LET x == Promote(a) y == Promote(b) IN
               IF Rank(x) > Rank(y) THEN x ELSE IF Rank(y) > Rank(x) THEN y ELSE IF x.k \in {"uint", "ulong"} THEN x ELSE y
\* the difference of two pointer objects and what short-circuiting or a constant condition leaves out may be taken for a constant
Kst(vs) == IF \A i \in 1..Len(vs) : vs[i].kst = "num" THEN "num" ELSE IF \E i \in 1..Len(vs) : vs[i].kst = "diff" THEN "diff" ELSE "no"
KstFirst(a, vs) == IF a.kst \in {"num", "addr"} /\ Kst(vs) = "no" THEN "diff" ELSE Kst(vs)
AddrKst(p, i) == IF p.kst = "addr" /\ i.kst = "num" THEN "addr" ELSE IF i.kst = "diff" THEN "diff" ELSE "no"
Num(t, vs) == [Val(t) EXCEPT !.kst = Kst(vs)]
\* an object that may be assigned to
RECURSIVE HasConst(_, _)
HasConst(st, t) == t.c = 1 \/ (IsRec(t) /\ st[t.tag].done = 1 /\ \E i \in 1..Len(st[t.tag].ms) : HasConst(st, st[t.tag].ms[i].ty)) \/ (t.k = "arr" /\ HasConst(st, Tgt(t)))
Modifiable(st, v) == IF v.r # "ok" THEN v
                     ELSE IF v.lv # 1 THEN (IF v.ty.k = "arr" \/ v.lv = 2 THEN May("lvalue") ELSE Bad("lvalue"))
                     ELSE IF v.ty.k = "arr" THEN May("array is not modifiable")
                     ELSE IF v.ty.c = 1 THEN Bad("const") ELSE IF HasConst(st, v.ty) THEN Bad("const member") ELSE v
\* conversion as if by assignment of v to the type t
Assignable(st, t, v0) ==
  LET v == Decay(v0) u == v.ty IN
  IF v0.ty.k = "void" THEN "bad"
  ELSE IF IsArith(t) /\ IsArith(u) THEN "ok"
  ELSE IF IsRec(t) /\ IsRec(u) /\ t.tag = u.tag /\ Done(st, t) THEN "ok"
  ELSE IF IsPtr(t) /\ IsNull(v) THEN "ok"
  ELSE IF IsPtr(t) /\ IsPtr(u) THEN
    IF Tgt(u).c = 1 /\ Tgt(t).c = 0 THEN "may"
    ELSE IF IsVoidPtr(t) /\ ~IsFn(Tgt(u)) THEN "ok" ELSE IF IsVoidPtr(u) /\ ~IsFn(Tgt(t)) THEN "ok"
    ELSE IF Compat(Tgt(t), Tgt(u)) = "yes" THEN "ok" ELSE "may"
  ELSE IF IsPtr(t) /\ IsFn(Tgt(t)) /\ v.kst = "num" THEN "bad"
  ELSE IF IsRec(t) # IsRec(u) THEN "bad"
  ELSE "may"

Arg2(op, st, a, b) ==    \* decayed operands
  LET x == a.ty y == b.ty
      both(P(_)) == P(x) /\ P(y)
      scalar == both(IsScalar)
      cmp == Compat(Tgt(x), Tgt(y))
      objptr(t) == IsPtr(t) /\ Tgt(t).k # "void" /\ ~IsFn(Tgt(t)) /\ ~Incomplete(st, Tgt(t))
      num == Num(Usual(x, y), <<a, b>>)
      bool == Num(Ty("int"), <<a, b>>)
  IN
  CASE op \in {"*", "/"} -> IF both(IsArith) THEN (IF op = "/" /\ b.cv = <<0>> THEN May("division by zero") ELSE num) ELSE Bad("multiplicative operand")
    [] op = "%" -> IF both(IsInt) THEN (IF b.cv = <<0>> THEN May("division by zero") ELSE num) ELSE Bad("% operand")
    [] op \in {"&", "|", "^"} -> IF both(IsInt) THEN num ELSE Bad("bitwise operand")
    [] op \in {"<<", ">>"} -> IF both(IsInt) THEN (IF b.kst = "num" /\ b.cv \notin {<<i>> : i \in 0..31} THEN May("shift count") ELSE Num(Promote(x), <<a, b>>)) ELSE Bad("shift operand")
    [] op = "+" -> IF both(IsArith) THEN num
                   ELSE IF (objptr(x) /\ IsInt(y)) THEN [Val(x) EXCEPT !.ty.c = 0, !.kst = AddrKst(a, b)] ELSE IF (objptr(y) /\ IsInt(x)) THEN [Val(y) EXCEPT !.ty.c = 0, !.kst = AddrKst(b, a)]
                   ELSE IF (IsPtr(x) /\ IsInt(y)) \/ (IsPtr(y) /\ IsInt(x)) THEN May("arithmetic on a pointer to no object")
                   ELSE Bad("+ operand")
    [] op = "-" -> IF both(IsArith) THEN num
                   ELSE IF objptr(x) /\ IsInt(y) THEN [Val(x) EXCEPT !.ty.c = 0, !.kst = AddrKst(a, b)]
                   ELSE IF IsPtr(x) /\ IsInt(y) THEN May("arithmetic on a pointer to no object")
                   ELSE IF both(IsPtr) THEN (IF both(objptr) /\ cmp = "yes" THEN [Val(Ty("long")) EXCEPT !.kst = "diff"] ELSE IF both(objptr) /\ cmp = "no" THEN Bad("- of different pointers") ELSE May("- of pointers"))
                   ELSE Bad("- operand")
    [] op \in {"<", ">", "<=", ">="} -> IF both(IsArith) THEN bool
                   ELSE IF both(IsPtr) THEN (IF cmp = "yes" /\ ~IsFn(Tgt(x)) THEN bool ELSE May("relation of pointers"))
                   ELSE IF scalar THEN May("relation of pointer and number") ELSE Bad("relational operand")
    [] op \in {"==", "!="} -> IF both(IsArith) THEN bool
                   ELSE IF (IsPtr(x) /\ IsNull(b)) \/ (IsPtr(y) /\ IsNull(a)) THEN bool
                   ELSE IF both(IsPtr) THEN (IF cmp = "yes" THEN bool ELSE IF (IsVoidPtr(x) /\ ~IsFn(Tgt(y))) \/ (IsVoidPtr(y) /\ ~IsFn(Tgt(x))) THEN bool
                                             ELSE IF cmp = "no" /\ ~IsVoidPtr(x) /\ ~IsVoidPtr(y) /\ ~(both(LAMBDA t: IsFn(Tgt(t)))) THEN Bad("equality of different pointers") ELSE May("equality of pointers"))
                   ELSE IF (IsPtr(x) /\ b.kst = "diff") \/ (IsPtr(y) /\ a.kst = "diff") THEN May("equality operand") ELSE Bad("equality operand")
    [] OTHER -> IF scalar THEN [bool EXCEPT !.kst = KstFirst(a, <<a, b>>)] ELSE Bad("&& or || operand")

Cond3(st, c, a0, b0) ==
  LET a == Decay(a0) b == Decay(b0) x == a.ty y == b.ty IN
  IF ~IsScalar(Decay(c).ty) THEN Bad("?: condition")
  ELSE IF IsArith(x) /\ IsArith(y) THEN [Num(Usual(x, y), <<c, a, b>>) EXCEPT !.kst = KstFirst(c, <<c, a, b>>)]
  ELSE IF IsRec(x) /\ IsRec(y) THEN IF x.tag = y.tag /\ x.k = y.k THEN (IF x.c = y.c THEN Val(x) ELSE May("?: qualifiers")) ELSE May("?: structs")
  ELSE IF x.k = "void" /\ y.k = "void" THEN Val(x)
  ELSE IF IsPtr(x) /\ IsNull(b) THEN Val(x) ELSE IF IsPtr(y) /\ IsNull(a) THEN Val(y)
  ELSE IF IsPtr(x) /\ IsPtr(y) THEN
    LET cmp == Compat(Tgt(x), Tgt(y)) con == IF Tgt(x).c = 1 \/ Tgt(y).c = 1 THEN 1 ELSE 0 IN
    IF cmp = "yes" THEN Val([x EXCEPT !.t[1].c = con])
    ELSE IF (IsVoidPtr(x) /\ ~IsFn(Tgt(y))) \/ (IsVoidPtr(y) /\ ~IsFn(Tgt(x))) THEN Val(PtrTo([Ty("void") EXCEPT !.c = con]))
    ELSE IF cmp = "no" /\ ~IsVoidPtr(x) /\ ~IsVoidPtr(y) THEN Bad("?: pointers") ELSE May("?: pointers")
  ELSE IF (IsPtr(x) /\ b.kst = "diff") \/ (IsPtr(y) /\ a.kst = "diff") THEN May("?: operands") ELSE Bad("?: operands")

AssignOps == {"+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>="}
BinOf(o) == CASE o = "+=" -> "+" [] o = "-=" -> "-" [] o = "*=" -> "*" [] o = "/=" -> "/" [] o = "%=" -> "%" [] o = "&=" -> "&" [] o = "|=" -> "|" [] o = "^=" -> "^" [] o = "<<=" -> "<<" [] OTHER -> ">>"
BinOps == {"*", "/", "%", "+", "-", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "&", "|", "^", "&&", "||"}

\* ---- scopes
Empty == [x \in {} |-> 0]
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
ScopesWith(sc, f(_), n) == {i \in 1..Len(sc) : n \in DOMAIN f(sc[i])}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Ids(c) == c.ids
Tags(c) == c.tags
Visible(sc, n) == ScopesWith(sc, Ids, n) # {}
Lookup(sc, n) == sc[MaxOf(ScopesWith(sc, Ids, n))].ids[n]
TagVisible(sc, n) == ScopesWith(sc, Tags, n) # {}
TagOf(sc, n) == sc[MaxOf(ScopesWith(sc, Tags, n))].tags[n]

\* the type with its tags and typedef names replaced by what they mean here; kind "none" if one means nothing or something else
None == Ty("none")
RECURSIVE Resolve(_, _)
Resolve(e, t) ==
  LET kids == [i \in 1..Len(t.t) |-> Resolve(e, t.t[i])]
      ps == [i \in 1..Len(t.ps) |-> Resolve(e, t.ps[i])]
      base == [t EXCEPT !.t = kids, !.ps = ps]
  IN IF (\E i \in 1..Len(kids) : kids[i].k = "none") \/ (\E i \in 1..Len(ps) : ps[i].k = "none") THEN (IF \E i \in 1..Len(kids) : kids[i].k = "none" THEN [None EXCEPT !.tag = kids[1].tag] ELSE [None EXCEPT !.tag = "param"])
     ELSE IF t.k \in {"struct", "union", "enum"} THEN
       IF ~TagVisible(e.sc, t.tag) THEN [None EXCEPT !.tag = "unknown"]
       ELSE LET g == TagOf(e.sc, t.tag) IN IF g.k # t.k THEN [None EXCEPT !.tag = "kind"] ELSE [base EXCEPT !.tag = g.u]
     ELSE IF t.k = "name" THEN
       IF ~Visible(e.sc, t.tag) THEN [None EXCEPT !.tag = "notype"]
       ELSE LET g == Lookup(e.sc, t.tag) IN IF g.w # "typedef" THEN [None EXCEPT !.tag = "notype"] ELSE [g.ty EXCEPT !.c = IF @ = 1 \/ t.c = 1 THEN 1 ELSE 0]
     ELSE base
TypeVerdict(t) == IF t.k # "none" THEN "ok" ELSE IF t.tag = "kind" THEN "bad" ELSE "may"

\* an array or function somewhere in the declarator that C does not have
RECURSIVE Malformed(_, _)
Malformed(e, t) == CASE t.k = "arr" -> IF ~Done(e.st, Tgt(t)) THEN "bad" ELSE IF IsFn(Tgt(t)) \/ Tgt(t).k = "void" \/ Incomplete(e.st, Tgt(t)) THEN "may" ELSE Malformed(e, Tgt(t))
                     [] t.k = "fn" -> LET ps == {Malformed(e, t.ps[i]) : i \in 1..Len(t.ps)} IN
                                         IF Tgt(t).k = "arr" \/ "bad" \in ps THEN "bad" ELSE IF IsFn(Tgt(t)) \/ "may" \in ps THEN "may" ELSE Malformed(e, Tgt(t))
                     [] t.k = "ptr" -> Malformed(e, Tgt(t))
                     [] OTHER -> "ok"
\* ---- expressions: [o operation, k operands, n name or text, v value, ty type]
RECURSIVE Constify(_)
Constify(t) == IF t.k = "arr" THEN [t EXCEPT !.t = <<Constify(Tgt(t))>>] ELSE [t EXCEPT !.c = 1]
RECURSIVE Ev(_, _)
Member(st, t, n) == {i \in 1..Len(st[t.tag].ms) : st[t.tag].ms[i].n = n}
MemberVal(st, t, n, lv) == LET m == st[t.tag].ms[CHOOSE i \in Member(st, t, n) : TRUE]
                           IN [Val(IF t.c = 1 THEN Constify(m.ty) ELSE m.ty) EXCEPT !.lv = lv, !.bf = m.bf]
Ev(e, x) ==
  LET k == [i \in 1..Len(x.k) |-> Ev(e, x.k[i])]
      bads == {i \in 1..Len(k) : k[i].r = "bad"}
      mays == {i \in 1..Len(k) : k[i].r = "may"}
      a == k[1]
      d == Decay(k[1])
      isvoid(i) == k[i].ty.k = "void"
  IN
  IF bads # {} THEN k[CHOOSE i \in bads : TRUE]
  ELSE IF mays # {} THEN k[CHOOSE i \in mays : TRUE]
  ELSE
  CASE x.o = "int" -> [Val(x.ty) EXCEPT !.cv = <<x.v>>, !.kst = "num"]
    [] x.o = "flt" -> [Val(x.ty) EXCEPT !.kst = "num"]
    [] x.o = "str" -> [Val([Ty("arr") EXCEPT !.t = <<Ty("char")>>, !.n = x.v]) EXCEPT !.lv = 2, !.kst = "addr"]
    [] x.o = "id" -> IF ~Visible(e.sc, x.n) THEN Bad("unknown identifier")
                     ELSE LET g == Lookup(e.sc, x.n) IN
                       IF g.w = "typedef" THEN May("a type in an expression")
                       ELSE IF g.w = "enumc" THEN [Val(Ty("int")) EXCEPT !.cv = <<g.v>>, !.kst = "num"]
                       ELSE IF IsFn(g.ty) THEN [Val(g.ty) EXCEPT !.kst = "addr"]
                       ELSE IF g.ty.k = "arr" THEN [Lv(g.ty) EXCEPT !.kst = IF g.stat = 1 THEN "addr" ELSE "no", !.reg = g.reg]
                       ELSE [Lv(g.ty) EXCEPT !.kst = IF g.stat = 1 THEN "obj" ELSE "no", !.reg = g.reg]
    [] x.o \in BinOps -> IF isvoid(1) \/ isvoid(2) THEN Bad("void value") ELSE Arg2(x.o, e.st, d, Decay(k[2]))
    [] x.o = "?:" -> IF isvoid(1) THEN Bad("void value") ELSE Cond3(e.st, a, k[2], k[3])
    [] x.o = "," -> [Decay(k[2]) EXCEPT !.lv = IF k[2].lv # 0 THEN 2 ELSE 0, !.kst = IF k[2].kst = "num" THEN "diff" ELSE "no", !.cv = <<>>]
    [] x.o = "=" -> LET m == Modifiable(e.st, a) r == Assignable(e.st, a.ty, k[2]) IN
                    IF m.r # "ok" THEN m ELSE IF r # "ok" THEN Fail(r, "assignment") ELSE [Val([a.ty EXCEPT !.c = 0]) EXCEPT !.lv = 2]
    [] x.o \in AssignOps -> LET m == Modifiable(e.st, a) IN
                    IF m.r # "ok" THEN m ELSE IF isvoid(2) THEN Bad("void value")
                    ELSE LET q == Arg2(BinOf(x.o), e.st, d, Decay(k[2])) IN
                      IF q.r # "ok" THEN q ELSE LET r == Assignable(e.st, a.ty, q) IN IF r # "ok" THEN Fail(r, "assignment") ELSE [Val([a.ty EXCEPT !.c = 0]) EXCEPT !.lv = 2]
    [] x.o \in {"++_", "--_", "_++", "_--"} ->
                    LET m == Modifiable(e.st, a) IN
                    IF m.r # "ok" THEN m
                    ELSE IF ~IsScalar(a.ty) THEN Bad("++ operand")
                    ELSE IF IsPtr(a.ty) /\ (Tgt(a.ty).k = "void" \/ IsFn(Tgt(a.ty)) \/ Incomplete(e.st, Tgt(a.ty))) THEN May("arithmetic on a pointer to no object")
                    ELSE [Val([a.ty EXCEPT !.c = 0]) EXCEPT !.lv = IF x.o \in {"++_", "--_"} THEN 2 ELSE 0]
    [] x.o = "&_" -> IF a.bf = 1 THEN Bad("address of a bit-field")
                     ELSE IF isvoid(1) THEN May("address of void")
                     ELSE IF IsFn(a.ty) THEN [Val(PtrTo(a.ty)) EXCEPT !.kst = a.kst]
                     ELSE IF a.reg = 1 THEN May("address of a register object")
                     ELSE IF a.lv = 1 THEN [Val(PtrTo(a.ty)) EXCEPT !.kst = IF a.kst \in {"obj", "addr"} THEN "addr" ELSE "no"]
                     ELSE IF a.lv = 2 THEN May("address of no lvalue") ELSE Bad("address of no lvalue")
    [] x.o = "*_" -> IF isvoid(1) THEN Bad("void value") ELSE IF IsFn(a.ty) THEN [a EXCEPT !.lv = 0]
                     ELSE IF ~IsPtr(d.ty) THEN Bad("indirection operand")
                     ELSE IF Tgt(d.ty).k = "void" \/ ~Done(e.st, Tgt(d.ty)) THEN May("indirection to no object")
                     ELSE IF IsFn(Tgt(d.ty)) THEN [Val(Tgt(d.ty)) EXCEPT !.kst = IF d.kst = "num" THEN "diff" ELSE d.kst] ELSE IF d.kst = "num" THEN May("constant address")
                     ELSE [Lv(Tgt(d.ty)) EXCEPT !.kst = IF d.kst = "addr" THEN (IF Tgt(d.ty).k = "arr" THEN "addr" ELSE "obj") ELSE IF d.kst = "diff" THEN "diff" ELSE "no"]
    [] x.o \in {"+_", "-_"} -> IF IsArith(d.ty) THEN [Num(Promote(d.ty), <<a>>) EXCEPT !.cv = IF a.cv # <<>> THEN <<IF x.o = "-_" THEN -a.cv[1] ELSE a.cv[1]>> ELSE <<>>] ELSE Bad("unary operand")
    [] x.o = "~_" -> IF IsInt(d.ty) THEN Num(Promote(d.ty), <<a>>) ELSE Bad("~ operand")
    [] x.o = "!_" -> IF IsScalar(d.ty) THEN Num(Ty("int"), <<a>>) ELSE Bad("! operand")
    [] x.o = "[]" -> LET p == IF IsPtr(d.ty) THEN d.ty ELSE Decay(k[2]).ty
                         q == IF IsPtr(d.ty) THEN Decay(k[2]).ty ELSE d.ty
                     IN IF isvoid(1) \/ isvoid(2) \/ ~IsPtr(p) \/ ~IsInt(q) THEN Bad("subscript")
                        ELSE IF Tgt(p).k = "void" \/ IsFn(Tgt(p)) \/ Incomplete(e.st, Tgt(p)) THEN May("subscript of no object")
                        ELSE IF Kst(k) = "num" THEN May("constant address") ELSE [Lv(Tgt(p)) EXCEPT !.kst = IF k[1].kst = "addr" /\ k[2].kst = "num" THEN (IF Tgt(p).k = "arr" THEN "addr" ELSE "obj") ELSE "no"]
    [] x.o = "." -> IF ~IsRec(a.ty) THEN Bad(". operand")
                    ELSE IF ~Done(e.st, a.ty) THEN Bad("member of an incomplete type")
                    ELSE IF Member(e.st, a.ty, x.n) = {} THEN Bad("unknown member")
                    ELSE LET m == MemberVal(e.st, a.ty, x.n, IF a.lv = 1 THEN 1 ELSE 2) IN IF a.lv # 1 /\ m.ty.k = "arr" THEN May("array in no lvalue") ELSE [m EXCEPT !.kst = IF a.kst = "obj" THEN (IF m.ty.k = "arr" THEN "addr" ELSE "obj") ELSE "no"]
    [] x.o = "->" -> IF isvoid(1) \/ ~IsPtr(d.ty) THEN Bad("-> operand")
                     ELSE IF ~IsRec(Tgt(d.ty)) THEN Bad("-> operand")
                     ELSE IF ~Done(e.st, Tgt(d.ty)) THEN Bad("member of an incomplete type")
                     ELSE IF Member(e.st, Tgt(d.ty), x.n) = {} THEN Bad("unknown member")
                     ELSE MemberVal(e.st, Tgt(d.ty), x.n, 1)
    [] x.o = "cast" -> LET t == Resolve(e, x.ty) IN
                       IF TypeVerdict(t) # "ok" THEN Fail(TypeVerdict(t), "type name")
                       ELSE IF Malformed(e, t) # "ok" THEN Fail(Malformed(e, t), "array or function type")
                       ELSE IF t.k = "void" THEN Val(Ty("void"))
                       ELSE IF isvoid(1) THEN Bad("void value")
                       ELSE IF ~IsScalar(t) \/ ~IsScalar(d.ty) THEN Bad("cast of no scalar")
                       ELSE IF (IsPtr(t) /\ IsFloat(d.ty)) \/ (IsFloat(t) /\ IsPtr(d.ty)) THEN Bad("cast between pointer and float")
                       ELSE [Val([t EXCEPT !.c = 0]) EXCEPT !.cv = IF (IsInt(t) \/ IsVoidPtr(t)) /\ a.cv # <<>> /\ a.cv[1] \in 0..100 THEN a.cv ELSE <<>>, !.kst = IF a.kst \in {"num", "diff"} \/ (a.kst = "addr" /\ IsPtr(t)) THEN a.kst ELSE IF a.kst = "addr" /\ IsInt(t) THEN "diff" ELSE "no"]
    [] x.o = "sizeof" -> IF a.bf = 1 THEN Bad("sizeof a bit-field") ELSE IF IsFn(a.ty) \/ isvoid(1) THEN May("sizeof function or void") ELSE IF Incomplete(e.st, a.ty) THEN Bad("sizeof incomplete") ELSE [Val(Ty("ulong")) EXCEPT !.kst = "num"]
    [] x.o = "sizeoft" -> LET t == Resolve(e, x.ty) IN
                       IF TypeVerdict(t) # "ok" THEN Fail(TypeVerdict(t), "type name") ELSE IF Malformed(e, t) # "ok" THEN Fail(Malformed(e, t), "array or function type") ELSE IF IsFn(t) \/ t.k = "void" THEN May("sizeof function or void") ELSE IF Incomplete(e.st, t) THEN Bad("sizeof incomplete") ELSE [Val(Ty("ulong")) EXCEPT !.kst = "num"]
    [] x.o = "call" ->
         IF isvoid(1) THEN Bad("void value")
         ELSE IF ~(IsPtr(d.ty) /\ IsFn(Tgt(d.ty))) THEN Bad("call of no function")
         ELSE LET f == Tgt(d.ty)
                  args == SubSeq(k, 2, Len(k))
                  one(i) == IF args[i].ty.k = "void" THEN "bad" ELSE IF f.proto = 1 /\ i <= Len(f.ps) THEN Assignable(e.st, IF f.ps[i].k = "arr" THEN PtrTo(Tgt(f.ps[i])) ELSE f.ps[i], args[i]) ELSE "ok"
                  vs == {one(i) : i \in 1..Len(args)}
              IN IF "bad" \in vs THEN Bad("argument")
                 ELSE IF f.proto = 1 /\ f.var = 0 /\ Len(args) > Len(f.ps) THEN Bad("too many arguments")
                 ELSE IF f.proto = 1 /\ Len(args) < Len(f.ps) THEN May("too few arguments")
                 ELSE IF "may" \in vs THEN May("argument")
                 ELSE IF IsRec(Tgt(f)) THEN (IF Done(e.st, Tgt(f)) THEN [Val([Tgt(f) EXCEPT !.c = 0]) EXCEPT !.lv = 2] ELSE May("incomplete result")) ELSE Val([Tgt(f) EXCEPT !.c = 0])

\* ---- declarations and statements
\* e: [sc scopes, st struct and union contents, sw open switches, ctl enclosing statements, ret, labels, gotos]
Start == [sc |-> <<[ids |-> Empty, tags |-> Empty]>>, st |-> Empty, ctl |-> <<>>, ret |-> Ty("none"), labels |-> {}, gotos |-> {}, uid |-> 0]
Ok(e) == [e |-> e, r |-> "ok", why |-> ""]
No(e, r, why) == [e |-> e, r |-> r, why |-> why]
Rej(e, why) == No(e, "bad", why)
TopScope(e) == e.sc[Len(e.sc)]
AddId(e, n, g) == [e EXCEPT !.sc[Len(e.sc)].ids = With(@, n, g)]
Enter(e) == [e EXCEPT !.sc = Append(@, [ids |-> Empty, tags |-> Empty])]
Leave(e) == [e EXCEPT !.sc = SubSeq(@, 1, Len(@) - 1)]
Obj(t, stat, link, def, reg) == [w |-> "obj", ty |-> t, stat |-> stat, link |-> link, def |-> def, reg |-> reg, v |-> 0]
Composite(a, b) == IF a.k = "arr" /\ a.n = 0 THEN b ELSE IF a.k = "fn" /\ a.proto = 0 THEN b ELSE a
Init1(e, t, x, static) ==     \* one initialiser; arrays take none here
  LET v == Ev(e, x[1]) IN
  IF x = <<>> THEN [r |-> "ok", why |-> ""]
  ELSE IF v.r # "ok" THEN [r |-> IF static = 1 /\ v.why \in {"cast of no scalar", "cast between pointer and float", "address of no lvalue"} THEN "may" ELSE v.r, why |-> v.why]
  ELSE IF IsRec(t) /\ ~Done(e.st, t) THEN [r |-> "bad", why |-> "initialiser of an incomplete type"]
  ELSE IF ~IsScalar(t) /\ ~(IsRec(t) /\ static = 0) THEN [r |-> "may", why |-> "initialiser of no scalar"]
  ELSE IF v.ty.k = "void" THEN [r |-> "bad", why |-> "void value"]
  ELSE IF static = 1 /\ v.kst = "diff" THEN [r |-> "may", why |-> "difference of pointers"]
  ELSE IF static = 1 /\ Decay(v).kst \notin {"num", "addr"} THEN [r |-> "bad", why |-> "not constant"]
  ELSE LET q0 == Assignable(e.st, t, v)
           q == IF (static = 1 /\ v.kst = "num") \/ (IsRec(t) /\ ~IsRec(v.ty)) THEN (IF q0 = "ok" THEN "ok" ELSE "may") ELSE q0 IN [r |-> q, why |-> IF q = "ok" THEN "" ELSE "initialiser type"]

Decl(e, ev) ==
  LET t == Resolve(e, ev.ty)
      glob == Len(e.sc) = 1
      here == ev.n \in DOMAIN TopScope(e).ids
      old == TopScope(e).ids[ev.n]
      mal == Malformed(e, t)
      extern == ev.st = "extern" \/ (IsFn(t) /\ ev.st # "static")
      link == IF ev.st = "static" THEN "int" ELSE IF ev.st = "extern" THEN "ext" ELSE IF glob THEN "imp" ELSE IF IsFn(t) THEN "ext" ELSE "none"
      static == IF glob \/ ev.st \in {"static", "extern"} THEN 1 ELSE 0
      new == Obj(t, IF static = 1 \/ IsFn(t) THEN 1 ELSE 0, link, IF ev.x # <<>> THEN 1 ELSE 0, IF ev.st = "register" THEN 1 ELSE 0)
      e2 == AddId(e, ev.n, new)
  IN
  IF TypeVerdict(t) # "ok" THEN No(e, TypeVerdict(t), "type name")
  ELSE IF mal # "ok" THEN No(e, mal, "array or function type")
  ELSE IF t.k = "void" THEN No(e, "may", "void object")
  ELSE IF ev.st = "typedef" THEN (IF here THEN No(e, "may", "typedef redeclared") ELSE Ok(AddId(e, ev.n, [new EXCEPT !.w = "typedef"])))
  ELSE IF glob /\ ev.st \in {"auto", "register"} THEN Rej(e, "storage class")
  ELSE IF IsFn(t) /\ (ev.x # <<>> \/ (~glob /\ ev.st = "static") \/ ev.st = "register") THEN No(e, "may", "function declaration")
  ELSE IF ~glob /\ ev.st = "extern" /\ ev.x # <<>> THEN No(e, "may", "extern with initialiser")
  ELSE IF ~here THEN
    IF ~glob /\ Incomplete(e.st, t) /\ ev.st # "extern" THEN (IF ev.x # <<>> /\ IsRec(t) THEN Rej(e, "initialiser of an incomplete type") ELSE IF ev.x = <<>> THEN Rej(e, "object of incomplete type") ELSE No(e, "may", "array initialiser"))
    ELSE IF ~glob /\ extern /\ Visible(e.sc, ev.n) /\ (LET g == Lookup(e.sc, ev.n) IN g.w # "obj" \/ TopCompat(g.ty, t) # "yes" \/ g.link = "none") THEN No(e, "may", "extern in a block")
    ELSE LET i == Init1(e2, t, ev.x, static) IN IF i.r = "ok" THEN Ok(e2) ELSE No(e, i.r, i.why)
  ELSE IF ~glob THEN
    IF old.w # "obj" THEN Rej(e, "redeclared") ELSE IF ~extern \/ old.link # "ext" THEN Rej(e, "redeclared")
    ELSE LET q == TopCompat(t, old.ty) IN IF q = "no" THEN Rej(e, "incompatible redeclaration") ELSE IF q = "may" THEN No(e, "may", "redeclaration") ELSE Ok(AddId(e, ev.n, [old EXCEPT !.ty = Composite(t, @)]))
  ELSE
    IF old.w # "obj" THEN No(e, "may", "redeclared as a different kind")
    ELSE IF IsFn(t) # IsFn(old.ty) THEN Rej(e, "redeclared as a different kind")
    ELSE IF (link = "int" /\ old.link # "int") \/ (old.link = "int" /\ link = "imp" /\ ~IsFn(t)) THEN Rej(e, "linkage")
    ELSE IF old.link = "int" /\ link = "imp" THEN No(e, "may", "function after static function")
    ELSE LET q == TopCompat(t, old.ty) IN
      IF ev.x # <<>> /\ old.def = 1 THEN Rej(e, "redefinition")
      ELSE IF q = "no" THEN Rej(e, "incompatible redeclaration") ELSE IF q = "may" THEN No(e, "may", "redeclaration")
      ELSE LET m == [old EXCEPT !.ty = Composite(t, @), !.def = IF ev.x # <<>> THEN 1 ELSE @, !.link = IF link = "imp" /\ @ = "ext" THEN "imp" ELSE @]
               i == Init1(AddId(e, ev.n, m), t, ev.x, 1)
           IN IF i.r # "ok" THEN No(e, i.r, i.why) ELSE Ok(AddId(e, ev.n, m))

Forward(e, ev) ==    \* struct t;
  IF ev.n \in DOMAIN TopScope(e).tags THEN (IF TopScope(e).tags[ev.n].k = ev.k THEN Ok(e) ELSE Rej(e, "kind of tag"))
  ELSE LET u == ToString(e.uid + 1) \o ev.n IN
       Ok([e EXCEPT !.sc[Len(e.sc)].tags = With(@, ev.n, [k |-> ev.k, u |-> u]), !.st = With(@, u, [done |-> 0, ms |-> <<>>]), !.uid = @ + 1])
Struct(e, ev) ==
  LET f == IF ev.n \in DOMAIN TopScope(e).tags THEN Ok(e) ELSE Forward(e, ev)
      g == TagOf(f.e.sc, ev.n)
      ms == [i \in 1..Len(ev.ms) |-> [n |-> ev.ms[i].n, ty |-> Resolve(f.e, ev.ms[i].ty), bf |-> IF ev.ms[i].w = -1 THEN 0 ELSE 1, w |-> ev.ms[i].w]]
      one(m) == IF m.ty.k = "none" THEN TypeVerdict(m.ty)
                ELSE IF Malformed(f.e, m.ty) # "ok" THEN Malformed(f.e, m.ty)
                ELSE IF IsFn(m.ty) \/ ~Done(f.e.st, m.ty) THEN "bad"
                ELSE IF m.ty.k = "void" \/ Incomplete(f.e.st, m.ty) THEN "may"
                ELSE IF m.bf = 1 THEN (IF m.ty.k \notin {"int", "uint"} THEN (IF m.ty.k = "enum" \/ m.n = "" THEN "may" ELSE "bad") ELSE IF m.w > 32 \/ (m.w = 0 /\ m.n # "") THEN "bad" ELSE "ok") ELSE "ok"
      vs == {one(ms[i]) : i \in 1..Len(ms)}
      dup == \E i, j \in 1..Len(ms) : i < j /\ ms[i].n = ms[j].n /\ ms[i].n # ""
  IN IF g.k # ev.k THEN Rej(e, "kind of tag")
     ELSE IF f.e.st[g.u].done = 1 THEN Rej(e, "struct redefined")
     ELSE IF "bad" \in vs THEN Rej(e, "member type") ELSE IF "may" \in vs THEN No(e, "may", "member type")
     ELSE IF dup THEN Rej(e, "duplicate member")
     ELSE Ok([f.e EXCEPT !.st[g.u] = [done |-> 1, ms |-> ms]])
Enum(e, ev) ==
  LET tagged == IF ev.n = "" THEN e ELSE [e EXCEPT !.sc[Len(e.sc)].tags = With(@, ev.n, [k |-> "enum", u |-> ToString(e.uid + 1) \o ev.n]), !.uid = @ + 1]
      names == ev.ns
      dup == (\E i \in 1..Len(names) : names[i] \in DOMAIN TopScope(e).ids) \/ (\E i, j \in 1..Len(names) : i < j /\ names[i] = names[j])
      con(i) == [Obj(Ty("int"), 0, "none", 0, 0) EXCEPT !.w = "enumc", !.v = i - 1]
  IN IF ev.n # "" /\ ev.n \in DOMAIN TopScope(e).tags THEN (IF TopScope(e).tags[ev.n].k # "enum" THEN Rej(e, "kind of tag") ELSE No(e, "may", "enum redefined"))
     ELSE IF names = <<>> THEN Rej(e, "empty enum")
     ELSE IF dup THEN Rej(e, "enumerator redeclared")
     ELSE Ok(FoldLeft(LAMBDA z, i: AddId(z, names[i], con(i)), tagged, [i \in 1..Len(names) |-> i]))

Func(e, ev) ==      \* the head of a function definition; its parameters are in the scope of its body
  LET t == Resolve(e, ev.ty)
      d == Decl(e, [ev EXCEPT !.x = <<>>])
      old == TopScope(e).ids[ev.n]
      e1 == Enter(d.e)
      par(i) == LET p == t.ps[i] IN Obj(IF p.k = "arr" THEN PtrTo(Tgt(p)) ELSE IF IsFn(p) THEN PtrTo(p) ELSE p, 0, "none", 0, 0)
      e2 == FoldLeft(LAMBDA z, i: AddId(z, ev.ps[i], par(i)), [e1 EXCEPT !.sc[1].ids[ev.n].def = 1], [i \in 1..Len(ev.ps) |-> i])
      nodup == \A i, j \in 1..Len(ev.ps) : i < j => ev.ps[i] # ev.ps[j]
  IN IF TypeVerdict(t) # "ok" THEN No(e, TypeVerdict(t), "type name")
     ELSE IF "" \in Range(ev.ps) THEN Rej(e, "parameter without a name")
     ELSE IF ev.n \in DOMAIN TopScope(e).ids /\ old.w = "obj" /\ IsFn(old.ty) /\ old.def = 1 THEN Rej(e, "redefinition")
     ELSE IF d.r # "ok" THEN d
     ELSE IF ~nodup THEN Rej(e, "parameters with the same name")
     ELSE IF \E i \in 1..Len(t.ps) : t.ps[i].k = "void" THEN No(e, "may", "parameter type")
     ELSE IF \E i \in 1..Len(t.ps) : ~Done(e.st, t.ps[i]) THEN Rej(e, "parameter type")
     ELSE IF ~Done(e.st, Tgt(t)) THEN Rej(e, "result type")
     ELSE Ok([e2 EXCEPT !.ret = Tgt(t), !.labels = {}, !.gotos = {}, !.ctl = <<[s |-> "func"]>>])

In(e, S) == \E i \in 1..Len(e.ctl) : e.ctl[i].s \in S
Switches(e) == {i \in 1..Len(e.ctl) : e.ctl[i].s = "switch"}
Cond(e, x) == LET v == Ev(e, x) IN IF v.r # "ok" THEN v ELSE IF ~IsScalar(Decay(v).ty) THEN Bad("controlling expression") ELSE v
Pushed(e, c) == [Enter(e) EXCEPT !.ctl = Append(@, c)]
Stmt(e, ev) ==
  CASE ev.e = "expr" -> LET v == Ev(e, ev.x[1]) IN No(e, v.r, v.why)
    [] ev.e = "begin" ->
         IF ev.s \in {"block", "else"} THEN Ok(Pushed(e, [s |-> "block"]))
         ELSE IF ev.s = "do" THEN Ok(Pushed(e, [s |-> "loop"]))
         ELSE IF ev.s = "switch" THEN LET v == Ev(e, ev.x[1]) IN
              IF v.r # "ok" THEN No(e, v.r, v.why) ELSE IF ~IsInt(v.ty) THEN Rej(e, "switch expression") ELSE Ok(Pushed(e, [s |-> "switch", seen |-> {}, dflt |-> 0]))
         ELSE IF ev.s = "for" /\ \E i \in 1..Len(ev.x) : Ev(e, ev.x[i]).r # "ok" THEN LET v == Ev(e, ev.x[CHOOSE i \in 1..Len(ev.x) : Ev(e, ev.x[i]).r # "ok"]) IN No(e, IF \E i \in 1..Len(ev.x) : Ev(e, ev.x[i]).r = "bad" THEN "bad" ELSE v.r, v.why)
         ELSE LET v == Cond(e, IF ev.s = "for" THEN ev.x[2] ELSE ev.x[1]) IN
              IF v.r # "ok" THEN No(e, v.r, v.why) ELSE Ok(Pushed(e, [s |-> IF ev.s \in {"while", "for"} THEN "loop" ELSE "block"]))
    [] ev.e = "end" -> LET e2 == [Leave(e) EXCEPT !.ctl = SubSeq(@, 1, Len(@) - 1)] IN
         IF ev.x = <<>> THEN Ok(e2) ELSE LET v == Cond(e2, ev.x[1]) IN No(e2, v.r, v.why)
    [] ev.e = "case" -> LET v == Ev(e, ev.x[1]) S == Switches(e) IN
         IF S = {} THEN Rej(e, "case outside a switch")
         ELSE IF v.r # "ok" THEN No(e, v.r, v.why)
         ELSE IF v.kst # "num" \/ ~IsInt(v.ty) THEN (IF v.kst = "num" \/ v.cv # <<>> \/ v.kst \in {"obj", "no"} THEN Rej(e, "case constant") ELSE No(e, "may", "case constant"))
         ELSE IF v.cv = <<>> THEN No(e, "may", "case value")
         ELSE LET i == MaxOf(S) IN IF v.cv[1] \in e.ctl[i].seen THEN Rej(e, "duplicate case") ELSE Ok([e EXCEPT !.ctl[i].seen = @ \cup {v.cv[1]}])
    [] ev.e = "default" -> LET S == Switches(e) i == MaxOf(S) IN
         IF S = {} THEN Rej(e, "default outside a switch") ELSE IF e.ctl[i].dflt = 1 THEN Rej(e, "duplicate default") ELSE Ok([e EXCEPT !.ctl[i].dflt = 1])
    [] ev.e = "break" -> IF In(e, {"loop", "switch"}) THEN Ok(e) ELSE Rej(e, "break")
    [] ev.e = "continue" -> IF In(e, {"loop"}) THEN Ok(e) ELSE Rej(e, "continue")
    [] ev.e = "goto" -> Ok([e EXCEPT !.gotos = @ \cup {ev.n}])
    [] ev.e = "label" -> IF ev.n \in e.labels THEN Rej(e, "duplicate label") ELSE Ok([e EXCEPT !.labels = @ \cup {ev.n}])
    [] ev.e = "return" ->
         IF ev.x = <<>> THEN Ok(e)
         ELSE LET v == Ev(e, ev.x[1]) IN
           IF v.r # "ok" THEN No(e, v.r, v.why)
           ELSE IF e.ret.k = "void" THEN (IF v.ty.k = "void" THEN No(e, "may", "return of void") ELSE Rej(e, "return with a value"))
           ELSE IF v.ty.k = "void" THEN Rej(e, "void value")
           ELSE LET q == Assignable(e.st, e.ret, v) IN No(e, q, "return type")
    [] ev.e = "endfunc" -> IF e.gotos \subseteq e.labels THEN Ok([Leave(e) EXCEPT !.ctl = <<>>, !.ret = Ty("none")]) ELSE Rej(e, "unknown label")
Check(e, ev) ==
  CASE ev.e = "decl" -> Decl(e, ev)
    [] ev.e = "fwd" -> Forward(e, ev)
    [] ev.e = "struct" -> Struct(e, ev)
    [] ev.e = "enum" -> Enum(e, ev)
    [] ev.e = "func" -> Func(e, ev)
    [] OTHER -> Stmt(e, ev)

Init == prog \in 1..Len(Progs) /\ s = Ok(Start) @@ [i |-> 1] /\ phase = "run"
Step == /\ phase = "run" /\ s.i <= Len(Progs[prog]) /\ s.r = "ok"
        /\ s' = Check(s.e, Progs[prog][s.i]) @@ [i |-> s.i + 1]
        /\ UNCHANGED <<prog, phase>>
Finish == /\ phase = "run" /\ (s.i > Len(Progs[prog]) \/ s.r # "ok")
          /\ PrintT(ToJson([p |-> prog, r |-> s.r, why |-> s.why, at |-> s.i - 1]))
          /\ phase' = "end" /\ s' = Ok(Start) @@ [i |-> 0] /\ UNCHANGED prog
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
\* blocks are closed in the order they were opened, and what a block declares is gone afterwards
Balanced == phase = "run" /\ s.r = "ok" => Len(s.e.sc) = 1 + Len(s.e.ctl)
OuterKept == [][phase = "run" /\ phase' = "run" /\ Len(s'.e.sc) <= Len(s.e.sc) => \A i \in 1..(Len(s'.e.sc) - 1) : s'.e.sc[i] = s.e.sc[i]]_vars
=============================================================================
