------------------------------ MODULE CMachine ------------------------------
(***************************************************************************)
(* The abstract machine of C: a small-step machine for statements (a stack  *)
(* of frames per activation) over a big-step semantics of expressions, with *)
(* byte-level memory, scopes, linkage, initialisers, calls and variadic     *)
(* arguments.  A behaviour is the sequence of observations obs(id, value).  *)
(*                                                                          *)
(* The machine tells undefined or unspecified behaviour apart: st.ub names  *)
(* the reason (overflow, conflict of evaluations not sequenced, invalid     *)
(* address, ...).  Every evaluation has a footprint of cells read and       *)
(* written, and evaluations C does not sequence must not conflict, calls    *)
(* included: a program without undefined behaviour in this sense observes   *)
(* the same in every evaluation order, and both orders are explored.        *)
(***************************************************************************)
EXTENDS CLayout, Json, IOUtils

Progs == JsonDeserialize(IOEnv.VF_PROGS)
MaxSteps == 3000

(*------------------------------ static tables ----------------------------*)
RECURSIVE Desc(_, _)
Kids(s) == CASE s.k = "block" -> s.ss
             [] s.k = "if" -> IF s.el = 0 THEN <<s.th>> ELSE <<s.th, s.el>>
             [] s.k \in {"while", "do", "for", "switch", "case", "default", "label"} -> <<s.b>>
             [] OTHER -> <<>>
Desc(S, id) == {id} \cup UNION {Desc(S, c) : c \in ToSet(Kids(S[id]))}
\* the case and default labels belonging to a switch: not those of switches nested in it
RECURSIVE Cases(_, _)
Cases(S, id) ==
  LET s == S[id]
      sub == UNION {Cases(S, c) : c \in ToSet(Kids(s))}
  IN CASE s.k = "switch" -> {}
       [] s.k \in {"case", "default"} -> {id} \cup sub
       [] OTHER -> sub
\* the value of a constant expression: an expression evaluated in no state at all
RECURSIVE Eval(_, _, _)
NoEnv(p) == [o |-> <<>>, t |-> <<>>, va |-> 0, p |-> p]
CE(e, env) == Eval(e, env, [p |-> env.p, ord |-> "lr", mem |-> <<>>, ub |-> "", R |-> {}, W |-> {}])
\* an expression as #if sees it: everything has one of the two 64-bit types
PPLong(e) == [k |-> "cast", t |-> [c |-> "int", n |-> "l"], a |-> e]
RECURSIVE PPE(_)
PPE(e) == CASE e.k = "num" -> [e EXCEPT !.n = IF Signed(@) THEN "l" ELSE "ul"]
            [] e.k = "un" -> LET x == [e EXCEPT !.a = PPE(@)] IN IF e.op = "!" THEN PPLong(x) ELSE x
            [] e.k = "log" -> PPLong([e EXCEPT !.a = PPE(@), !.b = PPE(@)])
            [] e.k = "bin" -> LET x == [e EXCEPT !.a = PPE(@), !.b = PPE(@)] IN IF e.op \in {"==", "!=", "<", ">", "<=", ">="} THEN PPLong(x) ELSE x
            [] e.k = "cond" -> [e EXCEPT !.a = PPE(@), !.b = PPE(@), !.c = PPE(@)]
            [] OTHER -> e
\* bit-field widths may be given by constant expressions (m.we)
Widths(tags, p) == [g \in DOMAIN tags |-> [tags[g] EXCEPT !.mem = [k \in DOMAIN @ |->
                     IF "we" \in DOMAIN @[k] THEN [x |-> @[k].x, t |-> @[k].t, w |-> LET v == CE(@[k].we, NoEnv(p)).v.w IN IF v[2] = 0 /\ v[1] < 33 THEN v[1] ELSE 1] ELSE @[k]]]]
MkStatic(pr, p) ==
  LET tags == Widths(pr.tags, p) IN
  [S |-> pr.s, fns |-> pr.fns, tags |-> tags,
   lay |-> [g \in DOMAIN pr.tags |->
             LET l == LayoutOf(tags[g], tags)
                 ms == Members(g, tags, 0)
             IN [size |-> l.size, align |-> l.align, at |-> l.at, mem |-> [x \in {ms[k].x : k \in DOMAIN ms} |-> ms[CHOOSE k \in DOMAIN ms : ms[k].x = x]]]],
   desc |-> [id \in DOMAIN pr.s |-> Desc(pr.s, id)],
   cases |-> [id \in DOMAIN pr.s |-> IF pr.s[id].k = "switch" THEN Cases(pr.s, pr.s[id].b) ELSE {}]]
Static == TLCEval([p \in 1..Len(Progs) |-> MkStatic(Progs[p], p)])

(*---------------------------------- types --------------------------------*)
TI(n) == [c |-> "int", n |-> n]
Ptr(t) == [c |-> "ptr", to |-> t]
IsInt(t) == t.c = "int"
IsFlt(t) == t.c = "flt"
IsPtr(t) == t.c = "ptr"
IsArith(t) == t.c \in {"int", "flt"}
RECURSIVE Sz(_, _)
Sz(t, p) == CASE t.c = "int" -> SizeOf(t.n)
              [] t.c = "flt" -> (CASE t.n = "f" -> 4 [] t.n = "d" -> 8 [] t.n = "ld" -> 16)
              [] t.c = "ptr" -> 8
              [] t.c = "arr" -> t.len * Sz(t.of, p)
              [] t.c = "su" -> Static[p].lay[t.tag].size
              [] t.c = "va" -> 24
              [] OTHER -> 1
\* names in types are looked up in the scope they are used in
RECURSIVE TRes(_, _)
TRes(t, env) == CASE t.c = "tdn" -> env.o[t.x].t
                  [] t.c = "sun" -> [c |-> "su", tag |-> env.t[t.x]]
                  [] t.c = "ptr" -> [t EXCEPT !.to = TRes(@, env)]
                  [] t.c = "arr" /\ "le" \in DOMAIN t ->       \* the length is a constant expression
                       LET v == CE(t.le, env).v.w IN [c |-> "arr", len |-> IF v[2] = 0 /\ v[1] < 5000 THEN v[1] ELSE 1, of |-> TRes(t.of, env)]
                  [] t.c = "arr" -> [t EXCEPT !.of = TRes(@, env)]
                  [] OTHER -> t
\* constant expressions in a type are defined
RECURSIVE TDef(_, _)
TDef(t, env) == CASE t.c = "ptr" -> TDef(t.to, env)
                  [] t.c = "arr" -> ("le" \in DOMAIN t => (LET r == CE(t.le, env) IN r.st.ub = "" /\ r.v.w[2] = 0 /\ r.v.w[1] < 5000 /\ r.v.w[1] > 0)) /\ TDef(t.of, env)
                  [] OTHER -> TRUE
FltRank(n) == CASE n = "f" -> 1 [] n = "d" -> 2 [] n = "ld" -> 3
ArithType(a, b) == IF IsFlt(a) /\ IsFlt(b) THEN (IF FltRank(a.n) >= FltRank(b.n) THEN a ELSE b)
                   ELSE IF IsFlt(a) THEN a ELSE IF IsFlt(b) THEN b ELSE TI(Usual(a.n, b.n))
PromoteT(t) == IF IsInt(t) THEN TI(Promote(t.n)) ELSE t
Decay(t) == IF t.c = "arr" THEN Ptr(t.of) ELSE IF t.c = "fn" THEN Ptr(t) ELSE t

(*--------------------------------- values --------------------------------*)
Sc(t, w) == [t |-> t, w |-> w]                        \* scalar
Agg(t, b) == [t |-> t, b |-> b]                       \* struct or union: its bytes
PtrW(obj, off) == <<off, obj, 0, 0>>
FnW(f) == <<f, 0, 1, 0>>
Zero == Sc(TI("i"), W0)
\* floating values are small integers here, so that they are exact
FltOK(w) == (w[3] = 0 /\ w[4] = 0 /\ w[2] < 256) \/ (w[3] = 65535 /\ w[4] = 65535 /\ w[2] >= 65280)

WordOf(b) == CASE Len(b) = 1 -> <<b[1], 0, 0, 0>>
               [] Len(b) = 2 -> <<b[1] + 256 * b[2], 0, 0, 0>>
               [] Len(b) = 4 -> <<b[1] + 256 * b[2], b[3] + 256 * b[4], 0, 0>>
               [] OTHER -> <<b[1] + 256 * b[2], b[3] + 256 * b[4], b[5] + 256 * b[6], b[7] + 256 * b[8]>>
BytesOf(w, n) == [k \in 1..n |-> IF k > 8 THEN 0 ELSE IF k % 2 = 1 THEN w[(k + 1) \div 2] % 256 ELSE w[k \div 2] \div 256]
Indet(n) == [k \in 1..n |-> -1]

(*---------------------------------- state --------------------------------*)
\* st = [p, ord, mem, out, ub, n, va, R, W, genv, ents, statics]; R and W are the cells the call
\* being evaluated has read and written (cell 0 is the output)
Ub(st, why) == IF st.ub = "" THEN [st EXCEPT !.ub = why] ELSE st
Chk(st, ok, why) == IF ok THEN st ELSE Ub(st, why)
InObj(st, obj, off, n) == obj > 0 /\ obj <= Len(st.mem) /\ off >= 0 /\ off + n <= Len(st.mem[obj])
Cells(obj, off, n) == {obj * 4096 + k : k \in off..(off + n - 1)}
Alloc(st, n) == [st EXCEPT !.mem = Append(@, Indet(n))]

\* lvalues: [t, obj, off, bit, wd], wd = 0 unless a bit-field of wd bits at bit "bit" after off
LV(t, obj, off) == [t |-> t, obj |-> obj, off |-> off, bit |-> 0, wd |-> 0]
LvFrom(lv) == lv.off + (IF lv.wd = 0 THEN 0 ELSE lv.bit \div 8)
LvLen(lv, p) == IF lv.wd = 0 THEN Sz(lv.t, p) ELSE ((lv.bit + lv.wd - 1) \div 8) - (lv.bit \div 8) + 1
LvCells(lv, p) == Cells(lv.obj, LvFrom(lv), LvLen(lv, p))

\* the bytes of a bit-field as a word, and the part of it the field occupies
BfWord(bs) == LET x == bs \o [k \in 1..(8 - Len(bs)) |-> 0] IN WordOf(x)
BfMask(wd) == IF wd = 64 THEN WM1 ELSE WSub(WShl(<<1, 0, 0, 0>>, wd), <<1, 0, 0, 0>>)

\* result of loading: <<st, value>>
Load(st0, lv) ==
  LET t == lv.t
      from == LvFrom(lv)
      n == LvLen(lv, st0.p)
      st == IF t.c \in {"arr", "fn"} THEN st0 ELSE [st0 EXCEPT !.R = @ \cup Cells(lv.obj, from, n)]
  IN IF t.c = "arr" THEN <<st, Sc(Ptr(t.of), PtrW(lv.obj, lv.off))>>
     ELSE IF t.c = "fn" THEN <<st, Sc(Ptr(t), FnW(lv.off))>>
     ELSE IF ~InObj(st, lv.obj, from, n) THEN <<Ub(st, "load outside an object"), Zero>>
     ELSE LET bs == SubSeq(st.mem[lv.obj], from + 1, from + n)
          IN IF t.c = "su" THEN <<st, Agg(t, bs)>>
             ELSE IF \E k \in 1..n : bs[k] = -1 THEN <<Ub(st, "indeterminate value"), Zero>>
             ELSE IF lv.wd > 0
               THEN LET raw == WAnd(WShr(BfWord(bs), lv.bit % 8), BfMask(lv.wd))
                        sg == Signed(t.n)
                        val == IF sg THEN WSar(WShl(raw, 64 - lv.wd), 64 - lv.wd) ELSE raw
                    IN <<st, Sc(IF sg \/ lv.wd < 32 THEN TI("i") ELSE TI("u"), val)>>
             ELSE IF t.c = "int" THEN <<st, Sc(t, Norm(t.n, WordOf(bs)))>>
             ELSE IF t.c = "flt" THEN <<st, Sc(t, IF t.n = "f" THEN Norm("i", WordOf(bs)) ELSE WordOf(SubSeq(bs, 1, 8)))>>
             ELSE <<st, Sc(t, WordOf(SubSeq(bs, 1, 8)))>>

\* storing a value that already has the type of the lvalue
Store(st, lv, v) ==
  LET from == LvFrom(lv)
      n == LvLen(lv, st.p)
  IN IF ~InObj(st, lv.obj, from, n) THEN Ub(st, "store outside an object")
     ELSE LET old == SubSeq(st.mem[lv.obj], from + 1, from + n)
              new == IF lv.t.c = "su" THEN v.b
                     ELSE IF lv.wd = 0 THEN BytesOf(v.w, n)
                     ELSE LET o == BfWord([k \in 1..n |-> IF old[k] = -1 THEN 0 ELSE old[k]])
                              m == WShl(BfMask(lv.wd), lv.bit % 8)
                          IN BytesOf(WOr(WAnd(o, WNot(m)), WAnd(WShl(v.w, lv.bit % 8), m)), n)
          IN [st EXCEPT !.mem[lv.obj] = [k \in 1..Len(@) |-> IF k > from /\ k <= from + n THEN new[k - from] ELSE @[k]],
                        !.W = @ \cup Cells(lv.obj, from, n)]

\* conversion of a value to a type: <<st, value>>
Conv(st, t, v) ==
  CASE t.c = "int" -> IF IsInt(v.t) THEN <<st, Sc(t, Norm(t.n, v.w))>>
                      ELSE IF IsFlt(v.t) THEN <<Chk(st, Fits(t.n, v.w), "float to integer out of range"), Sc(t, Norm(t.n, v.w))>>
                      ELSE <<Ub(st, "pointer to integer"), Sc(t, W0)>>
    [] t.c = "flt" -> <<Chk(st, IsArith(v.t) /\ FltOK(v.w) /\ (IsInt(v.t) /\ v.t.n = "ul" => ~WNegative(v.w)), "inexact floating value"), Sc(t, v.w)>>
    [] t.c = "ptr" -> IF IsPtr(v.t) THEN <<st, Sc(t, v.w)>>
                      ELSE <<Chk(st, IsInt(v.t) /\ WIsZero(v.w), "integer to pointer"), Sc(t, W0)>>
    [] t.c = "void" -> <<st, Zero>>
    [] OTHER -> <<st, v>>
\* conversion for a store; a floating value has to fit into a bit-field
ConvTo(st, lv, v) ==
  LET c == Conv(st, lv.t, v)
  IN IF lv.wd = 0 \/ ~IsFlt(v.t) \/ c[1].ub # "" THEN c
     ELSE LET k == 64 - lv.wd
              w == WShl(c[2].w, k)
          IN <<Chk(c[1], c[2].w = IF Signed(lv.t.n) THEN WSar(w, k) ELSE WShr(w, k), "float to bit-field out of range"), c[2]>>
Truth(v) == ~WIsZero(v.w)

(*------------------------------- operators -------------------------------*)
Idx(w) == IF IsSmall(w) THEN ToInt(w) ELSE 100000
PtrAdd(st, pv, k) ==              \* k elements further: must stay within the object or one past it
  LET off == pv.w[1] + k * Sz(pv.t.to, st.p)
      obj == pv.w[2]
      ok == k < 5000 /\ k > -5000 /\ pv.w[3] = 0 /\ InObj(st, obj, off, 0)
  IN <<Chk(st, ok, "pointer arithmetic outside an object"), Sc(pv.t, IF ok THEN PtrW(obj, off) ELSE W0)>>
BinV(st, op, a, b) ==
  IF IsInt(a.t) /\ IsInt(b.t) THEN
    LET d == BinOp(op, a.t.n, a.w, b.t.n, b.w)
    IN <<Chk(st, d.def, "undefined integer operation"), Sc(TI(ResultType(op, a.t.n, b.t.n)), d.v)>>
  ELSE IF IsArith(a.t) /\ IsArith(b.t) THEN
    LET t == ArithType(a.t, b.t)
        xa == Conv(st, t, a)
        xb == Conv(xa[1], t, b)
        x == xa[2].w
        y == xb[2].w
    IN IF op \in RelOps THEN <<xb[1], Sc(TI("i"), BinOp(op, "l", x, "l", y).v)>>
       ELSE IF op = "/" THEN
         LET ok == ~WIsZero(y) /\ WIsZero(WSDivMod(x, y)[2]) /\ ~WIsZero(x)
         IN <<Chk(xb[1], ok, "inexact floating value"), Sc(t, IF ok THEN WSDivMod(x, y)[1] ELSE W0)>>
       ELSE LET d == BinOp(op, "l", x, "l", y)
            IN <<Chk(xb[1], d.def /\ FltOK(d.v), "inexact floating value"), Sc(t, d.v)>>
  ELSE IF IsPtr(a.t) /\ IsInt(b.t) /\ op = "+" THEN PtrAdd(st, a, Idx(b.w))
  ELSE IF IsInt(a.t) /\ IsPtr(b.t) /\ op = "+" THEN PtrAdd(st, b, Idx(a.w))
  ELSE IF IsPtr(a.t) /\ IsInt(b.t) /\ op = "-" THEN PtrAdd(st, a, -Idx(b.w))
  ELSE LET same == a.w[2] = b.w[2] /\ a.w[3] = b.w[3] /\ a.w[4] = b.w[4] /\ IsPtr(a.t) /\ IsPtr(b.t)
           d == a.w[1] - b.w[1]
       IN CASE op = "-" -> <<Chk(st, same, "difference of unrelated pointers"), Sc(TI("l"), IF same THEN FromInt(d \div Sz(a.t.to, st.p)) ELSE W0)>>
            [] op = "==" -> <<st, Sc(TI("i"), Bool(a.w = b.w))>>
            [] op = "!=" -> <<st, Sc(TI("i"), Bool(a.w # b.w))>>
            [] op = "<" -> <<Chk(st, same, "comparison of unrelated pointers"), Sc(TI("i"), Bool(d < 0))>>
            [] op = ">" -> <<Chk(st, same, "comparison of unrelated pointers"), Sc(TI("i"), Bool(d > 0))>>
            [] op = "<=" -> <<Chk(st, same, "comparison of unrelated pointers"), Sc(TI("i"), Bool(d <= 0))>>
            [] op = ">=" -> <<Chk(st, same, "comparison of unrelated pointers"), Sc(TI("i"), Bool(d >= 0))>>
            [] OTHER -> <<Ub(st, "operand types"), Zero>>
UnV(st, op, v) ==
  CASE op = "!" -> <<st, Sc(TI("i"), Bool(~Truth(v)))>>
    [] IsInt(v.t) -> LET d == UnOp(op, v.t.n, v.w)
                     IN <<Chk(st, d.def, "undefined integer operation"), Sc(TI(UnResultType(op, v.t.n)), d.v)>>
    [] OTHER -> <<Chk(st, ~(op = "-" /\ WIsZero(v.w)), "negative zero"), Sc(v.t, IF op = "-" THEN WNeg(v.w) ELSE v.w)>>

(*------------------------------ static types -----------------------------*)
CondT(a, b) == IF IsArith(a) /\ IsArith(b) THEN ArithType(a, b)
               ELSE IF IsPtr(a) /\ ~IsPtr(b) THEN a ELSE IF IsPtr(b) /\ ~IsPtr(a) THEN b
               ELSE IF IsPtr(a) /\ IsPtr(b) /\ b.to.c = "void" THEN b ELSE a
RECURSIVE TypeOf(_, _, _)
TypeOf(e, env, p) ==              \* before decay of arrays and functions
  CASE e.k = "num" -> TI(e.n)
    [] e.k = "fnum" -> [c |-> "flt", n |-> e.n]
    [] e.k = "str" -> [c |-> "arr", len |-> e.len, of |-> TI("c")]
    [] e.k = "id" -> (LET b == env.o[e.x] IN IF b.b = "enum" THEN TI("i") ELSE b.t)
    [] e.k = "un" -> IF e.op = "!" THEN TI("i") ELSE PromoteT(TypeOf(e.a, env, p))
    [] e.k = "addr" -> Ptr(TypeOf(e.a, env, p))
    [] e.k = "deref" -> (LET t == Decay(TypeOf(e.a, env, p)) IN t.to)
    [] e.k = "idx" -> (LET t == Decay(TypeOf(e.a, env, p)) IN IF IsPtr(t) THEN t.to ELSE Decay(TypeOf(e.b, env, p)).to)
    [] e.k = "mem" -> (LET t0 == TypeOf(e.a, env, p)
                           t == IF e.arrow THEN Decay(t0).to ELSE t0
                           m == Static[p].lay[t.tag].mem[e.x]
                       IN IF m.w > 0 /\ m.w < 32 THEN TI("i") ELSE m.t)
    [] e.k = "log" -> TI("i")
    [] e.k = "bin" -> (LET a == Decay(TypeOf(e.a, env, p))
                           b == Decay(TypeOf(e.b, env, p))
                       IN IF e.op \in RelOps THEN TI("i")
                          ELSE IF e.op \in ShiftOps THEN PromoteT(a)
                          ELSE IF IsArith(a) /\ IsArith(b) THEN ArithType(a, b)
                          ELSE IF IsPtr(a) /\ IsPtr(b) THEN TI("l") ELSE IF IsPtr(a) THEN a ELSE b)
    [] e.k = "cond" -> CondT(Decay(TypeOf(e.b, env, p)), Decay(TypeOf(e.c, env, p)))
    [] e.k = "comma" -> Decay(TypeOf(e.b, env, p))
    [] e.k \in {"asg", "inc"} -> TypeOf(e.a, env, p)
    [] e.k = "cast" -> TRes(e.t, env)
    [] e.k \in {"sizeofe", "sizeoft"} -> TI("ul")
    [] e.k = "call" -> (LET t == TypeOf(e.f, env, p) IN IF IsPtr(t) THEN t.to.ret ELSE t.ret)
    [] e.k = "vaarg" -> TRes(e.t, env)
    [] OTHER -> [c |-> "void"]

(*------------------------------- initialisers ----------------------------*)
\* An initialiser is [k |-> "e", e] or [k |-> "list", es]. InitList gives the assignments
\* <<[lv, e]>> it stands for, elements not reached being zero.
RECURSIVE FillAgg(_, _, _, _, _), InitFrom(_, _, _, _)
IsAgg(t) == t.c \in {"arr", "su"}
CharArr(t) == t.c = "arr" /\ t.of.c = "int" /\ t.of.n \in {"c", "uc"}
IsStr(it) == it.k = "e" /\ it.e.k = "str"
Elems(t, p) ==      \* the elements of an aggregate an initialiser list goes through
  IF t.c = "arr" THEN [k \in 1..t.len |-> [t |-> t.of, bit |-> 8 * (k - 1) * Sz(t.of, p), w |-> 0]]
  ELSE LET d == Static[p].tags[t.tag]
           at == Static[p].lay[t.tag].at
           nm == SelectSeq([k \in 1..Len(d.mem) |-> k], LAMBDA k: d.mem[k].x # "" \/ ~IsBf(d.mem[k]))
           el == [j \in 1..Len(nm) |-> LET m == d.mem[nm[j]] IN [t |-> m.t, bit |-> at[nm[j]], w |-> IF IsBf(m) THEN m.w ELSE 0]]
       IN IF d.kind = "union" /\ Len(el) > 0 THEN <<el[1]>> ELSE el
ElemLV(lv, el) == IF el.w > 0 THEN [t |-> el.t, obj |-> lv.obj, off |-> lv.off, bit |-> el.bit, wd |-> el.w]
                  ELSE LV(el.t, lv.obj, lv.off + el.bit \div 8)
\* consume items from position i for the elements of the aggregate lv: [i, acc]
FillAgg(lv, items, i, env, p) ==
  FoldLeft(LAMBDA a, el:
    IF a.i > Len(items) THEN a
    ELSE LET it == items[a.i]
             x == ElemLV(lv, el)
         IN IF it.k = "list" \/ ~IsAgg(x.t) \/ (CharArr(x.t) /\ IsStr(it))
                \/ (x.t.c = "su" /\ it.k = "e" /\ TypeOf(it.e, env, p).c = "su" /\ TypeOf(it.e, env, p) = x.t)
              THEN [i |-> a.i + 1, acc |-> a.acc \o InitFrom(x, it, env, p)]
            ELSE LET r == FillAgg(x, items, a.i, env, p) IN [i |-> r.i, acc |-> a.acc \o r.acc],
    [i |-> i, acc |-> <<>>], Elems(lv.t, p))
InitFrom(lv, it, env, p) ==
  IF it.k = "e" THEN <<[lv |-> lv, e |-> it.e]>>
  ELSE IF CharArr(lv.t) /\ Len(it.es) = 1 /\ IsStr(it.es[1]) THEN <<[lv |-> lv, e |-> it.es[1].e]>>
  ELSE IF IsAgg(lv.t) THEN FillAgg(lv, it.es, 1, env, p).acc
  ELSE InitFrom(lv, it.es[1], env, p)
\* the number of elements of an array of unknown size with this initialiser
RECURSIVE ItemsUsed(_, _, _, _, _)
ItemsUsed(t, items, i, env, p) ==     \* position after one element of type t
  LET it == items[i] IN
  IF it.k = "list" \/ ~IsAgg(t) \/ (CharArr(t) /\ IsStr(it)) \/ (t.c = "su" /\ it.k = "e" /\ TypeOf(it.e, env, p).c = "su") THEN i + 1
  ELSE FoldLeft(LAMBDA a, el: IF a > Len(items) THEN a ELSE ItemsUsed(el.t, items, a, env, p), i, Elems(t, p))
RECURSIVE CountElems(_, _, _, _, _)
CountElems(t, items, i, env, p) == IF i > Len(items) THEN 0 ELSE 1 + CountElems(t, items, ItemsUsed(t, items, i, env, p), env, p)
\* the declared type, its size completed from the initialiser
Complete(t, init, env, p) ==
  IF t.c = "arr" /\ t.len = -1
  THEN [t EXCEPT !.len = IF IsStr(init) THEN init.e.len
                         ELSE IF CharArr(t) /\ Len(init.es) = 1 /\ IsStr(init.es[1]) THEN init.es[1].e.len
                         ELSE CountElems(t.of, init.es, 1, env, p)]
  ELSE t

(*------------------------------- expressions -----------------------------*)
Res(st, v, R, W) == [st |-> st, v |-> v, R |-> R, W |-> W]
ResL(st, lv, R, W) == [st |-> st, lv |-> lv, R |-> R, W |-> W]
BadLV == LV(TI("i"), 0, 0)
Meets(A, Bs) == A # {} /\ Bs # {} /\ A \cap Bs # {}
Conflict(a, b) == Meets(a.W, b.W) \/ Meets(a.W, b.R) \/ Meets(b.W, a.R)
Seqd(st, a, b) == IF Conflict(a, b) THEN Ub(st, "unsequenced") ELSE st

RECURSIVE EvalLV(_, _, _), EvalArgs(_, _, _), CallFn(_, _, _), Run(_, _), Step(_), DoInit(_, _, _, _)

Two(a, b, env, st) ==
  IF st.ord = "lr" THEN LET x == Eval(a, env, st)
                            y == Eval(b, env, x.st)
                        IN [a |-> x, b |-> y, st |-> Seqd(y.st, x, y)]
  ELSE LET y == Eval(b, env, st)
           x == Eval(a, env, y.st)
       IN [a |-> x, b |-> y, st |-> Seqd(x.st, x, y)]
TwoL(a, b, env, st) ==
  IF st.ord = "lr" THEN LET x == EvalLV(a, env, st)
                            y == Eval(b, env, x.st)
                        IN [a |-> x, b |-> y, st |-> Seqd(y.st, x, y)]
  ELSE LET y == Eval(b, env, st)
           x == EvalLV(a, env, y.st)
       IN [a |-> x, b |-> y, st |-> Seqd(x.st, x, y)]

EvalLV(e, env, st) ==
  IF st.ub # "" THEN ResL(st, BadLV, {}, {})
  ELSE CASE e.k = "id" -> (LET b == env.o[e.x]
                           IN IF b.b = "fn" THEN ResL(st, LV(b.t, 0, b.f), {}, {}) ELSE ResL(st, LV(b.t, b.obj, 0), {}, {}))
         [] e.k = "str" -> ResL(st, LV([c |-> "arr", len |-> e.len, of |-> TI("c")], e.n, 0), {}, {})
         [] e.k = "deref" -> (LET r == Eval(e.a, env, st)
                              IN IF r.st.ub # "" THEN ResL(r.st, BadLV, {}, {})
                                 ELSE IF r.v.t.to.c = "fn" THEN ResL(Chk(r.st, r.v.w[3] = 1, "call of no function"), LV(r.v.t.to, 0, r.v.w[1]), r.R, r.W)
                                 ELSE ResL(r.st, LV(r.v.t.to, r.v.w[2], r.v.w[1]), r.R, r.W))
         [] e.k = "idx" -> (LET r == Two(e.a, e.b, env, st)
                                q == IF r.st.ub # "" THEN <<r.st, Zero>> ELSE BinV(r.st, "+", r.a.v, r.b.v)
                            IN IF q[1].ub # "" THEN ResL(q[1], BadLV, {}, {})
                               ELSE ResL(q[1], LV(q[2].t.to, q[2].w[2], q[2].w[1]), r.a.R \cup r.b.R, r.a.W \cup r.b.W))
         [] e.k = "mem" /\ e.arrow ->
              (LET r == Eval(e.a, env, st)
               IN IF r.st.ub # "" THEN ResL(r.st, BadLV, {}, {})
                  ELSE LET m == Static[st.p].lay[r.v.t.to.tag].mem[e.x]
                           lv == LV(r.v.t.to, r.v.w[2], r.v.w[1])
                       IN ResL(r.st, ElemLV(lv, m), r.R, r.W))
         [] e.k = "mem" ->
              (LET r == EvalLV(e.a, env, st)
               IN IF r.st.ub # "" THEN r
                  ELSE ResL(r.st, ElemLV(r.lv, Static[st.p].lay[r.lv.t.tag].mem[e.x]), r.R, r.W))
         [] OTHER -> \* a member of an rvalue struct: put it in a temporary object
              (LET r == Eval(e, env, st)
                   st2 == [r.st EXCEPT !.mem = Append(@, r.v.b)]
               IN IF r.st.ub # "" THEN ResL(r.st, BadLV, {}, {}) ELSE ResL(st2, LV(r.v.t, Len(st2.mem), 0), r.R, r.W))

Eval(e, env, st) ==
  IF st.ub # "" THEN Res(st, Zero, {}, {})
  ELSE CASE e.k = "num" -> Res(st, Sc(TI(e.n), e.w), {}, {})
         [] e.k = "fnum" -> Res(st, Sc([c |-> "flt", n |-> e.n], e.w), {}, {})
         [] e.k = "id" /\ env.o[e.x].b = "enum" -> Res(st, Sc(TI("i"), env.o[e.x].v), {}, {})
         [] e.k \in {"id", "deref", "idx", "mem", "str"} ->
              (LET l == EvalLV(e, env, st)
               IN IF l.st.ub # "" THEN Res(l.st, Zero, {}, {})
                  ELSE LET v == Load(l.st, l.lv)
                       IN Res(v[1], v[2], IF l.lv.t.c \in {"arr", "fn"} \/ v[1].ub # "" THEN l.R ELSE l.R \cup LvCells(l.lv, st.p), l.W))
         [] e.k = "addr" -> (LET l == EvalLV(e.a, env, st)
                             IN IF l.st.ub # "" THEN Res(l.st, Zero, {}, {})
                                ELSE Res(l.st, Sc(Ptr(l.lv.t), IF l.lv.t.c = "fn" THEN FnW(l.lv.off) ELSE PtrW(l.lv.obj, l.lv.off)), l.R, l.W))
         [] e.k = "un" -> (LET r == Eval(e.a, env, st)
                               x == IF r.st.ub # "" THEN <<r.st, Zero>> ELSE UnV(r.st, e.op, r.v)
                           IN Res(x[1], x[2], r.R, r.W))
         [] e.k = "bin" -> (LET r == Two(e.a, e.b, env, st)
                                x == IF r.st.ub # "" THEN <<r.st, Zero>> ELSE BinV(r.st, e.op, r.a.v, r.b.v)
                            IN Res(x[1], x[2], r.a.R \cup r.b.R, r.a.W \cup r.b.W))
         [] e.k = "log" -> (LET x == Eval(e.a, env, st)
                            IN IF x.st.ub # "" THEN x
                               ELSE IF Truth(x.v) # (e.op = "&&") THEN Res(x.st, Sc(TI("i"), Bool(e.op = "||")), x.R, x.W)
                               ELSE LET y == Eval(e.b, env, x.st)
                                    IN IF y.st.ub # "" THEN y ELSE Res(y.st, Sc(TI("i"), Bool(Truth(y.v))), x.R \cup y.R, x.W \cup y.W))
         [] e.k = "cond" -> (LET x == Eval(e.a, env, st)
                             IN IF x.st.ub # "" THEN x
                                ELSE LET y == Eval(IF Truth(x.v) THEN e.b ELSE e.c, env, x.st)
                                         t == TypeOf(e, env, st.p)
                                         v == IF y.st.ub # "" THEN <<y.st, Zero>> ELSE Conv(y.st, t, y.v)
                                     IN Res(v[1], v[2], x.R \cup y.R, x.W \cup y.W))
         [] e.k = "comma" -> (LET x == Eval(e.a, env, st)
                                  y == Eval(e.b, env, x.st)
                              IN Res(y.st, y.v, x.R \cup y.R, x.W \cup y.W))
         [] e.k = "asg" ->
              (LET r == TwoL(e.a, e.b, env, st)
                   lv == r.a.lv
                   old == IF e.op = "" \/ r.st.ub # "" THEN <<r.st, Zero>> ELSE Load(r.st, lv)
                   new == IF old[1].ub # "" THEN old ELSE IF e.op = "" THEN <<old[1], r.b.v>> ELSE BinV(old[1], e.op, old[2], r.b.v)
                   cv == IF new[1].ub # "" THEN new ELSE ConvTo(new[1], lv, new[2])
                   cells == LvCells(lv, st.p)
                   W0s == r.a.W \cup r.b.W
                   st2 == IF cv[1].ub # "" THEN cv[1] ELSE Store(Chk(cv[1], ~Meets(cells, W0s), "unsequenced"), lv, cv[2])
               IN IF st2.ub # "" THEN Res(st2, Zero, {}, {})
                  ELSE Res(st2, IF lv.wd > 0 THEN Load(st2, lv)[2] ELSE cv[2], r.a.R \cup r.b.R, W0s \cup cells))
         [] e.k = "inc" ->
              (LET l == EvalLV(e.a, env, st)
                   lv == l.lv
                   old == IF l.st.ub # "" THEN <<l.st, Zero>> ELSE Load(l.st, lv)
                   new == IF old[1].ub # "" THEN old ELSE BinV(old[1], IF e.op = "++" THEN "+" ELSE "-", old[2], Sc(TI("i"), <<1, 0, 0, 0>>))
                   cv == IF new[1].ub # "" THEN new ELSE ConvTo(new[1], lv, new[2])
                   cells == LvCells(lv, st.p)
                   st2 == IF cv[1].ub # "" THEN cv[1] ELSE Store(Chk(cv[1], ~Meets(cells, l.W), "unsequenced"), lv, cv[2])
               IN IF st2.ub # "" THEN Res(st2, Zero, {}, {})
                  ELSE Res(st2, IF e.post THEN old[2] ELSE IF lv.wd > 0 THEN Load(st2, lv)[2] ELSE cv[2], l.R \cup cells, l.W \cup cells))
         [] e.k = "cast" -> (LET r == Eval(e.a, env, st)
                                 v == IF r.st.ub # "" THEN <<r.st, Zero>> ELSE Conv(r.st, TRes(e.t, env), r.v)
                             IN Res(v[1], v[2], r.R, r.W))
         [] e.k = "sizeofe" -> Res(st, Sc(TI("ul"), FromInt(Sz(TypeOf(e.a, env, st.p), st.p))), {}, {})
         [] e.k = "sizeoft" -> Res(st, Sc(TI("ul"), FromInt(Sz(TRes(e.t, env), st.p))), {}, {})
         [] e.k = "obs" -> (LET r == Eval(e.a, env, st)
                                v == IF r.st.ub # "" THEN <<r.st, Zero>> ELSE Conv(r.st, TI(IF e.n = "" THEN "l" ELSE e.n), r.v)
                            IN IF v[1].ub # "" THEN Res(v[1], Zero, {}, {})
                               ELSE Res([v[1] EXCEPT !.out = Append(@, <<e.id>> \o v[2].w), !.W = @ \cup {0}], Zero, r.R, r.W \cup {0}))
         [] e.k = "vastart" -> (LET l == EvalLV(e.a, env, st)
                                IN IF l.st.ub # "" THEN Res(l.st, Zero, {}, {})
                                   ELSE Res(Store(l.st, l.lv, Sc(l.lv.t, <<1, env.va, 2, 0>>)), Zero, {}, LvCells(l.lv, st.p)))
         [] e.k = "vaarg" -> (LET l == EvalLV(e.a, env, st)
                                  x == IF l.st.ub # "" THEN <<l.st, Zero>> ELSE Load(l.st, l.lv)
                                  t == TRes(e.t, env)
                                  pos == x[2].w[1]
                                  lst == st.va[x[2].w[2]]
                              IN IF x[1].ub # "" THEN Res(x[1], Zero, {}, {})
                                 ELSE IF pos > Len(lst) \/ lst[pos].t # t THEN Res(Ub(x[1], "va_arg"), Zero, {}, {})
                                 ELSE Res(Store(x[1], l.lv, Sc(l.lv.t, <<pos + 1, x[2].w[2], 2, 0>>)), lst[pos], l.R, l.W \cup LvCells(l.lv, st.p)))
         [] e.k = "vaend" -> Res(st, Zero, {}, {})
         [] e.k = "vacopy" -> (LET l == EvalLV(e.a, env, st)
                                   m == IF l.st.ub # "" THEN l ELSE EvalLV(e.b, env, l.st)
                                   x == IF m.st.ub # "" THEN <<m.st, Zero>> ELSE Load(m.st, m.lv)
                               IN IF x[1].ub # "" THEN Res(x[1], Zero, {}, {})
                                  ELSE Res(Store(x[1], l.lv, x[2]), Zero, LvCells(m.lv, st.p), LvCells(l.lv, st.p)))
         [] e.k = "call" ->
              (LET f == Eval(e.f, env, st)
                   a == EvalArgs(e.as, env, f.st)
                   bad == a.st.ub # "" \/ f.v.w[3] # 1
                   ft == f.v.t.to
                   np == Len(ft.ps)
                   vals == FoldLeft(LAMBDA acc, k:
                             LET v == a.vs[k]
                                 c == IF k <= np THEN Conv(acc.st, ft.ps[k], v)
                                      ELSE Conv(acc.st, IF IsFlt(v.t) /\ v.t.n = "f" THEN [c |-> "flt", n |-> "d"] ELSE PromoteT(v.t), v)
                             IN [st |-> c[1], vs |-> Append(acc.vs, c[2])],
                             [st |-> Seqd(a.st, f, a), vs |-> <<>>], [k \in 1..Len(a.vs) |-> k])
                   st0 == vals.st
                   r == IF st0.ub # "" THEN [st |-> st0, v |-> Zero] ELSE CallFn(f.v.w[1], vals.vs, [st0 EXCEPT !.R = {}, !.W = {}])
                   \* what the call reads and writes outside its own activation
                   outer(X) == {x \in X : x < (Len(st0.mem) + 1) * 4096}
                   cR == outer(r.st.R)
                   cW == outer(r.st.W)
               IN IF bad THEN Res(Ub(a.st, "call of no function"), Zero, {}, {})
                  ELSE Res([r.st EXCEPT !.R = st0.R \cup cR, !.W = st0.W \cup cW], r.v, f.R \cup a.R \cup cR, f.W \cup a.W \cup cW))

EvalArgs(as, env, st) ==
  LET n == Len(as)
      ord == [k \in 1..n |-> IF st.ord = "lr" THEN k ELSE n + 1 - k]
  IN FoldLeft(LAMBDA acc, k:
       LET r == Eval(as[k], env, acc.st)
       IN [st |-> Seqd(r.st, acc, r), vs |-> IF st.ord = "lr" THEN Append(acc.vs, r.v) ELSE <<r.v>> \o acc.vs, R |-> acc.R \cup r.R, W |-> acc.W \cup r.W],
       [st |-> st, vs |-> <<>>, R |-> {}, W |-> {}], ord)

(*------------------------- activations and statements --------------------*)
\* an activation: [st, k (stack of frames), env, env0, slots, body, ret, done]
Bind(env, x, b) == [env EXCEPT !.o = [y \in DOMAIN @ \cup {x} |-> IF y = x THEN b ELSE @[y]]]
BindTag(env, x, g) == [env EXCEPT !.t = [y \in DOMAIN @ \cup {x} |-> IF y = x THEN g ELSE @[y]]]
ObjB(obj, t) == [b |-> "obj", obj |-> obj, t |-> t]

CallFn(f, vals, st) ==
  LET fn == Static[st.p].fns[f]
      np == Len(fn.ps)
      base == Len(st.mem)
      genv == st.genv[fn.unit]
      st1 == FoldLeft(LAMBDA s, k: LET s2 == Alloc(s, Sz(fn.ps[k].t, s.p)) IN Store(s2, LV(fn.ps[k].t, Len(s2.mem), 0), vals[k]), st, [k \in 1..np |-> k])
      st2 == IF fn.var THEN [st1 EXCEPT !.va = Append(@, SubSeq(vals, np + 1, Len(vals)))] ELSE st1
      env0 == FoldLeft(LAMBDA en, k: Bind(en, fn.ps[k].x, ObjB(base + k, fn.ps[k].t)), [genv EXCEPT !.va = Len(st2.va)], [k \in 1..np |-> k])
      act == [st |-> st2, k |-> <<[f |-> "s", id |-> fn.body]>>, env |-> env0, env0 |-> env0, slots |-> <<>>, body |-> fn.body, rt |-> fn.ret, ret |-> <<>>, done |-> FALSE]
      r == Run(act, 13)
      v == IF fn.ret.c = "void" THEN Zero ELSE IF r.ret = <<>> THEN Zero ELSE r.ret[1]
  IN IF Len(vals) # np /\ ~fn.var THEN [st |-> Ub(st, "number of arguments"), v |-> Zero]
     ELSE IF Len(st.mem) > 900 \/ base > 4000 THEN [st |-> Ub(st, "resources"), v |-> Zero]
     ELSE IF r.st.ub # "" THEN [st |-> r.st, v |-> Zero]
     ELSE [st |-> [r.st EXCEPT !.mem = SubSeq(@, 1, base)], v |-> v]     \* the objects of the activation are gone

Run(a, n) == IF a.done \/ a.st.ub # "" THEN a ELSE IF n = 0 THEN Step(a) ELSE Run(Run(a, n - 1), n - 1)

\* evaluate the assignments of an initialiser of the object lv
DoInit(st, lv, init, env) ==
  LET zeroed == IF init.k = "list" \/ CharArr(lv.t)
                THEN [st EXCEPT !.mem[lv.obj] = [k \in 1..Len(@) |-> 0]] ELSE st
  IN FoldLeft(LAMBDA s, x:
       IF s.ub # "" THEN s
       ELSE IF x.e.k = "str" /\ x.lv.t.c = "arr"
         THEN [s EXCEPT !.mem[lv.obj] = LET src == s.mem[x.e.n] IN
                 [k \in 1..Len(@) |-> IF k > x.lv.off /\ k <= x.lv.off + x.lv.t.len /\ k - x.lv.off <= Len(src) THEN src[k - x.lv.off] ELSE @[k]]]
       ELSE LET r == Eval(x.e, env, s)
                c == IF r.st.ub # "" THEN <<r.st, Zero>> ELSE ConvTo(r.st, x.lv, r.v)
            IN IF c[1].ub # "" THEN c[1] ELSE Store(c[1], x.lv, c[2]),
       zeroed, InitFrom(lv, init, env, st.p))

\* enumerators: [x, v] or [x, e] with a constant expression; one without either is one more than the one before
EnumVal(c, env, prev) == IF "e" \in DOMAIN c THEN Norm("i", CE(c.e, env).v.w) ELSE IF "v" \in DOMAIN c THEN c.v ELSE WAdd(prev, <<1, 0, 0, 0>>)
Enums(d, env) == FoldLeft(LAMBDA acc, c: LET v == EnumVal(c, acc.env, acc.prev) IN [env |-> Bind(acc.env, c.x, [b |-> "enum", v |-> v]), prev |-> v],
                          [env |-> env, prev |-> WM1], d.cs).env
EnumsDef(d, env) == FoldLeft(LAMBDA acc, c: LET v == EnumVal(c, acc.env, acc.prev)
                                               ok == "e" \in DOMAIN c => LET r == CE(c.e, acc.env) IN r.st.ub = "" /\ Fits("i", r.v.w) /\ ~(r.v.t.n = "ul" /\ WNegative(r.v.w))
                                           IN [env |-> Bind(acc.env, c.x, [b |-> "enum", v |-> v]), prev |-> v, ok |-> acc.ok /\ ok /\ Fits("i", v)],
                             [env |-> env, prev |-> WM1, ok |-> TRUE], d.cs).ok
\* enter a declaration into the environment; "fresh" objects get indeterminate contents
Declare(a, d, fresh) ==
  CASE d.dk = "td" -> [a EXCEPT !.env = Bind(a.env, d.x, [b |-> "td", t |-> TRes(d.t, a.env)]), !.st = Chk(@, TDef(d.t, a.env), "constant expression")]
    [] d.dk = "enum" -> [a EXCEPT !.env = Enums(d, a.env), !.st = Chk(@, EnumsDef(d, a.env), "constant expression")]
    [] d.dk = "tag" -> [a EXCEPT !.env = BindTag(a.env, d.x, d.tag)]
    [] d.dk = "ext" -> [a EXCEPT !.env = Bind(a.env, d.x, a.st.ents[d.ent])]
    [] d.sc = "static" -> [a EXCEPT !.env = Bind(a.env, d.x, a.st.statics[d.id])]
    [] d.dk = "var" ->
         LET t == Complete(TRes(d.t, a.env), d.init, Bind(a.env, d.x, ObjB(0, TRes(d.t, a.env))), a.st.p)
             known == \E k \in DOMAIN a.slots : a.slots[k][1] = d.id
             obj == IF known THEN a.slots[CHOOSE k \in DOMAIN a.slots : a.slots[k][1] = d.id][2] ELSE Len(a.st.mem) + 1
             st1 == IF ~TDef(d.t, a.env) THEN Ub(a.st, "constant expression")
                    ELSE IF ~known THEN Alloc(a.st, Sz(t, a.st.p))
                    ELSE IF fresh THEN [a.st EXCEPT !.mem[obj] = Indet(Len(@))] ELSE a.st
         IN [a EXCEPT !.st = st1, !.slots = IF known THEN @ ELSE Append(@, <<d.id, obj>>), !.env = Bind(a.env, d.x, ObjB(obj, t))]

\* the activation positioned at statement target inside statement id
RECURSIVE Seek(_, _, _, _)
Push(a, fr) == [a EXCEPT !.k = Append(@, fr)]
Seek(a, id, target, active) ==
  LET S == Static[a.st.p].S
      D == Static[a.st.p].desc
      s == S[id]
  IN IF id = target THEN Push(a, [f |-> "s", id |-> id])
     ELSE CASE s.k = "block" ->
                 (LET j == CHOOSE j \in DOMAIN s.ss : target \in D[s.ss[j]]
                      a1 == Push(a, [f |-> "blk", id |-> id, i |-> j, env |-> a.env])
                      a2 == FoldLeft(LAMBDA x, m: IF S[s.ss[m]].k = "decl" THEN Declare(x, S[s.ss[m]].d, id \notin active) ELSE x,
                                     a1, [m \in 1..(j - 1) |-> m])
                  IN Seek(a2, s.ss[j], target, active))
            [] s.k = "if" -> Seek(a, IF target \in D[s.th] THEN s.th ELSE s.el, target, active)
            [] s.k \in {"while", "do"} -> Seek(Push(a, [f |-> "loop", id |-> id]), s.b, target, active)
            [] s.k = "for" -> Seek(Push(a, [f |-> "for", id |-> id, i |-> 1]), s.b, target, active)
            [] s.k = "switch" -> Seek(Push(a, [f |-> "sw", id |-> id]), s.b, target, active)
            [] s.k \in {"case", "default", "label"} -> Seek(a, s.b, target, active)

\* leave frames up to (and including, if incl) the innermost frame of one of the kinds
RECURSIVE Unwind(_, _, _)
Unwind(a, kinds, incl) ==
  LET n == Len(a.k)
      fr == a.k[n]
      pop == [a EXCEPT !.k = SubSeq(@, 1, n - 1), !.env = IF fr.f = "blk" THEN fr.env ELSE @]
  IN IF n = 0 THEN [a EXCEPT !.st = Ub(@, "break or continue outside a loop")]
     ELSE IF fr.f \in kinds THEN (IF incl THEN pop ELSE a)
     ELSE Unwind(pop, kinds, incl)

\* one step of an activation
Step(a0) ==
  LET n == Len(a0.k)
      fr == a0.k[n]
      S == Static[a0.st.p].S
      s == S[fr.id]
      a == [a0 EXCEPT !.st = [@ EXCEPT !.n = @ + 1, !.ub = IF a0.st.n > MaxSteps THEN "steps" ELSE @]]
      pop == [a EXCEPT !.k = SubSeq(@, 1, n - 1)]
      Ev(e) == Eval(e, a.env, a.st)
      Then(x, id) == Push(x, [f |-> "s", id |-> id])
  IN IF n = 0 THEN [a EXCEPT !.done = TRUE]
     ELSE CASE fr.f = "blk" -> (IF fr.i < Len(s.ss) THEN Then([a EXCEPT !.k[n].i = @ + 1], s.ss[fr.i + 1])
                                ELSE [pop EXCEPT !.env = fr.env])
       [] fr.f = "loop" -> (LET r == Ev(s.e) IN IF r.st.ub = "" /\ Truth(r.v) THEN Then([a EXCEPT !.st = r.st], s.b) ELSE [pop EXCEPT !.st = r.st])
       [] fr.f = "for" ->
            (IF fr.i = 1 THEN (LET r == Ev(s.st) IN [a EXCEPT !.st = r.st, !.k[n].i = 0])
             ELSE LET r == Ev(s.e)
                  IN IF r.st.ub = "" /\ Truth(r.v) THEN Then([a EXCEPT !.st = r.st, !.k[n].i = 1], s.b) ELSE [pop EXCEPT !.st = r.st])
       [] fr.f = "sw" -> pop
       [] s.k = "empty" -> pop
       [] s.k = "expr" -> [pop EXCEPT !.st = Ev(s.e).st]
       [] s.k = "decl" -> (LET b == Declare(pop, s.d, TRUE)
                               bd == b.env.o[s.d.x]
                           IN IF s.d.dk = "var" /\ s.d.sc = "" /\ s.d.init.k # "none" THEN [b EXCEPT !.st = DoInit(b.st, LV(bd.t, bd.obj, 0), s.d.init, b.env)] ELSE b)
       [] s.k = "block" -> Push(pop, [f |-> "blk", id |-> fr.id, i |-> 0, env |-> a.env])
       [] s.k = "if" -> (LET r == Ev(IF "pp" \in DOMAIN s THEN PPE(s.e) ELSE s.e)
                             b == [pop EXCEPT !.st = r.st]
                         IN IF r.st.ub # "" THEN b ELSE IF Truth(r.v) THEN Then(b, s.th) ELSE IF s.el # 0 THEN Then(b, s.el) ELSE b)
       [] s.k = "while" -> Push(pop, [f |-> "loop", id |-> fr.id])
       [] s.k = "do" -> Then(Push(pop, [f |-> "loop", id |-> fr.id]), s.b)
       [] s.k = "for" -> (LET r == Ev(s.i) IN Push([pop EXCEPT !.st = r.st], [f |-> "for", id |-> fr.id, i |-> 0]))
       [] s.k = "switch" ->
            (LET r == Ev(s.e)
                 v == Sc(PromoteT(r.v.t), r.v.w)
                 cs == Static[a.st.p].cases[fr.id]
                 cv(c) == IF "e" \in DOMAIN S[c] THEN Norm(v.t.n, CE(S[c].e, a.env).v.w) ELSE Norm(v.t.n, S[c].v)
                 labs == {c \in cs : S[c].k = "case"}
                 undef == \E c \in labs : \/ "e" \in DOMAIN S[c] /\ CE(S[c].e, a.env).st.ub # ""
                                          \/ \E k \in labs : k # c /\ cv(k) = cv(c)
                 hit == {c \in labs : cv(c) = v.w}
                 dfl == {c \in cs : S[c].k = "default"}
                 b == Push([pop EXCEPT !.st = r.st], [f |-> "sw", id |-> fr.id])
             IN IF r.st.ub # "" THEN [pop EXCEPT !.st = r.st]
                ELSE IF undef THEN [pop EXCEPT !.st = Ub(@, "case labels")]
                ELSE IF hit # {} THEN Seek(b, s.b, CHOOSE c \in hit : TRUE, {})
                ELSE IF dfl # {} THEN Seek(b, s.b, CHOOSE c \in dfl : TRUE, {})
                ELSE [pop EXCEPT !.st = r.st])
       [] s.k \in {"case", "default", "label"} -> Then(pop, s.b)
       [] s.k = "goto" ->
            (LET D == Static[a.st.p].desc[a.body]
                 tg == CHOOSE c \in D : S[c].k = "label" /\ S[c].x = s.x
                 active == {a.k[j].id : j \in {j \in 1..n : a.k[j].f = "blk"}}
             IN Seek([a EXCEPT !.k = <<>>, !.env = a.env0], a.body, tg, active))
       [] s.k = "break" -> Unwind(a, {"loop", "for", "sw"}, TRUE)
       [] s.k = "continue" -> Unwind(a, {"loop", "for"}, FALSE)
       [] s.k = "return" ->
            (IF s.e.k = "none" THEN [a EXCEPT !.k = <<>>, !.done = TRUE]
             ELSE LET r == Ev(s.e)
                      c == IF r.st.ub # "" THEN <<r.st, Zero>> ELSE Conv(r.st, a.rt, r.v)
                  IN [a EXCEPT !.k = <<>>, !.done = TRUE, !.st = c[1], !.ret = <<c[2]>>])

(*------------------------------ program start ----------------------------*)
\* Entities with linkage are resolved over all translation units: key <<name, 0>> for external,
\* <<name, unit>> for internal linkage.
Key(x, sc, u, pr) ==
  \* linkage of a file-scope declaration of x in unit u with storage class sc, in the light of the earlier ones
  LET earlier == {k \in 1..Len(pr.units[u].ds) : pr.units[u].ds[k].x = x /\ pr.units[u].ds[k].sc = "static"}
  IN IF sc = "static" \/ earlier # {} THEN <<x, u>> ELSE <<x, 0>>
EntDecls(pr) ==
  FoldLeft(LAMBDA acc, u: acc \o [k \in 1..Len(pr.units[u].ds) |-> [u |-> u, d |-> pr.units[u].ds[k], key |-> Key(pr.units[u].ds[k].x, pr.units[u].ds[k].sc, u, pr)]],
           <<>>, [u \in 1..Len(pr.units) |-> u])
IsEnt(x) == x.d.dk \in {"var", "fn"}
BaseEnv(pr, u, p) ==       \* typedefs, tags and enumerators of the unit
  FoldLeft(LAMBDA en, d: CASE d.dk = "td" -> Bind(en, d.x, [b |-> "td", t |-> TRes(d.t, en)])
                           [] d.dk = "enum" -> Enums(d, en)
                           [] d.dk = "tag" -> BindTag(en, d.x, d.tag)
                           [] d.dk = "var" -> LET t == TRes(d.t, en) IN Bind(en, d.x, ObjB(0, IF d.init.k = "none" THEN t ELSE Complete(t, d.init, en, p)))
                           [] OTHER -> en,
           NoEnv(p), pr.units[u].ds)
BaseDef(pr, u, p) ==    \* its constant expressions are defined
  FoldLeft(LAMBDA acc, d: [en |-> CASE d.dk = "td" -> Bind(acc.en, d.x, [b |-> "td", t |-> TRes(d.t, acc.en)])
                                    [] d.dk = "enum" -> Enums(d, acc.en)
                                    [] d.dk = "tag" -> BindTag(acc.en, d.x, d.tag)
                                    [] d.dk = "var" -> Bind(acc.en, d.x, ObjB(0, TRes(d.t, acc.en)))
                                    [] OTHER -> acc.en,
                           ok |-> acc.ok /\ TDef(d.t, acc.en) /\ (d.dk = "enum" => EnumsDef(d, acc.en))],
           [en |-> NoEnv(p), ok |-> TRUE], pr.units[u].ds).ok
WidthsDef(pr, p) == \A g \in DOMAIN pr.tags : \A k \in DOMAIN pr.tags[g].mem :
  "we" \in DOMAIN pr.tags[g].mem[k] => LET r == CE(pr.tags[g].mem[k].we, NoEnv(p)) IN r.st.ub = "" /\ r.v.w[1] \in 1..32 /\ r.v.w[2] = 0
Start(p, ord) ==
  LET pr == Progs[p]
      st0 == [p |-> p, ord |-> ord, mem |-> pr.strs, out |-> <<>>,
              ub |-> IF WidthsDef(pr, p) /\ \A u \in 1..Len(pr.units) : BaseDef(pr, u, p) THEN "" ELSE "constant expression", n |-> 0, va |-> <<>>, R |-> {}, W |-> {}, genv |-> <<>>, ents |-> <<>>, statics |-> <<>>]
      eds == SelectSeq(EntDecls(pr), IsEnt)
      keys == {eds[k].key : k \in DOMAIN eds}
      benv == [u \in 1..Len(pr.units) |-> BaseEnv(pr, u, p)]
      ofkey(key) == SelectSeq(eds, LAMBDA x: x.key = key)
      \* the complete type of an entity: from the declaration with an initialiser, else one with a size
      ty(key) == LET ds == ofkey(key)
                     ini == SelectSeq(ds, LAMBDA x: x.d.dk = "var" /\ x.d.init.k # "none")
                     siz == SelectSeq(ds, LAMBDA x: ~(x.d.t.c = "arr" /\ x.d.t.len = -1))
                 IN IF Len(ini) > 0 THEN Complete(TRes(ini[1].d.t, benv[ini[1].u]), ini[1].d.init, benv[ini[1].u], p)
                    ELSE IF Len(siz) > 0 THEN TRes(siz[1].d.t, benv[siz[1].u])
                    ELSE [ds[1].d.t EXCEPT !.len = 1]       \* tentative definition of an array of unknown size
      keyseq == SetToSeq(keys)
      alloc == FoldLeft(LAMBDA acc, key:
                 LET ds == ofkey(key) IN
                 IF ds[1].d.dk = "fn"
                 THEN [acc EXCEPT !.m = Append(@, <<key, [b |-> "fn", f |-> SelectSeq(ds, LAMBDA x: x.d.f # 0)[1].d.f, t |-> ds[1].d.t]>>)]
                 ELSE LET t == ty(key) IN
                      [st |-> [acc.st EXCEPT !.mem = Append(@, [k \in 1..Sz(t, p) |-> 0])],
                       m |-> Append(acc.m, <<key, ObjB(Len(acc.st.mem) + 1, t)>>)],
                 [st |-> st0, m |-> <<>>], keyseq)
      bnd == [key \in keys |-> alloc.m[CHOOSE k \in DOMAIN alloc.m : alloc.m[k][1] = key][2]]
      genv == [u \in 1..Len(pr.units) |->
                FoldLeft(LAMBDA en, k: IF eds[k].u = u THEN Bind(en, eds[k].d.x, bnd[eds[k].key]) ELSE en, benv[u], [k \in 1..Len(eds) |-> k])]
      \* static locals: one object each, for the whole execution
      stat == FoldLeft(LAMBDA acc, d:
                 LET t == Complete(TRes(d.d.t, genv[d.u]), d.d.init, genv[d.u], p)
                     st == [acc.st EXCEPT !.mem = Append(@, [k \in 1..Sz(t, p) |-> 0])]
                 IN [st |-> st, m |-> [x \in DOMAIN acc.m \cup {d.d.id} |-> IF x = d.d.id THEN ObjB(Len(st.mem), t) ELSE acc.m[x]]],
                 [st |-> alloc.st, m |-> <<>>], pr.statics)
      entm == [x \in {pr.exts[k].ent : k \in DOMAIN pr.exts} |->
                LET d == pr.exts[CHOOSE k \in DOMAIN pr.exts : pr.exts[k].ent = x]
                    key == Key(d.x, "extern", d.u, pr)
                IN bnd[key]]
      st1 == [stat.st EXCEPT !.genv = genv, !.ents = entm, !.statics = stat.m]
      st2 == FoldLeft(LAMBDA s, x: IF x.d.dk = "var" /\ x.d.init.k # "none"
                                   THEN DoInit(s, LV(bnd[x.key].t, bnd[x.key].obj, 0), x.d.init, genv[x.u]) ELSE s, st1, eds)
      st3 == FoldLeft(LAMBDA s, d: IF d.d.init.k # "none" THEN DoInit(s, LV(s.statics[d.d.id].t, s.statics[d.d.id].obj, 0), d.d.init, genv[d.u]) ELSE s, st2, pr.statics)
      fn == Static[p].fns[pr.main]
  IN [st |-> st3, k |-> <<[f |-> "s", id |-> fn.body]>>, env |-> genv[fn.unit], env0 |-> genv[fn.unit], slots |-> <<>>, body |-> fn.body, rt |-> TI("i"), ret |-> <<>>, done |-> FALSE]

(*------------------------------- behaviours ------------------------------*)
VARIABLES prog, order, act, phase
vars == <<prog, order, act, phase>>
Nothing == [none |-> TRUE]
Init == prog \in 1..Len(Progs) /\ order \in {"lr", "rl"} /\ act = Nothing /\ phase = "load"
Begin == phase = "load" /\ act' = Start(prog, order) /\ phase' = "run" /\ UNCHANGED <<prog, order>>
Finished(a) == a.done \/ a.st.ub # ""
Exec == phase = "run" /\ ~Finished(act) /\ act' = Step([act EXCEPT !.st.R = {}, !.st.W = {}]) /\ UNCHANGED <<prog, order, phase>>
Finish == /\ phase = "run" /\ Finished(act)
          /\ JsonSerialize(IOEnv.VF_OUT \o "/" \o ToString(prog) \o order, [ub |-> act.st.ub, out |-> act.st.out, n |-> act.st.n])
          /\ phase' = "end" /\ act' = Nothing /\ UNCHANGED <<prog, order>>
Next == Begin \/ Exec \/ Finish
Spec == Init /\ [][Next]_vars

\* Properties of the machine itself
Running == phase = "run"
BytesOK == Running => \A k \in DOMAIN act.st.mem : \A j \in DOMAIN act.st.mem[k] : act.st.mem[k][j] \in -1..255
FramesOK == Running => \A k \in DOMAIN act.k : act.k[k].f \in {"s", "blk", "loop", "for", "sw"} /\ act.k[k].id \in DOMAIN Static[prog].S
\* observations are never retracted, objects never change size
Monotone == [][phase = "run" /\ phase' = "run" =>
                 /\ Len(act.st.out) <= Len(act'.st.out)
                 /\ SubSeq(act'.st.out, 1, Len(act.st.out)) = act.st.out
                 /\ \A k \in DOMAIN act.st.mem : k \in DOMAIN act'.st.mem /\ Len(act'.st.mem[k]) = Len(act.st.mem[k])]_vars
=============================================================================
