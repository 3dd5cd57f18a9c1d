------------------------------- MODULE CLayout -------------------------------
(***************************************************************************)
(* Object types of C and their layout in the System V x86-64 ABI.           *)
(*   [c |-> "int", n]  [c |-> "flt", n]  [c |-> "ptr", to]                  *)
(*   [c |-> "arr", len, of]  [c |-> "su", tag]  [c |-> "fn", ret, ps, var]  *)
(*   [c |-> "void"]                                                         *)
(* Tags map to [kind |-> "struct" | "union", packed, mem], mem a sequence   *)
(* of [x, t] for members, [x, t, w] for bit-fields of width w; a member     *)
(* named "" is an anonymous struct or union or an unnamed bit-field.        *)
(* An array of length 0 as last member is a flexible array.                 *)
(* Positions of members are counted in bits.                                *)
(***************************************************************************)
EXTENDS CInt

IsBf(m) == "w" \in DOMAIN m
RoundUp(n, a) == ((n + a - 1) \div a) * a
Max2(a, b) == IF a > b THEN a ELSE b

RECURSIVE TSize(_, _), TAlign(_, _), LayoutOf(_, _)
TSize(t, tags) ==
  CASE t.c = "int" -> SizeOf(t.n)
    [] t.c = "flt" -> (CASE t.n = "f" -> 4 [] t.n = "d" -> 8 [] t.n = "ld" -> 16)
    [] t.c = "ptr" -> 8
    [] t.c = "arr" -> t.len * TSize(t.of, tags)
    [] t.c = "su" -> LayoutOf(tags[t.tag], tags).size
    [] t.c = "enum" -> 4
    [] OTHER -> 1
TAlign(t, tags) ==
  CASE t.c = "arr" -> TAlign(t.of, tags)
    [] t.c = "su" -> LayoutOf(tags[t.tag], tags).align
    [] OTHER -> TSize(t, tags)

\* Placement of one member after the state st = [bits, align, max, at]
Place(d, tags, st, m) ==
  LET union == d.kind = "union"
      cur == IF union THEN 0 ELSE st.bits
  IN IF IsBf(m)
     THEN LET cbits == 8 * TSize(m.t, tags)
              start == IF m.w = 0 THEN RoundUp(cur, cbits)
                       ELSE IF ~d.packed /\ cur \div cbits # (cur + m.w - 1) \div cbits THEN RoundUp(cur, cbits) ELSE cur
          IN [bits |-> start + m.w, max |-> Max2(st.max, start + m.w),
              align |-> IF m.x = "" \/ d.packed THEN st.align ELSE Max2(st.align, TAlign(m.t, tags)),
              at |-> Append(st.at, start)]
     ELSE LET al == IF d.packed THEN 1 ELSE TAlign(m.t, tags)
              start == RoundUp(cur, 8 * al)
              end == start + 8 * TSize(m.t, tags)
          IN [bits |-> end, max |-> Max2(st.max, end), align |-> Max2(st.align, al), at |-> Append(st.at, start)]

LayoutOf(d, tags) ==
  LET st == FoldLeft(LAMBDA s, m: Place(d, tags, s, m), [bits |-> 0, max |-> 0, align |-> 1, at |-> <<>>], d.mem)
  IN [size |-> RoundUp(RoundUp(st.max, 8) \div 8, st.align), align |-> st.align, at |-> st.at]

\* All named members reachable by name, through anonymous structs and unions: <<[x, t, bit, w]>>
RECURSIVE Members(_, _, _)
Members(tag, tags, base) ==
  LET d == tags[tag]
      l == LayoutOf(d, tags)
  IN FoldLeft(LAMBDA acc, k:
       LET m == d.mem[k] IN
       IF m.x # "" THEN Append(acc, [x |-> m.x, t |-> m.t, bit |-> base + l.at[k], w |-> IF IsBf(m) THEN m.w ELSE 0])
       ELSE IF IsBf(m) THEN acc
       ELSE acc \o Members(m.t.tag, tags, base + l.at[k]), <<>>, [k \in 1..Len(d.mem) |-> k])

\* Theorems every layout satisfies
WellLaidOut(tag, tags) ==
  LET d == tags[tag]
      l == LayoutOf(d, tags)
      sz(m) == IF IsBf(m) THEN m.w ELSE 8 * TSize(m.t, tags)
  IN /\ l.size % l.align = 0
     /\ \A k \in 1..Len(d.mem) :
          /\ l.at[k] + sz(d.mem[k]) <= 8 * l.size \/ (IsBf(d.mem[k]) /\ d.mem[k].w = 0)
          /\ ~IsBf(d.mem[k]) /\ ~d.packed => l.at[k] % (8 * TAlign(d.mem[k].t, tags)) = 0
          /\ IsBf(d.mem[k]) /\ d.mem[k].w > 0 /\ ~d.packed => l.at[k] \div 32 = (l.at[k] + d.mem[k].w - 1) \div 32
     /\ d.kind = "struct" => \A j, k \in 1..Len(d.mem) : j < k => l.at[j] + sz(d.mem[j]) <= l.at[k]
     /\ d.kind = "union" => \A k \in 1..Len(d.mem) : l.at[k] = 0
=============================================================================
