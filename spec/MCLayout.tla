------------------------------ MODULE MCLayout ------------------------------
(***************************************************************************)
(* All structs, unions and packed structs of up to MaxMem members of the    *)
(* kinds below, and the tag tables given in VF_TAGS (random deeper ones):   *)
(* CLayout!LayoutOf lays them out, the invariant checks the theorems of     *)
(* CLayout on each of them, and the layouts are written out to be compared  *)
(* with what the compiler makes of the same declarations.                   *)
(***************************************************************************)
EXTENDS CLayout, Json, IOUtils
CONSTANTS MaxMem
I(n) == [c |-> "int", n |-> n]
Fl(n) == [c |-> "flt", n |-> n]
Arr(n, t) == [c |-> "arr", len |-> n, of |-> t]
Su(g) == [c |-> "su", tag |-> g]
Mem(t) == [x |-> "m", t |-> t]
Bf(t, w) == [x |-> "m", t |-> I(t), w |-> w]
AnonS(t) == [x |-> "", t |-> t]
Un(t, w) == [x |-> "", t |-> I(t), w |-> w]
\* kinds of members
Kinds == <<Mem(I("c")), Mem(I("us")), Mem(I("i")), Mem([c |-> "ptr", to |-> I("c")]), Mem(Fl("f")), Mem(Fl("ld")), Mem(Arr(3, I("c"))), Mem(Arr(2, I("s"))),
           Mem(Su("N")), Mem(Su("V")), Mem(Arr(2, Su("K"))), AnonS(Su("A")), AnonS(Su("O")),
           Bf("i", 1), Bf("u", 7), Bf("i", 17), Bf("u", 32), Bf("i", 15), Un("i", 0), Un("u", 3), Mem(Arr(0, I("i")))>>
Flex == Len(Kinds)
HasBf(m) == IsBf(m)
\* the tags the kinds use
Base == [N |-> [kind |-> "struct", packed |-> FALSE, mem |-> <<[x |-> "a", t |-> I("c")], [x |-> "b", t |-> I("l")]>>],
         V |-> [kind |-> "union", packed |-> FALSE, mem |-> <<[x |-> "a", t |-> I("i")], [x |-> "b", t |-> Arr(5, I("c"))]>>],
         K |-> [kind |-> "struct", packed |-> TRUE, mem |-> <<[x |-> "a", t |-> I("c")], [x |-> "b", t |-> I("i")]>>],
         A |-> [kind |-> "struct", packed |-> FALSE, mem |-> <<[x |-> "a", t |-> I("c")], [x |-> "b", t |-> I("s")]>>],
         O |-> [kind |-> "union", packed |-> FALSE, mem |-> <<[x |-> "a", t |-> I("s")], [x |-> "b", t |-> I("l")]>>]]
Defs == TLCEval(Base @@ [S |-> [kind |-> "struct", packed |-> FALSE, mem |-> <<>>]])
With(kind, packed, ks) == [Defs EXCEPT !.S = [kind |-> kind, packed |-> packed, mem |-> [k \in 1..Len(ks) |-> Kinds[ks[k]]]]]

\* sequences of kinds starting with k that make a valid definition
Seqs(k) == {<<k>>} \cup (IF MaxMem >= 2 THEN {<<k, j>> : j \in 1..Len(Kinds)} ELSE {})
                   \cup (IF MaxMem >= 3 THEN {<<k, j, l>> : j \in 1..Len(Kinds), l \in 1..Len(Kinds)} ELSE {})
                   \cup (IF MaxMem >= 4 THEN {<<k, j, l, m>> : j \in 1..Len(Kinds), l \in 1..Len(Kinds), m \in 1..Len(Kinds)} ELSE {})
Named(m) == m.x # "" \/ ~IsBf(m)
Valid(kind, packed, ks) ==
  /\ \E j \in DOMAIN ks : Named(Kinds[ks[j]])
  /\ packed => \A j \in DOMAIN ks : ~IsBf(Kinds[ks[j]])       \* a known finding: see DESIGN.md
  /\ \A j \in DOMAIN ks : ks[j] = Flex => j = Len(ks) /\ kind = "struct" /\ \E i \in 1..(j - 1) : Named(Kinds[ks[i]])
Layout(kind, packed, ks) == LET l == LayoutOf(With(kind, packed, ks).S, Defs) IN [ks |-> ks, size |-> l.size, align |-> l.align, at |-> l.at]

Given == TLCEval(IF "VF_TAGS" \in DOMAIN IOEnv THEN JsonDeserialize(IOEnv.VF_TAGS) ELSE <<>>)
GLayout(g) == [x \in DOMAIN g |-> LET l == LayoutOf(g[x], g) IN [size |-> l.size, align |-> l.align, at |-> l.at]]

VARIABLES what, done
vars == <<what, done>>
Init == /\ done = FALSE
        /\ what \in {[kind |-> k, packed |-> p, first |-> f] : k \in {"struct", "union"}, p \in {TRUE, FALSE}, f \in 1..(Len(Kinds) - 1)} \cup {[given |-> g] : g \in 1..Len(Given)}
Name(w) == IF "given" \in DOMAIN w THEN "g" \o ToString(w.given) ELSE w.kind \o (IF w.packed THEN "p" ELSE "") \o ToString(w.first)
Work == TLCEval(IF "given" \in DOMAIN what THEN GLayout(Given[what.given])
        ELSE SetToSeq({Layout(what.kind, what.packed, ks) : ks \in {ks \in Seqs(what.first) : Valid(what.kind, what.packed, ks)}}))
Next == ~done /\ done' = TRUE /\ UNCHANGED what /\ JsonSerialize(IOEnv.VF_OUT \o "/" \o Name(what), Work)
Spec == Init /\ [][Next]_vars
\* the theorems of CLayout
LaidOut == done => (IF "given" \in DOMAIN what THEN \A x \in DOMAIN Given[what.given] : WellLaidOut(x, Given[what.given])
                    ELSE \A ks \in {ks \in Seqs(what.first) : Valid(what.kind, what.packed, ks)} :
                           Kinds[ks[Len(ks)]].t # Arr(0, I("i")) => WellLaidOut("S", With(what.kind, what.packed, ks)))
=============================================================================
