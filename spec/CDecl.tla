---------------------------- MODULE CDecl ----------------------------
(* Declarations: the specifiers and the declarator of C's grammar and the type they give. Two machines.
   Family "declarators": the actions wrap the declarator built so far into one more level: a pointer (plain or const), an
   array or a function, with the parentheses the grammar asks for, or redundant ones. The type is recorded level by
   level; Reader reads the resulting tokens back by the rules of the standard, which must give the same type.
   Family "specifiers": the actions lay the words of a specifier list (one of those the standard enumerates,
   with qualifiers and a storage class) in every order; the type does not depend on the order. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Family == IOEnv.VF_FAMILY
Depth == atoi(IOEnv.VF_DEPTH)

\* ---- declarators
Kinds == {"ptr", "cptr", "arr1", "arr2", "arr3", "fnv", "fni", "fnp"}
Pointers == {"ptr", "cptr"}
Arrays == {"arr1", "arr2", "arr3"}
Functions == {"fnv", "fni", "fnp"}
Len3(k) == CASE k = "arr1" -> 1 [] k = "arr2" -> 2 [] OTHER -> 3
Prefix(k) == CASE k = "ptr" -> <<"*">> [] OTHER -> <<"*", "const">>
Suffix(k) == CASE k = "arr1" -> <<"[", "1", "]">> [] k = "arr2" -> <<"[", "2", "]">> [] k = "arr3" -> <<"[", "3", "]">>
               [] k = "fnv" -> <<"(", "void", ")">> [] k = "fni" -> <<"(", "int", ")">> [] OTHER -> <<"(", "char", "*", ",", "long", ")">>
Fits(outer, k) ==      \* may the next level be k?
  /\ outer \in Arrays => k \notin Functions
  /\ outer \in Functions => k \notin Functions \cup Arrays

\* the size in units: pointers have 8, the base type has base
RECURSIVE SizeOf(_, _)
SizeOf(ds, base) == IF ds = <<>> THEN base ELSE IF ds[1] \in Arrays THEN Len3(ds[1]) * SizeOf(Tail(ds), base) ELSE IF ds[1] \in Functions THEN 0 ELSE 8

\* ---- reading a declarator: the type it gives to x when the specifiers give <<>>
RECURSIVE Reader(_, _), Opening(_, _, _)
Opening(ts, i, n) == IF ts[i] = ")" THEN Opening(ts, i - 1, n + 1) ELSE IF ts[i] = "(" THEN (IF n = 1 THEN i ELSE Opening(ts, i - 1, n - 1)) ELSE Opening(ts, i - 1, n)
Reader(ts, type) ==
  IF ts = <<"x">> THEN type
  ELSE IF ts[1] = "*" THEN (IF ts[2] = "const" THEN Reader(SubSeq(ts, 3, Len(ts)), <<"cptr">> \o type) ELSE Reader(Tail(ts), <<"ptr">> \o type))
  ELSE LET n == Len(ts) IN
       IF ts[n] = "]" THEN Reader(SubSeq(ts, 1, n - 3), <<"arr" \o ts[n - 1]>> \o type)
       ELSE LET o == Opening(ts, n, 0) IN
            IF o = 1 THEN Reader(SubSeq(ts, 2, n - 1), type)
            ELSE Reader(SubSeq(ts, 1, o - 1), <<CASE ts[o + 1] = "void" -> "fnv" [] ts[o + 1] = "int" -> "fni" [] OTHER -> "fnp">> \o type)

\* ---- specifiers
\* every list of 6.5.2: the words, the size, whether it is signed, the kind
Lists == << [w |-> <<"char">>, n |-> 1, s |-> 1, f |-> 0], [w |-> <<"signed", "char">>, n |-> 1, s |-> 1, f |-> 0], [w |-> <<"unsigned", "char">>, n |-> 1, s |-> 0, f |-> 0],
  [w |-> <<"short">>, n |-> 2, s |-> 1, f |-> 0], [w |-> <<"short", "int">>, n |-> 2, s |-> 1, f |-> 0], [w |-> <<"signed", "short">>, n |-> 2, s |-> 1, f |-> 0],
  [w |-> <<"signed", "short", "int">>, n |-> 2, s |-> 1, f |-> 0], [w |-> <<"unsigned", "short">>, n |-> 2, s |-> 0, f |-> 0], [w |-> <<"unsigned", "short", "int">>, n |-> 2, s |-> 0, f |-> 0],
  [w |-> <<"int">>, n |-> 4, s |-> 1, f |-> 0], [w |-> <<"signed">>, n |-> 4, s |-> 1, f |-> 0], [w |-> <<"signed", "int">>, n |-> 4, s |-> 1, f |-> 0],
  [w |-> <<"unsigned">>, n |-> 4, s |-> 0, f |-> 0], [w |-> <<"unsigned", "int">>, n |-> 4, s |-> 0, f |-> 0],
  [w |-> <<"long">>, n |-> 8, s |-> 1, f |-> 0], [w |-> <<"long", "int">>, n |-> 8, s |-> 1, f |-> 0], [w |-> <<"signed", "long">>, n |-> 8, s |-> 1, f |-> 0],
  [w |-> <<"signed", "long", "int">>, n |-> 8, s |-> 1, f |-> 0], [w |-> <<"unsigned", "long">>, n |-> 8, s |-> 0, f |-> 0], [w |-> <<"unsigned", "long", "int">>, n |-> 8, s |-> 0, f |-> 0],
  [w |-> <<"long", "long">>, n |-> 8, s |-> 1, f |-> 0], [w |-> <<"unsigned", "long", "long">>, n |-> 8, s |-> 0, f |-> 0],
  [w |-> <<"float">>, n |-> 4, s |-> 1, f |-> 1], [w |-> <<"double">>, n |-> 8, s |-> 1, f |-> 1], [w |-> <<"long", "double">>, n |-> 16, s |-> 1, f |-> 1],
  [w |-> <<"enum E">>, n |-> 4, s |-> 2, f |-> 0], [w |-> <<"TD">>, n |-> 2, s |-> 0, f |-> 0] >>      \* s 2: either
Extras == {<<>>, <<"const">>, <<"volatile">>, <<"static">>, <<"typedef">>, <<"extern">>, <<"const", "static">>, <<"const", "typedef">>, <<"volatile", "static">>, <<"volatile", "const">>, <<"volatile", "typedef">>}

VARIABLES ds, toks, par, list, left, done
vars == <<ds, toks, par, list, left, done>>

Init == IF Family = "declarators"
        THEN ds = <<>> /\ toks = <<"x">> /\ par = 0 /\ list = 0 /\ left = <<>> /\ done = FALSE
        ELSE /\ list \in 1..Len(Lists) /\ \E e \in Extras : left = Lists[list].w \o e
             /\ ds = <<>> /\ toks = <<>> /\ par = 0 /\ done = FALSE

\* one more level; after a pointer the suffixes need parentheses
Wrap(k) ==
  /\ Family = "declarators" /\ ~done /\ Len(ds) < Depth
  /\ ds # <<>> => Fits(ds[Len(ds)], k)
  /\ ds' = Append(ds, k)
  /\ toks' = IF k \in Pointers THEN Prefix(k) \o toks
             ELSE (IF toks[1] = "*" THEN <<"(">> \o toks \o <<")">> ELSE toks) \o Suffix(k)
  /\ UNCHANGED <<par, list, left, done>>
\* redundant parentheses, once
Paren == /\ Family = "declarators" /\ ~done /\ ds # <<>> /\ par = 0
         /\ toks' = <<"(">> \o toks \o <<")">> /\ par' = 1
         /\ UNCHANGED <<ds, list, left, done>>
\* the next word of a specifier list; the words of the extras
\* and those of the list may be mixed in any way
Word(i) == /\ Family = "specifiers" /\ i \in 1..Len(left)
           /\ \A j \in 1..(i - 1) : left[j] # left[i]
           /\ toks' = Append(toks, left[i])
           /\ left' = SubSeq(left, 1, i - 1) \o SubSeq(left, i + 1, Len(left))
           /\ UNCHANGED <<ds, par, list, done>>
Finished == IF Family = "declarators" THEN ds # <<>> ELSE left = <<>>
Report == /\ ~done /\ Finished /\ done' = TRUE
          /\ PrintT(ToJson(IF Family = "declarators"
                           THEN [ds |-> ds, toks |-> toks, par |-> par, sizes |-> [i \in 1..(Len(ds) + 1) |-> SizeOf(SubSeq(ds, i, Len(ds)), 1000)]]
                           ELSE [toks |-> toks, n |-> Lists[list].n, s |-> Lists[list].s, f |-> Lists[list].f]))
          /\ UNCHANGED <<ds, toks, par, list, left>>
Next == Report \/ Paren \/ (\E k \in Kinds : Wrap(k)) \/ (\E i \in 1..5 : Word(i))
Spec == Init /\ [][Next]_vars

\* ---- the grammar gives one type to a declarator, the one it was built for
ReadBack == Family = "declarators" => Reader(toks, <<>>) = ds
WordsLeft == Family = "specifiers" => Len(toks) + Len(left) <= 5
======================================================================
