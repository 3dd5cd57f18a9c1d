------------------------------- MODULE CMaps -------------------------------
(* The containers of the compiler as abstract types: maps, sets, bounded sets of integers, lists, stacks, graphs. A case
   is a history of operations on up to three objects of one kind; the machine performs them one by one and records what
   each returns. Keys are opaque: how they are hashed does not matter. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Cases == JsonDeserialize(IOEnv.VF_PROGS)
VARIABLES case, act, phase
vars == <<case, act, phase>>
Nothing == [none |-> TRUE]

\* ---- the abstract types
Fresh(kind) == IF kind \in {"strmap", "longmap"} THEN <<>> ELSE IF kind \in {"strset", "longset", "set"} THEN {} ELSE <<>>
Put(m, k, v) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]
Get(m, k) == IF k \in DOMAIN m THEN m[k] ELSE 0
Drop(m, ks) == [x \in DOMAIN m \ ks |-> m[x]]
Items(m) == SetToSeq({<<k, m[k]>> : k \in DOMAIN m})
Bool(b) == IF b THEN 1 ELSE 0
Ret(o, r) == [o |-> o, r |-> r]
MapOp(objs, x) ==
  LET m == objs[x.d] IN
  CASE x.o = "put" -> Ret([objs EXCEPT ![x.d] = Put(m, x.k, x.v)], <<>>)
    [] x.o = "get" -> Ret(objs, <<Get(m, x.k)>>)
    [] x.o = "del" -> Ret([objs EXCEPT ![x.d] = Drop(m, {x.k})], <<>>)
    [] x.o = "delodd" -> Ret([objs EXCEPT ![x.d] = Drop(m, {k \in DOMAIN m : m[k] % 2 = 1})], <<>>)
    [] x.o = "empty" -> Ret([objs EXCEPT ![x.d] = <<>>], <<>>)
    [] x.o = "copy" -> Ret([objs EXCEPT ![x.d] = objs[x.a]], <<>>)
    [] OTHER -> Ret(objs, Items(m))
SetOp(objs, x) ==
  LET s == objs[x.d]
      to(t) == Ret([objs EXCEPT ![x.d] = t], <<>>)
  IN CASE x.o = "add" -> to(s \cup {x.k})
       [] x.o = "del" -> to(s \ {x.k})
       [] x.o = "in" -> Ret(objs, <<Bool(x.k \in s)>>)
       [] x.o = "len" -> Ret(objs, <<Cardinality(s)>>)
       [] x.o = "empty" -> to({})
       [] x.o = "copy" -> to(objs[x.a])
       [] x.o = "union" -> to(objs[x.a] \cup objs[x.b])
       [] x.o = "inter" -> to(objs[x.a] \cap objs[x.b])
       [] x.o = "diff" -> to(objs[x.a] \ objs[x.b])
       [] x.o = "eq" -> Ret(objs, <<Bool(objs[x.a] = objs[x.b])>>)
       [] OTHER -> Ret(objs, SetToSeq(s))
SeqOp(objs, x) ==
  LET q == objs[x.d]
      to(t) == Ret([objs EXCEPT ![x.d] = t], <<>>)
  IN CASE x.o = "push" -> to(Append(q, x.v))
       [] x.o = "pop" -> [to(SubSeq(q, 1, Len(q) - 1)) EXCEPT !.r = <<q[Len(q)]>>]
       [] x.o = "top" -> Ret(objs, <<q[Len(q)]>>)
       [] x.o = "len" -> Ret(objs, <<Len(q)>>)
       [] x.o = "edge" -> to(Append(q, <<x.a, x.b>>))
       [] x.o = "succ" -> Ret(objs, [k \in DOMAIN SelectSeq(q, LAMBDA e: e[1] = x.a) |-> SelectSeq(q, LAMBDA e: e[1] = x.a)[k][2]])
       [] x.o = "pred" -> Ret(objs, [k \in DOMAIN SelectSeq(q, LAMBDA e: e[2] = x.a) |-> SelectSeq(q, LAMBDA e: e[2] = x.a)[k][1]])
       [] OTHER -> Ret(objs, q)
Do(kind, objs, x) == IF kind \in {"strmap", "longmap"} THEN MapOp(objs, x) ELSE IF kind \in {"strset", "longset", "set"} THEN SetOp(objs, x) ELSE SeqOp(objs, x)

MInit == case \in 1..Len(Cases) /\ act = Nothing /\ phase = "load"
MBegin == phase = "load" /\ act' = [kind |-> Cases[case].kind, objs |-> [j \in 1..3 |-> Fresh(Cases[case].kind)], i |-> 1, out |-> <<>>] /\ phase' = "run" /\ UNCHANGED case
MStep == /\ phase = "run" /\ act.i <= Len(Cases[case].ops)
         /\ LET r == Do(act.kind, act.objs, Cases[case].ops[act.i])
            IN act' = [act EXCEPT !.objs = r.o, !.i = @ + 1, !.out = Append(@, r.r)]
         /\ UNCHANGED <<case, phase>>
MFinish == /\ phase = "run" /\ act.i > Len(Cases[case].ops)
           /\ JsonSerialize(IOEnv.VF_OUT \o "/" \o ToString(case), act.out)
           /\ phase' = "end" /\ act' = Nothing /\ UNCHANGED case
MNext == MBegin \/ MStep \/ MFinish
MSpec == MInit /\ [][MNext]_vars
\* operations change the object they name and no other
OneObject == [][phase = "run" /\ phase' = "run" => LET x == Cases[case].ops[act.i] IN \A j \in 1..3 : j # x.d => act'.objs[j] = act.objs[j]]_vars
\* what was put last under a key is found, until it is deleted
LastPut == phase = "run" /\ act.kind \in {"strmap", "longmap"} /\ act.i > 1 =>
             LET x == Cases[case].ops[act.i - 1] IN
             /\ (x.o = "put" => Get(act.objs[x.d], x.k) = x.v)
             /\ (x.o = "del" => x.k \notin DOMAIN act.objs[x.d])

(* The state graph of a small map: every put and delete of NK keys with NV values. The real maps are driven along every
   path of the graph up to a bound. *)
NK == atoi(IOEnv.VF_NK)
NV == atoi(IOEnv.VF_NV)
GOps == {[o |-> "put", k |-> k, v |-> v] : k \in 1..NK, v \in 1..NV} \cup {[o |-> "del", k |-> k, v |-> 0] : k \in 1..NK}
Contents(m) == [k \in 1..NK |-> Get(m, k)]
GInit == case = 0 /\ act = <<>> /\ phase = "graph"
GNext == \E x \in GOps : /\ act' = IF x.o = "put" THEN Put(act, x.k, x.v) ELSE Drop(act, {x.k})
                         /\ PrintT(ToJson([from |-> Contents(act), op |-> x, to |-> Contents(act')]))
                         /\ UNCHANGED <<case, phase>>
GSpec == GInit /\ [][GNext]_vars
=============================================================================
