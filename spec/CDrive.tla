------------------------------- MODULE CDrive -------------------------------
(* The driver: which phases run for which inputs, which files appear with which contents, and what is reported when
   a phase fails. A configuration is a mode, an output name, the inputs (with what is wrong with each) and a fault of
   the environment (the n-th run of the assembler, or the linker, fails or is killed). The driver compiles the inputs
   in order and assembles what is to be assembled in order; the two may be interleaved in any way. After a failure it
   may stop at once or carry on with the other inputs. Every outcome it may have is written out; runs of the real
   driver must have one of them. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

MaxIn == atoi(IOEnv.VF_MAXIN)
Family == IOEnv.VF_FAMILY

CKinds == {"c", "cx", "cm", "cd", "ce", "ci"}   \* valid, invalid, missing, a directory, empty, includes a missing file
SKinds == {"s", "sx", "sm"}
OKinds == {"o", "om", "so"}
Kinds == CKinds \cup SKinds \cup OKinds
Modes == {"E", "S", "c", "link"}
Seqs(K, n) == UNION {[1..k -> K] : k \in 0..n}
NAs(in) == Cardinality({j \in DOMAIN in : in[j] \in {"c", "ce"} \cup SKinds})
NoFault == [t |-> "none", n |-> 0, how |-> ""]
Faults(mode, in) ==
  {NoFault} \cup (IF mode \in {"c", "link"} THEN {[t |-> "as", n |-> n, how |-> h] : n \in 1..NAs(in), h \in {"fail", "kill", "killsh"}} ELSE {})
            \cup (IF mode = "link" /\ in # <<>> THEN {[t |-> "ld", n |-> 1, how |-> h] : h \in {"fail", "kill", "killsh"}} ELSE {})
\* full: writing to the output fails; dash: standard output
Outs(mode) == {"none", "file", "nodir", "dir"} \cup (IF mode \in {"E", "S"} THEN {"full", "dash"} ELSE {}) \cup (IF mode = "E" THEN {"fullstdout"} ELSE {})
Cfg(m, o, i, f, s, x) == [mode |-> m, out |-> o, in |-> i, fault |-> f, style |-> s, opt |-> x]
Good(in) == \A j \in DOMAIN in : in[j] \in {"c", "s", "o"}
Opts == {<<>>, <<"v">>, <<"as">>, <<"D">>, <<"Dsep">>, <<"ojoin">>, <<"print">>, <<"g">>, <<"v", "as">>, <<"lib">>, <<"libsep">>, <<"shared">>}
Bad == {"unknown", "cjunk", "ejunk", "sjunk", "noarg", "noinput"}
Configs ==
  CASE Family = "faults" -> UNION {{Cfg(m, o, i, f, "plain", <<>>) : o \in Outs(m), f \in Faults(m, i)} : m \in Modes, i \in Seqs(Kinds, MaxIn)}
    [] Family = "long" -> UNION {{Cfg(m, o, i, f, "plain", <<>>) : o \in {"none", "file"}, f \in Faults(m, i)} : m \in Modes, i \in [1..MaxIn -> {"c", "s", "o", "cx", "sx"}]}
    [] Family = "styles" -> UNION {{Cfg(m, o, i, NoFault, s, x) : o \in {"none", "file"}, s \in {"plain", "space", "sub", "dots", "shell"}, x \in Opts} : m \in Modes, i \in {q \in Seqs({"c", "s", "o"}, MaxIn) : q # <<>>}}
    [] OTHER -> UNION {{Cfg(m, o, i, NoFault, "plain", <<b>>) : o \in {"none", "file"}, b \in Bad} : m \in Modes, i \in {<<"c">>, <<"s">>, <<"c", "c">>, <<"c", "o">>}}
\* an input no phase of the mode reads: whether it has to exist is not prescribed
Unread(c, j) == CASE c.mode = "E" -> c.in[j] \notin CKinds [] c.mode = "S" -> c.in[j] \notin CKinds [] c.mode = "c" -> c.in[j] \in OKinds [] OTHER -> FALSE
Prescribed(c) == /\ ~(\E j \in DOMAIN c.in : Unread(c, j) /\ c.in[j] \in {"sm", "om", "sx", "cd"})
                 /\ (c.out \in {"full", "fullstdout"} => \A j \in DOMAIN c.in : c.in[j] # "ce")
Has(c, x) == \E k \in DOMAIN c.opt : c.opt[k] = x

VARIABLES cfg, done, nas, files, failed, pc, stdout
vars == <<cfg, done, nas, files, failed, pc, stdout>>
\* done[j]: what input j has become: "in", "pre", "asm", "obj", "bad"
IsC(j) == cfg.in[j] \in CKinds
IsS(j) == cfg.in[j] \in SKinds
IsO(j) == cfg.in[j] \in OKinds
N == Len(cfg.in)
Usage == N = 0 \/ (\E b \in Bad : Has(cfg, b)) \/ (cfg.out \notin {"none", "fullstdout"} /\ N > 1 /\ cfg.mode # "link")
Named == cfg.out \notin {"none", "fullstdout"}
OutName(ext, j) == IF Named THEN <<"out">> ELSE <<ext, j>>
Writable == cfg.out \notin {"nodir", "dir", "full", "fullstdout"}
Put(name, k, us) == files' = [x \in DOMAIN files \cup {name} |-> IF x = name THEN [k |-> k, us |-> us] ELSE files[x]]

Init == /\ cfg \in {c \in Configs : Prescribed(c)}
        /\ done = [j \in DOMAIN cfg.in |-> "in"] /\ nas = 0 /\ files = <<>> /\ failed = FALSE /\ pc = "start" /\ stdout = <<>>
Parse == pc = "start" /\ IF Usage THEN pc' = "end" /\ failed' = TRUE /\ UNCHANGED <<cfg, done, nas, files, stdout>>
                         ELSE pc' = "run" /\ UNCHANGED <<cfg, done, nas, files, failed, stdout>>
\* compiling (or preprocessing) the inputs in order
CompileOk(j) == cfg.in[j] \in {"c", "ce"}
PreOk(j) == cfg.in[j] \in {"c", "ce", "cx"}
ToStdout == cfg.out = "dash" \/ (cfg.mode = "E" /\ cfg.out = "none")
\* writing nothing to a full device cannot fail, an empty input may give no output
Fails(j) == ~(IF cfg.mode = "E" THEN PreOk(j) ELSE CompileOk(j)) \/ (cfg.mode \in {"E", "S"} /\ ~Writable)
Compile(j) ==
  /\ pc = "run" /\ IsC(j) /\ done[j] = "in" /\ \A k \in 1..(j - 1) : ~(IsC(k) /\ done[k] = "in")
  /\ IF Fails(j) THEN done' = [done EXCEPT ![j] = "bad"] /\ failed' = TRUE /\ UNCHANGED <<files, stdout>>
     ELSE /\ done' = [done EXCEPT ![j] = IF cfg.mode = "E" THEN "pre" ELSE "asm"] /\ UNCHANGED failed
          /\ IF cfg.mode \notin {"E", "S"} THEN UNCHANGED <<files, stdout>>
             ELSE IF ToStdout THEN stdout' = Append(stdout, [k |-> done'[j], us |-> <<j>>]) /\ UNCHANGED files
             ELSE Put(OutName("s", j), done'[j], <<j>>) /\ UNCHANGED stdout
  /\ UNCHANGED <<cfg, nas, pc>>
Ready(j) == (IsS(j) /\ done[j] = "in") \/ done[j] = "asm"
\* inputs still on their way to the assembler
Coming(k) == (IsC(k) /\ done[k] = "in") \/ Ready(k)
Assemble(j) ==
  /\ pc = "run" /\ cfg.mode \in {"c", "link"} /\ Ready(j) /\ \A k \in 1..(j - 1) : ~Coming(k)
  /\ nas' = nas + 1
  /\ LET ok == cfg.in[j] \notin {"sx", "sm"} /\ ~(cfg.fault.t = "as" /\ cfg.fault.n = nas') /\ (cfg.mode = "c" => Writable)
     IN IF ~ok THEN done' = [done EXCEPT ![j] = "bad"] /\ failed' = TRUE /\ UNCHANGED files
        ELSE /\ done' = [done EXCEPT ![j] = "obj"] /\ UNCHANGED failed
             /\ IF cfg.mode = "c" THEN Put(OutName("o", j), "obj", <<j>>) ELSE UNCHANGED files
  /\ UNCHANGED <<cfg, pc, stdout>>
Pending(j) == (IsC(j) /\ done[j] = "in") \/ (cfg.mode \in {"c", "link"} /\ Ready(j))
Worked == \A j \in 1..N : ~Pending(j)
Units == SelectSeq([j \in 1..N |-> j], LAMBDA j: cfg.in[j] # "ce")
Link == /\ pc = "run" /\ cfg.mode = "link" /\ Worked /\ ~failed
        /\ IF (\E j \in 1..N : cfg.in[j] = "om") \/ cfg.fault.t = "ld" \/ ~Writable THEN failed' = TRUE /\ UNCHANGED files
           ELSE Put(IF Named THEN <<"out">> ELSE <<"a.out">>, IF Has(cfg, "shared") THEN "shared" ELSE "exe", Units) /\ UNCHANGED failed
        /\ pc' = "end" /\ UNCHANGED <<cfg, done, nas, stdout>>
Stop == /\ pc = "run" /\ (failed \/ (Worked /\ cfg.mode # "link")) /\ pc' = "end" /\ UNCHANGED <<cfg, done, nas, files, failed, stdout>>
Report == /\ pc = "end" /\ pc' = "reported"
          /\ PrintT(ToJson([cfg |-> cfg, failed |-> failed, nas |-> nas, stdout |-> stdout, files |-> SetToSeq({[name |-> n, k |-> files[n].k, us |-> files[n].us] : n \in DOMAIN files})]))
          /\ UNCHANGED <<cfg, done, nas, files, failed, stdout>>
Next == Parse \/ Link \/ Stop \/ Report \/ (\E j \in DOMAIN cfg.in : Compile(j) \/ Assemble(j))
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* a failure is reported, whatever happened before and after it; success means that everything prescribed is there
Clean == ~Usage /\ Writable /\ cfg.fault.t = "none" /\ \A j \in 1..N : Unread(cfg, j) \/ cfg.in[j] \in {"c", "ce", "s", "o", "so"} \/ (cfg.mode = "E" /\ cfg.in[j] = "cx")
Reading == \E j \in 1..N : ~Unread(cfg, j)
Reported == pc \in {"end", "reported"} => /\ (Clean => ~failed)
                                          /\ (~failed => Usage = FALSE /\ \A j \in 1..N : done[j] # "bad")
                                          /\ (~Clean /\ Reading => failed)
NoStray == /\ \A n \in DOMAIN files : \A k \in DOMAIN files[n].us : done[files[n].us[k]] # "bad"
           /\ (failed => \A n \in DOMAIN files : files[n].k \notin {"exe", "shared"})
           /\ (cfg.mode \in {"E", "S"} => nas = 0)
Complete == pc \in {"end", "reported"} /\ ~failed => \A j \in 1..N : Unread(cfg, j) \/ (\E n \in DOMAIN files : \E k \in DOMAIN files[n].us : files[n].us[k] = j) \/ (\E x \in DOMAIN stdout : stdout[x].us[1] = j) \/ cfg.in[j] = "ce"
Ends == <>(pc = "reported")
=============================================================================
