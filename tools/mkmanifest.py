#!/usr/bin/env python3
"""Writes MANIFEST.json: the claimed checks and the properties this technique does not decide."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
 'C01': 'TLC tabulates the TLA+ semantics of all 1904 integer operator sites over boundary operands; every result is replayed in compiled functions for each operand kind; programs of random expressions predicted by the abstract machine CMachine are replayed as well',
 'C02': 'the tables of the TLA+ integer semantics replayed as static initialisers, enumerators, array sizes, bit-field widths, case labels and #if; programs of random constant expressions in all these places and evaluated at run time, predicted by CMachine',
 'C03': 'random programs of nested control flow, executed by the TLA+ abstract machine CMachine in TLC, replayed as compiled programs: the sequences of observations must agree',
 'C04': 'programs of expressions with side effects executed by CMachine, which also establishes by footprints that no evaluation order matters, replayed as compiled programs',
 'C05': 'programs of stores to every kind of lvalue executed on the byte memory of CMachine, all objects dumped and compared with the compiled program',
 'C06': 'TLC computes with the layout operators of CLayout every struct, union and packed struct of up to three members out of 21 kinds, plus random nested ones; sizes, alignments, strides, offsets and bit positions are observed in compiled code',
 'C07': 'programs of random initialisers of random nested types as global, static and automatic objects, executed repeatedly on a dirty stack; CMachine associates initialisers with elements as C prescribes; every element is observed',
 'C08': 'two-unit programs of prototyped, old style, pointer and struct calls predicted by CMachine; each unit compiled by wcc or gcc, all calls go through trampolines that check alignment, preserved registers and flags and fill everything undefined with garbage',
 'C09': 'variadic calls of random mixes of fixed and variable arguments read back by va_arg in the promoted types, walked repeatedly, copied and handed on as va_list by value, pointer and memory, predicted by CMachine; both sides compiled by wcc or gcc',
 'C10': 'programs of many simultaneously live values executed by CMachine and replayed under every register allocation option',
 'C11': 'CPre.tla specifies translation phases 1-4 with hide sets and placemarkers; TLC executes it on macro sets enumerated from a small grammar and on random ones, checking invariants in every state, and predicts the token sequence or the rejection; wcc -E output is re-tokenised by the specification and compared, and preprocessing it again must change nothing',
 'C12': 'CPre.tla specifies directives, conditional groups, the include stack and #line as a state machine run by TLC on random nests of directives spread over included files; selected tokens, the line of each, __LINE__, __FILE__, rejections and the located diagnostics of wcc -E are compared with it',
 'C13': 'CLex.tla specifies tokens and the value and type of every literal over the translation phases of CPre.tla and the arithmetic of CFloat.tla; TLC evaluates texts of literals, strings and identifiers in disguise (splices, trigraphs, comments), which are compiled, run and compared; invalid tokens must be rejected where they are; whole programs in disguise must behave as CMachine.tla says of the plain text; token soups go through wcc -E',
 'C14': 'programs that declare, shadow, complete and use variables, typedef names, enumerators, tags, members and labels from a small pool of names in nested scopes; CMachine (environments, tag environments, constant expressions in declarators) predicts every value and size',
 'C20': 'CMaps.tla specifies maps, sets, sequences and graphs and a machine performing histories on three objects of a kind; TLC checks that operations change only the object they name and that puts are found until deleted, predicts seeded histories (growth, churn, tombstones, colliding keys) that the real containers (address-sanitised) perform, and gives the state graph of a small map, of which every path up to length 5-7 is driven into real maps prepared near growth, full of tombstones or with colliding keys',
 'C16': 'CCheck.tla specifies scopes, name spaces, linkage, labels, switches, types of expressions and the constraints on them as a machine over declarations and statements; TLC runs it on random programs with violations planted anywhere and gives a verdict and the place; wcc must accept or reject each with a message at that place, status 1 and no output, and never crash',
 'C17': 'CDrive.tla specifies the driver with a faulty environment as a state machine (modes, outputs, input kinds, failing or killed assembler and linker); TLC explores it exhaustively, checks its invariants and that it ends, and enumerates the outcomes of every configuration; the real driver is run in these configurations with fault-injecting tools and must have one of the outcomes (status, files, contents, commands)',
 'C15': 'programs of one to three translation units with external, internal, tentative, extern, block-scope and static local declarations of the same names, recursion and address comparison; CMachine resolves the entities over all units; each unit compiled by wcc or gcc, linked and compared',
 'C18': 'the programs of all other suites, predicted once by CMachine, compiled under random combinations of the documented options and linked as executable, position independent executable, shared library loaded by dlopen, and as several shared libraries',
 'C19': 'MCFloat.tla executes programs of floating and integer operations in all ten types on exact numbers (CFloat.tla) and marks which values are exact; those observations are replayed in compiled programs over every storage kind, with all pairs of special values and constants folded or not',
 'C24': 'CFloat.tla rounds exact rational results and decimal constants to nearest even for 24, 53 and 64 bit significands with subnormals and overflow; the rounded observations of the programs of MCFloat.tla are replayed in compiled programs',
}
NOTES['C21'] = 'CDecl.tla derives declarators level by level and reads each back by the rules of the grammar (invariant), and lays the words of every specifier list in every order; each declarator up to three levels and a sample of deeper ones is declared as global, redeclared, local, member, parameter, old style parameter, typedef and cast, and the sizes and values along its type are observed'
TECH = {}
NA = {
 'C22': 'The fixed point of self-compilation is a relation between two builds of a 20 kLOC program; there is no state machine whose transitions could be specified beyond the semantics already specified for C01-C21, which the checks apply to the compiler as built. Comparing two builds would be differential testing, not this technique.',
 'C23': 'Arbitrary bytes have no behaviour to specify beyond "terminates": deciding it is fuzzing or memory-safety analysis, not model-based verification. The checks do report any signal, hang or crash on the inputs their specifications generate.',
}
def main():
    props = [json.loads(l) for l in open(V + '/properties.jsonl')]
    checks, na = [], []
    for p in props:
        i = p['id']
        if i in NOTES and os.path.exists('%s/checks/%s.py' % (V, i.lower())):
            checks.append(dict(property=i, quick_cmd='python3 checks/%s.py' % i.lower(), thorough_cmd='python3 checks/%s.py --thorough' % i.lower(),
                evidence_file='evidence/%s.json' % i, technique=TECH.get(i, 'TLA+ specification checked and enumerated by TLC, behaviours replayed into the compiled code'),
                level='model_checking', level_note=NOTES[i]))
        else:
            na.append(dict(property=i, reason=NA.get(i, 'Not claimed yet: its specification is still being written.')))
    json.dump(dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na), open(V + '/MANIFEST.json', 'w'), indent=1)
    print(len(checks), 'checks', len(na), 'not applicable')
main()
