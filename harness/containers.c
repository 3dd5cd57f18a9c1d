// Performs histories of operations on the compiler's containers and prints what they return.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "wcc.h"

enum { NOBJ = 4 };
static char hkind[32], hop[32];
static StrMap *sm[NOBJ]; static LongMap *lm[NOBJ]; static StrSet *ss[NOBJ]; static LongSet *ls[NOBJ]; static Set *is[NOBJ];
static List *li[NOBJ]; static Stack *st[NOBJ]; static Graph *gr[NOBJ];
static char **hkeys; static int nkeys, maxv, hhash;
static long h0(long l) { return 0; }
static long h1(long l) { return l >> 4; }
static long h2(long l) { return ~l; }
// a key is the index of a text; every use gets a copy of its own
static char *kept[1 << 20]; static int nkept;
static char *hkey_text(int k) { if (nkept == 1 << 20) exit(98); return kept[nkept++] = strdup(hkeys[k]); }
static long hkey_long(int k) { return atol(hkeys[k]); }
static int keyof(char *s) { for (int i = 0; i < nkeys; i++) if (!strcmp(hkeys[i], s)) return i; return -1; }
static int keyofl(long l) { for (int i = 0; i < nkeys; i++) if (atol(hkeys[i]) == l) return i; return -1; }
static LongMap *newlm(void) { LongMap *m = new_longmap(); if (hhash) m->hashfunc = hhash == 1 ? h0 : hhash == 2 ? h1 : h2; return m; }
static int is_kind(char *k) { return !strcmp(hkind, k); }
static int is_op(char *o) { return !strcmp(hop, o); }
static void hfresh(void) {
    for (int j = 1; j < NOBJ; j++) {
        if (is_kind("strmap")) sm[j] = new_strmap();
        if (is_kind("longmap")) lm[j] = newlm();
        if (is_kind("strset")) ss[j] = new_strset();
        if (is_kind("longset")) ls[j] = new_longset();
        if (is_kind("set")) is[j] = new_set(maxv);
        if (is_kind("list")) li[j] = new_list(hhash);
        if (is_kind("stack")) st[j] = new_stack();
        if (is_kind("graph")) gr[j] = new_graph(maxv, hhash);
    }
}
static void hclear(void) {
    for (int j = 1; j < NOBJ; j++) {
        if (is_kind("strmap")) free_strmap(sm[j]);
        if (is_kind("longmap")) free_longmap(lm[j]);
        if (is_kind("strset")) free_strset(ss[j]);
        if (is_kind("longset")) free_longset(ls[j]);
        if (is_kind("set")) free_set(is[j]);
        if (is_kind("list")) free_list(li[j]);
        if (is_kind("stack")) free_stack(st[j]);
        if (is_kind("graph")) free_graph(gr[j]);
    }
    for (int i = 0; i < nkept; i++) free(kept[i]);
    nkept = 0;
}
static void hperform(int d, int a, int b, int k, long v) {
    if (is_kind("strmap")) {
        StrMap *m = sm[d];
        if (is_op("put")) strmap_put(m, hkey_text(k), (void *) v);
        else if (is_op("get")) printf(" %ld", (long) strmap_get(m, hkey_text(k)));
        else if (is_op("del")) strmap_delete(m, hkey_text(k));
        else if (is_op("delodd")) { strmap_foreach(m, it) { char *key = strmap_iterator_key(&it); if ((long) strmap_get(m, key) & 1) strmap_delete(m, key); } }
        else {
            strmap_foreach(m, it) { char *key = strmap_iterator_key(&it); printf(" %d=%ld", keyof(key), (long) strmap_get(m, key)); }
            printf(" |");
            for (int i = 0; i < nkeys; i++) printf(" %ld", (long) strmap_get(m, hkey_text(i)));
        }
    }
    else if (is_kind("longmap")) {
        LongMap *m = lm[d];
        if (is_op("put")) longmap_put(m, hkey_long(k), (void *) v);
        else if (is_op("get")) printf(" %ld", (long) longmap_get(m, hkey_long(k)));
        else if (is_op("del")) longmap_delete(m, hkey_long(k));
        else if (is_op("delodd")) { longmap_foreach(m, it) { long key = longmap_iterator_key(&it); if ((long) longmap_get(m, key) & 1) longmap_delete(m, key); } }
        else if (is_op("empty")) longmap_empty(m);
        else if (is_op("copy")) { LongMap *n = longmap_copy(lm[a]); free_longmap(m); lm[d] = n; }
        else if (is_op("hkeys")) { int *ks; int n = longmap_keys(m, &ks); for (int i = 0; i < n; i++) printf(" %d=%ld", keyofl(ks[i]), (long) longmap_get(m, ks[i])); wfree(ks); printf(" |"); for (int i = 0; i < nkeys; i++) printf(" %ld", (long) longmap_get(m, hkey_long(i))); }
        else {
            longmap_foreach(m, it) { long key = longmap_iterator_key(&it); printf(" %d=%ld", keyofl(key), (long) longmap_get(m, key)); }
            printf(" |");
            for (int i = 0; i < nkeys; i++) printf(" %ld", (long) longmap_get(m, hkey_long(i)));
        }
    }
    else if (is_kind("strset")) {
        StrSet *n = 0;
        if (is_op("add")) strset_add(ss[d], hkey_text(k));
        else if (is_op("in")) printf(" %d", strset_in(ss[d], hkey_text(k)));
        else if (is_op("copy")) n = dup_strset(ss[a]);
        else if (is_op("union")) n = strset_union(ss[a], ss[b]);
        else if (is_op("inter")) n = strset_intersection(ss[a], ss[b]);
        else if (is_op("empty")) n = new_strset();
        else {
            for (StrMapIterator it = strmap_iterator(ss[d]->strmap); !strmap_iterator_finished(&it); strmap_iterator_next(&it)) printf(" %d", keyof(strmap_iterator_key(&it)));
            printf(" |");
            for (int i = 0; i < nkeys; i++) printf(" %d", strset_in(ss[d], hkey_text(i)));
        }
        if (n) { free_strset(ss[d]); ss[d] = n; }
    }
    else if (is_kind("longset")) {
        LongSet *n = 0;
        if (is_op("add")) longset_add(ls[d], hkey_long(k));
        else if (is_op("in")) printf(" %d", longset_in(ls[d], hkey_long(k)));
        else if (is_op("del")) longset_delete(ls[d], hkey_long(k));
        else if (is_op("len")) printf(" %d", longset_len(ls[d]));
        else if (is_op("empty")) longset_empty(ls[d]);
        else if (is_op("eq")) printf(" %d", longset_eq(ls[a], ls[b]));
        else if (is_op("copy")) n = longset_copy(ls[a]);
        else if (is_op("union")) n = longset_union(ls[a], ls[b]);
        else if (is_op("inter")) n = longset_intersection(ls[a], ls[b]);
        else {
            longset_foreach(ls[d], it) printf(" %d", keyofl(longset_iterator_element(&it)));
            printf(" |");
            for (int i = 0; i < nkeys; i++) printf(" %d", longset_in(ls[d], hkey_long(i)));
        }
        if (n) { free_longset(ls[d]); ls[d] = n; }
    }
    else if (is_kind("set")) {
        Set *n = 0;
        if (is_op("add")) add_to_set(is[d], k);
        else if (is_op("in")) printf(" %d", in_set(is[d], k));
        else if (is_op("del")) delete_from_set(is[d], k);
        else if (is_op("len")) printf(" %d", set_len(is[d]));
        else if (is_op("empty")) empty_set(is[d]);
        else if (is_op("eq")) printf(" %d", set_eq(is[a], is[b]));
        else if (is_op("copy")) { if (v) { if (d != a) copy_set_to(is[d], is[a]); } else n = copy_set(is[a]); }
        else if (is_op("union")) { if (v) set_union_to(is[d], is[a], is[b]); else n = set_union(is[a], is[b]); }
        else if (is_op("inter")) { if (v) set_intersection_to(is[d], is[a], is[b]); else n = set_intersection(is[a], is[b]); }
        else if (is_op("diff")) { if (v) set_difference_to(is[d], is[a], is[b]); else n = set_difference(is[a], is[b]); }
        else {
            cache_set_elements(is[d]);
            for (int i = 0; i < is[d]->cached_element_count; i++) printf(" %d", is[d]->cached_elements[i]);
            printf(" |");
            for (int i = 0; i <= maxv; i++) printf(" %d", in_set(is[d], i));
        }
        if (n) { free_set(is[d]); is[d] = n; }
    }
    else if (is_kind("list")) {
        if (is_op("push")) append_to_list(li[d], (void *) v);
        else if (is_op("len")) printf(" %d", li[d]->length);
        else { for (int i = 0; i < li[d]->length; i++) printf(" %ld", (long) li[d]->elements[i]); printf(" |"); }
    }
    else if (is_kind("stack")) {
        if (is_op("push")) push_onto_stack(st[d], v);
        else if (is_op("pop")) printf(" %d", pop_from_stack(st[d]));
        else printf(" %d", stack_top(st[d]));
    }
    else {
        if (is_op("edge")) add_graph_edge(gr[d], a, b);
        else if (is_op("succ")) { for (GraphEdge *e = gr[d]->nodes[a].succ; e; e = e->next_succ) printf(" %d", e->from->id == a ? e->to->id : -1); printf(" |"); }
        else { for (GraphEdge *e = gr[d]->nodes[a].pred; e; e = e->next_pred) printf(" %d", e->to->id == a ? e->from->id : -1); printf(" |"); }
    }
}

// Every hpath of a state graph: hstates are rows of values per key
static int nstates, nops, nk, nv, *hstates, *hnext; static int opk[64], opv[64];
static int hpath[64]; static long hpaths;
static int npre; static int prek[256], prev[256];
static int check_path(int len, int start) {
    int s = start;
    hfresh();
    for (int i = 0; i < npre; i++) { if (prev[i]) { if (is_kind("strmap")) strmap_put(sm[1], hkeys[prek[i]], (void *) (long) prev[i]); else longmap_put(lm[1], hkey_long(prek[i]), (void *) (long) prev[i]); } else if (is_kind("strmap")) strmap_delete(sm[1], hkeys[prek[i]]); else longmap_delete(lm[1], hkey_long(prek[i])); }
    for (int i = 0; i < len; i++) {
        int o = hpath[i];
        if (is_kind("strmap")) { if (opv[o]) strmap_put(sm[1], hkeys[opk[o]], (void *) (long) opv[o]); else strmap_delete(sm[1], hkeys[opk[o]]); }
        else { if (opv[o]) longmap_put(lm[1], hkey_long(opk[o]), (void *) (long) opv[o]); else longmap_delete(lm[1], hkey_long(opk[o])); }
        s = hnext[s * nops + o];
    }
    int bad = -1, want = 0, got = 0, last[256];
    memset(last, 0, sizeof(last));
    for (int i = 0; i < npre; i++) last[prek[i]] = prev[i];
    for (int k = 0; k < nkeys; k++) {
        int w = k < nk ? hstates[s * nk + k] : last[k];
        if (w) want++;
        if ((is_kind("strmap") ? (long) strmap_get(sm[1], hkeys[k]) : (long) longmap_get(lm[1], hkey_long(k))) != w) bad = k;
    }
    if (is_kind("strmap")) { strmap_foreach(sm[1], it) got++; } else { longmap_foreach(lm[1], it) got++; }
    hclear();
    hpaths++;
    if (bad >= 0 || got != want) {
        printf("BAD key %d, %d entries, expected %d; path", bad, got, want);
        for (int i = 0; i < len; i++) printf(" %d:%d", opk[hpath[i]], opv[hpath[i]]);
        printf("\n");
        return 1;
    }
    return 0;
}
static int hwalk(int depth, int len) {
    if (depth == len) return check_path(len, 0);
    for (int o = 0; o < nops; o++) { hpath[depth] = o; if (hwalk(depth + 1, len)) return 1; }
    return 0;
}

static char hword[1 << 16];
static char *rd(void) { if (scanf("%65535s", hword) != 1) exit(99); return hword; }
static int rdi(void) { return atoi(rd()); }
static void rdkeys(void) { nkeys = rdi(); hkeys = malloc(sizeof(char *) * (nkeys + 1)); for (int i = 0; i < nkeys; i++) hkeys[i] = strdup(rd()); }
int main() {
    while (scanf("%31s", hword) == 1) {
        if (hword[0] == 'H') {
            int id = rdi();
            strcpy(hkind, rd()); maxv = rdi(); hhash = rdi(); rdkeys();
            printf("H %d\n", id); fflush(stdout);
            hfresh();
            int n = rdi();
            for (int i = 0; i < n; i++) {
                strcpy(hop, rd());
                int d = rdi(), a = rdi(), b = rdi(), k = rdi(); long v = rdi();
                printf("%s", hop); hperform(d, a, b, k, v); printf("\n");
            }
            hclear();
        } else {
            strcpy(hkind, rd()); hhash = rdi(); rdkeys();
            nk = rdi(); nstates = rdi(); nops = rdi();
            hstates = malloc(sizeof(int) * nstates * nk); hnext = malloc(sizeof(int) * nstates * nops);
            for (int i = 0; i < nstates * nk; i++) hstates[i] = rdi();
            for (int i = 0; i < nops; i++) { opk[i] = rdi(); opv[i] = rdi(); }
            for (int i = 0; i < nstates * nops; i++) hnext[i] = rdi();
            npre = rdi(); for (int i = 0; i < npre; i++) { prek[i] = rdi(); prev[i] = rdi(); }
            int depth = rdi(), r = 0;
            for (int l = 0; l <= depth && !r; l++) r = hwalk(0, l);
            printf("paths %ld\n", hpaths);
        }
    }
}
