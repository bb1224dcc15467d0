/* The containers of libdstr against reference containers. */
#include "vh.h"
#include "libdstr/libdstr.h"
static vh_rng_t *G; static uint64_t H; static bool OK_;
static void ev(uint64_t a, uint64_t b){ uint64_t x[2] = {a, b}; H = vh_hash(x, sizeof(x), H); }
#define BAD(key, ...) do { OK_ = false; vh_violation(key, __VA_ARGS__); return; } while(0)
/* ---- hashmap ---- */
#define NE 700
typedef struct { hash_elem_t el; dstr_t key; char kb[24]; unsigned u; bool str, in; int visits; } he_t;
DEF_CONTAINER_OF(he_t, el, hash_elem_t)
static he_t E_[NE]; static int NK;
static int ref_find(bool str, int k, int n){ /* the element which holds key k */
    for(int i = 0; i < n; i++) if(E_[i].in && E_[i].str == str && (int)E_[i].u == k) return i;
    return -1;
}
static char KB[NE][24]; static dstr_t KD[NE]; static unsigned KU[NE];
static void mkkey(int k, bool tricky){
    /* keys which share hashes: "ab" pairs of the djb2 kind, and integers */
    int n = tricky ? snprintf(KB[k], 24, "%s%s%d", k & 1 ? "bB" : "ca", k & 2 ? "bB" : "ca", k / 4) : snprintf(KB[k], 24, "key %d", k);
    if(k == 0) n = 0;
    if(k == 5){ KB[k][1] = 0; }
    KD[k] = (dstr_t){.data = KB[k], .len = (size_t)n, .size = 24, .fixed_size = true};
    KU[k] = vh_pct(G, 50) ? (unsigned)k : (unsigned)k << 24 | (unsigned)k;
}
static he_t *he(hash_elem_t *e){ return CONTAINER_OF(e, he_t, el); }
static void map_case(void){
    hashmap_t h; derr_t e = hashmap_init(&h); if(is_error(e)) vh_fatal("init");
    NK = 2 + (int)vh_n(G, vh_pct(G, 50) ? 30 : 300); int n = NK < 300 ? NK * 2 : NE; bool tricky = vh_pct(G, 40); int size = 0;
    for(int k = 0; k < NK; k++) mkkey(k, tricky);
    for(int i = 0; i < n; i++) memset(&E_[i], 0, sizeof(*E_));
    int steps = 20 + (int)vh_n(G, vh_pct(G, 60) ? 200 : 3000); int grow = (int)vh_n(G, 100);
    for(int s = 0; s < steps && OK_; s++){
        int k = (int)vh_n(G, (unsigned)NK), op = (int)vh_n(G, 100); bool str = vh_pct(G, 60); int r = ref_find(str, k, n);
        ev((uint64_t)op, (uint64_t)k);
        if(op < 50){
            if((int)vh_n(G, 100) > grow) op = 60;
        }
        if(op < 50){
            int i; for(i = 0; i < n && E_[i].in; i++);
            if(i == n) continue;
            he_t *x = &E_[i]; x->str = str; x->u = (unsigned)k;
            memcpy(x->kb, KB[k], 24); x->key = KD[k]; x->key.data = x->kb;
            hash_elem_t *old; bool uniq = vh_pct(G, 30);
            if(uniq){
                e = str ? hashmap_sets_unique(&h, &x->key, &x->el) : hashmap_setu_unique(&h, KU[k], &x->el);
                bool err = is_error(e); DROP_VAR(&e);
                if(err != (r >= 0)) BAD("map-unique", "inserting key %d uniquely %s (it is %sthere)", k, err ? "fails" : "succeeds", r >= 0 ? "" : "not ");
                if(err){ vh_count("duplicates_refused"); hash_elem_remove(&x->el); }
                else { x->in = true; size++; }
            }else{
                old = str ? hashmap_sets(&h, &x->key, &x->el) : hashmap_setu(&h, KU[k], &x->el);
                x->in = true;
                if((old ? he(old) : NULL) != (r >= 0 ? &E_[r] : NULL)) BAD("map-replace", "setting key %d returns another element than it replaces", k);
                if(r >= 0){ E_[r].in = false; vh_count("replaced"); } else size++;
            }
            vh_count("map_inserts");
        }else if(op < 70){
            hash_elem_t *d;
            if(r >= 0 && vh_pct(G, 40)){ hash_elem_remove(&E_[r].el); if(vh_pct(G, 20)) hash_elem_remove(&E_[r].el); d = &E_[r].el; }
            else d = str ? hashmap_dels(&h, &KD[k]) : hashmap_delu(&h, KU[k]);
            if((d ? he(d) : NULL) != (r >= 0 ? &E_[r] : NULL)) BAD("map-delete", "deleting key %d returns the wrong element", k);
            if(r >= 0){ E_[r].in = false; size--; vh_count("map_deletes"); }
        }else if(op < 95){
            hash_elem_t *d = str ? hashmap_gets(&h, &KD[k]) : hashmap_getu(&h, KU[k]);
            if((d ? he(d) : NULL) != (r >= 0 ? &E_[r] : NULL)) BAD("map-get", "looking up key %d (%s) finds %s", k, str ? "string" : "number", d ? "another element" : "nothing");
            vh_count(d ? "map_hits" : "map_misses");
        }else{
            bool pop = vh_pct(G, 10); int seen = 0, was = size;
            for(int i = 0; i < n; i++) E_[i].visits = 0;
            hashmap_trav_t t; hash_elem_t *d = pop ? hashmap_pop_iter(&t, &h) : hashmap_iter(&t, &h);
            while(d){
                he_t *x = he(d); seen++;
                if(x < E_ || x >= E_ + n || !x->in || x->visits++) BAD("map-iterate", "the iteration visits something twice or which is not there");
                if(pop){ x->in = false; size--; }
                else if(vh_pct(G, 20)){ hash_elem_remove(d); x->in = false; size--; vh_count("removed_while_iterating"); }
                d = pop ? hashmap_pop_next(&t) : hashmap_next(&t);
            }
            if(seen != was) BAD("map-iterate", "the iteration visits %d of %d elements", seen, was);
            vh_count("map_iterations");
        }
        if((int)h.num_elems != size) BAD("map-size", "the map counts %zu elements, %d are there", h.num_elems, size);
    }
    hashmap_free(&h);
}
/* ---- tree ---- */
typedef struct { jsw_anode_t node; int key; bool in; } te_t;
DEF_CONTAINER_OF(te_t, node, jsw_anode_t)
static te_t T_[NE]; static jsw_atree_t TR;
static const void *te_get(const jsw_anode_t *n){ return &CONTAINER_OF(n, te_t, node)->key; }
static int ref_sorted(int *out, int n){ /* counting sort of the keys */
    static int cnt[5000]; memset(cnt, 0, sizeof(cnt)); int m = 0;
    for(int i = 0; i < n; i++) if(T_[i].in) cnt[T_[i].key]++;
    for(int k = 0; k < 5000; k++) for(int j = 0; j < cnt[k]; j++) out[m++] = k;
    return m;
}
static size_t tree_count(jsw_anode_t *x, int depth, size_t *bad){
    if(x == &TR.nil) return 0;
    if(depth > 60){ *bad = 1; return 0; }
    size_t c = 1 + tree_count(x->link[0], depth + 1, bad) + tree_count(x->link[1], depth + 1, bad);
    if(c != x->count) *bad = 1;
    return c;
}
static void tree_case(void){
    int n = 1 + (int)vh_n(G, vh_pct(G, 50) ? 40 : NE); int range = vh_pct(G, 50) ? 4999 : 1 + (int)vh_n(G, 60); bool dups = vh_pct(G, 30); static int srt[NE];
    for(int i = 0; i < n; i++) memset(&T_[i], 0, sizeof(*T_));
    jsw_ainit(&TR, jsw_cmp_int, te_get);
    int steps = 20 + (int)vh_n(G, vh_pct(G, 60) ? 150 : 900), order = (int)vh_n(G, 3), seq = 0;
    for(int s = 0; s < steps && OK_; s++){
        int k = (int)vh_n(G, (unsigned)range + 1), op = (int)vh_n(G, 100); if(order == 1) k = seq % (range + 1); else if(order == 2) k = range - seq % (range + 1);
        seq++;
        ev((uint64_t)op, (uint64_t)k);
        int m = ref_sorted(srt, n); int lo = 0; while(lo < m && srt[lo] < k) lo++; int hi = lo; while(hi < m && srt[hi] == k) hi++;
        if(op < 45){
            int i; for(i = 0; i < n && T_[i].in; i++);
            if(i == n || (!dups && hi > lo)) continue;
            T_[i].key = k; T_[i].in = true; jsw_ainsert(&TR, &T_[i].node); vh_count("tree_inserts");
        }else if(op < 65){
            if(vh_pct(G, 50) && m) k = srt[vh_n(G, (unsigned)m)], lo = 0, hi = 1;
            jsw_anode_t *x = jsw_aerase(&TR, &k);
            if(!x != !(hi > lo)) BAD("tree-erase", "erasing %d finds %s", k, x ? "something" : "nothing");
            if(x){ te_t *t = CONTAINER_OF(x, te_t, node); if(!t->in || t->key != k) BAD("tree-erase", "erasing %d returns another element", k); t->in = false; vh_count("tree_erased"); }
        }else if(op < 80){
            size_t idx = 99999; jsw_anode_t *x = vh_pct(G, 50) ? jsw_afind(&TR, &k, &idx) : jsw_afind_ex(&TR, jsw_cmp_int, &k, &idx);
            if(!x != !(hi > lo)) BAD("tree-find", "finding %d finds %s", k, x ? "something" : "nothing");
            if(x && (CONTAINER_OF(x, te_t, node)->key != k || !CONTAINER_OF(x, te_t, node)->in)) BAD("tree-find", "finding %d finds another element", k);
            if(x ? ((int)idx < lo || (int)idx >= hi) : (int)idx != lo) BAD("tree-find-index", "finding %d gives index %zu, it belongs at %d", k, idx, lo);
            vh_count(x ? "tree_hits" : "tree_misses");
        }else if(op < 88){
            size_t i = vh_n(G, (unsigned)m + 3); jsw_anode_t *x = jsw_aindex(&TR, i);
            if(!x != (i >= (size_t)m)) BAD("tree-index", "index %zu of %d gives %s", i, m, x ? "something" : "nothing");
            if(x && CONTAINER_OF(x, te_t, node)->key != srt[i]) BAD("tree-index", "index %zu gives %d instead of %d", i, CONTAINER_OF(x, te_t, node)->key, srt[i]);
            vh_count("tree_indexed");
        }else if(op < 96){
            jsw_atrav_t t; bool fwd = vh_pct(G, 50), from = vh_pct(G, 40) && m && !dups; int i = fwd ? 0 : m - 1;
            jsw_anode_t *x;
            if(from){ i = (int)vh_n(G, (unsigned)m); jsw_anode_t *y = jsw_aindex(&TR, (size_t)i); x = jsw_atnode(&t, &TR, y); if(x != y) BAD("tree-atnode", "traversing from an element starts elsewhere"); }
            else x = fwd ? jsw_atfirst(&t, &TR) : jsw_atlast(&t, &TR);
            int left = (int)vh_n(G, 400);
            while(x && left-- && OK_){
                if(i < 0 || i >= m || CONTAINER_OF(x, te_t, node)->key != srt[i]) BAD("tree-traverse", "the traversal gives %d at place %d of %d", CONTAINER_OF(x, te_t, node)->key, i, m);
                if(vh_pct(G, 10)) fwd = !fwd;
                i += fwd ? 1 : -1; x = fwd ? jsw_atnext(&t) : jsw_atprev(&t);
            }
            if(!x && i >= 0 && i < m) BAD("tree-traverse", "the traversal ends at place %d of %d", i, m);
            vh_count("tree_traversals");
        }else if(op < 98 && !dups){
            jsw_atrav_t t; bool fwd = vh_pct(G, 50); jsw_anode_t *x = fwd ? jsw_atfirst(&t, &TR) : jsw_atlast(&t, &TR); int i = fwd ? 0 : m - 1;
            while(x){
                te_t *y = CONTAINER_OF(x, te_t, node);
                if(i < 0 || i >= m || y->key != srt[i]) BAD("tree-pop-traverse", "the traversal gives %d at place %d of %d", y->key, i, m);
                i += fwd ? 1 : -1;
                if(vh_pct(G, 40)){ y->in = false; x = fwd ? jsw_pop_atnext(&t) : jsw_pop_atprev(&t); vh_count("tree_popped_in_traversal"); }
                else x = fwd ? jsw_atnext(&t) : jsw_atprev(&t);
            }
            if(i >= 0 && i < m) BAD("tree-pop-traverse", "the traversal ends at place %d of %d", i, m);
        }else if(op < 99){
            jsw_anode_t *x = jsw_apop(&TR);
            if(!x != !m) BAD("tree-pop", "popping from %d gives %s", m, x ? "something" : "nothing");
            if(x){ te_t *t = CONTAINER_OF(x, te_t, node); if(!t->in) BAD("tree-pop", "popping gives what is not there"); t->in = false; }
        }
        int now = 0; for(int i = 0; i < n; i++) if(T_[i].in) now++;
        if((int)jsw_asize(&TR) != now) BAD("tree-size", "the tree counts %zu elements, %d are there", jsw_asize(&TR), now);
        size_t bad = 0; if(s % 16 == 0 && (tree_count(TR.root, 0, &bad) != (size_t)now || bad)) BAD("tree-shape", "the counts in the tree are wrong or it is degenerate");
    }
}
/* ---- heap ---- */
typedef struct { hnode_t h; int key; bool in; } qe_t;
DEF_CONTAINER_OF(qe_t, h, hnode_t)
static qe_t Q_[NE];
static const void *qe_get(const hnode_t *n){ return &CONTAINER_OF(n, qe_t, h)->key; }
static void heap_case(void){
    heap_t h; bool max = vh_pct(G, 50); int n = 1 + (int)vh_n(G, vh_pct(G, 60) ? 30 : 500), range = 1 + (int)vh_n(G, vh_pct(G, 50) ? 10 : 100000);
    for(int i = 0; i < n; i++) memset(&Q_[i], 0, sizeof(*Q_));
    heap_prep(&h, jsw_cmp_int, qe_get, max);
    int steps = 20 + (int)vh_n(G, 600), grow = 20 + (int)vh_n(G, 60), size = 0;
    for(int s = 0; s < steps && OK_; s++){
        int best = -1; for(int i = 0; i < n; i++) if(Q_[i].in && (best < 0 || (max ? Q_[i].key > Q_[best].key : Q_[i].key < Q_[best].key))) best = i;
        int op = (int)vh_n(G, 100), i = (int)vh_n(G, (unsigned)n); ev((uint64_t)op, (uint64_t)i);
        if(op < grow){ if(!Q_[i].in){ Q_[i].key = (int)vh_n(G, (unsigned)range); Q_[i].in = true; heap_put(&h, &Q_[i].h); size++; vh_count("heap_puts"); } }
        else if(op < 85){
            hnode_t *x = op & 1 ? heap_peek(&h) : heap_pop(&h);
            if(!x != (best < 0)) BAD("heap-best", "the heap has %d elements but gives %s", size, x ? "something" : "nothing");
            if(x){ qe_t *q = CONTAINER_OF(x, qe_t, h); if(!q->in || q->key != Q_[best].key) BAD("heap-best", "the heap gives %d instead of %d", q->key, Q_[best].key); if(!(op & 1)){ q->in = false; size--; vh_count("heap_pops"); } }
        }else{ hnode_remove(&Q_[i].h); if(Q_[i].in){ size--; Q_[i].in = false; vh_count("heap_removed"); } if(vh_pct(G, 20)) hnode_remove(&Q_[i].h); }
    }
    int last = 0; bool first = true; hnode_t *x;
    while(OK_ && (x = heap_pop(&h))){
        qe_t *q = CONTAINER_OF(x, qe_t, h); if(!q->in) BAD("heap-drain", "the heap gives what is not in it");
        if(!first && (max ? q->key > last : q->key < last)) BAD("heap-drain", "the heap gives %d after %d", q->key, last);
        first = false; last = q->key; q->in = false; size--;
    }
    if(size) BAD("heap-drain", "%d elements are lost in the heap", size);
}
/* ---- lists ---- */
typedef struct { link_t l; int id; int list; } le_t;
DEF_CONTAINER_OF(le_t, l, link_t)
#define NL 4
static le_t L_[200]; static link_t HD[NL]; static int R[NL][200], RN[NL];
static void r_add(int l, int id, bool front){ if(front){ memmove(R[l] + 1, R[l], sizeof(int) * (size_t)RN[l]); R[l][0] = id; } else R[l][RN[l]] = id; RN[l]++; L_[id].list = l; }
static void r_del(int id){ int l = L_[id].list; if(l < 0) return; int i = 0; while(R[l][i] != id) i++; memmove(R[l] + i, R[l] + i + 1, sizeof(int) * (size_t)(RN[l] - i - 1)); RN[l]--; L_[id].list = -1; }
static bool lists_same(void){
    for(int l = 0; l < NL; l++){
        if((int)link_list_count(&HD[l]) != RN[l] || link_list_isempty(&HD[l]) != (RN[l] == 0)) return false;
        int i = 0; le_t *e; LINK_FOR_EACH(e, &HD[l], le_t, l){ if(i >= RN[l] || e->id != R[l][i]) return false; i++; }
        i = RN[l]; if(HD[l].prev) for(link_t *p = HD[l].prev; p != &HD[l]; p = p->prev) if(--i < 0 || CONTAINER_OF(p, le_t, l)->id != R[l][i]) return false;
    }
    return true;
}
static void list_case(void){
    int n = 2 + (int)vh_n(G, 190); bool zero = vh_pct(G, 50);
    for(int i = 0; i < n; i++){ memset(&L_[i], 0, sizeof(*L_)); L_[i].id = i; L_[i].list = -1; if(vh_pct(G, 50)) link_init(&L_[i].l); }
    for(int l = 0; l < NL; l++){ memset(&HD[l], 0, sizeof(*HD)); RN[l] = 0; if(!zero) link_init(&HD[l]); }
    int steps = 10 + (int)vh_n(G, 500);
    for(int s = 0; s < steps && OK_; s++){
        int op = (int)vh_n(G, 16), id = (int)vh_n(G, (unsigned)n), l = (int)vh_n(G, NL), m = (int)vh_n(G, NL); ev((uint64_t)op, (uint64_t)id * 16 + (uint64_t)(l * 4 + m));
        if(op < 6){ if(L_[id].list >= 0) continue; bool f = op & 1; if(f) link_list_prepend(&HD[l], &L_[id].l); else link_list_append(&HD[l], &L_[id].l); r_add(l, id, f); vh_count("list_inserts"); }
        else if(op < 8){ link_remove(&L_[id].l); r_del(id); vh_count("list_removes"); }
        else if(op < 10){ bool f = op & 1; link_t *x = f ? link_list_pop_first(&HD[l]) : link_list_pop_last(&HD[l]); int want = RN[l] ? R[l][f ? 0 : RN[l] - 1] : -1;
            if((x ? CONTAINER_OF(x, le_t, l)->id : -1) != want) BAD("list-pop", "popping gives the wrong element"); if(want >= 0) r_del(want); vh_count("list_pops"); }
        else if(op < 12){ if(l == m) continue; bool f = op & 1; if(f) link_list_prepend_list(&HD[l], &HD[m]); else link_list_append_list(&HD[l], &HD[m]);
            if(f) while(RN[m]){ int x = R[m][RN[m] - 1]; r_del(x); r_add(l, x, true); } else while(RN[m]){ int x = R[m][0]; r_del(x); r_add(l, x, false); } vh_count("lists_joined"); }
        else{
            /* several at once or none at all; a list may be named repeatedly */
            int k[3] = {(int)vh_n(G, NL), (int)vh_n(G, NL), (int)vh_n(G, NL)}; bool f = op & 1; link_t *o[3] = {(link_t*)1, (link_t*)1, (link_t*)1};
            int need[NL] = {0}; bool ok = true; int nn = 2 + (op >= 14);
            for(int i = 0; i < nn; i++) if(++need[k[i]] > RN[k[i]]) ok = false;
            bool r = nn == 2 ? (f ? link_list_pop_first_n(LINK_IO(&HD[k[0]], &o[0]), LINK_IO(&HD[k[1]], &o[1])) : link_list_pop_last_n(LINK_IO(&HD[k[0]], &o[0]), LINK_IO(&HD[k[1]], &o[1])))
                             : (f ? link_list_pop_first_n(LINK_IO(&HD[k[0]], &o[0]), LINK_IO(&HD[k[1]], &o[1]), LINK_IO(&HD[k[2]], &o[2])) : link_list_pop_last_n(LINK_IO(&HD[k[0]], &o[0]), LINK_IO(&HD[k[1]], &o[1]), LINK_IO(&HD[k[2]], &o[2])));
            if(r != ok) BAD("list-pop-n", "popping %d at once returns %d", nn, r);
            for(int i = 0; i < nn; i++){
                if(!r){ if(o[i]) BAD("list-pop-n", "a failed pop of %d leaves a result behind", nn); continue; }
                int w = R[k[i]][f ? 0 : RN[k[i]] - 1]; if(CONTAINER_OF(o[i], le_t, l)->id != w) BAD("list-pop-n", "popping %d at once gives the wrong element", nn); r_del(w);
            }
            vh_count(r ? "popped_together" : "not_popped_together");
        }
        if(!lists_same()) BAD("list-content", "a list has other elements or another order (operation %d)", op);
    }
}
/* ---- paths from string builders ---- */
static void sb_case(void){
    string_builder_t sb[8]; char want[600] = "", parts[8][40]; int n = 1 + (int)vh_n(G, 8); int lo = 4, hi = 4; bool first = true;
    /* prepends and appends, in any order, each to the outermost */
    string_builder_t base[1]; char p[60]; static dstr_t ds[8];
    string_builder_t *cur = NULL; static string_builder_t keep[9]; int nk = 0;
    for(int i = 0; i < n; i++){
        string_builder_t s; int kind = (int)vh_n(G, 5); snprintf(parts[i], 40, "%.*s%d", (int)vh_n(G, 12), "abcdefghijkl", i);
        if(kind == 0){ ds[i] = dstr_from_cstr(parts[i]); s = SBD(ds[i]); snprintf(p, sizeof(p), "%s", parts[i]); }
        else if(kind == 1){ s = SBS(parts[i]); snprintf(p, sizeof(p), "%s", parts[i]); }
        else if(kind == 2){ size_t k = vh_n(G, strlen(parts[i]) + 1); s = SBSN(parts[i], k); snprintf(p, sizeof(p), "%.*s", (int)k, parts[i]); }
        else if(kind == 3){ intmax_t v = (intmax_t)vh_u64(G); s = SBI(v); snprintf(p, sizeof(p), "%jd", v); }
        else { uintmax_t v = vh_u64(G); s = SBU(v); snprintf(p, sizeof(p), "%ju", v); }
        char nw[600];
        if(!cur){ keep[nk] = s; snprintf(want, sizeof(want), "%s", p); }
        else if(vh_pct(G, 50)){ keep[nk] = sb_append(cur, s); snprintf(nw, sizeof(nw), "%s/%s", want, p); strcpy(want, nw); }
        else { keep[nk] = sb_prepend(cur, s); snprintf(nw, sizeof(nw), "%s/%s", p, want); strcpy(want, nw); }
        cur = &keep[nk++];
    }
    (void)sb; (void)lo; (void)hi; (void)first; (void)base;
    char st[600]; dstr_t stack = {.data = st, .size = vh_n(G, 300), .fixed_size = true}, heap = {0}, *out; if(!stack.size) stack.size = 1;
    derr_t e = sb_expand(cur, &stack, &heap, &out);
    if(is_error(e)){ DROP_VAR(&e); BAD("path", "expanding a path of %d parts fails", n); }
    if(out->len != strlen(want) || strcmp(out->data, want)){ vh_violation("path", "a path is '%.*s' instead of '%s'", (int)out->len, out->data, want); OK_ = false; }
    vh_count(out == &heap ? "paths_on_the_heap" : "paths_on_the_stack");
    dstr_free(&heap);
    ev(vh_hash(want, strlen(want), 0), 0);
}
static void one_case(vh_rng_t *g, uint64_t i){
    (void)i; G = g; H = 0; OK_ = true;
    switch(vh_n(G, 5)){ case 0: map_case(); break; case 1: tree_case(); break; case 2: heap_case(); break; case 3: list_case(); break; default: sb_case(); }
    vh_distinct(H);
}
int main(int argc, char **argv){ return vh_main(argc, argv, "containers", one_case); }
