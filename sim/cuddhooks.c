/* Link-time seam (-Wl,--wrap=...) in front of CUDD's node creation: the simulator's schedule decides
   at which node creation a garbage collection, a dynamic variable reordering, a cache loss or a table
   rehash happens, instead of table sizes that small inputs never reach. The real code runs the event. */
#include "util.h"
#include "cuddInt.h"
#include <stdint.h>

extern DdNode *__real_cuddUniqueInter(DdManager *, int, DdNode *, DdNode *);
extern DdNode *__real_cuddUniqueInterZdd(DdManager *, int, DdNode *, DdNode *);
extern DdManager *__real_Cudd_Init(unsigned int, unsigned int, unsigned int, unsigned int, size_t);
extern int dst_node_event(uint64_t *arg);           /* 0 none 1 gc 2 reorder 3 flush */
extern void dst_node_stats(uint64_t gcs, uint64_t reorders);
extern long dst_knob(const char *, long);
extern int dst_active(void);
extern uint64_t dst_steps(void);
extern void dst_steps_set(uint64_t);

DdManager *__wrap_Cudd_Init(unsigned int nv, unsigned int nz, unsigned int slots, unsigned int cache, size_t mem) {
    DdManager *m;
    if (dst_active()) {
        long c = dst_knob("cacheslots", 0), s = dst_knob("uniqueslots", 0), mm = dst_knob("cuddmem", 0);
        if (c > 0) cache = (unsigned) c;
        if (s > 0) slots = (unsigned) s;
        if (mm > 0 && (mem == 0 || mem > (size_t) mm)) mem = (size_t) mm;
    }
    m = __real_Cudd_Init(nv, nz, slots, cache, mem);
    if (m && dst_active()) {                          /* a short death row makes nodes really die early */
        long d = dst_knob("deathrow", 0);
        while (d > 0 && m->deathRowDepth > d && m->deathRowDepth > 3) { int o = m->deathRowDepth; cuddShrinkDeathRow(m); if (m->deathRowDepth == o) break; }
    }
    return m;
}

static const Cudd_ReorderingType methods[] = { CUDD_REORDER_SIFT, CUDD_REORDER_RANDOM, CUDD_REORDER_WINDOW2,
    CUDD_REORDER_SYMM_SIFT, CUDD_REORDER_WINDOW3, CUDD_REORDER_GROUP_SIFT, CUDD_REORDER_RANDOM_PIVOT, CUDD_REORDER_SIFT };

static int inHook = 0;

static DdNode *hooked(DdManager *u, int index, DdNode *T, DdNode *E, int zdd) {
    DdNode *r; uint64_t arg = 0; int ev;
    unsigned g0, r0; uint64_t st0;
    if (inHook || !dst_active())
        return zdd ? __real_cuddUniqueInterZdd(u, index, T, E) : __real_cuddUniqueInter(u, index, T, E);
    ev = dst_node_event(&arg);
    st0 = dst_steps();
    g0 = (unsigned) u->garbageCollections; r0 = u->reorderings;
    if (ev == 1) {                                   /* garbage collection, or rehash when nothing is dead */
        unsigned md = u->minDead; int lev; DdSubtable *st = NULL; unsigned slots = 0, mk = 0;
        u->minDead = 0;
        if (arg & 8) cuddClearDeathRow(u);
        if (index < (zdd ? u->sizeZ : u->size)) {
            lev = zdd ? u->permZ[index] : u->perm[index];
            st = zdd ? &u->subtableZ[lev] : &u->subtables[lev];
            if ((zdd ? u->deadZ : u->dead) > 0 || (arg & 7) == 0) {
                if (st->slots < 8192) { slots = st->slots; mk = st->maxKeys; st->maxKeys = 0; } else st = NULL;
            } else st = NULL;
        }
        r = zdd ? __real_cuddUniqueInterZdd(u, index, T, E) : __real_cuddUniqueInter(u, index, T, E);
        u->minDead = md;
        if (st && st->slots == slots && st->maxKeys == 0) st->maxKeys = mk;
    } else if (ev == 2) {                            /* reordering; honoured only if the client enabled it */
        int en = zdd ? u->autoDynZ : u->autoDyn;
        /* Cudd_ReduceHeap does nothing below 10 live nodes, a case its caller never meets with real thresholds */
        if (en && (zdd ? u->keysZ - u->deadZ : u->keys - u->dead) >= 10) {
            unsigned nd = u->nextDyn; Cudd_ReorderingType m0 = zdd ? u->autoMethodZ : u->autoMethod;
            Cudd_ReorderingType m = methods[arg & 7];
            if (zdd && (m == CUDD_REORDER_GROUP_SIFT || m == CUDD_REORDER_WINDOW2 || m == CUDD_REORDER_WINDOW3)) m = CUDD_REORDER_SIFT;
            if ((m == CUDD_REORDER_RANDOM || m == CUDD_REORDER_RANDOM_PIVOT) && dst_knob("norandom", 0)) m = CUDD_REORDER_SIFT; /* random swaps do not respect variable groups */
            u->nextDyn = 0;
            if (zdd) u->autoMethodZ = m; else u->autoMethod = m;
            inHook = 1;
            r = zdd ? __real_cuddUniqueInterZdd(u, index, T, E) : __real_cuddUniqueInter(u, index, T, E);
            inHook = 0;
            if (zdd) u->autoMethodZ = m0; else u->autoMethod = m0;
            u->nextDyn = nd;
        } else r = zdd ? __real_cuddUniqueInterZdd(u, index, T, E) : __real_cuddUniqueInter(u, index, T, E);
    } else {
        if (ev == 3) cuddCacheFlush(u);
        r = zdd ? __real_cuddUniqueInterZdd(u, index, T, E) : __real_cuddUniqueInter(u, index, T, E);
    }
    if (ev) dst_steps_set(st0 + 1000);
    dst_node_stats((unsigned) u->garbageCollections - g0, u->reorderings - r0);
    return r;
}

DdNode *__wrap_cuddUniqueInter(DdManager *u, int index, DdNode *T, DdNode *E) { return hooked(u, index, T, E, 0); }
DdNode *__wrap_cuddUniqueInterZdd(DdManager *u, int index, DdNode *T, DdNode *E) { return hooked(u, index, T, E, 1); }
