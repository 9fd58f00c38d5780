// The concrete side of the checks: /repo's map, unmodified, compiled so that every access to memory calls the scheduler
// (sched.cpp), which then decides which thread goes on. Used to look for a failing run once an obligation failed, and as
// the bounded stand-in where the verifier cannot decide one.
#include <chrono>
#include <cassert>
#include <string>
#include <cstring>
#include <vector>
#include <algorithm>
#include <immintrin.h>
extern "C" { void vt_flush(const void *); void vt_fence(); }
#define _mm_clflush(p) vt_flush((const void *)(p))
#define _mm_sfence() vt_fence()
#include "define.hpp"
#include "ucfMap.hpp"
TestOptions::TestOptions() {}
using M = ConcurrentHashMap<KeyT, ValT>;
extern "C" {
#include "sched.h"
void vm_layout(struct layout *l)
{
    l->pair = sizeof(M::KVpair); l->key = offsetof(M::KVpair, key); l->val = offsetof(M::KVpair, value);
    l->pairs = offsetof(M::Table, pairs); l->len = offsetof(M::Table, len);
    l->size = offsetof(M::Table, chm) + offsetof(M::Table::CHM, size);
    l->slots = offsetof(M::Table, chm) + offsetof(M::Table::CHM, slots);
    l->next = offsetof(M::Table, chm) + offsetof(M::Table::CHM, newTable);
    l->done = offsetof(M::Table, chm) + offsetof(M::Table::CHM, copyDone);
    l->top = offsetof(M, table);
    l->VINIT = M::VINITIAL; l->VTOMB = M::VTOMBSTONE; l->TP = M::TOMBPRIME; l->MANY = M::MATCH_ANY; l->NMO = M::NO_MATCH_OLD;
    l->KINIT = M::KINITIAL; l->KTOMB = M::KTOMBSTONE; l->bits = M::BITS_MARKED;
}
void *vm_new(unsigned long cap) { return new M("unused", cap, false); }
void *vm_adapter(void *map)
{
    auto *c = (ucf::container_type *)calloc(1, sizeof(ucf::container_type));
    TestOptions o; o.capacity = 3;
    new (c) ucf::container_type(o, false);
    delete c->c;
    c->c = (M *)map;
    return c;
}
unsigned long vm_op(void *map, void *ad, int op, unsigned long k, unsigned long a, unsigned long b)
{
    M *m = (M *)map;
    auto *c = (ucf::container_type *)ad;
    switch (op)
    {
    case OP_PUT: return m->put(k, a);
    case OP_PIA: return m->putIfAbsent(k, a);
    case OP_REM: return m->remove(k);
    case OP_REM2: return m->remove(k, a);
    case OP_REPL: return m->replace(k, a, b);
    case OP_INC: return m->update(k, a, M::Table::increment);
    case OP_UPD: return m->update(k, a, M::Table::CASvalue);
    case OP_GET: return m->get(k);
    case OP_CONT: return m->containsKey(k);
    case OP_SIZE: return m->size();
    case OP_EMPTY: return m->isEmpty();
    case OP_AINS: return c->insert(k >> M::BITS_MARKED);
    case OP_AERA: return c->erase(k >> M::BITS_MARKED);
    case OP_ACON: return c->contains(k >> M::BITS_MARKED);
    case OP_AGET: return c->get(k >> M::BITS_MARKED);
    case OP_AINC: return c->increment(k >> M::BITS_MARKED);
    case OP_ACNT: return c->count();
    }
    return 0;
}
// mapping a table file directly
void *vm_map(int fresh, unsigned long cap, unsigned long size, const char *name) { return M::Table::mmapTable(fresh, cap, size, name); }
int vm_unmap(void *t) { return M::Table::munmapTable((M::Table *)t); }
}
