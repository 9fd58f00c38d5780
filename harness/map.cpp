// Translation unit the verifier reads: /repo's headers, unmodified, with the map instantiated as the adapters do.
#include <chrono>
#include <cassert>
#include <string>
#include <cstring>
#include <vector>
#include <algorithm>
#include "define.hpp"
#include "ucfMap.hpp"
using M = ConcurrentHashMap<KeyT, ValT>;
template class ConcurrentHashMap<KeyT, ValT>;
extern "C" {
extern const unsigned long vo_pairs, vo_chm, vo_len, vo_size, vo_slots, vo_new, vo_idx, vo_done, vo_id, vo_key, vo_val, vo_pair, vo_top, vo_bits, vo_min, vo_tsize, vo_cont;
const unsigned long vo_pairs = offsetof(M::Table, pairs), vo_chm = offsetof(M::Table, chm), vo_len = offsetof(M::Table, len);
const unsigned long vo_size = vo_chm + offsetof(M::Table::CHM, size), vo_slots = vo_chm + offsetof(M::Table::CHM, slots);
const unsigned long vo_new = vo_chm + offsetof(M::Table::CHM, newTable), vo_id = vo_chm + offsetof(M::Table::CHM, id);
const unsigned long vo_idx = vo_chm + offsetof(M::Table::CHM, copyIdx), vo_done = vo_chm + offsetof(M::Table::CHM, copyDone);
const unsigned long vo_key = offsetof(M::KVpair, key), vo_val = offsetof(M::KVpair, value), vo_pair = sizeof(M::KVpair);
const unsigned long vo_top = offsetof(M, table), vo_bits = M::BITS_MARKED, vo_min = M::Table::MIN_SIZE, vo_tsize = sizeof(M::Table), vo_cont = offsetof(ucf::container_type, c);
}
// keep the adapter's members
size_t vh_adapter(const TestOptions &o, size_t a)
{
    ucf::container_type c(o, false);
    return c.insert(a) + c.erase(a) + c.contains(a) + c.get(a) + c.count() + c.increment(a) + c.isConsistent();
}
// keep the static functions
void vh_keep(const void *a, size_t n)
{
    PERSIST(a, n);
    PERSIST_FLUSH_ONLY(a, n);
    PERSIST_BARRIER_ONLY();
}
