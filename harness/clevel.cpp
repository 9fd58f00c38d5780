// Translation unit the verifier reads: the clevel hash map of /repo, as the level adapter instantiates it.
#include <chrono>
#include <cassert>
#include <string>
#include <cstring>
#include <vector>
#include <algorithm>
#include <cstddef>
#include <unistd.h>
#include <sys/stat.h>
#include "define.hpp"
#include "levelMap.hpp"
using M = clevel::root::map_type;
template class pmem::obj::experimental::clevel_hash<pmem::obj::p<KeyT>, pmem::obj::p<ValT>>;
extern "C" {
#define C(n, v) extern const unsigned long vo_##n; const unsigned long vo_##n = (v)
C(meta, offsetof(M, meta)); C(expand_bucket, offsetof(M, expand_bucket)); C(thread_num, offsetof(M, thread_num));
C(run, offsetof(M, run_expand_thread)); C(uuid, offsetof(M, my_pool_uuid));
C(tmp_meta, offsetof(M, tmp_meta)); C(tmp_level, offsetof(M, tmp_level)); C(tmp_entry, offsetof(M, tmp_entry));
C(first, offsetof(M::level_meta, first_level)); C(last, offsetof(M::level_meta, last_level)); C(resizing, offsetof(M::level_meta, is_resizing));
C(buckets, offsetof(M::level_bucket, buckets)); C(capacity, offsetof(M::level_bucket, capacity)); C(up, offsetof(M::level_bucket, up));
C(szbucket, sizeof(M::bucket)); C(szslot, sizeof(M::KV_entry_ptr_u)); C(assoc, M::assoc_num);
C(r_found, offsetof(M::ret, found)); C(r_level, offsetof(M::ret, level_idx)); C(szret, sizeof(M::ret));
C(szlevel, sizeof(M::level_bucket)); C(szthis, sizeof(M));
}
