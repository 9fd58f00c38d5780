// Translation unit the verifier reads: the hash functions of /repo, unmodified.
#include <array>
#include <cassert>
#include <cstring>
#include <cstdint>
#include <string>
#include <vector>
#include "hash.hpp"
#include "libpmemobj++/experimental/hash.hpp"
uint64_t vh_xxh64(const void *p, size_t n, uint64_t seed) { return xxh::xxhash<64>(p, n, seed); }
uint32_t vh_xxh32(const void *p, size_t n, uint32_t seed) { return xxh::xxhash<32>(p, n, seed); }
uint64_t vh_key(const void *p, size_t n, uint64_t seed) { return pmem::obj::experimental::internal::hash(p, n, seed); }
size_t vh_word(size_t k) { return xxhash<size_t>{}(k); }
size_t vh_naive(size_t k) { return NaiveHash<size_t>{}(k); }
