// Direct runs of /repo's sequential functions against a reference: direct hash|flush <seed> <seconds>
// exit 1: a line FOUND <what> <details>; exit 0: none found
#include <array>
#include <cassert>
#include <cstring>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <set>
#include <chrono>
#include <csignal>
#include <unistd.h>
#include <sys/mman.h>
#include <immintrin.h>
typedef uint64_t u64; typedef uint32_t u32;
struct Rng { u64 s; u64 next() { s += 0x9e3779b97f4a7c15ull; u64 z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); } u64 below(u64 n) { return next() % n; } };
static Rng R;
static u64 runs;
static char cur[300];
static void on_sig(int s) { printf("FOUND signal %d in %s\n", s, cur); fflush(stdout); _exit(1); }
#ifdef T_HASH
#include "hash.hpp"
#include "libpmemobj++/experimental/hash.hpp"
// the published definitions, byte by byte
static u64 r64(u64 x, int r) { return x << r | x >> (64 - r); }
static u32 r32(u32 x, int r) { return x << r | x >> (32 - r); }
static u64 le(const unsigned char *p, int n) { u64 v = 0; for (int i = n; i-- > 0;) v = v << 8 | p[i]; return v; }
static u64 ref64(const unsigned char *p, size_t n, u64 seed)
{
    const u64 P1 = 11400714785074694791ull, P2 = 14029467366897019727ull, P3 = 1609587929392839161ull, P4 = 9650029242287828579ull, P5 = 2870177450012600261ull;
    auto rd = [&](u64 a, u64 x) { return r64(a + x * P2, 31) * P1; };
    u64 h; size_t i = 0;
    if (n >= 32)
    {
        u64 v[4] = {seed + P1 + P2, seed + P2, seed, seed - P1};
        for (; i + 32 <= n; i += 32) for (int j = 0; j < 4; j++) v[j] = rd(v[j], le(p + i + 8 * j, 8));
        h = r64(v[0], 1) + r64(v[1], 7) + r64(v[2], 12) + r64(v[3], 18);
        for (int j = 0; j < 4; j++) h = (h ^ rd(0, v[j])) * P1 + P4;
    }
    else h = seed + P5;
    h += n;
    for (; i + 8 <= n; i += 8) h = r64(h ^ rd(0, le(p + i, 8)), 27) * P1 + P4;
    if (i + 4 <= n) { h = r64(h ^ le(p + i, 4) * P1, 23) * P2 + P3; i += 4; }
    for (; i < n; i++) h = r64(h ^ p[i] * P5, 11) * P1;
    h ^= h >> 33; h *= P2; h ^= h >> 29; h *= P3; h ^= h >> 32;
    return h;
}
static u32 ref32(const unsigned char *p, size_t n, u32 seed)
{
    const u32 P1 = 2654435761u, P2 = 2246822519u, P3 = 3266489917u, P4 = 668265263u, P5 = 374761393u;
    u32 h; size_t i = 0;
    if (n >= 16)
    {
        u32 v[4] = {seed + P1 + P2, seed + P2, seed, seed - P1};
        for (; i + 16 <= n; i += 16) for (int j = 0; j < 4; j++) v[j] = r32(v[j] + (u32)le(p + i + 4 * j, 4) * P2, 13) * P1;
        h = r32(v[0], 1) + r32(v[1], 7) + r32(v[2], 12) + r32(v[3], 18);
    }
    else h = seed + P5;
    h += (u32)n;
    for (; i + 4 <= n; i += 4) h = r32(h + (u32)le(p + i, 4) * P3, 17) * P4;
    for (; i < n; i++) h = r32(h + p[i] * P5, 11) * P1;
    h ^= h >> 15; h *= P2; h ^= h >> 13; h *= P3; h ^= h >> 16;
    return h;
}
static unsigned char *buf;   // ends at an inaccessible page, and so does its other end
static const size_t CAP = 4096;
static void one()
{
    size_t n = R.below(4) ? R.below(100) : R.below(1500);
    bool atend = R.below(2);
    size_t o = atend ? CAP - n : R.below(64);
    if (!atend && R.below(3) == 0) o = 0;
    unsigned char *p = buf + o;
    for (size_t i = 0; i < n; i++) p[i] = R.below(5) ? (unsigned char)R.next() : R.below(2) ? 0xff : 0;
    u64 seed = R.below(3) ? R.next() : R.below(3);
    snprintf(cur, 300, "hashing %zu bytes at offset %zu of a page, seed %llu", n, o, (unsigned long long)seed);
    auto bad = [&](const char *f, u64 got, u64 want) {
        printf("FOUND %s of %zu bytes (at an address with last bits %d, seed %llu) is %016llx, not %016llx; bytes:", f, n, (int)((u64)p & 15), (unsigned long long)seed, (unsigned long long)got, (unsigned long long)want);
        for (size_t i = 0; i < n && i < 64; i++) printf(" %02x", p[i]);
        printf("\n"); fflush(stdout); _exit(1); };
    u64 w = ref64(p, n, seed), g;
    if ((g = xxh::xxhash<64>(p, n, seed)) != w) bad("xxhash<64>", g, w);
    if ((g = pmem::obj::experimental::internal::hash(p, n, seed)) != w) bad("the key hash", g, w);
    if ((g = xxh::xxhash<32>(p, n, (u32)seed)) != ref32(p, n, (u32)seed)) bad("xxhash<32>", g, ref32(p, n, (u32)seed));
    u64 k = R.below(2) ? R.next() : R.below(1000);
    unsigned char kb[8]; memcpy(kb, &k, 8);
    if ((g = xxhash<size_t>{}(k)) != ref64(kb, 8, 0)) { printf("FOUND the hash of key %llu is %016llx, not %016llx\n", (unsigned long long)k, (unsigned long long)g, (unsigned long long)ref64(kb, 8, 0)); fflush(stdout); _exit(1); }
    if (NaiveHash<size_t>{}(k) != k) { printf("FOUND the naive hash of %llu is not itself\n", (unsigned long long)k); fflush(stdout); _exit(1); }
}
static void init() { char *m = (char *)mmap(nullptr, CAP + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(m + 4096, CAP, PROT_READ | PROT_WRITE); buf = (unsigned char *)m + 4096; }
#else
static std::vector<u64> flushes; static bool fenced;
static void vt_flush(const void *p) { flushes.push_back((u64)p); fenced = false; if (flushes.size() > 100000) { printf("FOUND endless flushing in %s\n", cur); fflush(stdout); _exit(1); } }
static void vt_fence() { fenced = true; }
#define _mm_clflush(p) vt_flush((const void *)(p))
#define _mm_clflushopt(p) vt_flush((const void *)(p))
#define _mm_clwb(p) vt_flush((const void *)(p))
#define _mm_sfence() vt_fence()
#define _mm_mfence() vt_fence()
#include "persistence.hpp"
static void one()
{
    u64 base = 0x10000 + R.below(100000), n = R.below(3) ? R.below(200) : R.below(20000);
    if (R.below(3) == 0) base &= ~63ull;
    if (R.below(4) == 0) n = (n & ~63ull) + R.below(3);
    for (int f = 0; f < 2; f++)
    {
        flushes.clear(); fenced = false;
        snprintf(cur, 300, "%s of %llu bytes at %llx", f ? "flush" : "persist", (unsigned long long)n, (unsigned long long)base);
        if (f) PERSIST_FLUSH_ONLY((void *)base, n); else PERSIST((void *)base, n);
        std::set<u64> lines;
        for (u64 a : flushes) lines.insert(a & ~63ull);
        for (u64 a = base & ~63ull; n && a < base + n; a += 64) if (!lines.count(a)) { printf("FOUND %s leaves the cache line at %llx unflushed\n", cur, (unsigned long long)a); fflush(stdout); _exit(1); }
        if (!f && n && !fenced) { printf("FOUND %s does not end with a fence\n", cur); fflush(stdout); _exit(1); }
    }
    fenced = false; PERSIST_BARRIER_ONLY();
    if (!fenced) { printf("FOUND the barrier does not fence\n"); fflush(stdout); _exit(1); }
}
static void init() {}
#endif
int main(int argc, char **argv)
{
    u64 seed = strtoull(argv[1], nullptr, 10);
    double secs = atof(argv[2]);
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGALRM}) signal(s, on_sig);
    alarm((unsigned)secs + 10);
    init();
    R.s = seed;
    auto t0 = std::chrono::steady_clock::now();
    while (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < secs) for (int i = 0; i < 1000; i++) { one(); runs++; }
    printf("NONE runs=%llu\n", (unsigned long long)runs);
    return 0;
}
