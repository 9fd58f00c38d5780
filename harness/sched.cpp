// Deterministic exploration of schedules of the real map (sched_map.cpp): cooperative threads, switched at atomic accesses.
//   sched explore <seed> <seconds> <tags>      look for a violation of one of the tags (comma separated, or "all")
//   sched replay <seed> <index> [-v]           run one case again
// exit 0: none found, 1: found (a line FOUND <tag> <seed> <index> and the history), 3: gave up
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#include <unordered_map>
#include <unordered_set>
#include <new>
#include <csignal>
#include <ctime>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
extern "C" {
#include "sched.h"
}
typedef uint64_t u64;
typedef uint32_t u32;
static layout L;
static const u64 D = 1, MIG = 2;

// ---- random numbers ---------------------------------------------------------------------------------------------
struct Rng { u64 s; u64 next() { s += 0x9e3779b97f4a7c15ull; u64 z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
    u64 below(u64 n) { return next() % n; } bool p(double x) { return (next() >> 11) * (1.0 / 9007199254740992.0) < x; } };
static Rng R;

// ---- fibers ------------------------------------------------------------------------------------------------------
extern "C" void vt_switch(void **save, void *to);
asm(".text\n.globl vt_switch\nvt_switch:\n push %rbp\n push %rbx\n push %r12\n push %r13\n push %r14\n push %r15\n mov %rsp,(%rdi)\n mov %rsi,%rsp\n pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbx\n pop %rbp\n ret\n");
struct Op { int op; u64 k, a, b; u64 ret; long inv, res; int th; };
struct Fiber { void *sp; char *stk; bool done; int prio; long steps, opsteps; bool stalled; std::vector<Op> ops; size_t cur; std::vector<std::pair<u64, u64>> pend; bool running; u64 key; };
static std::vector<Fiber> F;
static void *mainsp;
static int me = -1;          // running fiber; -1: scheduler
static long clk, total;
static bool in_rt;
static bool verbose, quitrun;
static u64 run_seed, run_idx;
static std::string wanted = "all";
static void *gmap, *gad;
static std::vector<Op> hist;
static bool concurrent;

// ---- reporting ---------------------------------------------------------------------------------------------------
static std::vector<std::string> trail;
static const char *opn[] = {"put", "putIfAbsent", "remove", "remove2", "replace", "increment", "update", "get", "containsKey", "size", "isEmpty", "insert", "erase", "contains", "a.get", "a.increment", "count"};
static bool want(const char *tag) { return wanted == "all" || ("," + wanted + ",").find(std::string(",") + tag + ",") != std::string::npos; }
static std::string show(u64 v)
{
    char b[64];
    u64 c = v & ~D;
    std::string s;
    if (c == L.VINIT) s = "INITIAL"; else if (c == L.VTOMB) s = "TOMBSTONE"; else if (c == L.TP) s = "MIGRATED"; else { snprintf(b, 64, "%llu%s", (unsigned long long)(c & ~MIG), c & MIG ? "(frozen)" : ""); s = b; }
    return s;
}
static void note(const char *f, ...)
{
    if (!verbose) return;
    char b[400]; va_list a; va_start(a, f); int n = snprintf(b, 40, "[%ld] T%d ", clk, me); vsnprintf(b + n, 360, f, a); va_end(a);
    fprintf(stdout, "    %s\n", b);
}
static void show_op(const Op &o) { printf("    T%d [%ld,%ld] %s(key %llu, %s, %s) -> %s\n", o.th, o.inv, o.res, opn[o.op], (unsigned long long)(o.k >> L.bits), show(o.a).c_str(), show(o.b).c_str(), o.op == OP_REM || o.op == OP_REM2 || o.op == OP_REPL || o.op == OP_CONT || o.op == OP_AINS || o.op == OP_AERA || o.op == OP_ACON || o.op == OP_SIZE || o.op == OP_EMPTY || o.op == OP_ACNT || o.op == OP_AGET ? std::to_string(o.ret).c_str() : show(o.ret).c_str()); }
static bool found_it = false;
static void found(const char *tag, const char *f, ...)
{
    if (!want(tag)) return;
    if (found_it) return;
    found_it = true;
    char b[400]; va_list a; va_start(a, f); vsnprintf(b, 400, f, a); va_end(a);
    printf("FOUND %s %llu %llu\n  %s\n  history (keys shown without the marking bits):\n", tag, (unsigned long long)run_seed, (unsigned long long)run_idx, b);
    for (auto &o : hist) show_op(o);
    for (auto &x : F) if (!x.done && x.cur < x.ops.size()) { Op o = x.ops[x.cur]; printf("    T%d running: %s(key %llu, %s, %s)\n", int(&x - &F[0]), opn[o.op], (unsigned long long)(o.k >> L.bits), show(o.a).c_str(), show(o.b).c_str()); }
    fflush(stdout);
    _exit(1);
}

// ---- memory model ------------------------------------------------------------------------------------------------
struct Word { u64 pend; std::vector<u64> pers; };
struct Region { char *base; size_t len; char *raw; size_t rawlen; bool dead, prot; int owner; bool shared; std::vector<Word> w; Word &word(u64 a) { return w[((char *)a - base) / 8]; } };
static std::vector<Region *> regs;
static std::map<size_t, std::vector<Region *>> pool;
static Region *region(const void *p) { for (size_t i = regs.size(); i-- > 0;) if (!regs[i]->dead && (char *)p >= regs[i]->base && (char *)p < regs[i]->base + regs[i]->len) return regs[i]; return nullptr; }
struct File { std::vector<char> data; bool exists; };
static std::map<std::string, File> fs;
static std::map<int, std::string> fds;
static int nextfd;
static int stale;              // what a leftover file holds (0: there are none)
static std::unordered_map<u64, u64> laststore;
static bool quarantine;
static std::vector<void *> freed;

static void newfile(const std::string &n, std::vector<char> d) { fs[n] = File{d, true}; }
static u64 rd(const void *p) { return *(volatile u64 *)p; }

extern "C" {
int __real_open(const char *, int, int);
int __real_close(int);
int __real_ftruncate(int, long);
void *__real_mmap(void *, size_t, int, int, int, long);
int __real_munmap(void *, size_t);
int __real_fstat(int, struct stat *);
int __wrap_open(const char *n, int fl, int mode)
{
    std::string s = n;
    auto it = fs.find(s);
    if (it == fs.end() && stale)
    {
        // files of an earlier run lie around
        size_t cnt = stale;
        std::vector<char> d(cnt * L.pair);
        for (size_t i = 0; i < cnt; i++) { *(u64 *)&d[i * L.pair + L.key] = i % 3 == 0 ? L.KINIT : (i * 8 + 8); *(u64 *)&d[i * L.pair + L.val] = i % 3 == 0 ? L.VINIT : i % 3 == 1 ? 4096 + i * 8 : L.VTOMB; }
        newfile(s, d); it = fs.find(s);
    }
    if (it == fs.end()) { if (!(fl & O_CREAT)) { errno = ENOENT; return -1; } newfile(s, {}); it = fs.find(s); }
    else if ((fl & O_CREAT) && (fl & O_EXCL)) { errno = EEXIST; return -1; }
    if (fl & O_TRUNC) it->second.data.clear();
    int fd = nextfd++; fds[fd] = s; return fd;
}
int __wrap_close(int fd) { auto i = fds.find(fd); if (i == fds.end()) return -1; fds.erase(i); return 0; }
int __wrap_ftruncate(int fd, long n) { auto i = fds.find(fd); if (i == fds.end()) return -1; fs[i->second].data.resize(n); return 0; }
int __wrap_fstat(int fd, struct stat *s) { auto i = fds.find(fd); if (i == fds.end()) return -1; memset(s, 0, sizeof *s); s->st_size = fs[i->second].data.size(); s->st_mode = S_IFREG | 0600; return 0; }
void *__wrap_mmap(void *a, size_t len, int prot, int fl, int fd, long off)
{
    auto i = fds.find(fd);
    if (i == fds.end()) return MAP_FAILED;
    auto &d = fs[i->second].data;
    size_t pg = (len + 4095) / 4096 * 4096;
    if (!len) return MAP_FAILED;
    Region *r;
    auto &pl = pool[len];
    if (!pl.empty()) { r = pl.back(); pl.pop_back(); if (r->prot) mprotect(r->raw + 4096, pg, PROT_READ | PROT_WRITE); memset(r->base, 0, len); for (auto &x : r->w) { x.pers.clear(); } }
    else
    {
        r = new Region();
        r->rawlen = pg + 8192;
        r->raw = (char *)__real_mmap(nullptr, r->rawlen, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        mprotect(r->raw + 4096, pg, PROT_READ | PROT_WRITE);
        // the end of the mapping is the end of the accessible memory as far as the alignment of a line goes
        r->base = len % 64 == 0 ? r->raw + 4096 + (pg - len) : r->raw + 4096;
        r->w.resize(len / 8);
    }
    r->len = len; r->owner = me; r->dead = r->prot = false; r->shared = false;
    memcpy(r->base, d.data(), std::min(d.size(), len));
    regs.push_back(r);
    note("maps %zu slots", len / L.pair);
    return r->base;
}
int __wrap_munmap(void *p, size_t len)
{
    for (auto r : regs) if (!r->dead && r->base == (char *)p)
    {
        if (len != r->len) found("U12", "a table of %zu bytes is unmapped as %zu bytes", r->len, len);
        if (r->shared) found("U12", "a table that other threads can reach is unmapped");
        r->dead = r->prot = true; mprotect(r->raw, r->rawlen, PROT_NONE); note("unmaps"); return 0;
    }
    errno = EINVAL; return -1;
}
}

// ---- scheduling --------------------------------------------------------------------------------------------------
enum { POL_RANDOM, POL_PCT, POL_STALL };
static int policy; static double pswitch; static std::vector<long> points; static int nextpoint;
static long limit_steps;
static int forced_fair;
static void back() { int m = me; me = -1; vt_switch(&F[m].sp, mainsp); }
static bool want_switch()
{
    Fiber &f = F[me];
    f.steps++; f.opsteps++; total++; clk++;
    if (total > limit_steps) { quitrun = true; return true; }
    if (f.opsteps > 0 && f.opsteps % 1500 == 0) { f.prio = -(int)total; return true; }
    if (policy == POL_RANDOM || forced_fair) return R.p(pswitch);
    if (nextpoint < (int)points.size() && total >= points[nextpoint]) { nextpoint++; if (policy == POL_PCT) f.prio = -(int)total; else f.stalled = true; return true; }
    return policy == POL_STALL ? R.p(pswitch) : false;
}
static inline void yield_point() { if (me < 0 || !concurrent || in_rt) return; if (want_switch()) back(); }

// ---- rules of slots ----------------------------------------------------------------------------------------------
static void touch(Region *r) { if (!r->shared && me != r->owner) r->shared = true; }
static bool flushed(Region *r, u64 a, u64 v) { auto &q = r->word(a).pers; return std::find(q.begin(), q.end(), v & ~D) != q.end(); }
static void publish(Region *r)
{
    if (r->shared) return;
    r->shared = true;
    for (char *p = r->base; p + 8 <= r->base + r->len; p += 8)
    {
        u64 off = (p - r->base) % L.pair;
        u64 w = rd(p);
        if (off == L.key && (w & ~D) != L.KINIT) { found("U11", "a new table starts with key %llu in slot %zu", (unsigned long long)w, size_t(p - r->base) / L.pair); return; }
        if (off == L.val && (w & ~D) != L.VINIT) { found("U11", "a new table starts with value %s in slot %zu", show(w).c_str(), size_t(p - r->base) / L.pair); return; }
        if ((off == L.key || off == L.val) && !(w & D) && !flushed(r, (u64)p, w)) { found("D02", "slot %zu of a new table is neither flushed nor marked dirty", size_t(p - r->base) / L.pair); return; }
    }
    for (char *p = r->base; p + 8 <= r->base + r->len; p += 8) if (!flushed(r, (u64)p, rd(p))) { found("U11", "slot %zu of a new table was not persisted before it is used", size_t(p - r->base) / L.pair); return; }
}
struct Tab { char *t; };
static std::vector<char *> chain()
{
    std::vector<char *> c; 
    return c;
}
static std::vector<char *> promoted;     // tables that have been on top, in order
static std::vector<char *> linked;       // every table published
static void check_write(void *a, u64 o, u64 n, bool cas)
{
    Region *r = region(a);
    if (!r)
    {
        if (gmap && a == (char *)gmap + L.top && o != n)
        {
            char *t = (char *)o, *x = (char *)n;
            if (promoted.empty()) promoted.push_back(t);
            if (promoted.back() == t || true) promoted.push_back(x);
            if (rd(t + L.next) != n) { found("U08", "a table is promoted that is not the successor of the current one"); return; }
            Region *q = region((void *)rd(t + L.pairs));
            u64 len = rd(t + L.len);
            if (q) for (u64 i = 0; i < len; i++) if ((rd(q->base + i * L.pair + L.val) & ~D) != L.TP) { found("U08", "a table is promoted while slot %llu of its predecessor still waits to be migrated", (unsigned long long)i); return; }
            note("promotes a table of %llu slots", (unsigned long long)rd(x + L.len));
        }
        else if (o == 0 && n) for (auto t : linked) if (a == t + L.next)
        {
            char *x = (char *)n;
            u64 l0 = rd(t + L.len), l1 = rd(x + L.len);
            if (l1 <= l0 || (l1 & (l1 - 1))) { found("U08", "a table of %llu slots is succeeded by one of %llu", (unsigned long long)l0, (unsigned long long)l1); return; }
            linked.push_back(x);
            note("publishes a table of %llu slots", (unsigned long long)l1);
            Region *q = region((void *)rd(x + L.pairs));
            if (q) { if (q->len != l1 * L.pair) { found("U12", "a table of %llu slots has room for %zu", (unsigned long long)l1, q->len / L.pair); return; } publish(q); }
            break;
        }
        else if (o && n != o) for (auto t : linked) if (a == t + L.next) { found("U08", "the successor of a table is replaced"); return; }
        return;
    }
    size_t off = ((char *)a - r->base) % L.pair;
    size_t i = ((char *)a - r->base) / L.pair;
    u64 oc = o & ~D, nc = n & ~D;
    if (!r->shared && !cas) return;
    touch(r);
    if (oc != nc) note("%s of slot %zu/%zu: %s -> %s", off == L.key ? "key" : "value", i, r->len / L.pair, show(o).c_str(), show(n).c_str());
    if (oc == nc)
    {
        if ((o & D) && !(n & D) && !flushed(r, (u64)a, o)) { found("D02", "the dirty bit of slot %zu is cleared before its value is persisted", i); return; }
        return;
    }
    if (!(n & D)) { found("D02", "slot %zu is changed without marking it dirty", i); found("U10", "slot %zu is changed without marking it dirty", i); return; }
    if (off == L.key)
    {
        if (oc != L.KINIT) { found("U01", "the key of slot %zu changes from %llu to %llu", i, (unsigned long long)oc, (unsigned long long)nc); return; }
        bool copied = false;
        for (auto q : regs) if (q != r && !q->dead && !copied) for (size_t j = 0; j < q->len / L.pair; j++) if ((rd(q->base + j * L.pair + L.key) & ~D) == nc) { copied = true; break; }
        if (nc != L.KTOMB && concurrent && me >= 0 && nc != F[me].key && !copied) { found("U01", "slot %zu is claimed for a key that is not the operation's", i); return; }
    }
    else if (off == L.val)
    {
        if (oc == L.TP) { found("U03", "slot %zu changes after it was migrated", i); return; }
        if ((oc & MIG) && nc != L.TP) { found("U03", "the frozen value of slot %zu changes to %s", i, show(n).c_str()); return; }
        if (nc == L.VINIT) { found("U03", "the value of slot %zu is set back to the initial one", i); return; }
        if (!(oc & MIG) && (nc & MIG))
        {
            bool ab = oc == L.VINIT || oc == L.VTOMB;
            if (ab ? nc != L.TP : nc != (oc | MIG)) { found("U09", "slot %zu holding %s is frozen as %s", i, show(o).c_str(), show(n).c_str()); return; }
        }
        u64 k = rd(r->base + i * L.pair + L.key) & ~D;
        if (!(nc & MIG) && k == L.KINIT) { found("U01", "a value is placed in slot %zu, which no key claimed", i); return; }
    }
}

// ---- the interface of the instrumented code ----------------------------------------------------------------------
static inline void access_(void *a, bool wr)
{
    if (me < 0 && !concurrent) return;
}
#define MO int
template <class T> static inline bool big() { return sizeof(T) == 8; }
template <class T> static T a_load(const volatile T *a) { yield_point(); T v = *a; if (big<T>()) { Region *r = region((void *)a); if (r) touch(r); } return v; }
template <class T> static void a_store(volatile T *a, T v) { Region *r = region((void *)a); if (!r || r->shared) yield_point(); T o = *a; *a = v; if (big<T>()) { if (r) { if (r->shared) check_write((void *)a, (u64)o, (u64)v, false); } else { laststore[(u64)a] = (u64)v; check_write((void *)a, (u64)o, (u64)v, false); } } }
template <class T> static bool a_cas(volatile T *a, T *e, T n) { yield_point(); T o = *a; if (o == *e) { *a = n; if (big<T>()) check_write((void *)a, (u64)o, (u64)n, true); return true; } *e = o; return false; }
template <class T, class Fn> static T a_rmw(volatile T *a, Fn f) { yield_point(); T o = *a; T n = f(o); *a = n; if (big<T>()) check_write((void *)a, (u64)o, (u64)n, false); return o; }
extern "C" {
#define ATOMICS(N, T) \
T __tsan_atomic##N##_load(const volatile T *a, MO) { return a_load<T>(a); } \
void __tsan_atomic##N##_store(volatile T *a, T v, MO) { a_store<T>(a, v); } \
T __tsan_atomic##N##_exchange(volatile T *a, T v, MO) { return a_rmw<T>(a, [v](T) { return v; }); } \
T __tsan_atomic##N##_fetch_add(volatile T *a, T v, MO) { return a_rmw<T>(a, [v](T o) { return T(o + v); }); } \
T __tsan_atomic##N##_fetch_sub(volatile T *a, T v, MO) { return a_rmw<T>(a, [v](T o) { return T(o - v); }); } \
T __tsan_atomic##N##_fetch_and(volatile T *a, T v, MO) { return a_rmw<T>(a, [v](T o) { return T(o & v); }); } \
T __tsan_atomic##N##_fetch_or(volatile T *a, T v, MO) { return a_rmw<T>(a, [v](T o) { return T(o | v); }); } \
T __tsan_atomic##N##_fetch_xor(volatile T *a, T v, MO) { return a_rmw<T>(a, [v](T o) { return T(o ^ v); }); } \
T __tsan_atomic##N##_fetch_nand(volatile T *a, T v, MO) { return a_rmw<T>(a, [v](T o) { return T(~(o & v)); }); } \
int __tsan_atomic##N##_compare_exchange_strong(volatile T *a, T *e, T n, MO, MO) { return a_cas<T>(a, e, n); } \
int __tsan_atomic##N##_compare_exchange_weak(volatile T *a, T *e, T n, MO, MO) { if (concurrent && me >= 0 && R.p(0.1)) { yield_point(); *e = *a; return 0; } return a_cas<T>(a, e, n); } \
T __tsan_atomic##N##_compare_exchange_val(volatile T *a, T e, T n, MO, MO) { a_cas<T>(a, &e, n); return e; }
ATOMICS(8, uint8_t) ATOMICS(16, uint16_t) ATOMICS(32, uint32_t) ATOMICS(64, uint64_t)
void __tsan_atomic_thread_fence(MO) {}
void __tsan_atomic_signal_fence(MO) {}
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
static void plain(void *a, bool wr, size_t n)
{
    Region *r = region(a);
    if (!r) return;
    if (r->shared || me != r->owner) { touch(r); yield_point(); if (wr) found("U12", "a shared slot is written without an atomic access"); }
}
#define RW(N) void __tsan_read##N(void *a) { plain(a, 0, N); } void __tsan_write##N(void *a) { plain(a, 1, N); } \
  void __tsan_unaligned_read##N(void *a) { plain(a, 0, N); } void __tsan_unaligned_write##N(void *a) { plain(a, 1, N); } \
  void __tsan_read_write##N(void *a) { plain(a, 1, N); } void __tsan_unaligned_read_write##N(void *a) { plain(a, 1, N); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
void __tsan_read_range(void *a, unsigned long n) { plain(a, 0, n); }
void __tsan_write_range(void *a, unsigned long n) { plain(a, 1, n); }
void *__tsan_memcpy(void *d, const void *s, unsigned long n) { return memcpy(d, s, n); }
void *__tsan_memset(void *d, int c, unsigned long n) { return memset(d, c, n); }
void *__tsan_memmove(void *d, const void *s, unsigned long n) { return memmove(d, s, n); }

static std::vector<std::pair<u64, u64>> mainpend;
void vt_flush(const void *p)
{
    u64 line = (u64)p & ~63ull;
    yield_point();
    Region *r = nullptr;
    for (u64 a = line; a < line + 64 && !r; a += 8) r = region((void *)a);
    if (!r) return;
    auto &pend = me >= 0 ? F[me].pend : mainpend;
    // what the line holds now is what the fence will have persisted at least
    for (u64 a = line; a < line + 64; a += 8) if ((char *)a >= r->base && (char *)a < r->base + r->len) pend.push_back({a, rd((void *)a) & ~D});
}
void vt_fence()
{
    auto &pend = me >= 0 ? F[me].pend : mainpend;
    for (auto &x : pend) { Region *r = region((void *)x.first); if (!r) continue; auto &q = r->word(x.first).pers; if (std::find(q.begin(), q.end(), x.second) == q.end()) q.push_back(x.second); }
    pend.clear();
}
void __wrap___assert_fail(const char *e, const char *f, unsigned l, const char *fn)
{
    found("U13", "assertion failed: %s (%s:%u)", e, f, l);
    if (me >= 0) { quitrun = true; back(); }
    printf("GAVEUP assertion\n"); fflush(stdout); _exit(3);
}
}
// memory the code gives back is kept, filled with a pattern no address has
static bool in_run;
void operator delete(void *p) noexcept { if (p && me >= 0 && in_run) { if (!quarantine) { free(p); return; } memset(p, 0xdd, 16); freed.push_back(p); return; } free(p); }
void operator delete(void *p, size_t n) noexcept { if (p && me >= 0 && in_run && n >= 64) { memset(p, 0xdd, n); freed.push_back(p); return; } free(p); }
void *operator new(size_t n) { void *p = malloc(n ? n : 1); if (!p) abort(); return p; }

// ---- oracle ------------------------------------------------------------------------------------------------------
static bool reserved(u64 v) { return v == L.VINIT; }
// what the operation does to a key that has value s (VINIT: none); -> it may have returned o.ret; s becomes the next
static bool apply(const Op &o, u64 &s)
{
    u64 A = L.VINIT;
    switch (o.op)
    {
    case OP_PUT: case OP_UPD: { bool ok = o.ret == s; s = o.a; return ok; }
    case OP_PIA: { bool ok = o.ret == s; if (s == A) s = o.a; return ok; }
    case OP_REM: case OP_AERA: { bool ok = (o.ret != 0) == (s != A); s = A; return ok; }
    case OP_REM2: { bool h = s == o.a; bool ok = (o.ret != 0) == h; if (h) s = A; return ok; }
    case OP_REPL: { bool h = s == o.a; bool ok = (o.ret != 0) == h; if (h) s = o.b; return ok; }
    case OP_INC: case OP_AINC: { bool ok = o.ret == s; s = s == A ? 8 : s + 8; return ok; }
    case OP_GET: return o.ret == s;
    case OP_CONT: case OP_ACON: return (o.ret != 0) == (s != A);
    case OP_AINS: { bool ok = (o.ret != 0) == (s == A); s = o.k; return ok; }
    case OP_AGET: return o.ret == s >> L.bits;
    }
    return true;
}
static bool lin(std::vector<Op> &h)
{
    size_t n = h.size();
    if (n > 60) return true;
    struct St { u64 mask, s; };
    std::set<std::pair<u64, u64>> seenst;
    std::vector<St> st{{0, L.VINIT}};
    while (!st.empty())
    {
        St x = st.back(); st.pop_back();
        if (x.mask == (n == 64 ? ~0ull : (1ull << n) - 1)) return true;
        if (!seenst.insert({x.mask, x.s}).second) continue;
        long first = 1l << 60;
        for (size_t i = 0; i < n; i++) if (!(x.mask >> i & 1)) first = std::min(first, h[i].res);
        for (size_t i = 0; i < n; i++)
        {
            if (x.mask >> i & 1 || h[i].inv > first) continue;
            u64 s = x.s;
            if (apply(h[i], s)) st.push_back({x.mask | 1ull << i, s});
        }
    }
    return false;
}

// ---- one case ----------------------------------------------------------------------------------------------------
static void do_op(Op &o)
{
    o.inv = ++clk;
    if (me >= 0) { F[me].key = o.k; F[me].opsteps = 0; }
    note("calls %s(key %llu, %s, %s)", opn[o.op], (unsigned long long)(o.k >> L.bits), show(o.a).c_str(), show(o.b).c_str());
    o.ret = vm_op(gmap, gad, o.op, o.k, o.a, o.b);
    o.res = ++clk;
    if (verbose) show_op(o);
    hist.push_back(o);
    // values are reported only once they are persistent
    if (o.op == OP_GET || o.op == OP_PUT || o.op == OP_PIA || o.op == OP_INC || o.op == OP_UPD || o.op == OP_AINC || o.op == OP_AGET)
    {
        u64 v = o.op == OP_AGET ? o.ret << L.bits : o.ret;
        if (v != L.VINIT && !(o.op == OP_AGET && o.ret == L.VINIT >> L.bits))
        {
            bool ok = false;
            for (auto r : regs) { if (r->dead) continue; for (size_t i = 0; i < r->len / L.pair && !ok; i++) { char *p = r->base + i * L.pair; if ((rd(p + L.key) & ~D) == o.k && (flushed(r, (u64)(p + L.val), v) || flushed(r, (u64)(p + L.val), v | MIG))) ok = true; } }
            // a value may have moved on to a table that replaced the one it was read from, but both stay mapped
            if (!ok) found("U10", "%s returned %s, which was never persisted", opn[o.op], show(v).c_str());
        }
    }
}
static void fiber_main()
{
    Fiber &f = F[me];
    while (f.cur < f.ops.size()) { f.ops[f.cur].th = me; do_op(f.ops[f.cur]); f.cur++; if (quitrun) break; yield_point(); }
    f.done = true;
    back();
    abort();
}
static void on_signal(int s, siginfo_t *si, void *)
{
    static char b[] = "\n";
    (void)b;
    if (s == SIGALRM) { printf("GAVEUP hang %llu %llu\n", (unsigned long long)run_seed, (unsigned long long)run_idx); fflush(stdout); _exit(3); }
    found("U12", "signal %d: memory outside of the mapped tables is accessed", s);
    printf("GAVEUP signal %d\n", s); fflush(stdout);
    _exit(3);
}
static void *start_fiber(int i)
{
    char *top = F[i].stk + (256 << 10);
    u64 *sp = (u64 *)((u64)top & ~15ull);
    *--sp = 0;                      // alignment
    *--sp = (u64)fiber_main;
    for (int j = 0; j < 6; j++) *--sp = 0;
    return sp;
}
static void cleanup()
{
    for (auto r : regs) pool[r->len].push_back(r);
    regs.clear(); fs.clear(); fds.clear(); laststore.clear(); hist.clear(); promoted.clear(); linked.clear();
    for (void *p : freed) free(p);
    freed.clear();
    mainpend.clear();
    nextfd = 100000;
}
static std::vector<char *> stacks;
static u64 stat_runs, stat_conc, stat_resized, stat_steps, stat_abandoned, stat_ops, stat_lin;
static std::string sample;

static u64 rndval() { static u64 n; (void)n; return (R.below(4) == 0 ? R.below(6) : 100 + R.below(100000)) << 3; }
static Op gen(u64 key, const std::vector<u64> &vals, bool reads)
{
    Op o; memset(&o, 0, sizeof o);
    static const int w[] = {OP_PUT, OP_PUT, OP_PUT, OP_PIA, OP_REM, OP_REM, OP_REM2, OP_REPL, OP_INC, OP_INC, OP_UPD, OP_GET, OP_GET, OP_CONT, OP_AINS, OP_AERA, OP_ACON, OP_AGET, OP_AINC};
    o.op = w[R.below(sizeof w / sizeof *w)];
    o.k = key;
    o.a = vals[R.below(vals.size())]; o.b = vals[R.below(vals.size())];
    while (o.b == o.a) o.b = rndval();
    if (o.op == OP_INC) o.a = L.MANY;
    return o;
}
static void case_(u64 seed, u64 idx)
{
    run_seed = seed; run_idx = idx;
    R.s = seed * 1000003 + idx * 7919 + 12345;
    for (int i = 0; i < 4; i++) R.next();
    cleanup();
    F.clear(); clk = 0; total = 0; quitrun = false; concurrent = false; me = -1; found_it = false;
    stat_runs++;
    stale = R.p(0.25) ? (int)(8 << R.below(3)) : 0;
    u64 cap = 8 << (R.p(0.3) ? R.below(3) : 0);
    bool seq = R.p(0.15);
    in_run = true; quarantine = false;
    // opening the map
    gmap = nullptr;
    u64 st = total;
    gad = nullptr;
    {
        void *m = vm_new(cap);
        gmap = m;
        char *top = (char *)rd((char *)gmap + L.top);
        linked.push_back(top); promoted.push_back(top);
        if (rd(top + L.len) != cap) found("U11", "a map of %llu slots starts with %llu", (unsigned long long)cap, (unsigned long long)rd(top + L.len));
        if (rd(top + L.size) != 0) found("U11", "a new map counts %llu entries", (unsigned long long)rd(top + L.size));
        Region *q = region((void *)rd(top + L.pairs));
        if (q) publish(q);
        for (auto r : regs) r->shared = true;
        size_t nreg = regs.size();
        gad = vm_adapter(gmap);
        (void)nreg; (void)st;
    }
    // keys that collide
    std::vector<u64> keys;
    bool grow = !seq && R.p(0.6);       // the table is nearly full, and grows while the threads run
    u64 spread = R.p(0.4) ? 1 : R.p(0.6) ? 2 + 2 * R.below(4) : 64;
    u64 nk = grow ? cap + R.below(cap / 2 + 1) - (R.p(0.2) ? 1 : 0) : 1 + R.below(seq ? 40 : 14);
    for (u64 i = 0; i < nk; i++) { u64 k = (R.p(0.1) ? R.next() >> 8 : (i * spread + (spread > 2 || R.p(0.1) ? R.below(2) * (R.p(0.3)) : 0))) << 3; if (k != L.KINIT && k != L.KTOMB && !(k & 7) && std::find(keys.begin(), keys.end(), k) == keys.end()) keys.push_back(k); }
    if (keys.empty()) keys.push_back(8);
    std::vector<u64> vals;
    for (u64 i = 0; i < 1 + R.below(5); i++) vals.push_back(rndval());
    int nth = seq ? 0 : 2 + (R.p(0.5) ? 1 : 0) + (R.p(0.25) ? 1 : 0);
    // fill
    u64 fill = R.p(0.2) ? 0 : R.p(0.6) ? cap : R.below(cap + 6);
    if (seq) fill = 20 + R.below(60);
    long conc0 = 0;
    if (grow) fill = keys.size() + R.below(4);
    for (u64 i = 0; i < fill; i++)
    {
        Op o = gen(keys[R.p(0.7) ? i % keys.size() : R.below(keys.size())], vals, true);
        if (grow && i < keys.size()) { o.k = keys[i]; o.op = OP_PUT; o.a = rndval(); }
        else if (!seq && R.p(0.75)) { o.op = OP_PUT; o.a = rndval(); }
        if (o.op == OP_INC) o.a = L.MANY;
        o.th = -1;
        do_op(o);
    }
    size_t tabs0 = linked.size();
    // threads
    if (nth)
    {
        stat_conc++;
        u64 hot = 1 + R.below(3);
        std::vector<u64> hk;
        for (u64 i = 0; i < hot; i++) hk.push_back(keys[R.below(keys.size())]);
        if (R.p(0.7)) { u64 fresh = (1000 + R.below(50)) << 3; hk.push_back(fresh); }
        F.resize(nth);
        while ((int)stacks.size() < nth) stacks.push_back((char *)__real_mmap(nullptr, 256 << 10, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        bool incs = R.p(0.15), deep = R.p(0.2);
        for (int i = 0; i < nth; i++)
        {
            Fiber &f = F[i];
            f.stk = stacks[i]; f.done = false; f.steps = f.opsteps = 0; f.stalled = false; f.cur = 0; f.prio = (int)R.below(1000) + 1; f.key = 0;
            u64 n = 1 + R.below(4);
            if (deep) n = i ? 3 + R.below(7) : 1;
            for (u64 j = 0; j < n; j++)
            {
                Op o = gen(R.p(deep ? 0.45 : 0.15) ? (2000 + i * 100 + j * 2) << 3 : hk[R.below(hk.size())], vals, true);
                if (deep) { if (o.k >= 16000) { o.op = OP_PUT; o.a = rndval(); } else if (R.p(0.4)) o.op = OP_REM; else if (R.p(0.5)) o.op = OP_GET; }
                if (incs) { o.op = R.p(0.8) ? OP_INC : OP_GET; o.a = L.MANY; }
                if (R.p(0.3) && o.op != OP_INC) o.a = rndval();
                f.ops.push_back(o);
            }
            f.sp = start_fiber(i);
        }
        policy = (int)R.below(3);
        pswitch = policy == POL_RANDOM ? (R.p(0.5) ? 0.3 : 0.05) : R.p(0.5) ? 0.0 : 0.02;
        points.clear(); nextpoint = 0;
        long est = 100 << R.below(6);
        u64 np = 1 + R.below(4);
        for (u64 i = 0; i < np; i++) points.push_back(1 + R.below(est));
        std::sort(points.begin(), points.end());
        limit_steps = 60000; forced_fair = 0;
        concurrent = true;
        conc0 = clk;
        int cur = -1;
        while (true)
        {
            if (quitrun) break;
            std::vector<int> run;
            for (int i = 0; i < nth; i++) if (!F[i].done && !F[i].stalled) run.push_back(i);
            if (run.empty())
            {
                for (int i = 0; i < nth; i++) if (!F[i].done && F[i].stalled) run.push_back(i);
                if (run.empty()) break;
                int w = run[R.below(run.size())];
                F[w].stalled = false;
                continue;
            }
            // a thread others wait for cannot be stalled for ever
            if (total > 20000) { for (auto &f : F) f.stalled = false; forced_fair = 1; pswitch = 0.05; }
            else if (total > 4000 && policy == POL_STALL && R.p(0.02)) for (auto &f : F) f.stalled = false;
            int n;
            if (policy == POL_PCT && !forced_fair) { n = run[0]; for (int i : run) if (F[i].prio > F[n].prio) n = i; }
            else n = run[R.below(run.size())];
            (void)cur; cur = n;
            me = n;
            vt_switch(&mainsp, F[n].sp);
            me = -1;
        }
        concurrent = false;
        stat_steps += total;
        if (quitrun) { stat_abandoned++; F.clear(); return; }
    }
    F.clear();
    if (linked.size() > tabs0) stat_resized++;
    me = -1;
    // afterwards, the map is what the history left
    std::vector<u64> all;
    for (auto &o : hist) if (std::find(all.begin(), all.end(), o.k) == all.end()) all.push_back(o.k);
    Op sz; memset(&sz, 0, sizeof sz); sz.th = -1; sz.op = R.p(0.5) ? OP_SIZE : OP_ACNT;
    sz.inv = ++clk; sz.ret = vm_op(gmap, gad, sz.op, 0, 0, 0); sz.res = ++clk;
    u64 tsize = 0, present = 0;
    bool aes = vm_op(gmap, gad, OP_EMPTY, 0, 0, 0);
    for (auto t : linked) tsize += rd(t + L.size) - laststore[(u64)(t + L.size)];
    char *topt = (char *)rd((char *)gmap + L.top);
    if (R.p(0.5)) std::reverse(all.begin(), all.end());
    for (u64 k : all) { Op o; memset(&o, 0, sizeof o); o.op = OP_GET; o.k = k; o.th = -1; do_op(o); if (o.ret != L.VINIT) present++; }
    stat_ops += hist.size();
    for (u64 k : all)
    {
        std::vector<Op> h;
        for (auto &o : hist) if (o.k == k) h.push_back(o);
        stat_lin++;
        if (!lin(h)) { bool inc = false; for (auto &o : h) inc |= o.op == OP_INC || o.op == OP_AINC; if (inc) found("LININC", "no order of the operations on key %llu explains what they returned", (unsigned long long)(k >> L.bits)); found("LIN", "no order of the operations on key %llu explains what they returned", (unsigned long long)(k >> L.bits)); }
    }
    if (aes != (sz.ret == 0)) found("U07", "isEmpty() is %d with size %llu", (int)aes, (unsigned long long)sz.ret);
    if (tsize != present) found("U07", "the tables counted a change of %llu entries, but there are %llu", (unsigned long long)tsize, (unsigned long long)present);
    if (sz.ret != present) found("U07", "size() is %llu, but there are %llu entries", (unsigned long long)sz.ret, (unsigned long long)present);
    // no table holds a key twice
    for (auto r : regs)
    {
        if (r->dead) continue;
        std::set<u64> ks;
        for (size_t i = 0; i < r->len / L.pair; i++) { u64 k = rd(r->base + i * L.pair + L.key) & ~D; if (k == L.KINIT || k == L.KTOMB) continue; if (!ks.insert(k).second) found("U02", "key %llu has two slots in a table of %zu", (unsigned long long)(k >> L.bits), r->len / L.pair); }
    }
    for (size_t i = 0; i + 1 < linked.size(); i++)
    {
        // everything before the current table is migrated
        if (linked[i] == topt) break;
        Region *q = region((void *)rd(linked[i] + L.pairs));
        u64 len = rd(linked[i] + L.len);
        if (q) for (u64 j = 0; j < len; j++) if ((rd(q->base + j * L.pair + L.val) & ~D) != L.TP) { found("U08", "slot %llu of a replaced table was not migrated", (unsigned long long)j); break; }
    }
    if (sample.empty() && nth && linked.size() > 1)
    {
        char b[200];
        for (auto &o : hist) if (o.inv > conc0 && o.th >= 0) { snprintf(b, 200, "T%d [%ld,%ld] %s(%llu)->%s; ", o.th, o.inv, o.res, opn[o.op], (unsigned long long)(o.k >> L.bits), show(o.ret).c_str()); sample += b; }
    }
    in_run = false;
}
// ---- mapping an existing file (recovery) ---------------------------------------------------------------------------
static void case_file(u64 seed, u64 idx)
{
    run_seed = seed; run_idx = idx;
    R.s = seed * 1000003 + idx * 7919 + 54321;
    for (int i = 0; i < 4; i++) R.next();
    cleanup(); F.clear(); concurrent = false; me = -1; clk = 0; stale = 0; gmap = nullptr; found_it = false;
    size_t n = 8 << R.below(5);
    std::vector<char> d(n * L.pair);
    std::vector<u64> K(n), V(n);
    u64 live = 0, avail = 0, inc = 0;
    for (size_t i = 0; i < n; i++)
    {
        u64 k = R.p(0.4) ? L.KINIT : R.p(0.1) ? L.KTOMB : (i + 1) * 8, v = L.VINIT;
        if (k == L.KTOMB) v = R.p(0.5) ? L.TP : L.VINIT;
        else if (k != L.KINIT) v = R.p(0.15) ? L.VINIT : R.p(0.2) ? L.VTOMB : R.p(0.2) ? L.TP : R.p(0.2) ? (rndval() | MIG) : rndval();
        K[i] = k; V[i] = v;
        if (k != L.KINIT && v == L.VINIT) { v = L.VTOMB; V[i] = v; inc++; *(u64 *)&d[i * L.pair + L.val] = L.VINIT | (R.p(0.5) ? D : 0); }
        else *(u64 *)&d[i * L.pair + L.val] = v | (R.p(0.5) ? D : 0);
        *(u64 *)&d[i * L.pair + L.key] = k | (R.p(0.5) ? D : 0);
        if (v != L.VINIT && v != L.VTOMB && v != L.TP) live++;
        else if (v == L.VINIT) avail++;
    }
    newfile("/x/y/7.dat", d);
    char *t = (char *)vm_map(0, 8, R.below(5), "/x/y/7.dat");
    stat_runs++;
    Region *q = regs.empty() ? nullptr : regs.back();
    if (!q || rd(t + L.len) != n) { found("U11", "a file of %zu slots was mapped as %llu", n, (unsigned long long)rd(t + L.len)); return; }
    for (size_t i = 0; i < n; i++)
    {
        if ((rd(q->base + i * L.pair + L.key) & ~D) != K[i]) { found("U11", "mapping a file changed the key of slot %zu", i); return; }
        if ((rd(q->base + i * L.pair + L.val) & ~D) != V[i]) { found("U11", "mapping a file left %s in slot %zu, not %s", show(rd(q->base + i * L.pair + L.val)).c_str(), i, show(V[i]).c_str()); return; }
    }
    if (rd(t + L.size) != live) found("U11", "mapping a file with %llu values counted %llu", (unsigned long long)live, (unsigned long long)rd(t + L.size));
    if (rd(t + L.next)) found("U11", "a mapped table already has a successor");
    if (!vm_unmap(t)) found("U12", "unmapping a table fails");
}

int main(int argc, char **argv)
{
    setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
    vm_layout(&L);
    static char alt[1 << 16];
    stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGALRM}) sigaction(s, &sa, nullptr);
    if (argc < 4) return 3;
    u64 seed = strtoull(argv[2], nullptr, 10);
    if (!strcmp(argv[1], "replay"))
    {
        u64 idx = strtoull(argv[3], nullptr, 10);
        for (int i = 4; i < argc; i++) if (!strcmp(argv[i], "-v")) verbose = true; else wanted = argv[i];
        alarm(20);
        if (idx % 50 == 49) case_file(seed, idx); else case_(seed, idx);
        printf("not reproduced\n"); fflush(stdout);
        return 0;
    }
    double secs = atof(argv[3]);
    if (argc > 4) wanted = argv[4];
    u64 cnt = argc > 5 ? strtoull(argv[5], nullptr, 10) : ~0ull;
    struct timespec t0, t; clock_gettime(CLOCK_MONOTONIC, &t0);
    for (u64 i = 0; i < cnt; i++)
    {
        if (i % 16 == 0) { clock_gettime(CLOCK_MONOTONIC, &t); if (t.tv_sec - t0.tv_sec + (t.tv_nsec - t0.tv_nsec) * 1e-9 > secs) break; alarm(20); }
        if (i % 50 == 49) case_file(seed, i); else case_(seed, i);
    }
    printf("NONE runs=%llu concurrent=%llu resized=%llu steps=%llu abandoned=%llu ops=%llu histories=%llu\n", (unsigned long long)stat_runs, (unsigned long long)stat_conc, (unsigned long long)stat_resized, (unsigned long long)stat_steps, (unsigned long long)stat_abandoned, (unsigned long long)stat_ops, (unsigned long long)stat_lin);
    printf("SAMPLE %s\n", sample.substr(0, 800).c_str());
    fflush(stdout);
    _exit(0);
}
