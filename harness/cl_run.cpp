// Runs the clevel map of /repo, unmodified, with every single preemption of one operation by a few others (the accesses of
// the interrupted operation are counted by the hooks of cl_hooks.cpp) and checks results, contents, structure and what has
// been written back:  cl_run <seed> <seconds> [tags]   exit 1: a line FOUND <details>; exit 0: none found
// Histories that the map is known not to handle (see DESIGN.md, limits of the clevel map) are not generated.
#include <chrono>
#include <iostream>
#include <fstream>
#include <sstream>
#include <cassert>
#include <string>
#include <cstring>
#include <vector>
#include <algorithm>
#include <cstddef>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <set>
#include <atomic>
#include <thread>
#include <filesystem>
#include <unistd.h>
#include <sys/stat.h>
#include "define.hpp"
#include "levelMap.hpp"
TestOptions::TestOptions() {}
typedef uint64_t u64;
using pmem::obj::p;
struct H { size_t operator()(const p<u64> &k) const { u64 x = k.get_ro(); return (x & 0xff) | ((x >> 8 & 0xffff) << 48); } };
struct EQ { bool operator()(const p<u64> &a, const p<u64> &b) const { return a.get_ro() == b.get_ro(); } };
using M = pmem::obj::experimental::clevel_hash<p<u64>, p<u64>, H, EQ, 2>;
struct root { pmem::obj::persistent_ptr<M> m; };
static char dir[256];
static FILE *OUT;
static pmem::obj::pool<root> pop;
extern "C" { extern bool vt_armed; extern char *vt_base; extern u64 vt_size; }
#define armed vt_armed
#define base vt_base
#define psize vt_size
 static std::vector<char> shadow;
static M *m;
static volatile bool starting; static bool partial;
static std::set<u64> freed; static u64 hi;
static void made(u64 o, u64 n) { freed.erase(o); hi = std::max(hi, o + n); }
static u64 count, target;
struct Op { char c; u64 k, v; };
static Op cur; static std::vector<Op> setup_, inner; static std::vector<u64> inner_res; static bool fired;
static std::string where;
static std::string str(const Op &o) { char b[64]; if (strchr("RrG", o.c)) snprintf(b, 64, o.c == 'R' ? "drain" : o.c == 'r' ? "drain-one-bucket" : "grow"); else snprintf(b, 64, "%s(%#llx)", o.c == 'I' ? "insert" : o.c == 'E' ? "erase" : o.c == 'S' ? "search" : "update", (unsigned long long)o.k); return b; }
static void cleanup() { if (dir[0]) { std::error_code e; std::filesystem::remove_all(dir, e); } }
static const char *TAGS = "";
static void found(const char *tag, const std::string &s)
{
    if (*TAGS && !strstr(TAGS, tag)) return;
    armed = false;
    fprintf(OUT, "FOUND %s %s: ", tag, s.c_str());
    for (auto &o : setup_) fprintf(OUT, "%s; ", str(o).c_str());
    fprintf(OUT, "then %s interrupted at its access %llu by", str(cur).c_str(), (unsigned long long)target);
    for (size_t i = 0; i < inner.size(); i++) fprintf(OUT, " %s%s", str(inner[i]).c_str(), i < inner_res.size() ? inner_res[i] ? "=1" : "=0" : "");
    fprintf(OUT, "\n"); fflush(OUT);
    cleanup(); _exit(1);
}
static void on_sig(int s) { found(*TAGS ? TAGS : "C01", s == SIGALRM ? "an operation does not end" : "signal " + std::to_string(s)); fflush(OUT); cleanup(); _exit(*TAGS ? 0 : 1); }
static u64 shad(const void *q) { u64 o = (char *)q - base, w; memcpy(&w, &shadow[o], 8); return w; }
static M::level_meta *meta_of(u64 off) { return (M::level_meta *)(base + off); }
static M::level_bucket *lev(u64 off) { return (M::level_bucket *)(base + off); }
static std::vector<M::level_bucket *> chain(u64 meta)
{
    std::vector<M::level_bucket *> r; auto *mm = meta_of(meta);
    for (u64 l = mm->last_level.off;; l = lev(l)->up.off) { if (!l) { found("C03", "the chain of levels is broken"); break; } r.push_back(lev(l)); if (l == mm->first_level.off) break; if (r.size() > 40) { found("C03", "the chain of levels is broken"); break; } }
    return r;
}
static const u64 OFF = (1ull << 48) - 1;
static u64 key_at(u64 w) { return ((M::value_type *)(base + (w & OFF)))->first.get_ro(); }
static void each(u64 meta, auto f) { for (auto *l : chain(meta)) for (u64 b = 0; b < l->capacity.get_ro(); b++) for (int j = 0; j < 8; j++) if (f(l, b, j, &l->buckets[b].slots[j].p.off)) return; }
static std::set<u64> steady;        // keys that are in the map and that no running operation removes
static void crash_check()
{
    u64 ms[2] = {m->meta.off, shad(&m->meta.off)};
    for (u64 k : steady) for (u64 mm : ms)
    {
        bool ok = false;
        each(mm, [&](auto *l, u64 b, int j, u64 *s) { u64 w = *s; return ok = (w & OFF) && shad(s) == w && key_at(w) == k; });
        if (!ok) found("C04", "an entry is not in the written-back levels");
    }
}
u64 run_op(const Op &, int);
extern "C" void vt_hit()
{
    if (pmemobj_tx_stage() != TX_STAGE_NONE) return;
    if (count++ == target && !fired)
    {
        fired = true;
        for (auto &o : inner) inner_res.push_back(run_op(o, 2));
    }
    if (cur.c == 'R') crash_check();
    if (count > 2000000) { found(*TAGS ? TAGS : "C01", "an operation does not end"); _exit(1); }
}
extern "C" {
void __real_pmemobj_persist(PMEMobjpool *, const void *, size_t);
void __wrap_pmemobj_persist(PMEMobjpool *P, const void *a, size_t n) { bool w = armed; armed = false; if (w && cur.c == 'R') crash_check(); if (base && (char *)a >= base && (char *)a + n <= base + psize) memcpy(&shadow[(char *)a - base], a, n); if (partial && base && a == (void *)&m->expand_bucket) m->run_expand_thread.get_rw().store(false); armed = w; }
void __real_pmemobj_free(PMEMoid *);
void __wrap_pmemobj_free(PMEMoid *o)
{
    bool w = armed; armed = false;
    u64 f = o->off;
    if (f && !freed.insert(f).second) found("C02", "an object is freed twice");
    __real_pmemobj_free(o); armed = w;
}
int __real_pmemobj_alloc(PMEMobjpool *, PMEMoid *, size_t, u64, pmemobj_constr, void *);
int __wrap_pmemobj_alloc(PMEMobjpool *P, PMEMoid *o, size_t n, u64 t, pmemobj_constr c, void *a) { bool w = armed; armed = false; int r = __real_pmemobj_alloc(P, o, n, t, c, a); if (!r && o) made(o->off, n); armed = w; return r; }
int __real_pmemobj_xalloc(PMEMobjpool *, PMEMoid *, size_t, u64, u64, pmemobj_constr, void *);
int __wrap_pmemobj_xalloc(PMEMobjpool *P, PMEMoid *o, size_t n, u64 t, u64 f, pmemobj_constr c, void *a) { bool w = armed; armed = false; int r = __real_pmemobj_xalloc(P, o, n, t, f, c, a); if (!r && o) made(o->off, n); armed = w; return r; }
PMEMoid __real_pmemobj_tx_xalloc(size_t, u64, u64);
PMEMoid __wrap_pmemobj_tx_xalloc(size_t n, u64 t, u64 f) { bool w = armed; armed = false; PMEMoid r = __real_pmemobj_tx_xalloc(n, t, f); made(r.off, n); armed = w; return r; }
int __wrap_usleep(useconds_t) { if (starting) sched_yield(); else m->run_expand_thread.get_rw().store(false); return 0; }
}
__attribute__((noinline)) u64 run_op(const Op &o, int tid)
{
    pmem::obj::pool_base pb = pop;
    M::ret r;
    switch (o.c)
    {
    case 'I': return !m->insert(M::value_type(o.k, o.v), tid, 0).found;
    case 'E': return m->erase(p<u64>(o.k), tid).found;
    case 'U': return m->update(M::value_type(o.k, o.v), tid).found;
    case 'S': return m->search(p<u64>(o.k)).found;
    case 'G': m->expand(pb, tid, m->meta); return 0;
    case 'r': partial = true; m->run_expand_thread.get_rw().store(true); m->resize(); partial = false; return 0;
    case 'R': m->run_expand_thread.get_rw().store(true); m->resize(); return 0;
    }
    return 0;
}
typedef std::map<u64, u64> Ref;
static u64 spec(Ref &s, const Op &o)
{
    bool in = s.count(o.k);
    switch (o.c)
    {
    case 'I': if (!in) s[o.k] = o.v; return !in;
    case 'E': s.erase(o.k); return in;
    case 'U': if (in) s[o.k] = o.v; return in;
    case 'S': return in;
    }
    return 0;
}
static void pool()
{
    if (base) { pop.close(); unlink((std::string(dir) + "/file").c_str()); base = nullptr; }
    pop = pmem::obj::pool<root>::create(std::string(dir) + "/file", "cl", PMEMOBJ_MIN_POOL * 2, S_IWUSR | S_IRUSR);
    psize = PMEMOBJ_MIN_POOL * 2; freed.clear(); hi = 5 << 20;
}
static void fresh()
{
    base = nullptr; starting = true;
    pmem::obj::transaction::run(pop, [&] { pop.root()->m = pmem::obj::make_persistent<M>(); pop.root()->m->set_thread_num(4); });
    m = pop.root()->m.get();
    m->run_expand_thread.get_rw().store(false);
    if (m->expand_thread.joinable()) m->expand_thread.join();
    starting = false;
    base = (char *)pop.handle();
    shadow.resize(psize);
    memcpy(&shadow[0], base, std::min(psize, hi + 65536));
}
static void settle(const char *when)
{   // nothing runs: what was changed must have been written back, and the entries must be where they belong
    u64 meta = m->meta.off;
    if (shad(&m->meta.off) != meta) found("C04", std::string("the meta word is not written back ") + when);
    if (shad(&m->expand_bucket) != (u64)m->expand_bucket.get_ro()) found("C04", std::string("the drain position is not written back ") + when);
    auto c = chain(meta);
    for (size_t i = 0; i < c.size(); i++)
    {
        if (i && c[i]->capacity.get_ro() != 2 * c[i - 1]->capacity.get_ro()) found("C03", "a level does not have twice the buckets of the one below it");
        if (shad(&c[i]->capacity) != c[i]->capacity.get_ro()) found("C04", "the capacity of a level is not written back");
        if (i && shad(&c[i - 1]->up.off) != c[i - 1]->up.off) found("C04", "the link to a level is not written back");
    }
    if (c.size() < 2) found("C03", "fewer than two levels are left");
    if (c.size() > 2 && !meta_of(meta)->is_resizing.get_ro()) found("C03", "more than two levels are left but no draining is under way");
    each(meta, [&](auto *l, u64 b, int j, u64 *s) {
        u64 w = *s;
        if (shad(s) != w)
        {   // an insert that has to be repeated leaves its first slot as it is
            bool twice = false;
            if (!shad(s)) each(meta, [&](auto *, u64, int, u64 *s2) { return twice = s2 != s && *s2 == w && shad(s2) == w; });
            if (!twice) found("C04", std::string("a changed slot is not written back ") + when);
        }
        if (!(w & OFF)) return false;
        if (freed.count(w & OFF)) { char z[200]; snprintf(z, 200, "a slot refers to an entry that was freed (key %#llx word %#llx level %llu bucket %llu slot %d)", (unsigned long long)key_at(w), (unsigned long long)w, (unsigned long long)l->capacity.get_ro(), (unsigned long long)b, j); found("C02", z); }
        u64 h = H{}(p<u64>(key_at(w))), n = l->capacity.get_ro(); uint16_t t = h >> 48;
        u64 f = h % (n / 2), g = (f ^ (u64)(((uint16_t)((t >> 1 << 1) + 1)) * 0xc6a4a7935bd1e995ull)) % (n / 2) + n / 2;
        if (w >> 48 != t) found("C02", "an entry has another tag than that of its key");
        if (b != f && b != g) found("C02", "an entry is in a bucket its key does not belong to");
        return false;
    });
}
struct Rng { u64 s; u64 next() { s += 0x9e3779b97f4a7c15ull; u64 z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); } u64 below(u64 n) { return next() % n; } };
int main(int argc, char **argv)
{
    OUT = fdopen(dup(1), "w");
    freopen("/dev/null", "w", stdout);
    std::cout.setstate(std::ios::failbit);
    u64 seed = strtoull(argv[1], nullptr, 10);
    double secs = atof(argv[2]);
    if (argc > 3) TAGS = argv[3];
    char cwd[200];
    if (!getcwd(cwd, sizeof cwd)) return 3;
    snprintf(dir, sizeof dir, "%s/cl_run_XXXXXX", cwd);
    if (!mkdtemp(dir)) return 3;
    setenv("PMEM_IS_PMEM_FORCE", "1", 1);
    for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGALRM}) signal(s, on_sig);
    auto t0 = std::chrono::steady_clock::now();
    auto left = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < secs; };
    pool();
    u64 runs = 0, scen = 0;
    Rng R{seed};
    while (left())
    {
        // a scenario
        std::vector<u64> uni;
        u64 tags[3] = {R.below(2) ? R.below(4) : R.below(65536), R.below(65536), 0};
        for (u64 i = 0, n = 3 + R.below(5); i < n; i++) { u64 k = R.below(8) | tags[R.below(3)] << 8 | R.below(3) << 24; if (std::find(uni.begin(), uni.end(), k) == uni.end()) uni.push_back(k); }
        auto key = [&] { return uni[R.below(uni.size())]; };
        u64 val = 1;
        setup_.clear(); inner.clear();
        int fill = R.below(5);
        if (fill) for (u64 i = 0, n = fill == 1 ? 8 : fill == 2 ? 16 : fill == 3 ? R.below(12) : R.below(30); i < n; i++) setup_.push_back({'I', (1000 + i) << 24 | (R.below(2) ? uni[0] & 0xff : R.below(3)) | (R.below(3) ? uni[0] & 0xffff00 : R.below(65536) << 8), val++});
        std::vector<u64> all = uni; for (auto &o : setup_) all.push_back(o.k);
        if (all.size() > uni.size()) for (u64 i = 0, n = R.below(5); i < n; i++) setup_.push_back({'E', all[uni.size() + R.below(all.size() - uni.size())], 0});
        for (u64 i = 0, n = R.below(8); i < n; i++) { u64 c = R.below(10); setup_.push_back({c < 5 ? 'I' : c < 7 ? 'E' : c == 7 ? 'U' : c == 8 ? 'G' : R.below(2) ? 'R' : 'r', key(), val++}); }
        int grows = 0; for (auto &o : setup_) grows += o.c == 'G';
        u64 k = key();
        if (R.below(2)) { k = uni[0]; if (R.below(2)) setup_.push_back({'I', k, val++}); }
        bool in = false; for (auto &o : setup_) if (o.k == k) in = o.c == 'I' ? true : o.c == 'E' ? false : in;
        cur = {"SEUIRGSEUI"[R.below(10)], k, val++};
        auto k2 = [&] { return R.below(3) ? k : key(); };
        bool i_seen = false, g_seen = false, x_seen = false, r_seen = false;
        const char *kinds[] = {"SEUIRGr", "SEUI", "GR", "Gr", "GRr"};
        const char *ks = kinds[R.below(5)];
        int seq = ks[0] == 'G' ? strlen(ks) : 0;
        for (u64 i = 0, n = seq ? seq : 1 + R.below(3); i < n; i++)
        {
            Op o{seq ? ks[i] : ks[R.below(strlen(ks))], k2(), val++};
            bool isr = o.c == 'R' || o.c == 'r', full = isr && !(o.c == 'r');
            if (isr && cur.c == 'R') continue;
            if (cur.c == 'R' && (o.c == 'E' || o.c == 'U')) continue;
            if (cur.c == 'I' && !(in && !x_seen))
            {   // inserts do not survive that their level is drained and dropped at once, nor report duplicates of racing inserts
                if ((full || o.c == 'G') && (r_seen || g_seen || i_seen)) continue;
                if (o.c == 'r' && (r_seen || i_seen || grows)) continue;
                if (o.c == 'I' && (r_seen || g_seen || x_seen)) continue;
                if (o.c == 'E' && (i_seen || r_seen || g_seen)) continue;
            }
            if (cur.c == 'I' && in && o.c == 'E' && (i_seen || r_seen || g_seen)) continue;
            if (cur.c == 'E' && o.c == 'I' && o.k == k) continue;
            if (cur.c == 'U' && ((o.c == 'E' && (r_seen || g_seen || i_seen)) || ((o.c == 'G' || isr || o.c == 'I') && x_seen))) continue; // the insert may grow the map
            if ((o.c == 'G' || isr) && grows + g_seen > 2) continue;
            if (o.c == 'I') i_seen = true;
            if (o.c == 'G') g_seen = true;
            if (isr) r_seen = true;
            if (o.c == 'E') x_seen = true;
            inner.push_back(o);
        }
        if (inner.empty()) continue;
        scen++;
        for (target = 0; left(); target += target ? 1 + R.below(4) : 1)
        {
            if (runs % 150 == 149) pool();
            runs++;
            alarm(20);
            fresh(); fired = false; inner_res.clear(); armed = false;
            Ref s; bool bad = false;
            auto keep = inner; auto full = cur;
            for (size_t i = 0; i < setup_.size(); i++)
            {
                u64 r = run_op(setup_[i], 1), e = spec(s, setup_[i]);
                if (r != e) { cur = setup_[i]; setup_.resize(i); found("C01", "the operation reports wrongly"); }
                if (target == 0) settle("after an operation of the setup");
            }
            steady.clear();
            if (cur.c == 'R') { for (auto &x : s) steady.insert(x.first); for (auto &o : inner) if (o.c == 'E' || o.c == 'U') steady.erase(o.k); }
            armed = true; count = 0;
            u64 r = run_op(cur, cur.c == 'R' ? 0 : 1);
            armed = false;
            if (fired || target == 0) settle("after the interrupted operation");
            if (fired)
            {
                // search everything, then look at the contents once more after the levels were drained
                bool ok = false; std::string why;
                std::vector<std::pair<bool, u64>> have;
                auto look = [&] { std::vector<std::pair<bool, u64>> h; for (auto &x : all) { auto q = m->search(p<u64>(x)); u64 v = 0; if (q.found) v = ((M::value_type *)(base + (chain(m->meta.off).at(q.level_idx)->buckets[q.bucket_idx].slots[q.slot_idx].p.off & OFF)))->second.get_ro(); h.push_back({q.found, v}); } return h; };
                have = look();
                run_op({'R', 0, 0}, 0);
                auto have2 = look();
                bool vals = true; for (auto &o : inner) if (o.c == 'I' && cur.c == 'I' && o.k == cur.k) vals = false;
                for (size_t pos = 0; pos <= inner.size() && !ok; pos++)
                {
                    Ref t = s; bool good = true;
                    for (size_t i = 0; i <= inner.size() && good; i++)
                    {
                        if (i == pos && spec(t, cur) != r) good = false;
                        if (i < inner.size() && spec(t, inner[i]) != inner_res[i]) good = false;
                    }
                    for (size_t i = 0; i < all.size() && good; i++)
                        for (auto *h : {&have, &have2}) if ((*h)[i].first != (bool)t.count(all[i]) || (vals && (*h)[i].first && (*h)[i].second != t[all[i]])) good = false;
                    ok = good;
                }
                if (!ok) { found("C01", std::string("the reports and the contents fit no order of the operations (the interrupted one reported ") + (r ? "1)" : "0)")); }
                if (target % 4 == 0) settle("after draining");
            }
            else break;
        }
    }
    fprintf(OUT, "runs=%llu scenarios=%llu\n", (unsigned long long)runs, (unsigned long long)scen); fflush(OUT);
    cleanup();
    _exit(0);
}
