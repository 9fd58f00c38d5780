// Runs one container adapter of /repo against a reference map: adapter_run <seed> <seconds>
// exit 1: a line FOUND <details>; exit 0: none found
#include <chrono>
#include <iostream>
#include <fstream>
#include <sstream>
#include <cassert>
#include <string>
#include <cstring>
#include <vector>
#include <algorithm>
#include <cstddef>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <set>
#include <atomic>
#include <thread>
#include <filesystem>
#include <unistd.h>
#include <sys/stat.h>
#include "define.hpp"
#if defined(A_stl)
#include "stlMap.hpp"
using C = stl::container_type;
static const char *NAME = "stl";
#elif defined(A_pm)
#include "pmemMap.hpp"
using C = pm::container_type;
static const char *NAME = "pm";
#elif defined(A_clevel)
#include "levelMap.hpp"
using C = clevel::container_type;
static const char *NAME = "clevel";
#else
#include "ucfMap.hpp"
using C = ucf::container_type;
static const char *NAME = "ucf";
#endif
TestOptions::TestOptions() {}
typedef uint64_t u64;
struct Rng { u64 s; u64 next() { s += 0x9e3779b97f4a7c15ull; u64 z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); } u64 below(u64 n) { return next() % n; } };
static char dir[256];
static std::vector<std::string> hist;
static FILE *OUT;
static void cleanup() { if (dir[0]) { std::error_code e; std::filesystem::remove_all(dir, e); } }
static void found(const std::string &s)
{
    fprintf(OUT, "FOUND %s: %s; last operations:", NAME, s.c_str());
    for (size_t i = hist.size() > 12 ? hist.size() - 12 : 0; i < hist.size(); i++) fprintf(OUT, " %s", hist[i].c_str());
    fprintf(OUT, "\n"); fflush(OUT);
    cleanup(); _exit(1);
}
static void on_sig(int s)
{
    fprintf(OUT, "FOUND %s: signal %d after %s\n", NAME, s, hist.empty() ? "" : hist.back().c_str()); fflush(OUT);
    cleanup(); _exit(1);
}
// the map makes its tables in a fixed directory: keep them in the scratch directory
extern "C" int __real_open(const char *p, int fl, ...);
extern "C" int __wrap_open(const char *p, int fl, ...)
{
    std::string f = p;
    if (f.find(".dat") != std::string::npos) f = std::string(dir) + "/" + f.substr(f.rfind('/') + 1);
    return __real_open(f.c_str(), fl, S_IRUSR | S_IWUSR);
}
int main(int argc, char **argv)
{
    OUT = fdopen(dup(1), "w");
    freopen("/dev/null", "w", stdout);
    u64 seed = strtoull(argv[1], nullptr, 10);
    double secs = atof(argv[2]);
    char cwd[200];
    if (!getcwd(cwd, sizeof cwd)) return 3;
    snprintf(dir, sizeof dir, "%s/adapter_run_XXXXXX", cwd);
    if (!mkdtemp(dir)) return 3;
    setenv("PMEM_IS_PMEM_FORCE", "1", 1);
    for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL}) signal(s, on_sig);
    auto t0 = std::chrono::steady_clock::now();
    auto left = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < secs; };
    u64 runs = 0;
    TestOptions o; o.numthreads = 4; o.capacity = 12; o.filename = std::string(dir) + "/file"; o.numops = 0; o.numruns = 1; o.recover = false;
    Rng R{seed};
    localThreadNum = 1;
    C *c = new C(o, false);
    std::map<u64, u64> ref;
    bool stl = !strcmp(NAME, "stl"), counted = strcmp(NAME, "clevel");
    auto key = [&] { u64 k = R.below(4) ? 1 + R.below(40) : R.next() >> (stl ? R.below(60) : 24 + R.below(36)); return stl ? k : k ? k : 1; };
    auto note = [&](const char *op, u64 k, u64 r) { hist.push_back(std::string(op) + "(" + std::to_string(k) + ")=" + std::to_string(r)); if (hist.size() > 64) hist.erase(hist.begin(), hist.begin() + 32); };
    while (left())
    {
        for (int n = 0; n < 2000; n++)
        {
            u64 k = key(), r;
            bool in = ref.count(k);
            switch (R.below(stl ? 7 : 5))
            {
            case 0: r = c->insert(k); note("insert", k, r); if (r != !in) found("insert reports wrongly"); if (!in) ref[k] = k; else if (!stl) ref[k] = k; break;
            case 1: r = c->erase(k); note("erase", k, r); if (r != in) found("erase reports wrongly"); ref.erase(k); break;
            case 2: r = c->contains(k); note("contains", k, r); if (r != in) found("contains reports wrongly"); break;
            case 3: r = c->get(k); note("get", k, r); if (in && r != ref[k]) found("get returns another value"); if (!in && r != 0 && strcmp(NAME, "ucf")) found("get does not return 0 for an absent element"); break;
            case 4: if (!counted) break; r = c->count(); note("count", 0, r); if (r != ref.size()) found("count is wrong"); break;
            default: r = c->increment(k); note("increment", k, r); if (r != ++ref[k]) found("increment returns wrongly"); break;
            }
            if (!strcmp(NAME, "ucf") && ref.size() > 800) { hist.clear(); for (auto it = ref.begin(); it != ref.end();) { if (it->first > 40) { if (!c->erase(it->first)) found("erase reports wrongly"); it = ref.erase(it); } else ++it; } }
            if (ref.size() > 3000) for (auto it = ref.begin(); it != ref.end();) { if (it->first > 40) { if (!c->erase(it->first)) found("erase reports wrongly"); it = ref.erase(it); } else ++it; }
        }
        runs++;
        if (stl)
        {   // concurrent callers: what was reported must add up
            C *d = new C(o, false);
            std::atomic<long> ins[8] = {}, del[8] = {}, inc{0};
            std::vector<std::thread> th;
            for (int t = 0; t < 4; t++) th.emplace_back([&, t] {
                Rng Q{seed * 7919 + runs * 31 + t};
                for (int n = 0; n < 4000; n++)
                {
                    u64 k = Q.below(8);
                    switch (Q.below(6))
                    {
                    case 0: ins[k] += d->insert(k + 100); break;
                    case 1: del[k] += d->erase(k + 100); break;
                    case 2: d->contains(k + 100); break;
                    case 3: d->get(k + 100); break;
                    case 4: d->count(); break;
                    default: d->increment(7); inc++; break;
                    }
                }
            });
            for (auto &x : th) x.join();
            hist.clear();
            for (int k = 0; k < 8; k++) if (ins[k] - del[k] != (long)d->contains(k + 100)) found("the reports of concurrent inserts and erases do not add up");
            if (inc && d->get(7) != (u64)inc) found("concurrent increments were lost");
            delete d;
        }
    }
    fprintf(OUT, "runs=%llu\n", (unsigned long long)runs); fflush(OUT);
    cleanup();
    _exit(0);
}
