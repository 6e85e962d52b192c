// REPLAY runtime: runs the contract functions natively against the real code.
//   replay enum  <contract> <trials> <seed> [dict...]   bounded search (systematic odometer first, then seeded random)
//   replay model <contract> <file>                       values from a solver model: lines "name value" or "name[idx] value"
#include "vk.h"
#include <cstdio>
#include <unistd.h>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <map>
#include <string>
#include <vector>
#include <algorithm>
#include <random>
#include <csignal>
#include <sys/time.h>
#include <unistd.h>
#include <chrono>
#include <fstream>
#include <sstream>
#include <iostream>
namespace vk
{
    std::size_t MAXDIM = 5, MAXIDX = 9, HUGE_ = 20;
    static std::map<std::string, void (*)()>& table() { static std::map<std::string, void (*)()> t; return t; }
    void reg(const char* n, void (*f)()) { table()[n] = f; }
    struct Skip {};
    struct Failed { std::string what; };
}
namespace
{
    enum Mode { ENUM, RANDOM, MODEL } mode = ENUM;
    struct Choice { std::uint64_t v, n; };
    std::vector<Choice> path; std::size_t pos = 0;
    std::mt19937_64 rng;
    std::vector<std::uint64_t> dict;
    std::map<std::string, std::uint64_t> mval;
    std::map<std::string, std::map<std::uint64_t, std::uint64_t>> marr;
    std::map<std::string, int> seen;
    std::string log_;
    std::vector<std::pair<std::string, std::uint64_t>> covers;
    bool big = false;
    std::size_t budget_elems = 0;

    std::string key(const char* name)
    {
        int n = seen[name]++;
        return n ? std::string(name) + "@" + std::to_string(n) : std::string(name);
    }
    std::uint64_t choose(std::uint64_t n, std::uint64_t lo)       // index in [0, n]   (n inclusive)
    {
        if (mode == ENUM)
        {
            if (pos < path.size()) { if (path[pos].v > n) throw vk::Skip{}; path[pos].n = n; return path[pos++].v; }
            path.push_back({0, n}); ++pos; return 0;
        }
        auto r = rng() % 100;
        if (r < 12) return 0;
        if (r < 24) return n;
        if (r < 34 && !dict.empty())
        {
            std::uint64_t d = dict[rng() % dict.size()] + (rng() % 3) - 1;
            if (d - lo <= n) return d - lo;
        }
        if (n == ~0ull) return rng() >> (rng() % 64);
        if (r < 60) return rng() % (std::min<std::uint64_t>(n, 8) + 1);
        return rng() % (n + 1);
    }
    std::uint64_t content(std::uint64_t kind)
    {
        auto r = rng();
        switch (kind)
        {
        case 4: { float f = (r % 4 == 0) ? float(int(r >> 8) % 5) : float(std::int32_t(r >> 20)) / 64.0f; std::uint32_t u; std::memcpy(&u, &f, 4); return u; }
        case 5: { double f = (r % 4 == 0) ? double(int(r >> 8) % 5) : double(std::int64_t(r) >> 44) / 16.0;      /* sums of products stay exact in any order */ std::uint64_t u; std::memcpy(&u, &f, 8); return u; }
        default:
            switch ((r >> 60) & 7)
            {
            case 0: return 0; case 1: return ~0ull; case 2: return (r & 3);
            case 3: return std::uint64_t(-(std::int64_t)(r & 3));
            case 4: return dict.empty() ? r : dict[r % dict.size()];
            case 5: return kind == 2 ? r % 100 : kind == 3 ? r % 100 : r;
            default: return r;
            }
        }
    }
}
extern "C" {
std::uint64_t vk_u64_(const char* name, std::uint64_t lo, std::uint64_t hi)
{
    if (lo > hi) throw vk::Skip{};
    auto k = key(name);
    std::uint64_t v;
    if (mode == MODEL) { auto it = mval.find(k); v = it == mval.end() ? lo : it->second; }
    else if (mode == ENUM && hi - lo > 4096) v = lo + (rng() % (hi - lo == ~0ull ? ~0ull : hi - lo + 1));
    else v = lo + choose(hi - lo, lo);
    if (v < lo || v > hi) throw vk::Skip{};
    log_ += k + " " + std::to_string(v) + "\n";
    return v;
}
std::int64_t vk_i64_(const char* name, std::int64_t lo, std::int64_t hi)
{
    if (lo > hi) throw vk::Skip{};
    auto k = key(name);
    std::int64_t v;
    if (mode == MODEL) { auto it = mval.find(k); v = it == mval.end() ? lo : (std::int64_t)it->second; }
    else
    {
        std::uint64_t n = (std::uint64_t)hi - (std::uint64_t)lo;
        if (mode == ENUM && n > 4096) { auto r = rng(); v = (r % 3 == 0) ? (std::int64_t)(r >> 8) % 5 : (std::int64_t)(lo + (n == ~0ull ? r : r % (n + 1))); if (v < lo || v > hi) v = lo; }
        else v = (std::int64_t)((std::uint64_t)lo + choose(n, lo));
    }
    if (v < lo || v > hi) throw vk::Skip{};
    log_ += k + " " + std::to_string(v) + "\n";
    return v;
}
double vk_f64_(const char* name)
{
    auto k = key(name);
    std::uint64_t u;
    if (mode == MODEL) { auto it = mval.find(k); if (it == mval.end()) u = 0; else u = it->second; }
    else u = content(5);
    double d; std::memcpy(&d, &u, 8);
    log_ += k + " " + std::to_string(u) + "\n";
    return d;
}
float vk_f32_(const char* name)
{
    auto k = key(name);
    std::uint64_t u;
    if (mode == MODEL) { auto it = mval.find(k); u = it == mval.end() ? 0 : it->second; }
    else u = content(4);
    std::uint32_t w = (std::uint32_t)u; float d; std::memcpy(&d, &w, 4);
    log_ += k + " " + std::to_string(w) + "\n";
    return d;
}
void vk_fill_(void* p, std::uint64_t n, std::uint64_t kind, const char* name)
{
    auto k = key(name);
    auto* o = mode == MODEL && marr.count(k) ? &marr[k] : nullptr;
    static const int sz[] = {1, 2, 4, 8, 4, 8, 0, 16};
    int s = sz[kind & 7];
    for (std::uint64_t i = 0; i < n; ++i)
    {
        std::uint64_t v = content(kind);
        if (o) { auto it = o->find(i); if (it != o->end()) v = it->second; }
        if (kind == 7) { long double d = (long double)(std::int64_t(v) >> 30); std::memcpy((char*)p + i * 16, &d, 10); continue; }
        if (n <= 64 && log_.size() < 20000) log_ += k + "[" + std::to_string(i) + "] " + std::to_string(s == 8 ? v : v & ((1ull << (8 * s)) - 1)) + "\n";
        std::memcpy((char*)p + i * s, &v, s);
    }
}
void vk_assume_(bool c) { if (!c) throw vk::Skip{}; }
void vk_assert_(bool c, const char* what) { if (!c) throw vk::Failed{what}; }
bool vk_near_(double a, double b) { return a == b || std::fabs(a - b) <= 1e-7 * std::max({ 1.0, std::fabs(a), std::fabs(b) }); }
void vk_cover_(const char*) noexcept {}
bool vk_is_verify_() noexcept { return false; }
}
static const char* cur_contract = "";
static std::string out_path;
static void save(const std::string& what)
{
    if (out_path.empty()) return;
    std::ofstream o(out_path);
    o << "# contract " << cur_contract << "\n# failed " << what << "\n" << log_;
}
extern "C" void __asan_on_error() { save("memory error (AddressSanitizer)"); }
extern "C" const char* __asan_default_options() { return "detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=77"; }
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1:exitcode=78"; }
extern "C" void __tsan_on_report(void*) { save("data race (ThreadSanitizer)"); }
extern "C" const char* __tsan_default_options() { return "halt_on_error=1:exitcode=66:history_size=4:report_thread_leaks=0"; }
// 0 held, 1 skipped, 2 failed
static int once(void (*f)(), std::string& what)
{
    pos = 0; seen.clear(); log_.clear();
    try { f(); }
    catch (vk::Skip&) { return 1; }
    catch (vk::Failed& e) { what = e.what; return 2; }
    catch (std::bad_alloc&) { return 1; }
    catch (std::length_error&) { return 1; }
    catch (std::exception& e) { what = std::string("unexpected exception: ") + e.what(); return 2; }
    catch (...) { what = "unexpected exception"; return 2; }
    return 0;
}
//  a small input that keeps the processor busy this long has run into an endless loop
static FILE* res_ = nullptr;
static void on_prof(int)
{
    save("does not return (20 s of processor time on a small input)");
    if (res_) { std::fprintf(res_, "FAILED %s: does not return (20 s of processor time on a small input)\n", cur_contract); std::fflush(res_); }
    _exit(2);
}
static void watchdog(long s) { itimerval t{}; t.it_value.tv_sec = s; setitimer(ITIMER_PROF, &t, nullptr); }
extern "C" void omp_set_num_threads(int);
int main(int argc, char** argv)
{
    if (argc < 3) { for (auto& [n, f] : vk::table()) std::puts(n.c_str()); return 0; }
    std::cout.setstate(std::ios::failbit);      // the code under test prints diagnostics
    std::cerr.setstate(std::ios::failbit);
    FILE* res = fdopen(dup(1), "w");            // results go to the real standard output, the code's own printing nowhere
    if (!std::freopen("/dev/null", "w", stdout)) return 3;
    std::string m = argv[1];
    res_ = res; std::signal(SIGPROF, on_prof);
    cur_contract = argv[2];
    auto it = vk::table().find(argv[2]);
    if (it == vk::table().end()) { std::fputs("no such contract\n", res); return 3; }
    if (const char* o = std::getenv("VK_OUT")) out_path = o;
    std::string what;
    if (m == "model")
    {
        mode = MODEL;
        vk::MAXDIM = std::size_t{1} << 20; vk::MAXIDX = std::size_t{1} << 40; vk::HUGE_ = vk::MAXIDX;
        std::ifstream in(argv[3]); std::string line;
        while (std::getline(in, line))
        {
            if (line.empty() || line[0] == '#') continue;
            std::istringstream ss(line); std::string n, v; ss >> n >> v;
            std::uint64_t x = v[0] == '-' ? (std::uint64_t)std::stoll(v) : std::stoull(v);
            auto b = n.find('[');
            if (b == std::string::npos) mval[n] = x;
            else marr[n.substr(0, b)][std::stoull(n.substr(b + 1))] = x;
        }
        rng.seed(argc > 4 ? std::atoll(argv[4]) : 1);
        int r = once(it->second, what);
        if (r == 2) { save(what); std::fprintf(res, "FAILED %s: %s\n", argv[2], what.c_str()); std::fflush(res); return 2; }
        std::fputs(r ? "skipped\n" : "held\n", res);
        return 0;
    }
    long trials = std::atol(argv[3]);
    std::uint64_t seed = std::strtoull(argv[4], nullptr, 10);
    double limit = std::atof(argv[5]);
    for (int i = 6; i < argc; ++i) dict.push_back(std::strtoull(argv[i], nullptr, 10));
    auto t0 = std::chrono::steady_clock::now();
    auto el = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
    long ran = 0, skipped = 0, enumerated = 0;
    bool exhausted = false;
    mode = ENUM;
    omp_set_num_threads(1);
    rng.seed(seed);
    for (long t = 0; t < trials / 2 && el() < limit / 2; ++t)
    {
        watchdog(20);
        int r = once(it->second, what);
        if (r == 2) { save(what); std::fprintf(res, "FAILED %s: %s\n%s", argv[2], what.c_str(), log_.c_str()); std::fflush(res); return 2; }
        (r ? skipped : ran)++;
        enumerated++;
        path.resize(std::min(pos, path.size()));
        while (!path.empty() && path.back().v >= path.back().n) path.pop_back();
        if (path.empty()) { exhausted = true; break; }
        path.back().v++;
    }
    mode = RANDOM;
    for (long t = 0; t < trials && el() < limit; ++t)
    {
        rng.seed(seed * 1000003 + t);
        static const std::size_t md[] = {3, 5, 7, 9, 17, 40};
        vk::MAXDIM = md[rng() % 6]; vk::MAXIDX = 2 * vk::MAXDIM; vk::HUGE_ = 64;
        if (!dict.empty() && rng() % 16 == 0) { vk::MAXDIM = std::min<std::uint64_t>(dict[rng() % dict.size()] + 3, 1500); vk::MAXIDX = vk::MAXDIM + 2; if (vk::MAXDIM < 2) vk::MAXDIM = 2; }
        omp_set_num_threads(t % 32 == 31 ? 4 : 1);
        watchdog(vk::MAXDIM > 40 ? 0 : 20);
        int r = once(it->second, what);
        if (r == 2) { save(what); std::fprintf(res, "FAILED %s: %s\n%s", argv[2], what.c_str(), log_.c_str()); std::fflush(res); return 2; }
        (r ? skipped : ran)++;
    }
    std::fprintf(res, "held %s ran=%ld skipped=%ld enumerated=%ld exhausted=%d\n", argv[2], ran, skipped, enumerated, (int)exhausted);
    return 0;
}
