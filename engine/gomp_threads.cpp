// The part of libgomp that `#pragma omp parallel for` loops use, on std::thread, so that ThreadSanitizer sees the fork and
// the join (it does not see those of libgomp itself).  Every schedule kind is dealt out round robin.  REPLAY mode only.
#include <thread>
#include <vector>
#include <mutex>
typedef unsigned long long ull;
static thread_local int tid = 0, team = 1;
static thread_local long cur, end_, step, by;
static thread_local ull ucur, uend, ustep, uby; static thread_local bool up_;
static std::mutex critical_;
static void deal(long s, long e, long incr, long chunk) { by = incr; step = incr * (chunk > 0 ? chunk : 1); end_ = e; cur = s + tid * step; }
static bool next(long* a, long* b)
{
    if (by > 0 ? cur >= end_ : cur <= end_) return false;
    *a = cur; *b = cur + step; if (by > 0 ? *b > end_ : *b < end_) *b = end_;
    cur += team * step; return true;
}
static void udeal(bool up, ull s, ull e, ull incr, ull chunk) { up_ = up; uby = incr; ustep = incr * (chunk ? chunk : 1); uend = e; ucur = s + tid * ustep; if (up ? s >= e : s <= e) ucur = e; }
static bool unext(ull* a, ull* b)
{
    if (up_ ? ucur >= uend : ucur <= uend) return false;
    *a = ucur; *b = ucur + ustep; if (up_ ? *b > uend : *b < uend) *b = uend;
    ucur += team * ustep; return true;
}
extern "C" {
void GOMP_parallel(void (*fn)(void*), void* data, unsigned, unsigned)
{
    if (team > 1) { int t = tid, n = team; tid = 0; team = 1; fn(data); tid = t; team = n; return; }
    constexpr int T = 3;
    std::vector<std::thread> ts;
    for (int t = 0; t < T; ++t) ts.emplace_back([=] { tid = t; team = T; fn(data); });
    for (auto& t : ts) t.join();
}
#define LOOP(kind) \
void GOMP_parallel_loop_##kind(void (*fn)(void*), void* data, unsigned, long s, long e, long incr, long chunk, unsigned) \
{ struct Ctx { void (*fn)(void*); void* d; long s, e, i, c; } c{ fn, data, s, e, incr, chunk }; \
  GOMP_parallel([](void* p) { auto* c = static_cast<Ctx*>(p); deal(c->s, c->e, c->i, c->c); c->fn(c->d); }, &c, 0, 0); } \
bool GOMP_loop_##kind##_start(long s, long e, long incr, long chunk, long* a, long* b) { deal(s, e, incr, chunk); return next(a, b); } \
bool GOMP_loop_##kind##_next(long* a, long* b) { return next(a, b); } \
bool GOMP_loop_ull_##kind##_start(bool up, ull s, ull e, ull incr, ull chunk, ull* a, ull* b) { udeal(up, s, e, incr, chunk); return unext(a, b); } \
bool GOMP_loop_ull_##kind##_next(ull* a, ull* b) { return unext(a, b); }
LOOP(static) LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
#undef LOOP
#define LOOPR(kind) \
void GOMP_parallel_loop_##kind(void (*fn)(void*), void* data, unsigned n, long s, long e, long incr, unsigned f) { GOMP_parallel_loop_dynamic(fn, data, n, s, e, incr, 1, f); } \
bool GOMP_loop_##kind##_start(long s, long e, long incr, long* a, long* b) { deal(s, e, incr, 1); return next(a, b); } \
bool GOMP_loop_##kind##_next(long* a, long* b) { return next(a, b); } \
bool GOMP_loop_ull_##kind##_start(bool up, ull s, ull e, ull incr, ull* a, ull* b) { udeal(up, s, e, incr, 1); return unext(a, b); } \
bool GOMP_loop_ull_##kind##_next(ull* a, ull* b) { return unext(a, b); }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
void GOMP_loop_end() {}
void GOMP_loop_end_nowait() {}
int omp_get_num_threads() { return team; }
int omp_get_thread_num() { return tid; }
int omp_get_max_threads() { return 3; }
void omp_set_num_threads(int) {}
void GOMP_critical_start() { critical_.lock(); }
void GOMP_critical_end() { critical_.unlock(); }
void GOMP_critical_name_start(void**) { critical_.lock(); }
void GOMP_critical_name_end(void**) { critical_.unlock(); }
void GOMP_atomic_start() { critical_.lock(); }
void GOMP_atomic_end() { critical_.unlock(); }
void GOMP_barrier() {}
bool GOMP_single_start() { return tid == 0; }
}
