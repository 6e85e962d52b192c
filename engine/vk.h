// Contract-harness vocabulary.  VERIFY mode: opaque intrinsics, interpreted by the VC generator.
// REPLAY mode (-DVK_REPLAY): values come from a replay file / seeded generator and the real code runs.
#pragma once
#include <cstdint>
#include <cstddef>
#include <vector>
#include <string>
#include <stdexcept>
extern "C" {
#ifdef VK_REPLAY
#define VK_NX
#else
#define VK_NX noexcept
#endif
std::uint64_t vk_u64_(const char* name, std::uint64_t lo, std::uint64_t hi) VK_NX;
std::int64_t  vk_i64_(const char* name, std::int64_t lo, std::int64_t hi) VK_NX;
double        vk_f64_(const char* name) VK_NX;
float         vk_f32_(const char* name) VK_NX;
void          vk_fill_(void* p, std::uint64_t n, std::uint64_t kind, const char* name) VK_NX;
void          vk_assume_(bool c) VK_NX;
void          vk_assert_(bool c, const char* what) VK_NX;
bool          vk_near_(double a, double b) VK_NX;       // equal as real numbers (REPLAY: up to rounding)
void          vk_cover_(const char* what) noexcept;
bool          vk_is_verify_() noexcept;
}
namespace vk
{
    template<class T> constexpr std::uint64_t kind_of()
    {
        if constexpr (std::is_same_v<T, float>) return 4;
        else if constexpr (std::is_same_v<T, double>) return 5;
        else if constexpr (std::is_same_v<T, long double>) return 7;
        else if constexpr (sizeof(T) == 1) return 0;
        else if constexpr (sizeof(T) == 2) return 1;
        else if constexpr (sizeof(T) == 4) return 2;
        else return 3;
    }
    enum Outcome { RETURNED, OUT_OF_RANGE, RUNTIME_ERROR, LOGIC_ERROR, OTHER_EXCEPTION };
    //  run f and report how it ended; an exception of an unexpected kind is OTHER_EXCEPTION
    template<class F> Outcome outcome(F&& f)
    {
        try { f(); return RETURNED; }
        catch (const std::out_of_range&) { return OUT_OF_RANGE; }
        catch (const std::runtime_error&) { return RUNTIME_ERROR; }
        catch (const std::logic_error&) { return LOGIC_ERROR; }
    }
    inline bool near(double a, double b) { return vk_near_(a, b); }
    inline std::size_t size(const char* n, std::size_t lo, std::size_t hi) { return vk_u64_(n, lo, hi); }
    //  VERIFY mode: std::async(launch, f) runs f at once (the extraction replaces the name)
    template<class R> struct Done { R r; R get() { return static_cast<R&&>(r); } void wait() {} };
    template<class L, class F> auto run_now(L, F&& f) -> Done<decltype(f())> { return { f() }; }
#ifdef VK_REPLAY
    void reg(const char* name, void (*fn)());
    struct Reg { Reg(const char* n, void (*f)()) { reg(n, f); } };
    extern std::size_t MAXDIM, MAXIDX, HUGE_;
#else
    constexpr std::size_t MAXDIM = std::size_t{1} << 20;     // images up to 2^20 x 2^20 (the only size assumption)
    constexpr std::size_t MAXIDX = std::size_t{1} << 40;
    constexpr std::size_t HUGE_ = std::size_t{1} << 40;
#endif
}
#ifdef VK_REPLAY
#define CONTRACT(id) extern "C" void id(); static vk::Reg reg_##id(#id, id); extern "C" void id()
#else
#define CONTRACT(id) extern "C" void id()
#endif
#ifdef VK_REPLAY
#define BOUNDED(id) CONTRACT(id)
#else
#define BOUNDED(id) [[maybe_unused]] static void id()     /* not sent to the prover */
#endif
#define DIMS const std::size_t W = vk::size("W", 1, vk::MAXDIM), H = vk::size("H", 1, vk::MAXDIM)
#define PROBE const std::size_t px = vk::size("px", 0, W - 1), py = vk::size("py", 0, H - 1)
#define ASSERT(c, what) vk_assert_((c), what)
#define ASSUME(c) vk_assume_((c))
