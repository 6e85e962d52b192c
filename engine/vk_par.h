// Stand-in for the library's parallel back end (std::execution::par, par_unseq), force-included by the C21 contracts.
// VERIFY mode: the body of the parallel loop is handed to the VC generator, which proves for two arbitrary different
// iterations that neither writes what the other one reads or writes; then the loop goes on sequentially.
// REPLAY mode: the iterations are dealt out to real threads (run under ThreadSanitizer).
#pragma once
#define _PSTL_PARALLEL_BACKEND_SERIAL_H
#include <algorithm>
#include <cstddef>
#include <cstdint>
#include <memory>
#include <numeric>
#include <utility>
#ifdef VK_REPLAY
#include <thread>
#include <vector>
#else
extern "C" void vk_iteration_(void (*body)(void*, std::uint64_t), void* context, std::uint64_t n) noexcept;
#endif
namespace __pstl { namespace __serial_backend {
template <typename _Tp> class __buffer
{
    std::allocator<_Tp> a; _Tp* p; const std::size_t n;
    __buffer(const __buffer&) = delete;
    void operator=(const __buffer&) = delete;
  public:
    __buffer(std::size_t k) : a(), p(a.allocate(k)), n(k) {}
    operator bool() const { return p != nullptr; }
    _Tp* get() const { return p; }
    ~__buffer() { a.deallocate(p, n); }
};
inline void __cancel_execution() {}
template <class Tag, class P, class Index, class F> void __parallel_for(Tag, P&&, Index first, Index last, F f)
{
    const std::uint64_t n = static_cast<std::uint64_t>(last - first);
#ifdef VK_REPLAY
    constexpr std::uint64_t T = 3;
    std::vector<std::thread> ts;
    for (std::uint64_t t = 0; t < T; ++t)
        ts.emplace_back([=, &f] { for (std::uint64_t i = t; i < n; i += T) f(first + i, first + (i + 1)); });
    for (auto& t : ts) t.join();
#else
    auto one = [&](std::uint64_t i) { f(first + i, first + (i + 1)); };
    vk_iteration_([](void* c, std::uint64_t i) { (*static_cast<decltype(one)*>(c))(i); }, &one, n);
    f(first, last);
#endif
}
template <class Tag, class P, class V, class Index, class B, class R> V __parallel_reduce(Tag, P&&, Index first, Index last, const V& id, const B& body, const R&)
{ return first == last ? id : body(first, last, id); }
template <class Tag, class P, class Index, class U, class T, class B, class R> T __parallel_transform_reduce(Tag, P&&, Index first, Index last, U, T init, B, R reduce)
{ return reduce(first, last, init); }
template <class Tag, class P, class Index, class T, class R, class C, class S, class A> void __parallel_strict_scan(Tag, P&&, Index n, T initial, R reduce, C combine, S scan, A apex)
{ T sum = initial; if (n) sum = combine(sum, reduce(Index(0), n)); apex(sum); if (n) scan(Index(0), n, initial); }
template <class Tag, class P, class Index, class U, class T, class B, class R, class S> T __parallel_transform_scan(Tag, P&&, Index n, U, T init, B, R, S scan)
{ return scan(Index(0), n, init); }
template <class Tag, class P, class I, class C, class L> void __parallel_stable_sort(Tag, P&&, I first, I last, C comp, L leaf, std::size_t = 0) { leaf(first, last, comp); }
template <class Tag, class P, class I1, class I2, class I3, class C, class L> void __parallel_merge(Tag, P&&, I1 f1, I1 l1, I2 f2, I2 l2, I3 out, C comp, L leaf) { leaf(f1, l1, f2, l2, out, comp); }
template <class Tag, class P, class F1, class F2> void __parallel_invoke(Tag, P&&, F1&& f1, F2&& f2) { std::forward<F1>(f1)(); std::forward<F2>(f2)(); }
} }
// libstdc++ runs algorithms over iota iterators serially (their C++17 category is input); other libraries do not: take them as parallel
#include <execution>
#include <ranges>
namespace std
{
    template<class P, class F> requires (is_execution_policy_v<remove_cvref_t<P>>)
    void for_each(P&& policy, ranges::iterator_t<ranges::iota_view<size_t, size_t>> first, ranges::iterator_t<ranges::iota_view<size_t, size_t>> last, F f)
    {
        if constexpr (is_same_v<remove_cvref_t<P>, execution::sequenced_policy>) for (; first != last; ++first) f(*first);
        else __pstl::__serial_backend::__parallel_for(0, policy, first, last, [&](auto a, auto b) { for (; a != b; ++a) f(*a); });
    }
}
