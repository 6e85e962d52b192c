// recursive_* algorithms on nested containers: every element, once, in its place.
#include "img.h"
using u8 = std::uint8_t; using u32 = std::uint32_t; using u64 = std::uint64_t;
#define LEN const std::size_t n = vk::size("n", 1, vk::MAXIDX)
#define AT const std::size_t i = vk::size("i", 0, n - 1)
template<class T> static std::vector<T> vec(const char* name, std::size_t n) { std::vector<T> v(n); vk::fill(v, name); return v; }
template<class T, class F> static void unary(F apply)
{
    LEN;
    const auto v = vec<T>("v", n);
    const auto r = apply([](const T& x) { return static_cast<T>(x * 3 + 1); }, v);
    ASSERT(r.size() == n, "transform.size");
    AT;
    ASSERT(r[i] == static_cast<T>(v[i] * 3 + 1), "transform.element");
}
CONTRACT(C17_transform_u32) { unary<u32>([](auto f, auto& v) { return recursive_transform<1>(f, v); }); }
CONTRACT(C17_transform_u8) { unary<u8>([](auto f, auto& v) { return recursive_transform<1>(f, v); }); }
CONTRACT(C17_transform_seq_u32) { unary<u32>([](auto f, auto& v) { return recursive_transform<1>(std::execution::seq, f, v); }); }
CONTRACT(C17_transform_par_u32) { unary<u32>([](auto f, auto& v) { return recursive_transform<1>(std::execution::par, f, v); }); }
CONTRACT(C17_transform2)
{
    LEN;
    const auto v = vec<u32>("v", n), w = vec<u32>("w", n);
    const auto r = recursive_transform<1>([](u32 a, u32 b) { return a - 2 * b; }, v, w);
    ASSERT(r.size() == n, "transform2.size");
    AT;
    ASSERT(r[i] == v[i] - 2 * w[i], "transform2.element");
}
CONTRACT(C17_transform3)
{
    LEN;
    const auto v = vec<u32>("v", n), w = vec<u32>("w", n), x = vec<u32>("x", n);
    const auto r = recursive_transform<1>([](u32 a, u32 b, u32 c) { return a - 2 * b + 5 * c; }, v, w, x);
    ASSERT(r.size() == n, "transform3.size");
    AT;
    ASSERT(r[i] == v[i] - 2 * w[i] + 5 * x[i], "transform3.element");
}
CONTRACT(C17_transform_array)
{
    std::array<u32, 7> v{};
    vk_fill_(v.data(), 7, vk::kind_of<u32>(), "v");
    const auto r = recursive_transform<1>([](u32 a) { return a * 3 + 1; }, v);
    const std::size_t i = vk::size("i", 0, 6);
    ASSERT(r.size() == 7 && r[i] == v[i] * 3 + 1, "transform.array");
}
CONTRACT(C17_transform_nested)
{
    const std::size_t n = vk::size("n", 1, vk::MAXIDX), m = vk::size("m", 1, vk::MAXIDX);
    const std::vector<std::vector<u32>> v{ vec<u32>("v0", n), vec<u32>("v1", m) };
    const auto r = recursive_transform<2>([](u32 a) { return a * 3 + 1; }, v);
    ASSERT(r.size() == 2 && r[0].size() == n && r[1].size() == m, "nested.shape");
    const std::size_t i = vk::size("i", 0, n - 1), j = vk::size("j", 0, m - 1);
    ASSERT(r[0][i] == v[0][i] * 3 + 1 && r[1][j] == v[1][j] * 3 + 1, "nested.element");
}
static bool odd(u32 x) { return x % 2 == 1; }
//  all / any / none / find: the answer is that of the elements
CONTRACT(C17_all_of)
{
    LEN;
    const auto v = vec<u32>("v", n);
    const bool r = recursive_all_of<1>(v, [](u32 x) { return odd(x); });
    if (r) { AT; ASSERT(odd(v[i]), "all_of.true-for-every"); }
    else
    {
        bool all = true;
        for (std::size_t i = 0; i < n; ++i) if (!odd(v[i])) { all = false; break; }
        ASSERT(!all, "all_of.false-has-witness");
    }
}
CONTRACT(C17_any_of)
{
    LEN;
    const auto v = vec<u32>("v", n);
    const bool r = recursive_any_of<1>(v, [](u32 x) { return odd(x); });
    const bool none = recursive_none_of<1>(v, [](u32 x) { return odd(x); });
    const bool fi = recursive_find_if<1>(v, [](u32 x) { return odd(x); });
    ASSERT(none == !r && fi == r, "any_of.agree");
    if (!r) { AT; ASSERT(!odd(v[i]), "any_of.false-for-every"); }
    else
    {
        bool any = false;
        for (std::size_t i = 0; i < n; ++i) if (odd(v[i])) { any = true; break; }
        ASSERT(any, "any_of.true-has-witness");
    }
}
template<class F> static void find_(F find)
{
    LEN;
    const auto v = vec<u32>("v", n);
    const u32 t = vk::value<u32>("t");
    const bool r = find(v, t);
    if (!r) { AT; ASSERT(v[i] != t, "find.absent"); }
    else
    {
        bool any = false;
        for (std::size_t i = 0; i < n; ++i) if (v[i] == t) { any = true; break; }
        ASSERT(any, "find.present");
    }
}
CONTRACT(C17_find) { find_([](auto& v, u32 t) { return recursive_find<1>(v, t); }); }
BOUNDED(B17_find_par) { find_([](auto& v, u32 t) { return recursive_find<1>(std::execution::par, v, t); }); }
template<class F, class P> static void count_(F f, P p)
{
    LEN;
    const auto v = vec<u32>("v", n);
    const u32 t = vk::value<u32>("t");
    std::size_t c = 0;
    for (std::size_t i = 0; i < n; ++i) c += p(v[i], t);
    ASSERT(static_cast<std::size_t>(f(v, t)) == c, "count.number-of-elements");
}
CONTRACT(C17_count) { count_([](auto& v, u32 t) { return recursive_count<1>(v, t); }, [](u32 x, u32 t) { return x == t; }); }
CONTRACT(C17_count_if_par) { count_([](auto& v, u32 t) { return recursive_count_if(std::execution::par, v, [&](u32 x) { return x > t; }); }, [](u32 x, u32 t) { return x > t; }); }
template<class F, class G> static void sum_(F f, G g)
{
    LEN;
    const auto v = vec<u64>("v", n);
    const u64 init = vk::value<u64>("init");
    u64 s = init;
    for (std::size_t i = 0; i < n; ++i) s += g(v[i]);
    ASSERT(f(v, init) == s, "reduce.sum");
}
CONTRACT(C17_reduce) { sum_([](auto& v, u64 a) { return recursive_reduce<1>(v, a); }, [](u64 x) { return x; }); }
CONTRACT(C17_transform_reduce) { sum_([](auto& v, u64 a) { return recursive_transform_reduce(v, a, [](u64 x) { return 3 * x + 1; }, std::plus<u64>()); }, [](u64 x) { return 3 * x + 1; }); }
CONTRACT(C17_transform_reduce_par) { sum_([](auto& v, u64 a) { return recursive_transform_reduce(std::execution::par, v, a, [](u64 x) { return 3 * x + 1; }, std::plus<u64>()); }, [](u64 x) { return 3 * x + 1; }); }
CONTRACT(C17_transform_reduce_level) { sum_([](auto& v, u64 a) { return recursive_transform_reduce<1>(v, a, [](u64 x) { return 3 * x + 1; }, std::plus<u64>()); }, [](u64 x) { return 3 * x + 1; }); }
CONTRACT(C17_two_input)
{
    LEN;
    const auto v = vec<u64>("v", n), w = vec<u64>("w", n);
    const u64 init = vk::value<u64>("init");
    u64 s = init;
    for (std::size_t i = 0; i < n; ++i) s += v[i] * 2 - w[i];
    ASSERT(two_input_map_reduce(std::execution::seq, v, w, init, [](u64 a, u64 b) { return a * 2 - b; }) == s, "two_input.sum");
}
CONTRACT(C17_two_input_mismatch)
{
    const std::size_t n = vk::size("n", 0, vk::MAXIDX), m = vk::size("m", 0, vk::MAXIDX);
    ASSUME(n != m);
    const std::vector<u64> v(n), w(m);
    ASSERT(vk::outcome([&] { two_input_map_reduce(std::execution::seq, v, w, u64{}); }) == vk::RUNTIME_ERROR, "two_input.mismatch-throws");
}
CONTRACT(C17_max)
{
    LEN;
    const auto v = vec<u32>("v", n);
    const u32 hi = recursive_max(v), lo = recursive_min(v);
    AT;
    ASSERT(v[i] <= hi, "max.bound");
    ASSERT(v[i] >= lo, "min.bound");
}
CONTRACT(C17_size)
{
    LEN;
    const std::size_t m = vk::size("m", 1, vk::MAXIDX);
    const std::vector<u32> v(n), w(m);
    ASSERT(recursive_size(v) == n, "size.flat");
    const std::vector<std::vector<u32>> t{ v, w };
    ASSERT(recursive_size(t) == n + m, "size.nested");
}
CONTRACT(C17_replace_copy_if)
{
    LEN;
    const auto v = vec<u32>("v", n);
    const u32 t = vk::value<u32>("t");
    const auto r = recursive_replace_copy_if<1>(v, [](u32 x) { return odd(x); }, t);
    ASSERT(r.size() == n, "replace.size");
    AT;
    ASSERT(r[i] == (odd(v[i]) ? t : v[i]), "replace.element");
}
CONTRACT(C17_generate)
{
    LEN;
    const u32 t = vk::value<u32>("t");
    const auto a = n_dim_vector_generator<1>(t, n), b = n_dim_container_generator<1, u32, std::vector>(t, n);
    ASSERT(a.size() == n && b.size() == n, "generate.size");
    AT;
    ASSERT(a[i] == t && b[i] == t, "generate.value");
}
CONTRACT(C17_for_each)
{
    sum_([](auto& v, u64 a) { recursive_for_each<1>([&](u64 x) { a += 3 * x + 1; }, v); return a; }, [](u64 x) { return 3 * x + 1; });
}
CONTRACT(C17_mean_empty)
{
    const std::vector<double> v;
    ASSERT(vk::outcome([&] { arithmetic_mean(v); }) == vk::LOGIC_ERROR, "mean.empty-throws");
}
BOUNDED(B17_max_attained)
{
    LEN;
    const auto v = vec<std::int32_t>("v", n);
    ASSERT(recursive_max(v) == *std::max_element(v.begin(), v.end()), "max.value");
    ASSERT(recursive_min(v) == *std::min_element(v.begin(), v.end()), "min.value");
}
//  a ragged nested vector of at most 5 x 5
static std::vector<std::vector<u32>> ragged()
{
    const std::size_t k = vk::size("k", 0, 5);
    std::vector<std::vector<u32>> t;
    for (std::size_t i = 0; i < k; ++i) { auto r = vec<u32>("row", vk::size("len", 0, 5)); for (auto& x : r) x %= 5; t.push_back(r); }
    return t;
}
BOUNDED(B17_nested)
{
    const auto t = ragged();
    const u32 c = static_cast<u32>(vk::size("c", 0, 5));
    std::size_t n = 0, eq = 0, big = 0; u32 sum = 0; bool all = true, any = false;
    for (auto& r : t) for (auto x : r) { ++n; eq += x == c; big += x > c; sum += x; all &= x < c; any |= x < c; }
    ASSERT(recursive_size(t) == n, "nested.size");
    ASSERT(recursive_count<2>(t, c) == eq, "nested.count");
    ASSERT(recursive_count_if(std::execution::seq, std::as_const(t), [&](u32 x) { return x > c; }) == big, "nested.count_if");
    ASSERT(recursive_reduce<2>(t, u32{7}) == sum + 7, "nested.reduce");
    ASSERT(recursive_transform_reduce(t, u32{7}, [](u32 x) { return 2 * x; }) == 2 * sum + 7, "nested.transform_reduce");
    ASSERT(recursive_transform_reduce<2>(t, u32{7}, [](u32 x) { return 2 * x; }) == 2 * sum + 7, "nested.transform_reduce-level");
    ASSERT(recursive_all_of<2>(t, [&](u32 x) { return x < c; }) == all, "nested.all_of");
    ASSERT(recursive_any_of<2>(t, [&](u32 x) { return x < c; }) == any, "nested.any_of");
    ASSERT(recursive_none_of<2>(t, [&](u32 x) { return x < c; }) == !any, "nested.none_of");
    ASSERT(recursive_find<2>(t, c) == (eq > 0), "nested.find");
}
BOUNDED(B17_filters)
{
    const auto t = ragged();
    const u32 c = static_cast<u32>(vk::size("c", 0, 5));
    auto keep = t, drop = t, repl = t;
    for (auto& r : keep) std::erase_if(r, [&](u32 x) { return !(x < c); });
    for (auto& r : drop) std::erase_if(r, [&](u32 x) { return x == c; });
    for (auto& r : repl) for (auto& x : r) if (x < c) x = 99;
    ASSERT(recursive_copy_if<2>(t, [&](u32 x) { return x < c; }) == keep, "filters.copy_if");
    ASSERT(recursive_remove_copy<2>(t, c) == drop, "filters.remove_copy");
    ASSERT(recursive_remove_copy<2>(std::execution::seq, t, c) == drop, "filters.remove_copy-policy");
    ASSERT(recursive_replace_copy_if<2>(t, [&](u32 x) { return x < c; }, u32{99}) == repl, "filters.replace_copy_if");
    u32 want = 3;
    for (std::size_t i = t.size(); i-- > 0;) for (std::size_t j = t[i].size(); j-- > 0;) want = t[i][j] - 2 * want;
    ASSERT(recursive_fold_right_all(t, u32{3}, [](u32 x, u32 acc) { return x - 2 * acc; }) == want, "filters.fold_right");
    const auto r = recursive_transform<2>([](u32 x) { return x + 1.5; }, t);
    ASSERT(r.size() == t.size(), "filters.transform-shape");
    for (std::size_t i = 0; i < t.size(); ++i) { ASSERT(r[i].size() == t[i].size(), "filters.transform-row"); for (std::size_t j = 0; j < t[i].size(); ++j) ASSERT(r[i][j] == t[i][j] + 1.5, "filters.transform"); }
}
BOUNDED(B17_statistics)
{
    LEN;
    const auto w = vec<std::int32_t>("v", n);
    std::vector<double> v;
    for (auto x : w) v.push_back(x % 1000);
    double s = 0, q = 0;
    for (auto x : v) { s += x; q += x * x; }
    const double mean = s / n;
    double var = 0;
    for (auto x : v) var += (x - mean) * (x - mean);
    var /= n;
    ASSERT(std::abs(arithmetic_mean(v) - mean) < 1e-6, "statistics.mean");
    ASSERT(std::abs(population_variance(v) - var) < 1e-6 * (1 + var), "statistics.variance");
    ASSERT(std::abs(population_standard_deviation(std::execution::seq, v) - std::sqrt(var)) < 1e-6 * (1 + std::sqrt(var)), "statistics.deviation");
    ASSERT(std::abs(square_sum(v) - q) < 1e-6 * (1 + q), "statistics.square_sum");
    ASSERT(std::abs(root_mean_square(v) - std::sqrt(q / n)) < 1e-6 * (1 + std::sqrt(q / n)), "statistics.rms");
}
//  statistics over the reals
CONTRACT(C17_mean)
{
    LEN;
    const auto v = vec<double>("v", n);
    double s = 0;
    for (std::size_t i = 0; i < n; ++i) s += v[i];
    ASSERT(vk::near(arithmetic_mean(v), s / static_cast<double>(n)), "statistics.mean");
}
CONTRACT(C17_square_sum)
{
    LEN;
    const auto v = vec<double>("v", n);
    double q = 0;
    for (std::size_t i = 0; i < n; ++i) q += v[i] * v[i];
    ASSERT(vk::near(square_sum(v), q), "statistics.square_sum");
    ASSERT(vk::near(root_mean_square(v), std::sqrt(q / static_cast<double>(n))), "statistics.rms");
}
CONTRACT(C17_variance)
{
    LEN;
    const auto v = vec<double>("v", n);
    double s = 0, q = 0;
    for (std::size_t i = 0; i < n; ++i) s += v[i];
    const double m = s / static_cast<double>(n);
    for (std::size_t i = 0; i < n; ++i) q += (v[i] - m) * (v[i] - m);
    ASSERT(vk::near(population_variance(v), q / static_cast<double>(n)), "statistics.variance");
    ASSERT(vk::near(population_standard_deviation(std::execution::seq, v), std::sqrt(q / static_cast<double>(n))), "statistics.deviation");
}
//  sums over one member of the elements
CONTRACT(C17_sum_members)
{
    LEN;
    const auto a = vec<u32>("a", n), b = vec<u32>("b", n);
    std::vector<std::pair<u32, u32>> v(n);
    for (std::size_t i = 0; i < n; ++i) { v[i].first = a[i]; v[i].second = b[i]; }
    u32 s = 0, t = 0;
    for (std::size_t i = 0; i < n; ++i) s += a[i];
    for (std::size_t i = 0; i < n; ++i) t += b[i];
    ASSERT(sum_first_element(v) == s, "sum_first");
    ASSERT(sum_second_element(v) == t, "sum_second");
}
BOUNDED(B17_sum_members)
{
    LEN;
    const auto a = vec<u32>("a", n), b = vec<u32>("b", n), c = vec<u32>("c", n);
    std::vector<std::pair<u32, u32>> v(n);
    std::vector<std::tuple<u32, u32, u32>> w(n);
    std::map<u32, u32> m;
    for (std::size_t i = 0; i < n; ++i) { v[i] = { a[i], b[i] }; w[i] = { a[i], b[i], c[i] }; m[static_cast<u32>(i) * 7] = b[i]; }
    u32 s = 0, t = 0, u = 0, k = 0;
    for (std::size_t i = 0; i < n; ++i) { s += a[i]; t += b[i]; u += c[i]; k += static_cast<u32>(i) * 7; }
    ASSERT(sum_first_element(std::execution::seq, v) == s && sum_first_element(std::execution::par, v) == s, "sum_first.policy");
    ASSERT(sum_second_element(std::execution::seq, v) == t && sum_second_element(std::execution::par, v) == t, "sum_second.policy");
    ASSERT(sum_first_element(m) == k && sum_second_element(m) == t, "sum.map");
    ASSERT(sum_n_th_element<0>(w) == s && sum_n_th_element<1>(w) == t && sum_n_th_element<2>(w) == u, "sum_n_th");
    ASSERT(sum_n_th_element<1>(w, 5u) == t + 5 && sum_n_th_element<2>(std::execution::par, w) == u, "sum_n_th.start");
}
BOUNDED(B17_minmax)
{
    LEN;
    const auto a = vec<u32>("a", n);
    ASSUME(n > 0);
    const auto r = recursive_minmax(a);
    ASSERT(r.min == *std::min_element(a.begin(), a.end()) && r.max == *std::max_element(a.begin(), a.end()), "minmax");
    std::vector<std::vector<u32>> rows = { a, {}, { a[0] } };
    std::vector<u32> flat;
    recursive_flatten<2>(rows, flat);
    auto want = a; want.push_back(a[0]);
    ASSERT(flat == want, "flatten");
}
