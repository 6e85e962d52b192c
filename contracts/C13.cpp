// Whole-image questions: all_of/any_of/none_of, count, min, max, minmax, sum, replace look at every pixel exactly once.
#include "img.h"
#define SHAPE(im, w, h) ((im).getDimensionality() == 2 && (im).getWidth() == (w) && (im).getHeight() == (h) && (im).getImageData().size() == (w) * (h))
using u32 = std::uint32_t;
using u64 = std::uint64_t;
//  the definitions, pixel by pixel in storage order
template<class T, class P> bool every(const Image<T>& a, P p) { for (std::size_t i = 0; i < a.getImageData().size(); ++i) if (!p(a.getImageData()[i])) return false; return true; }
#define A const auto a = vk::image<int>("a", W, H)
#define QUANT(name, cond) \
CONTRACT(C13_all_##name) { DIMS; A; ASSERT(all_##name(a) == every(a, [](int x) { return cond; }), "all"); } \
CONTRACT(C13_any_##name) { DIMS; A; ASSERT(any_##name(a) == !every(a, [](int x) { return !(cond); }), "any"); } \
CONTRACT(C13_none_##name) { DIMS; A; ASSERT(none_##name(a) == every(a, [](int x) { return !(cond); }), "none"); }
QUANT(positive, x > 0)
QUANT(non_negative, x >= 0)
QUANT(zero, x == 0)
QUANT(negative, x < 0)
QUANT(non_positive, x <= 0)
//  the same statement for one arbitrary pixel: no pixel is skipped
CONTRACT(C13_all_probe) { DIMS; A; PROBE; if (all_of(a, [](int x) { return x > 7; })) ASSERT(RAW(a, px, py) > 7, "all_of.every-pixel"); else ASSERT(true, "all_of.no"); }
CONTRACT(C13_any_probe) { DIMS; A; PROBE; if (!any_of(a, [](int x) { return x > 7; })) ASSERT(!(RAW(a, px, py) > 7), "any_of.every-pixel"); else ASSERT(true, "any_of.yes"); }
CONTRACT(C13_none_probe) { DIMS; A; PROBE; if (none_of(a, [](int x) { return x > 7; })) ASSERT(!(RAW(a, px, py) > 7), "none_of.every-pixel"); else ASSERT(true, "none_of.no"); }
template<class T> void count_()
{
    DIMS;
    const auto a = vk::image<T>("a", W, H);
    const T t = vk::value<T>("t");
    std::int64_t n = 0;
    for (std::size_t i = 0; i < a.getImageData().size(); ++i) if (a.getImageData()[i] == t) ++n;
    ASSERT(count(a, t) == n, "count");
    ASSERT(count(std::execution::seq, a, t) == n, "count.policy");
    ASSERT(unique_value(a, t) == (n == 1), "unique_value");
}
CONTRACT(C13_count_i32) { count_<int>(); }
CONTRACT(C13_count_f64) { count_<double>(); }
template<class T> void minmax_()
{
    DIMS;
    const auto a = vk::image<T>("a", W, H);
    const auto& d = a.getImageData();
    T lo = d[0], hi = d[0];
    for (std::size_t i = 0; i < d.size(); ++i) { if (d[i] < lo) lo = d[i]; if (hi < d[i]) hi = d[i]; }
    ASSERT(min(a) == lo, "min");
    ASSERT(max(a) == hi, "max");
}
CONTRACT(C13_minmax_i32) { minmax_<int>(); }
CONTRACT(C13_minmax_u8) { minmax_<std::uint8_t>(); }
CONTRACT(C13_minmax_probe)
{
    DIMS; A; PROBE;
    ASSERT(min(a) <= RAW(a, px, py), "min.every-pixel");
    ASSERT(max(a) >= RAW(a, px, py), "max.every-pixel");
}
template<class T> void minmax2_()     //  std::minmax_element reads pairs: not matched by the fold lemmas
{
    DIMS;
    const auto a = vk::image<T>("a", W, H);
    const auto [l, h] = minmax(a);
    ASSERT(l == min(a) && h == max(a), "minmax");
}
BOUNDED(B13_minmax_i32) { minmax2_<int>(); }
BOUNDED(B13_minmax_u8) { minmax2_<std::uint8_t>(); }
BOUNDED(B13_minmax_rgb)
{
    DIMS;
    const auto a = vk::image<RGB>("a", W, H);
    const auto lo = min(a), hi = max(a);
    ASSERT(lo.size() == 3 && hi.size() == 3, "channels");
    for (std::size_t c = 0; c < 3; ++c)
    {
        const auto p = getPlane(a, c);
        ASSERT(lo[c] == min(p) && hi[c] == max(p), "per channel");
    }
}
template<std::size_t N> void minmax_channels()
{
    DIMS;
    Image<MultiChannel<double, N>> a(W, H);
    for (std::size_t c = 0; c < N; ++c)
    {
        const auto p = vk::image<std::uint8_t>(("a" + std::to_string(c)).c_str(), W, H);
        for (std::size_t i = 0; i < p.getImageData().size(); ++i) a.set(i).channels[c] = p.getImageData()[i];
    }
    const auto lo = min(a), hi = max(a);
    ASSERT(lo.size() == N && hi.size() == N, "channels");
    for (std::size_t c = 0; c < N; ++c)
    {
        const auto p = getPlane(a, c);
        ASSERT(lo[c] == min(p) && hi[c] == max(p), "per channel");
    }
}
BOUNDED(B13_minmax_2_channels) { minmax_channels<2>(); }
BOUNDED(B13_minmax_4_channels) { minmax_channels<4>(); }
CONTRACT(C13_sum)
{
    DIMS;
    const auto a = vk::image<u64>("a", W, H);
    u64 s = 0;
    for (std::size_t i = 0; i < a.getImageData().size(); ++i) s += a.getImageData()[i];
    ASSERT(sum(a) == s, "sum");
    ASSERT(sum(std::execution::seq, a) == s, "sum.policy");
}
CONTRACT(C13_mean)
{
    DIMS;
    const auto a = vk::image<u64>("a", W, H);
    u64 s = 0;
    for (std::size_t i = 0; i < a.getImageData().size(); ++i) s += a.getImageData()[i];
    ASSERT(mean(a) == s / (W * H), "mean");
}
template<class T> void replace_()
{
    DIMS;
    const auto a = vk::image<T>("a", W, H);
    const T t = vk::value<T>("t"), v = vk::value<T>("v");
    const auto o1 = replace(a, t, v), o2 = replace(std::execution::par, a, t, v);
    ASSERT(SHAPE(o1, W, H) && SHAPE(o2, W, H), "replace.shape");
    PROBE;
    const T x = RAW(a, px, py);
    ASSERT(vk::same(RAW(o1, px, py), x == t ? v : x), "replace.pixel");
    ASSERT(vk::same(RAW(o2, px, py), x == t ? v : x), "replace.pixel.policy");
}
CONTRACT(C13_replace_i32) { replace_<int>(); }
CONTRACT(C13_replace_f64) { replace_<double>(); }
CONTRACT(C13_replace_rgb) { replace_<RGB>(); }
