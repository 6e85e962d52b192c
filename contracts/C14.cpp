// Histograms: every pixel is counted once, at its value.
#include "img.h"
#include <map>
using u8 = std::uint8_t; using u16 = std::uint16_t;
//  a dense histogram with arbitrary counts
template<class T> constexpr std::size_t BINS = std::size_t{std::numeric_limits<T>::max()} + 1;
template<class T, class C = std::size_t> static std::vector<C> counts(const char* name) { std::vector<C> v(BINS<T>); vk::fill(v, name); return v; }
#define KEY(T, k) const T k = static_cast<T>(vk::size(#k, 0, BINS<T> - 1))
template<class T> static void add_count()
{
    auto v = counts<T>("v");
    Histogram<T> h(v);
    KEY(T, key); KEY(T, probe);
    h.addCount(key);
    ASSERT(h.size() == v.size(), "add.size-kept");
    ASSERT(h.getCount(probe) == v[probe] + (probe == key), "add.exactly-one");
}
template<class T> static void empty_()
{
    const Histogram<T> h;
    KEY(T, probe);
    ASSERT(h.size() == BINS<T> && h.getCount(probe) == 0, "empty.all-zero");
}
template<class T> static void access()
{
    auto v = counts<T>("v");
    Histogram<T> h(v);
    const Histogram<T> c(v);
    KEY(T, key); KEY(T, probe);
    ASSERT(h.getCount(probe) == v[probe] && h[probe] == v[probe] && c[probe] == v[probe], "access.read");
    const std::size_t x = vk::size("x", 0, vk::HUGE_);
    h[key] = x;
    ASSERT(h.getCount(probe) == (probe == key ? x : v[probe]), "access.write");
}
template<class T> static void iterate()
{
    auto v = counts<T>("v");
    Histogram<T> h(v);
    const Histogram<T> c(v);
    KEY(T, probe);
    const auto b = h.begin();
    const auto cb = c.begin();
    const auto ccb = c.cbegin();
    ASSERT(h.end() - b == static_cast<std::ptrdiff_t>(BINS<T>) && c.end() - cb == static_cast<std::ptrdiff_t>(BINS<T>) && c.cend() - ccb == static_cast<std::ptrdiff_t>(BINS<T>), "iterate.length");
    ASSERT(b[probe] == v[probe] && cb[probe] == v[probe] && ccb[probe] == v[probe], "iterate.values");
}
template<class T> static void plus_()
{
    auto v = counts<T>("v"), w = counts<T>("w");
    const Histogram<T> a(v), b(w);
    const auto s = a + b;
    KEY(T, probe);
    ASSERT(s.getCount(probe) == v[probe] + w[probe], "plus.bin");
    ASSERT(a.getCount(probe) == v[probe] && b.getCount(probe) == w[probe], "plus.operands-kept");
}
template<class T> static void minus_()
{
    auto v = counts<T>("v"), w = counts<T>("w");
    const Histogram<T> a(v), b(w);
    const auto s = a - b;
    KEY(T, probe);
    ASSERT(s.getCount(probe) == (v[probe] >= w[probe] ? v[probe] - w[probe] : 0), "minus.bin");
    ASSERT(a.getCount(probe) == v[probe] && b.getCount(probe) == w[probe], "minus.operands-kept");
}
template<class T> static void sum_()
{
    auto v = counts<T>("v");
    const Histogram<T> h(v);
    std::size_t s = 0;
    for (std::size_t i = 0; i < v.size(); ++i) s += v[i];
    ASSERT(h.getCountSum() == s, "sum.all-bins");
}
template<class T> static void normalize_()
{
    auto v = counts<T>("v");
    Histogram<T> h(v);
    const auto total = h.getCountSum();
    const auto n = h.normalize();
    const auto p = h.to_probabilities_vector();
    KEY(T, probe);
    const double want = static_cast<double>(v[probe]) / static_cast<double>(total);
    ASSERT(vk::same(n.getCount(probe), want), "normalize.share");
    ASSERT(p.size() == BINS<T> && vk::same(p[probe], want), "probabilities.share");
}
#define ALL(n, T) \
CONTRACT(C14_empty_##n) { empty_<T>(); } \
CONTRACT(C14_add_##n) { add_count<T>(); } \
CONTRACT(C14_access_##n) { access<T>(); } \
CONTRACT(C14_iterate_##n) { iterate<T>(); } \
CONTRACT(C14_plus_##n) { plus_<T>(); } \
CONTRACT(C14_minus_##n) { minus_<T>(); } \
CONTRACT(C14_sum_##n) { sum_<T>(); } \
CONTRACT(C14_normalize_##n) { normalize_<T>(); }
ALL(u8, u8)
ALL(u16, u16)
template<class T> static void of_image()
{
    const std::size_t W = vk::size("W", 1, sizeof(T) == 2 ? 9 : 40), H = vk::size("H", 1, sizeof(T) == 2 ? 9 : 40);
    const auto in = vk::image<T>("in", W, H);
    auto h = TinyDIP::histogram(in);
    std::map<T, std::size_t> want;
    for (const auto& x : in.getImageData()) ++want[x];
    for (const auto& [k, n] : want) ASSERT(h.getCount(k) == n && h[k] == n, "image.count");
    ASSERT(h.getCountSum() == W * H, "image.total");
    if constexpr (sizeof(T) > 2)
    {
        ASSERT(h.size() == want.size(), "image.keys");
        std::map<T, std::size_t> seen;
        for (const auto& [k, n] : h) seen[k] = n;
        ASSERT(seen == want, "image.iteration");
    }
    if (W * H)
    {
        auto p = TinyDIP::histogram_normalized(in);
        auto q = h.normalize();
        for (const auto& [k, n] : want)
        {
            ASSERT(std::abs(p[k] - static_cast<double>(n) / (W * H)) < 1e-9, "image.normalized");
            ASSERT(std::abs(q.getCount(k) - static_cast<double>(n) / (W * H)) < 1e-12, "image.normalize");
        }
    }
}
BOUNDED(B14_image_u8) { of_image<u8>(); }
BOUNDED(B14_image_u16) { of_image<u16>(); }
BOUNDED(B14_image_i32) { of_image<int>(); }
BOUNDED(B14_image_f64) { of_image<double>(); }
BOUNDED(B14_sparse)
{
    const std::size_t W = vk::size("W", 1, 9), H = vk::size("H", 1, 9);
    auto small = [](Image<int> i) { for (auto y = 0u; y < i.getHeight(); ++y) for (auto x = 0u; x < i.getWidth(); ++x) i.at(x, y) %= 7; return i; };
    const auto a = small(vk::image<int>("a", W, H)), b = small(vk::image<int>("b", W, H));
    const Histogram<int> ha(a), hb(b);
    const auto s = ha + hb, d = ha - hb;
    for (int k = -8; k <= 8; ++k)
    {
        const auto x = ha.getCount(k), y = hb.getCount(k);
        ASSERT(s.getCount(k) == x + y, "sparse.plus");
        ASSERT(d.getCount(k) == (x >= y ? x - y : 0), "sparse.minus");
        ASSERT(ha[k] == x, "sparse.subscript");
    }
    ASSERT(s.getCountSum() == 2 * W * H, "sparse.total");
}
template<class T> static void bins()
{
    const std::size_t W = vk::size("W", 1, 40), H = vk::size("H", 1, 40);
    const auto in = vk::image<T>("in", W, H);
    T lo = vk::value<T>("lo"), hi = vk::value<T>("hi");
    ASSUME(lo < hi);
    auto img = in;
    for (std::size_t y = 0; y < H; ++y) for (std::size_t x = 0; x < W; ++x) img.at(x, y) = std::clamp(in.at(x, y), lo, hi);
    const auto h = TinyDIP::histogram_with_bins<8>(img, lo, hi);
    std::size_t want[8]{};
    for (const auto& v : img.getImageData())
    {
        std::size_t b = static_cast<std::size_t>((static_cast<double>(v) - lo) * 8 / (static_cast<double>(hi) - lo));
        ++want[b > 7 ? 7 : b];
    }
    std::size_t n = 0;
    for (int i = 0; i < 8; ++i) { ASSERT(h[i] == want[i], "bins.count"); n += h[i]; }
    ASSERT(n == W * H, "bins.total");
}
BOUNDED(B14_bins_u8) { bins<u8>(); }
BOUNDED(B14_bins_i16) { bins<std::int16_t>(); }
BOUNDED(B14_otsu)
{
    const std::size_t W = vk::size("W", 1, 20), H = vk::size("H", 1, 20);
    const auto in = vk::image<u8>("in", W, H);
    const std::size_t t = TinyDIP::otsu_threshold(in);
    double n[256]{}, all = 0, mean = 0;
    for (const auto& v : in.getImageData()) { n[v] += 1; all += 1; mean += v; }
    auto between = [&](std::size_t k)
    {
        double w1 = 0, m1 = 0;
        for (std::size_t i = 0; i <= k; ++i) { w1 += n[i]; m1 += n[i] * i; }
        const double w2 = all - w1, m2 = mean - m1;
        if (w1 == 0 || w2 == 0) return -1.0;
        return w1 / all * (w2 / all) * (m1 / w1 - m2 / w2) * (m1 / w1 - m2 / w2);
    };
    double best = -1;
    for (std::size_t k = 0; k < 256; ++k) best = std::max(best, between(k));
    if (best > 1e-6)
    {
        ASSERT(t < 256, "otsu.found");
        ASSERT(between(t) >= best * (1 - 1e-9) - 1e-12, "otsu.best-split");
    }
}
//  the histogram of an image of any size: the count at a value is the number of pixels that have it
template<class T> static void counted()
{
    DIMS;
    const auto in = vk::image<T>("in", W, H);
    const auto h = TinyDIP::histogram(in);
    KEY(T, probe);
    std::size_t n = 0;
    for (std::size_t i = 0; i < W * H; ++i) n += in.getImageData()[i] == probe;
    ASSERT(h.getCount(probe) == n, "image.count");
}
CONTRACT(C14_image_u8) { counted<u8>(); }
CONTRACT(C14_image_u16) { counted<u16>(); }
