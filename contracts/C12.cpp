// conv2 / convolution: every output pixel is the sum over exactly the overlapping pixel pairs.
#include "img.h"
#define SHAPE(im, w, h) ((im).getDimensionality() == 2 && (im).getWidth() == (w) && (im).getHeight() == (h) && (im).getImageData().size() == (w) * (h))
using u64 = std::uint64_t;
using i64 = std::int64_t;
constexpr std::size_t KMAX =
#ifdef VK_REPLAY
    5;
#else
    std::size_t{1} << 19;
#endif
//  definition: out(ox, oy) = sum of x(j, i) * k(ox - j, oy - i) over all j, i for which both exist
template<class T, class A, class B> T conv_at(const A& x, const B& k, std::size_t ox, std::size_t oy)
{
    const i64 xw = x.getWidth(), xh = x.getHeight(), kw = k.getWidth(), kh = k.getHeight();
    const i64 X = ox, Y = oy;
    T s{};
    for (i64 i = std::max(i64{0}, Y - kh + 1); i <= std::min(xh - 1, Y); ++i)
        for (i64 j = std::max(i64{0}, X - kw + 1); j <= std::min(xw - 1, X); ++j)
            s += static_cast<T>(x.getImageData()[i * xw + j]) * static_cast<T>(k.getImageData()[(Y - i) * kw + (X - j)]);
    return s;
}
#define KDIMS const std::size_t KW = vk::size("KW", 1, KMAX), KH = vk::size("KH", 1, KMAX)
template<class T1, class T2, class P> void full_(P pol)
{
    DIMS; KDIMS;
    const auto a = vk::image<T1>("a", W, H);
    const auto k = vk::image<T2>("k", KW, KH);
    const auto out = pol(a, k, false);
    using T = std::common_type_t<T1, T2>;
    ASSERT(SHAPE(out, W + KW - 1, H + KH - 1), "conv2.full.shape");
    const std::size_t px = vk::size("px", 0, W + KW - 2), py = vk::size("py", 0, H + KH - 2);
    ASSERT(vk::same(RAW(out, px, py), conv_at<T>(a, k, px, py)), "conv2.full.value");
}
template<class T1, class T2, class P> void same_(P pol)
{
    DIMS; KDIMS;
    const auto a = vk::image<T1>("a", W, H);
    const auto k = vk::image<T2>("k", KW, KH);
    const auto out = pol(a, k, true);
    using T = std::common_type_t<T1, T2>;
    ASSERT(SHAPE(out, W, H), "conv2.same.shape");
    PROBE;
    //  the central part of the full convolution; an odd kernel is centred on the pixel
    const std::size_t dx = (W + KW - 1) / 2 - W / 2, dy = (H + KH - 1) / 2 - H / 2;
    ASSERT(vk::same(RAW(out, px, py), conv_at<T>(a, k, px + dx, py + dy)), "conv2.same.value");
}
auto plain = [](auto& a, auto& k, bool s) { return conv2(a, k, s); };
auto seq = [](auto& a, auto& k, bool s) { return conv2(std::execution::seq, a, k, s); };
auto nd = [](auto& a, auto& k, bool s) { return convolution(a, k, s); };
CONTRACT(C12_full_u64) { full_<u64, u64>(plain); }
CONTRACT(C12_full_policy_u64) { full_<u64, u64>(seq); }
CONTRACT(C12_full_f64) { full_<double, double>(plain); }
CONTRACT(C12_full_mixed) { full_<std::uint32_t, u64>(plain); }
CONTRACT(C12_same_u64) { same_<u64, u64>(plain); }
CONTRACT(C12_same_f64) { same_<double, double>(seq); }
CONTRACT(C12_same_policy_u64) { same_<u64, u64>(seq); }
BOUNDED(B12_convolution_full) { full_<u64, u64>(nd); }
BOUNDED(B12_convolution_same) { same_<u64, u64>(nd); }
//  colour images are convolved plane by plane
CONTRACT(C12_planes)
{
    DIMS; KDIMS;
    const auto a = vk::image<RGB_DOUBLE>("a", W, H);
    const auto k = vk::image<double>("k", KW, KH);
    const auto out = conv2(a, k, true);
    ASSERT(SHAPE(out, W, H), "conv2.planes.shape");
    PROBE;
    const std::size_t dx = (W + KW - 1) / 2 - W / 2, dy = (H + KH - 1) / 2 - H / 2;
    const auto p0 = getPlane(a, 0), p1 = getPlane(a, 1), p2 = getPlane(a, 2);
    ASSERT(vk::same(RAW(out, px, py).channels[0], conv_at<double>(p0, k, px + dx, py + dy)), "conv2.plane0");
    ASSERT(vk::same(RAW(out, px, py).channels[1], conv_at<double>(p1, k, px + dx, py + dy)), "conv2.plane1");
    ASSERT(vk::same(RAW(out, px, py).channels[2], conv_at<double>(p2, k, px + dx, py + dy)), "conv2.plane2");
}
