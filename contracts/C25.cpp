// Resizing: the requested shape, and every pixel interpolated from the source pixels around its position.
#include "img.h"
#include <cmath>
#include <execution>
using u8 = std::uint8_t; using i32 = std::int32_t; using u32 = std::uint32_t;
#define SHAPE(im, w, h) ((im).getDimensionality() == 2 && (im).getWidth() == (w) && (im).getHeight() == (h) && (im).getImageData().size() == (w) * (h))
#define NEW const std::size_t NW = vk::size("NW", 1, vk::MAXDIM), NH = vk::size("NH", 1, vk::MAXDIM)
template<class T> static void nearest()
{
    DIMS; NEW;
    const auto a = vk::image<T>("a", W, H);
    const auto r = resize_nearest_neighbor(a, NW, NH);
    ASSERT(SHAPE(r, NW, NH), "nearest.shape");
    const std::size_t x = vk::size("x", 0, NW - 1), y = vk::size("y", 0, NH - 1);
    ASSERT(vk::same(RAW(r, x, y), RAW(a, x * W / NW, y * H / NH)), "nearest.source-pixel");
}
CONTRACT(C25_nearest) { nearest<i32>(); }
CONTRACT(C25_nearest_f64) { nearest<double>(); }
CONTRACT(C25_nearest_identity)
{
    DIMS;
    const auto a = vk::image<u8>("a", W, H);
    const auto r = resize_nearest_neighbor(a, W, H);
    ASSERT(SHAPE(r, W, H), "nearest.identity-shape");
    PROBE;
    ASSERT(RAW(r, px, py) == RAW(a, px, py), "nearest.identity");
}
//  enlarging by a whole factor repeats every pixel in a block
CONTRACT(C25_nearest_blocks)
{
    const std::size_t W = vk::size("W", 1, 1024), H = vk::size("H", 1, 1024);
    const std::size_t k = vk::size("k", 1, 16);
    const auto a = vk::image<u8>("a", W, H);
    const auto r = resize_nearest_neighbor(a, k * W, k * H);
    PROBE;
    const std::size_t i = vk::size("i", 0, k - 1), j = vk::size("j", 0, k - 1);
    ASSERT(RAW(r, k * px + i, k * py + j) == RAW(a, px, py), "nearest.blocks");
}
//  the cubic through four samples: over the reals
static double cubic(double v0, double v1, double v2, double v3, double f)
{
    const double p = (v3 - v2) - (v0 - v1);
    return ((p * f + ((v0 - v1) - p)) * f + (v2 - v0)) * f + v1;
}
CONTRACT(C25_cubic)
{
    const double v0 = vk_f64_("v0"), v1 = vk_f64_("v1"), v2 = vk_f64_("v2"), v3 = vk_f64_("v3"), f = vk_f64_("f");
    ASSERT(vk::near(cubic_interpolate(v0, v1, v2, v3, f), cubic(v0, v1, v2, v3, f)), "cubic.polynomial");
    ASSERT(vk::near(cubic_interpolate(v0, v1, v2, v3, 0.0), v1), "cubic.start");
    ASSERT(vk::near(cubic_interpolate(v0, v1, v2, v3, 1.0), v2), "cubic.end");
    ASSERT(vk::near(cubic_interpolate(v1, v1, v1, v1, f), v1), "cubic.constant");
}
CONTRACT(C25_cubic_u8)
{
    const u8 v0 = vk::value<u8>("v0"), v1 = vk::value<u8>("v1"), v2 = vk::value<u8>("v2"), v3 = vk::value<u8>("v3");
    const double f = vk_f64_("f");
    ASSERT(vk::near(cubic_interpolate(v0, v1, v2, v3, f), cubic(v0, v1, v2, v3, f)), "cubic.integral");
}
static double kernel(double d)
{
    const double t = std::abs(d), a = -0.5;
    return t <= 1 ? (a + 2) * t * t * t - (a + 3) * t * t + 1 : t < 2 ? a * t * t * t - 5 * a * t * t + 8 * a * t - 4 * a : 0.0;
}
//  interpolated values, natively: the formula in double precision at every pixel
template<class T> static bool close(T got, double want, double slack)
{
    if constexpr (std::is_integral_v<T>)
    {
        const double lo = std::max(want - slack, static_cast<double>(std::numeric_limits<T>::lowest())), hi = std::min(want + slack, static_cast<double>(std::numeric_limits<T>::max()));
        return static_cast<double>(got) >= std::floor(std::min(lo, static_cast<double>(std::numeric_limits<T>::max()))) && static_cast<double>(got) <= std::ceil(std::max(hi, static_cast<double>(std::numeric_limits<T>::lowest())));
    }
    else return std::abs(static_cast<double>(got) - want) <= slack;
}
template<class T> static double at_clamped(const Image<T>& a, double x, double y)
{
    const double cx = std::min(std::max(x, 0.0), static_cast<double>(a.getWidth() - 1)), cy = std::min(std::max(y, 0.0), static_cast<double>(a.getHeight() - 1));
    return static_cast<double>(RAW(a, static_cast<std::size_t>(cx), static_cast<std::size_t>(cy)));
}
template<class T, class F> static void bicubic()
{
    const std::size_t W = vk::size("W", 1, 5), H = vk::size("H", 1, 5), NW = vk::size("NW", 1, 9), NH = vk::size("NH", 1, 9);
    const auto a = vk::image<T>("a", W, H);
    const auto r = copyResizeBicubic<F>(a, NW, NH);
    ASSERT(SHAPE(r, NW, NH), "bicubic.shape");
    double big = 1;
    for (auto v : a.getImageData()) big = std::max(big, std::abs(static_cast<double>(v)));
    for (std::size_t y = 0; y < NH; ++y) for (std::size_t x = 0; x < NW; ++x)
    {
        const double sx = static_cast<double>(static_cast<F>(x) * (static_cast<F>(W) / static_cast<F>(NW))), sy = static_cast<double>(static_cast<F>(y) * (static_cast<F>(H) / static_cast<F>(NH)));
        const double fx = std::floor(sx), fy = std::floor(sy);
        double c[4];
        for (int j = 0; j < 4; ++j) c[j] = cubic(at_clamped(a, fx - 1, fy - 1 + j), at_clamped(a, fx, fy - 1 + j), at_clamped(a, fx + 1, fy - 1 + j), at_clamped(a, fx + 2, fy - 1 + j), sx - fx);
        ASSERT(close(RAW(r, x, y), cubic(c[0], c[1], c[2], c[3], sy - fy), big * 1e-4), "bicubic.pixel");
    }
    const auto same = copyResizeBicubic<F>(a, W, H);
    ASSERT(same.getSize() == a.getSize() && same.getImageData() == a.getImageData(), "bicubic.identity");
}
BOUNDED(B25_bicubic_f32) { bicubic<float, float>(); }
BOUNDED(B25_bicubic_f64) { bicubic<double, double>(); }
BOUNDED(B25_bicubic_u8) { bicubic<u8, float>(); }
BOUNDED(B25_bicubic_i16) { bicubic<std::int16_t, double>(); }
//  every channel is resized by itself
BOUNDED(B25_bicubic_rgb)
{
    const std::size_t W = vk::size("W", 1, 4), H = vk::size("H", 1, 4), NW = vk::size("NW", 1, 6), NH = vk::size("NH", 1, 6);
    const auto a = vk::image<RGB>("a", W, H);
    const auto r = copyResizeBicubic(a, NW, NH);
    ASSERT(SHAPE(r, NW, NH), "bicubic.rgb-shape");
    for (std::size_t c = 0; c < 3; ++c) ASSERT(getPlane(r, c) == copyResizeBicubic<double>(getPlane(a, c), NW, NH), "bicubic.channel");
}
static double lanczos(double d, int a)
{
    const double pi = 3.14159265358979323846;
    return std::abs(d) < 1e-12 ? 1.0 : std::abs(d) < a ? a * std::sin(pi * d) * std::sin(pi * d / a) / (pi * pi * d * d) : 0.0;
}
template<class T> static void lanczos_image()
{
    const std::size_t W = vk::size("W", 1, 5), H = vk::size("H", 1, 4), NW = vk::size("NW", 1, 8), NH = vk::size("NH", 1, 6);
    const int a = static_cast<int>(vk::size("a", 1, 4));
    const auto im = vk::image<T>("im", W, H);
    const auto r = lanczos_resample(im, NW, NH, a), q = lanczos_resample(std::execution::seq, im, NW, NH, a);
    ASSERT(SHAPE(r, NW, NH), "lanczos.shape");
    ASSERT(SHAPE(q, NW, NH) && r.getImageData() == q.getImageData(), "lanczos.policy");
    double big = 1;
    for (auto v : im.getImageData()) big = std::max(big, std::abs(static_cast<double>(v)));
    for (std::size_t y = 0; y < NH; ++y) for (std::size_t x = 0; x < NW; ++x)
    {
        const double sx = (static_cast<double>(x) + 0.5) * static_cast<double>(W) / static_cast<double>(NW) - 0.5, sy = (static_cast<double>(y) + 0.5) * static_cast<double>(H) / static_cast<double>(NH) - 0.5;
        double s = 0, t = 0;
        for (int j = -a; j <= a; ++j) for (int i = -a; i <= a; ++i)
        {
            const double w = lanczos(sx - std::floor(sx) - i, a) * lanczos(sy - std::floor(sy) - j, a);
            s += w * at_clamped(im, std::floor(sx) + i, std::floor(sy) + j);
            t += w;
        }
        ASSERT(close(RAW(r, x, y), s / t, std::is_integral_v<T> ? 0.501 : big * 1e-4), "lanczos.pixel");
    }
    if (const auto same = lanczos_resample(im, W, H, a); true)
        for (std::size_t i = 0; i < W * H; ++i) ASSERT(close(same.getImageData()[i], static_cast<double>(im.getImageData()[i]), std::is_integral_v<T> ? 0.0 : big * 1e-5), "lanczos.identity");
    Image<T> constant = im;
    constant.setAllValue(im.getImageData()[0]);
    const auto flat = lanczos_resample(constant, NW, NH, a);
    for (auto v : flat.getImageData()) ASSERT(close(v, static_cast<double>(im.getImageData()[0]), std::is_integral_v<T> ? 0.0 : big * 1e-5), "lanczos.constant");
}
BOUNDED(B25_lanczos_f64) { lanczos_image<double>(); }
BOUNDED(B25_lanczos_f32) { lanczos_image<float>(); }
BOUNDED(B25_lanczos_u8) { lanczos_image<u8>(); }
BOUNDED(B25_lanczos_rgb)
{
    const std::size_t W = vk::size("W", 1, 4), H = vk::size("H", 1, 4), NW = vk::size("NW", 1, 6), NH = vk::size("NH", 1, 6);
    const auto a = vk::image<RGB>("a", W, H);
    const auto r = lanczos_resample(a, NW, NH), q = lanczos_resample(std::execution::seq, a, NW, NH);
    ASSERT(SHAPE(r, NW, NH) && SHAPE(q, NW, NH), "lanczos.rgb-shape");
    for (std::size_t c = 0; c < 3; ++c)
    {
        ASSERT(getPlane(r, c) == lanczos_resample(getPlane(a, c), NW, NH), "lanczos.channel");
        ASSERT(getPlane(q, c) == getPlane(r, c), "lanczos.channel-policy");
    }
}
CONTRACT(C25_lanczos_kernel)
{
    const double x = vk_f64_("x");
    const int a = static_cast<int>(vk::size("a", 1, 8));
    ASSERT(vk::same(lanczos_kernel(0.0, a), 1.0), "lanczos-kernel.centre");
    if (!(std::abs(x) < static_cast<double>(a))) ASSERT(std::abs(x) < std::numeric_limits<double>::epsilon() || vk::same(lanczos_kernel(x, a), 0.0), "lanczos-kernel.support");
}
BOUNDED(B25_lanczos_kernel)
{
    const double x = vk_f64_("x") / 4096.0;
    const int a = static_cast<int>(vk::size("a", 1, 8));
    ASSERT(std::abs(lanczos_kernel(x, a) - lanczos(x, a)) < 1e-9, "lanczos-kernel.value");
}
CONTRACT(C25_lanczos_dimensions)
{
    const std::size_t X = vk::size("X", 1, vk::MAXDIM), Y = vk::size("Y", 1, vk::MAXDIM), Z = vk::size("Z", 1, 16), NW = vk::size("NW", 1, vk::MAXDIM), NH = vk::size("NH", 1, vk::MAXDIM);
    const Image<double> a(X, Y, Z);
    ASSERT(vk::outcome([&] { lanczos_resample(a, NW, NH); }) == vk::RUNTIME_ERROR, "lanczos.dimensions");
    ASSERT(vk::outcome([&] { lanczos_resample(std::execution::seq, a, NW, NH); }) == vk::RUNTIME_ERROR, "lanczos.dimensions-policy");
}
//  point interpolation
CONTRACT(C25_cubic_kernel)
{
    const double f = vk_f64_("f");
    ASSERT(vk::near(cubic_kernel(f), kernel(f)), "cubic-kernel.value");
    ASSERT(vk::near(cubic_kernel(f), cubic_kernel(-f)), "cubic-kernel.symmetric");
}
template<class T> static void bilinear()
{
    const std::size_t W = vk::size("W", 1, 5), H = vk::size("H", 1, 5);
    const auto a = vk::image<T>("a", W, H);
    const double x = static_cast<double>(vk::size("x", 0, 24)) / 4 - 0.5, y = static_cast<double>(vk::size("y", 0, 24)) / 4 - 0.5;
    const T got = bilinear_interpolate(a, x, y);
    const bool inside = x >= 0 && y >= 0 && x <= static_cast<double>(W - 1) && y <= static_cast<double>(H - 1);
    const double fx = x - std::floor(x), fy = y - std::floor(y);
    const double want = inside ? (at_clamped(a, std::floor(x), std::floor(y)) * (1 - fx) + at_clamped(a, std::floor(x) + 1, std::floor(y)) * fx) * (1 - fy)
                               + (at_clamped(a, std::floor(x), std::floor(y) + 1) * (1 - fx) + at_clamped(a, std::floor(x) + 1, std::floor(y) + 1) * fx) * fy : 0.0;
    ASSERT(close(got, want, 1e-3), "bilinear");
}
BOUNDED(B25_bilinear_f64) { bilinear<double>(); }
BOUNDED(B25_bilinear_u8) { bilinear<u8>(); }
BOUNDED(B25_bicubic_point)
{
    const std::size_t W = vk::size("W", 4, 6), H = vk::size("H", 4, 6);
    const auto a = vk::image<double>("a", W, H);
    const double x = 1 + static_cast<double>(vk::size("x", 0, 4 * (W - 3) - 1)) / 4, y = 1 + static_cast<double>(vk::size("y", 0, 4 * (H - 3) - 1)) / 4;
    double s = 0;
    for (std::size_t j = 0; j < H; ++j) for (std::size_t i = 0; i < W; ++i) s += RAW(a, i, j) * kernel(x - static_cast<double>(i)) * kernel(y - static_cast<double>(j));
    ASSERT(std::abs(default_bicubic_interpolator<double, double>{}(a, x, y) - s) < 1e-3, "bicubic-point");
}
//  turns
template<class F> static void quarter(F turn)
{
    DIMS;
    const auto a = vk::image<i32>("a", W, H);
    const auto r = turn(a);
    ASSERT(SHAPE(r, H, W), "quarter-turn.shape");
    PROBE;
    ASSERT(RAW(r, H - 1 - py, px) == RAW(a, px, py), "quarter-turn.pixel");
}
CONTRACT(C25_quarter_turn) { quarter([](const auto& a) { return rotate_detail(a, std::numbers::pi_v<long double> / 2.0); }); }
CONTRACT(C25_quarter_turn_shear) { quarter([](const auto& a) { return rotate_detail_shear_transformation(a, std::numbers::pi_v<long double> / 2.0); }); }
CONTRACT(C25_no_turn)
{
    DIMS;
    const auto a = vk::image<i32>("a", W, H);
    const auto r = rotate_detail(a, 0.0), s = rotate_detail_shear_transformation(a, 0.0);
    ASSERT(SHAPE(r, W, H) && SHAPE(s, W, H), "no-turn.shape");
    PROBE;
    ASSERT(RAW(r, px, py) == RAW(a, px, py) && RAW(s, px, py) == RAW(a, px, py), "no-turn.pixel");
}
CONTRACT(C25_turn_dimensions)
{
    const std::size_t X = vk::size("X", 1, vk::MAXDIM), Y = vk::size("Y", 1, vk::MAXDIM), Z = vk::size("Z", 1, 16);
    const Image<double> a(X, Y, Z);
    ASSERT(vk::outcome([&] { rotate_detail(a, 1.0); }) == vk::RUNTIME_ERROR, "turn.dimensions");
    ASSERT(vk::outcome([&] { rotate_detail_shear_transformation(a, 1.0); }) == vk::RUNTIME_ERROR, "turn.dimensions-shear");
}
//  recorded, not repaired
BOUNDED(K25_rotate_quarter) { quarter([](const auto& a) { return rotate_degree(a, 90.0); }); }
BOUNDED(B25_turn)
{
    const std::size_t W = vk::size("W", 1, 6), H = vk::size("H", 1, 6);
    const double t = static_cast<double>(vk::size("degrees", 1, 719)) * 3.14159265358979323846 / 180 - 6.28318530717958647692;
    const auto a = vk::image<double>("a", W, H);
    const double h = std::abs(static_cast<double>(H) * std::cos(t)) + std::abs(static_cast<double>(W) * std::sin(t)), w = std::abs(static_cast<double>(W) * std::cos(t)) + std::abs(static_cast<double>(H) * std::sin(t));
    if (std::abs(h - std::round(h)) < 1e-9 || std::abs(w - std::round(w)) < 1e-9) return;
    //  the interpolator is told the source position of every pixel
    const auto r = rotate_detail_shear_transformation(a, t, [](const Image<double>&, double x, double y) { return 1000 * x + y; });
    ASSERT(SHAPE(r, static_cast<std::size_t>(std::ceil(w)), static_cast<std::size_t>(std::ceil(h))), "turn.shape");
    for (std::size_t y = 0; y < r.getHeight(); ++y) for (std::size_t x = 0; x < r.getWidth(); ++x)
    {
        const double u = static_cast<double>(x) - (static_cast<double>(r.getWidth()) - 1) / 2, v = static_cast<double>(y) - (static_cast<double>(r.getHeight()) - 1) / 2;
        const double sx = u * std::cos(t) + v * std::sin(t) + (static_cast<double>(W) - 1) / 2, sy = v * std::cos(t) - u * std::sin(t) + (static_cast<double>(H) - 1) / 2;
        ASSERT(std::abs(RAW(r, x, y) - (1000 * sx + sy)) < 1e-6, "turn.source");
    }
}
BOUNDED(B25_bilinear_rgb)
{
    const std::size_t W = vk::size("W", 1, 5), H = vk::size("H", 1, 5);
    const auto a = vk::image<RGB>("a", W, H);
    const double x = static_cast<double>(vk::size("x", 0, 24)) / 4 - 0.5, y = static_cast<double>(vk::size("y", 0, 24)) / 4 - 0.5;
    const RGB got = bilinear_interpolate(a, x, y);
    for (std::size_t c = 0; c < 3; ++c) ASSERT(got.channels[c] == bilinear_interpolate(getPlane(a, c), x, y), "bilinear.plane");
}
BOUNDED(B25_cubic_complex)
{
    std::complex<double> v[4];
    for (int i = 0; i < 4; ++i) v[i] = { 1.0 * static_cast<int>(vk_u64_(("r" + std::to_string(i)).c_str(), 0, 9)), 1.0 * static_cast<int>(vk_u64_(("i" + std::to_string(i)).c_str(), 0, 9)) };
    const double f = 0.125 * vk_u64_("f", 0, 8);
    const auto g = cubic_interpolate(v[0], v[1], v[2], v[3], f);
    ASSERT(close(g.real(), cubic_interpolate(v[0].real(), v[1].real(), v[2].real(), v[3].real(), f), 1e-9), "cubic.real");
    ASSERT(close(g.imag(), cubic_interpolate(v[0].imag(), v[1].imag(), v[2].imag(), v[3].imag(), f), 1e-9), "cubic.imag");
}
