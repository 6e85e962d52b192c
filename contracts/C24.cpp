// Element-wise mathematics and generated images: every element is the function of the element at its place.
#include "img.h"
#include <cmath>
#include <complex>
#include <random>
using u8 = std::uint8_t; using u32 = std::uint32_t; using u64 = std::uint64_t;
#define SHAPE(im, w, h) ((im).getDimensionality() == 2 && (im).getWidth() == (w) && (im).getHeight() == (h) && (im).getImageData().size() == (w) * (h))
template<std::size_t N> static MultiChannel<double, N> mc(const char* name) { return vk::value<MultiChannel<double, N>>(name); }
//  scalar and multi-channel overloads, with and without policy
template<class F, class P, class S> static void element_wise(F f, P p, S want)
{
    const double x = vk_f64_("x");
    ASSERT(vk::same(f(x), want(x)), "scalar");
    ASSERT(vk::same(p(x), want(x)), "scalar.policy");
    const auto m = mc<3>("m");
    const auto r = f(m), q = p(m);
    for (std::size_t i = 0; i < 3; ++i)
    {
        ASSERT(vk::same(r.channels[i], want(m.channels[i])), "channel");
        ASSERT(vk::same(q.channels[i], want(m.channels[i])), "channel.policy");
    }
    const auto n = mc<2>("n");
    const auto s = f(n);
    for (std::size_t i = 0; i < 2; ++i) ASSERT(vk::same(s.channels[i], want(n.channels[i])), "two-channels");
}
#define MATH(name, expr) \
CONTRACT(C24_##name) { element_wise([](const auto& v) { return TinyDIP::name(v); }, [](const auto& v) { return TinyDIP::name(std::execution::seq, v); }, [](double v) { return expr; }); }
MATH(sqrt, std::sqrt(v)) MATH(cbrt, std::cbrt(v)) MATH(sin, std::sin(v)) MATH(cos, std::cos(v)) MATH(tan, std::tan(v))
MATH(cot, 1 / std::tan(v)) MATH(sec, 1 / std::cos(v)) MATH(csc, 1 / std::sin(v))
MATH(asin, std::asin(v)) MATH(acos, std::acos(v)) MATH(atan, std::atan(v)) MATH(sinh, std::sinh(v)) MATH(cosh, std::cosh(v)) MATH(tanh, std::tanh(v))
MATH(asinh, std::asinh(v)) MATH(acosh, std::acosh(v)) MATH(atanh, std::atanh(v)) MATH(erf, std::erf(v)) MATH(erfc, std::erfc(v)) MATH(lgamma, std::lgamma(v)) MATH(tgamma, std::tgamma(v))
MATH(ceil, std::ceil(v)) MATH(floor, std::floor(v)) MATH(trunc, std::trunc(v)) MATH(nearbyint, std::nearbyint(v)) MATH(rint, std::rint(v)) MATH(logb, std::logb(v))
MATH(exp, std::exp(v)) MATH(exp2, std::exp2(v)) MATH(expm1, std::expm1(v)) MATH(log, std::log(v)) MATH(log10, std::log10(v)) MATH(log1p, std::log1p(v)) MATH(log2, std::log2(v))
MATH(ilogb, std::ilogb(v))
MATH(isfinite, std::isfinite(v)) MATH(isinf, std::isinf(v)) MATH(isnan, std::isnan(v)) MATH(isnormal, std::isnormal(v)) MATH(signbit, std::signbit(v)) MATH(fpclassify, std::fpclassify(v))
MATH(abs, std::abs(v))
//  images: the function at every pixel, the shape kept
template<class F, class S> static void on_image(F f, S want)
{
    DIMS;
    const auto a = vk::image<double>("a", W, H);
    const auto r = f(a);
    ASSERT(SHAPE(r, W, H), "image.shape");
    PROBE;
    ASSERT(vk::same(RAW(r, px, py), want(RAW(a, px, py))), "image.pixel");
}
#define IMAGE(name, expr) \
CONTRACT(C24_image_##name) { on_image([](const auto& v) { return TinyDIP::name(v); }, [](double v) { return expr; }); }
IMAGE(sin, std::sin(v)) IMAGE(cos, std::cos(v)) IMAGE(tan, std::tan(v)) IMAGE(cot, 1 / std::tan(v)) IMAGE(sec, 1 / std::cos(v)) IMAGE(csc, 1 / std::sin(v)) IMAGE(asin, std::asin(v)) IMAGE(acos, std::acos(v))
IMAGE(to_double, v)
CONTRACT(C24_to_double_u8)
{
    DIMS;
    const auto a = vk::image<u8>("a", W, H);
    const auto r = to_double(a), q = to_double(std::execution::seq, a);
    ASSERT(SHAPE(r, W, H) && SHAPE(q, W, H), "to_double.shape");
    PROBE;
    ASSERT(vk::same(RAW(r, px, py), static_cast<double>(RAW(a, px, py))), "to_double.pixel");
    ASSERT(vk::same(RAW(q, px, py), static_cast<double>(RAW(a, px, py))), "to_double.pixel.policy");
}
CONTRACT(C24_to_complex)
{
    DIMS;
    const auto a = vk::image<double>("a", W, H);
    const auto r = to_complex(a), q = to_complex(std::execution::seq, a);
    ASSERT(SHAPE(r, W, H) && SHAPE(q, W, H), "to_complex.shape");
    PROBE;
    const double x = RAW(a, px, py);
    ASSERT(vk::same(RAW(r, px, py).real(), x) && vk::same(RAW(r, px, py).imag(), 0.0), "to_complex.pixel");
    ASSERT(vk::same(RAW(q, px, py).real(), x) && vk::same(RAW(q, px, py).imag(), 0.0), "to_complex.pixel.policy");
}
//  generated images
CONTRACT(C24_zeros_ones)
{
    DIMS;
    const auto z = zeros<u32>(W, H), o = ones<u32>(W, H);
    ASSERT(SHAPE(z, W, H) && SHAPE(o, W, H), "zeros-ones.shape");
    PROBE;
    ASSERT(RAW(z, px, py) == 0, "zeros");
    ASSERT(RAW(o, px, py) == 1, "ones");
}
CONTRACT(C24_zeros_range)
{
    DIMS;
    const std::vector<std::size_t> s{ W, H };
    const auto z = zeros<double>(s);
    ASSERT(SHAPE(z, W, H), "zeros.shape");
    PROBE;
    ASSERT(RAW(z, px, py) == 0.0, "zeros.range");
}
CONTRACT(C24_generate)
{
    DIMS;
    u64 k = 7;
    const auto g = generate([&] { return k++; }, W, H);
    ASSERT(SHAPE(g, W, H), "generate.shape");
    PROBE;
    ASSERT(RAW(g, px, py) == 7 + py * W + px, "generate.in-order");
    ASSERT(k == 7 + W * H, "generate.once-per-pixel");
}
CONTRACT(C24_generate_range)
{
    DIMS;
    const std::vector<std::size_t> s{ W, H };
    const auto g = generate([] { return u32{ 5 }; }, s);
    ASSERT(SHAPE(g, W, H), "generate.shape");
    PROBE;
    ASSERT(RAW(g, px, py) == 5, "generate.value");
}
CONTRACT(C24_generate_3d)
{
    const std::size_t X = vk::size("X", 1, vk::MAXDIM >> 4), Y = vk::size("Y", 1, vk::MAXDIM >> 4), Z = vk::size("Z", 1, vk::MAXDIM >> 4);
    u64 k = 0;
    const auto g = generate([&] { return k++; }, X, Y, Z);
    ASSERT(g.getDimensionality() == 3 && g.getImageData().size() == X * Y * Z, "generate.3d");
    const std::size_t i = vk::size("i", 0, X * Y * Z - 1);
    ASSERT(g.getImageData()[i] == i, "generate.3d-order");
}
BOUNDED(B24_rand)
{
    DIMS;
    const u64 s = vk::size("seed", 0, 1000);
    const auto f = TinyDIP::rand<double>(std::mt19937{ static_cast<u32>(s) }, W, H);
    const int lo = static_cast<int>(vk::size("lo", 0, 9)) - 5, hi = lo + static_cast<int>(vk::size("span", 0, 4));
    const auto r = randi<int>(std::mt19937{ static_cast<u32>(s) }, std::pair<int, int>{ lo, hi }, W, H);
    ASSERT(SHAPE(f, W, H) && SHAPE(r, W, H), "rand.shape");
    for (auto v : f.getImageData()) ASSERT(v >= 0.0 && v < 1.0, "rand.range");
    for (auto v : r.getImageData()) ASSERT(v >= lo && v <= hi, "randi.range");
    std::mt19937 e{ static_cast<u32>(s) };
    std::uniform_int_distribution<int> d{ lo, hi };
    for (auto v : r.getImageData()) ASSERT(v == d(e), "randi.one-draw-per-pixel");
}
//  distances
CONTRACT(C24_manhattan)
{
    DIMS;
    const auto a = vk::image<u32>("a", W, H), b = vk::image<u32>("b", W, H);
    double s = 0;
    const auto d = difference(a, b);
    for (std::size_t i = 0; i < d.getImageData().size(); ++i) s += d.getImageData()[i];
    ASSERT(vk::same(static_cast<double>(manhattan_distance(a, b)), s), "manhattan");
}
CONTRACT(C24_manhattan_mismatch)
{
    DIMS;
    const std::size_t W2 = vk::size("W2", 1, vk::MAXDIM), H2 = vk::size("H2", 1, vk::MAXDIM);
    ASSUME(W2 != W || H2 != H);
    const auto a = vk::image<u32>("a", W, H), b = vk::image<u32>("b", W2, H2);
    ASSERT(vk::outcome([&] { manhattan_distance(a, b); }) == vk::RUNTIME_ERROR, "manhattan.mismatch");
}
template<std::size_t N> static void euclid()
{
    std::array<double, N> a, b;
    for (std::size_t i = 0; i < N; ++i) { a[i] = 0; b[i] = 0; }
    vk_fill_(a.data(), N, 5, "a"); vk_fill_(b.data(), N, 5, "b");
    double s = 0;
    for (std::size_t i = 0; i < N; ++i) s += (a[i] - b[i]) * (a[i] - b[i]);
    ASSERT(vk::near(euclidean_distance(a, b), std::sqrt(s)), "euclidean");
    ASSERT(vk::near(euclidean_distance(std::execution::seq, a, b), std::sqrt(s)), "euclidean.policy");
}
CONTRACT(C24_euclidean_2) { euclid<2>(); }
CONTRACT(C24_euclidean_3) { euclid<3>(); }
template<class T> static void euclid_image()
{
    DIMS;
    const auto a = vk::image<T>("a", W, H), b = vk::image<T>("b", W, H);
    double s = 0;
    for (std::size_t i = 0; i < a.getImageData().size(); ++i)
    {
        const double d = static_cast<double>(a.getImageData()[i]) - static_cast<double>(b.getImageData()[i]);
        s += d * d;
    }
    ASSERT(vk::near(euclidean_distance(a, b), std::sqrt(s)), "euclidean.image");
    ASSERT(vk::near(euclidean_distance(std::execution::seq, a, b), std::sqrt(s)), "euclidean.image.policy");
}
CONTRACT(C24_euclidean_image_u8) { euclid_image<std::uint8_t>(); }
CONTRACT(C24_euclidean_image_u32) { euclid_image<u32>(); }
CONTRACT(C24_euclidean_image_i32) { euclid_image<int>(); }
template<class P, std::size_t N> static void euclid_colour()
{
    DIMS;
    const auto a = vk::image<P>("a", W, H), b = vk::image<P>("b", W, H);
    const std::size_t c = vk::size("c", 0, N - 1);
    double s = 0;
    for (std::size_t i = 0; i < a.getImageData().size(); ++i)
    {
        const double d = static_cast<double>(a.getImageData()[i].channels[c]) - static_cast<double>(b.getImageData()[i].channels[c]);
        s += d * d;
    }
    ASSERT(vk::near(euclidean_distance(a, b).channels[c], std::sqrt(s)), "euclidean.colour");
}
CONTRACT(C24_manhattan_rgb)
{
    DIMS;
    const auto a = vk::image<RGB>("a", W, H), b = vk::image<RGB>("b", W, H);
    const auto m = manhattan_distance(a, b);
    ASSERT(m.size() == 3, "manhattan.channels");
    for (std::size_t c = 0; c < 3; ++c) ASSERT(vk::same(static_cast<double>(m[c]), static_cast<double>(manhattan_distance(getPlane(a, c), getPlane(b, c)))), "manhattan.plane");
}
CONTRACT(C24_euclidean_rgb) { euclid_colour<RGB, 3>(); }
template<class P> static void distance_mismatch()
{
    DIMS;
    const std::size_t W2 = vk::size("W2", 1, vk::MAXDIM), H2 = vk::size("H2", 1, vk::MAXDIM);
    ASSUME(W2 != W || H2 != H);
    const auto a = vk::image<P>("a", W, H), b = vk::image<P>("b", W2, H2);
    ASSERT(vk::outcome([&] { euclidean_distance(a, b); }) == vk::RUNTIME_ERROR, "euclidean.mismatch");
}
CONTRACT(C24_euclidean_mismatch) { distance_mismatch<int>(); }
CONTRACT(C24_euclidean_mismatch_rgb) { distance_mismatch<RGB>(); }
CONTRACT(C24_squared_euclidean)
{
    const std::size_t n = vk::size("n", 0, vk::MAXDIM), m = vk::size("m", 0, vk::MAXDIM);
    std::vector<u32> a(n), b(m);
    vk::fill(a, "a"); vk::fill(b, "b");
    if (n != m)
        ASSERT(vk::outcome([&] { squared_euclidean_distance{}(a, b); }) == vk::RUNTIME_ERROR, "squared.mismatch");
    else
    {
        u32 s = 0;
        for (std::size_t i = 0; i < n; ++i) s += (a[i] - b[i]) * (a[i] - b[i]);
        ASSERT(squared_euclidean_distance{}(a, b) == s, "squared");
    }
}
CONTRACT(C24_euclidean_ranges)
{
    const std::size_t n = vk::size("n", 0, vk::MAXDIM);
    std::vector<u32> ia(n), ib(n);
    vk::fill(ia, "a"); vk::fill(ib, "b");
    std::vector<double> a(n), b(n);
    for (std::size_t i = 0; i < n; ++i) { a[i] = ia[i]; b[i] = ib[i]; }
    double s = 0;
    for (std::size_t i = 0; i < n; ++i) s += (a[i] - b[i]) * (a[i] - b[i]);
    ASSERT(vk::near(euclidean_distance(a, b), std::sqrt(s)), "euclidean.ranges");
}
CONTRACT(C24_rgb)
{
    const RGB p = vk::value<RGB>("p");
    const auto s = TinyDIP::sqrt(p);
    for (int i = 0; i < 3; ++i) ASSERT(vk::same(s.channels[i], std::sqrt(p.channels[i])), "rgb.channel");
}
CONTRACT(C24_pow)
{
    const double x = vk_f64_("x"), e = vk_f64_("e");
    ASSERT(vk::same(TinyDIP::pow(x, e), std::pow(x, e)), "pow.scalar");
    const auto m = mc<3>("m");
    const auto r = TinyDIP::pow(m, e), q = TinyDIP::pow(std::execution::seq, m, e);
    for (int i = 0; i < 3; ++i) ASSERT(vk::same(r.channels[i], std::pow(m.channels[i], e)) && vk::same(q.channels[i], std::pow(m.channels[i], e)), "pow.channel");
}
CONTRACT(C24_image_channels)
{
    DIMS;
    const auto a = vk::image<RGB_DOUBLE>("a", W, H);
    const auto s = TinyDIP::sin(a), d = to_double(a);
    ASSERT(SHAPE(s, W, H) && SHAPE(d, W, H), "channels.shape");
    PROBE;
    for (int i = 0; i < 3; ++i) ASSERT(vk::same(RAW(s, px, py).channels[i], std::sin(RAW(a, px, py).channels[i])), "channels.sin");
    for (int i = 0; i < 3; ++i) ASSERT(vk::same(RAW(d, px, py).channels[i], RAW(a, px, py).channels[i]), "channels.to_double");
}
//  Gaussian figures: the bell at every place, around the centre
static double bell(std::size_t i, std::size_t c, double s) { const double d = static_cast<double>(i) - static_cast<double>(c); return std::exp(-d * d / (2 * s * s)); }
CONTRACT(C24_normal_distribution)
{
    const double x = vk_f64_("x"), y = vk_f64_("y"), s = vk_f64_("s");
    ASSUME(x >= -64 && x <= 64 && y >= -64 && y <= 64 && s >= 0.25 && s <= 64);
    ASSERT(vk::near(normalDistribution1D(x, s), std::exp(-x * x / (2 * s * s))), "normal.1d");
    ASSERT(vk::near(normalDistribution2D(x, y, s), std::exp(-(x * x + y * y) / (2 * s * s)) / (2 * std::numbers::pi * s * s)), "normal.2d");
}
CONTRACT(C24_gaussian_1d)
{
    const std::size_t n = vk::size("n", 1, vk::MAXDIM), c = vk::size("c", 0, vk::MAXDIM), px = vk::size("px", 0, n - 1);
    const double s = 0.5 * static_cast<double>(vk::size("s", 1, 40));
    const auto g = gaussianFigure1D(n, c, s);
    ASSERT(g.getDimensionality() == 2 && g.getWidth() == n && g.getHeight() == 1 && g.getImageData().size() == n, "gaussian1.shape");
    ASSERT(vk::near(g.getImageData()[px], bell(px, c, s)), "gaussian1.value");
}
CONTRACT(C24_gaussian_1d_normalised)
{
    const std::size_t n = vk::size("n", 1, vk::MAXDIM), c = vk::size("c", 0, n - 1), px = vk::size("px", 0, n - 1);
    const double s = 0.5 * static_cast<double>(vk::size("s", 1, 40));
    const auto g = gaussianFigure1D(n, c, s, true);
    double t = 0;
    for (std::size_t i = 0; i < n; ++i) t += bell(i, c, s);
    ASSERT(vk::near(g.getImageData()[px] * t, bell(px, c, s)), "gaussian1.normalised");
}
CONTRACT(C24_gaussian_2d)
{
    DIMS; PROBE;
    const std::size_t cx = vk::size("cx", 0, vk::MAXDIM), cy = vk::size("cy", 0, vk::MAXDIM);
    const double sx = 0.5 * static_cast<double>(vk::size("sx", 1, 40)), sy = 0.5 * static_cast<double>(vk::size("sy", 1, 40));
    const auto g = gaussianFigure2D(W, H, cx, cy, sx, sy);
    ASSERT(g.getDimensionality() == 2 && g.getWidth() == W && g.getHeight() == H && g.getImageData().size() == W * H, "gaussian2.shape");
    ASSERT(vk::near(RAW(g, px, py), bell(px, cx, sx) * bell(py, cy, sy)), "gaussian2.value");
}
BOUNDED(B24_gaussian_3d)
{
    DIMS; PROBE;
    const std::size_t D = vk::size("D", 1, vk::MAXDIM), pz = vk::size("pz", 0, D - 1), cx = vk::size("cx", 0, vk::MAXDIM), cy = vk::size("cy", 0, vk::MAXDIM), cz = vk::size("cz", 0, vk::MAXDIM);
    const double sx = 0.5 * static_cast<double>(vk::size("sx", 1, 40)), sy = 0.5 * static_cast<double>(vk::size("sy", 1, 40)), sz = 0.5 * static_cast<double>(vk::size("sz", 1, 40));
    const auto g = gaussianFigure3D(W, H, D, cx, cy, cz, sx, sy, sz);
    ASSERT(g.getDimensionality() == 3 && g.getSize(0) == W && g.getSize(1) == H && g.getSize(2) == D && g.getImageData().size() == W * H * D, "gaussian3.shape");
    ASSERT(vk::near(g.getImageData()[(pz * H + py) * W + px], bell(px, cx, sx) * bell(py, cy, sy) * bell(pz, cz, sz)), "gaussian3.value");
}
template<class F> static void ellipse(F f)
{
    DIMS; PROBE;
    const std::size_t cx = vk::size("cx", 0, vk::MAXDIM), cy = vk::size("cy", 0, vk::MAXDIM);
    const double v1 = 0.5 * static_cast<double>(vk::size("v1", 1, 40)), v2 = 0.5 * static_cast<double>(vk::size("v2", 1, 40)), rho = 0.125 * (static_cast<double>(vk::size("rho", 0, 14)) - 7.0), k = 0.5 * static_cast<double>(vk::size("k", 1, 8));
    const auto g = f(W, H, cx, cy, v1, v2, rho, k);
    ASSERT(g.getDimensionality() == 2 && g.getWidth() == W && g.getHeight() == H && g.getImageData().size() == W * H, "ellipse.shape");
    const double dx = static_cast<double>(px) - static_cast<double>(cx), dy = static_cast<double>(py) - static_cast<double>(cy), s1 = std::sqrt(v1), s2 = std::sqrt(v2);
    const double e = -1.0 / (2.0 * v1 * v2 * (1.0 - rho * rho)) * (v2 * dx * dx - 2.0 * rho * s1 * s2 * dx * dy + v1 * dy * dy);
    ASSERT(vk::near(RAW(g, px, py) * (2.0 * std::numbers::pi * s1 * s2 * std::sqrt(1.0 - rho * rho)), k * std::exp(e)), "ellipse.value");
}
CONTRACT(C24_gaussian_ellipse) { ellipse([](auto... a) { return gaussianFigure2D(a...); }); }
CONTRACT(C24_gaussian_ellipse_policy) { ellipse([](auto... a) { return gaussianFigure2D(std::execution::seq, a...); }); }
CONTRACT(C24_gaussian_one_deviation)
{
    DIMS; PROBE;
    const std::size_t cx = vk::size("cx", 0, vk::MAXDIM), cy = vk::size("cy", 0, vk::MAXDIM);
    const double s = 0.5 * static_cast<double>(vk::size("s", 1, 40));
    const auto g = gaussianFigure2D(W, H, cx, cy, s);
    ASSERT(vk::near(RAW(g, px, py), bell(px, cx, s) * bell(py, cy, s)), "gaussian2.one-deviation");
}
CONTRACT(C24_gaussian_2d_normalised)
{
    DIMS; PROBE;
    const std::size_t cx = vk::size("cx", 0, W - 1), cy = vk::size("cy", 0, H - 1);
    const double sx = 0.5 * static_cast<double>(vk::size("sx", 1, 40)), sy = 0.5 * static_cast<double>(vk::size("sy", 1, 40));
    const auto g = gaussianFigure2D(W, H, cx, cy, sx, sy, true);
    double t = 0;
    for (std::size_t y = 0; y < H; ++y) for (std::size_t x = 0; x < W; ++x) t += bell(x, cx, sx) * bell(y, cy, sy);
    ASSERT(vk::near(RAW(g, px, py) * t, bell(px, cx, sx) * bell(py, cy, sy)), "gaussian2.normalised");
}
CONTRACT(C24_gaussian_parameters)
{
    DIMS; PROBE;
    const double cx = 0.25 * static_cast<double>(vk::size("cx", 0, 4000)), cy = 0.25 * static_cast<double>(vk::size("cy", 0, 4000));
    const double s1 = 0.5 * static_cast<double>(vk::size("s1", 1, 40)), s2 = 0.5 * static_cast<double>(vk::size("s2", 1, 40)), rho = 0.125 * (static_cast<double>(vk::size("rho", 0, 14)) - 7.0), k = 0.5 * static_cast<double>(vk::size("k", 1, 8));
    const GaussianParameters2D<double> p{ 1.0, cx, cy, s1, s2, rho };
    const auto g = gaussianFigure2D(W, H, p, k);
    ASSERT(g.getDimensionality() == 2 && g.getWidth() == W && g.getHeight() == H && g.getImageData().size() == W * H, "parameters.shape");
    const double dx = static_cast<double>(px) - cx, dy = static_cast<double>(py) - cy;
    const double e = -1.0 / (2.0 * s1 * s1 * s2 * s2 * (1.0 - rho * rho)) * (s2 * s2 * dx * dx - 2.0 * rho * s1 * s2 * dx * dy + s1 * s1 * dy * dy);
    ASSERT(vk::near(RAW(g, px, py) * (2.0 * std::numbers::pi * s1 * s2 * std::sqrt(1.0 - rho * rho)), k * std::exp(e)), "parameters.value");
}
BOUNDED(B24_normal_complex)
{
    const std::complex<double> x{ 0.25 * vk_u64_("xr", 0, 16) - 2, 0.25 * vk_u64_("xi", 0, 16) - 2 }, s{ 0.25 * vk_u64_("sr", 4, 16), 0.25 * vk_u64_("si", 0, 4) };
    const auto g = normalDistribution1D(x, s), w = std::exp(-(x * x) / (2.0 * s * s));
    ASSERT(std::abs(g - w) <= 1e-9 * (1 + std::abs(w)), "normal.complex");
}
