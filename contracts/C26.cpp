// Frequency transforms: the defined sums, and each inverse undoes its transform.
#include "img.h"
#include <cmath>
#include <complex>
#include <execution>
#include <numbers>
using u8 = std::uint8_t; using u32 = std::uint32_t;
using C = std::complex<long double>;
#define SHAPE(im, w, h) ((im).getDimensionality() == 2 && (im).getWidth() == (w) && (im).getHeight() == (h) && (im).getImageData().size() == (w) * (h))
static constexpr long double PI = std::numbers::pi_v<long double>;
//  the defining sums at one frequency, for every size
template<class T> static void dft()
{
    DIMS;
    const auto a = vk::image<T>("a", W, H);
    const auto r = dft2(a);
    ASSERT(SHAPE(r, W, H), "dft2.shape");
    PROBE;
    long double re = 0, im = 0;
    for (std::size_t n = 0; n < H; ++n) for (std::size_t m = 0; m < W; ++m)
    {
        const long double t = 2 * PI * (px * m / static_cast<long double>(W) + py * n / static_cast<long double>(H));
        re += RAW(a, m, n) * std::cos(t);
        im += -static_cast<long double>(RAW(a, m, n)) * std::sin(t);
    }
    const long double k = std::sqrt(1.0 / static_cast<long double>(W * H));
    ASSERT(vk::near(static_cast<double>(RAW(r, px, py).real()), static_cast<double>(k * re)), "dft2.real");
    ASSERT(vk::near(static_cast<double>(RAW(r, px, py).imag()), static_cast<double>(k * im)), "dft2.imaginary");
}
CONTRACT(C26_dft2) { dft<double>(); }
CONTRACT(C26_dft2_u8) { dft<u8>(); }
CONTRACT(C26_dft2_u32) { dft<u32>(); }
static double alpha(std::size_t i) { return i == 0 ? std::numbers::sqrt2 / 2 : 1.0; }
CONTRACT(C26_dct2)
{
    DIMS;
    const auto a = vk::image<double>("a", W, H);
    const auto r = dct2(a);
    ASSERT(SHAPE(r, W, H), "dct2.shape");
    PROBE;
    const double w = static_cast<double>(W), h = static_cast<double>(H), pi = std::numbers::pi;
    double s = 0;
    for (std::size_t n = 0; n < H; ++n) for (std::size_t m = 0; m < W; ++m)
        s += RAW(a, m, n) * std::cos(pi / (2.0 * w) * (2.0 * static_cast<double>(m) + 1.0) * static_cast<double>(px)) * std::cos(pi / (2.0 * h) * (2.0 * static_cast<double>(n) + 1.0) * static_cast<double>(py)) * std::cos(0.0);
    ASSERT(vk::near(RAW(r, px, py), 8.0 * alpha(0) * alpha(py) * alpha(px) * s / (w * h * 1.0)), "dct2.pixel");
}
template<class F> static void dct2_sum(F f)
{
    DIMS;
    const auto a = vk::image<u8>("a", W, H);
    const auto r = f(a);
    ASSERT(SHAPE(r, W, H), "dct2.shape");
    PROBE;
    const double w = static_cast<double>(W), h = static_cast<double>(H), pi = std::numbers::pi;
    double s = 0;
    for (std::size_t n = 0; n < H; ++n) for (std::size_t m = 0; m < W; ++m)
        s += RAW(a, m, n) * std::cos(pi / (2.0 * w) * (2.0 * static_cast<double>(m) + 1.0) * static_cast<double>(px)) * std::cos(pi / (2.0 * h) * (2.0 * static_cast<double>(n) + 1.0) * static_cast<double>(py)) * std::cos(0.0);
    ASSERT(vk::near(RAW(r, px, py), 8.0 * alpha(0) * alpha(py) * alpha(px) * s / (w * h * 1.0)), "dct2.pixel");
}
CONTRACT(C26_dct2_u8) { dct2_sum([](const auto& a) { return dct2(a); }); }
CONTRACT(C26_idct2)
{
    DIMS;
    const auto a = vk::image<double>("a", W, H);
    const auto r = idct2(a);
    ASSERT(SHAPE(r, W, H), "idct2.shape");
    PROBE;
    const double w = static_cast<double>(W), h = static_cast<double>(H), pi = std::numbers::pi;
    double s = 0;
    for (std::size_t n = 0; n < H; ++n) for (std::size_t m = 0; m < W; ++m)
        s += alpha(m) * alpha(n) * alpha(0) * RAW(a, m, n) * std::cos(pi / (2.0 * w) * (2.0 * static_cast<double>(px) + 1.0) * static_cast<double>(m)) * std::cos(pi / (2.0 * h) * (2.0 * static_cast<double>(py) + 1.0) * static_cast<double>(n)) * std::cos(0.0);
    ASSERT(vk::near(RAW(r, px, py), s), "idct2.pixel");
}
//  stacks of planes
template<std::size_t N> static void dct3_planes()
{
    DIMS;
    std::vector<Image<double>> v;
    for (std::size_t i = 0; i < N; ++i) v.push_back(vk::image<double>(i == 0 ? "a" : i == 1 ? "b" : "c", W, H));
    const auto r = dct3(v), q = idct3(v);
    ASSERT(r.size() == N && q.size() == N, "dct3.planes");
    PROBE;
    const double w = static_cast<double>(W), h = static_cast<double>(H), d = static_cast<double>(N), pi = std::numbers::pi;
    for (std::size_t z = 0; z < N; ++z)
    {
        ASSERT(SHAPE(r[z], W, H) && SHAPE(q[z], W, H), "dct3.shape");
        double s = 0, t = 0;
        for (std::size_t l = 0; l < N; ++l) for (std::size_t n = 0; n < H; ++n) for (std::size_t m = 0; m < W; ++m)
        {
            s += RAW(v[l], m, n) * std::cos(pi / (2.0 * w) * (2.0 * static_cast<double>(m) + 1.0) * static_cast<double>(px)) * std::cos(pi / (2.0 * h) * (2.0 * static_cast<double>(n) + 1.0) * static_cast<double>(py)) * std::cos(pi / (2.0 * d) * (2.0 * static_cast<double>(l) + 1.0) * static_cast<double>(z));
            t += alpha(m) * alpha(n) * alpha(l) * RAW(v[l], m, n) * std::cos(pi / (2.0 * w) * (2.0 * static_cast<double>(px) + 1.0) * static_cast<double>(m)) * std::cos(pi / (2.0 * h) * (2.0 * static_cast<double>(py) + 1.0) * static_cast<double>(n)) * std::cos(pi / (2.0 * d) * (2.0 * static_cast<double>(z) + 1.0) * static_cast<double>(l));
        }
        ASSERT(vk::near(RAW(r[z], px, py), 8.0 * alpha(z) * alpha(py) * alpha(px) * s / (w * h * d)), "dct3.pixel");
        ASSERT(vk::near(RAW(q[z], px, py), t), "idct3.pixel");
    }
}
CONTRACT(C26_dct3_1) { dct3_planes<1>(); }
CONTRACT(C26_dct3_2) { dct3_planes<2>(); }
CONTRACT(C26_idft2)
{
    DIMS;
    const auto a = vk::image<double>("a", W, H), b = vk::image<double>("b", W, H);
    Image<C> c(W, H);
    for (std::size_t y = 0; y < H; ++y) for (std::size_t x = 0; x < W; ++x) c.at_without_boundary_check(x, y) = C(RAW(a, x, y), RAW(b, x, y));
    const auto r = idft2(c);
    ASSERT(SHAPE(r, W, H), "idft2.shape");
    PROBE;
    long double re = 0, im = 0;
    for (std::size_t n = 0; n < H; ++n) for (std::size_t m = 0; m < W; ++m)
    {
        const long double t = 2 * PI * (px * m / static_cast<long double>(W) + py * n / static_cast<long double>(H));
        re += RAW(a, m, n) * std::cos(t) - RAW(b, m, n) * std::sin(t);
        im += RAW(a, m, n) * std::sin(t) + RAW(b, m, n) * std::cos(t);
    }
    const long double k = std::sqrt(1.0 / static_cast<long double>(W * H));
    ASSERT(vk::near(static_cast<double>(RAW(r, px, py).real()), static_cast<double>(k * re)), "idft2.real");
    ASSERT(vk::near(static_cast<double>(RAW(r, px, py).imag()), static_cast<double>(k * im)), "idft2.imaginary");
}
//  the inverse undoes the transform
template<class T> static void there_and_back()
{
    const std::size_t W = vk::size("W", 1, 7), H = vk::size("H", 1, 5);
    const auto a = vk::image<T>("a", W, H);
    const auto f = idft2(dft2(a));
    const auto c = idct2(dct2(a));
    ASSERT(SHAPE(f, W, H) && SHAPE(c, W, H), "inverse.shape");
    double big = 1;
    for (auto v : a.getImageData()) big = std::max(big, std::abs(static_cast<double>(v)));
    for (std::size_t i = 0; i < W * H; ++i)
    {
        const auto v = static_cast<double>(a.getImageData()[i]);
        ASSERT(std::abs(static_cast<double>(f.getImageData()[i].real()) - v) < big * 1e-9 && std::abs(static_cast<double>(f.getImageData()[i].imag())) < big * 1e-9, "dft2.inverse");
        ASSERT(std::abs(c.getImageData()[i] - v) < big * 1e-9, "dct2.inverse");
    }
}
BOUNDED(B26_inverse_f64) { there_and_back<double>(); }
BOUNDED(B26_inverse_u8) { there_and_back<u8>(); }
BOUNDED(B26_inverse_u32) { there_and_back<u32>(); }
BOUNDED(B26_dct3)
{
    const std::size_t W = vk::size("W", 1, 4), H = vk::size("H", 1, 4), N = vk::size("N", 1, 4);
    std::vector<Image<double>> v;
    for (std::size_t i = 0; i < N; ++i) v.push_back(vk::image<double>("v", W, H));
    const auto f = dct3(v);
    const auto r = idct3(f);
    ASSERT(f.size() == N && r.size() == N, "dct3.planes");
    double big = 1;
    for (auto& p : v) for (auto x : p.getImageData()) big = std::max(big, std::abs(x));
    for (std::size_t z = 0; z < N; ++z)
    {
        const auto p = dct3_one_plane(std::execution::seq, v, z);
        ASSERT(SHAPE(r[z], W, H) && SHAPE(p, W, H), "dct3.shape");
        for (std::size_t i = 0; i < W * H; ++i)
        {
            ASSERT(std::abs(r[z].getImageData()[i] - v[z].getImageData()[i]) < big * 1e-9, "dct3.inverse");
            ASSERT(std::abs(p.getImageData()[i] - f[z].getImageData()[i]) < big * 1e-9, "dct3.policy");
        }
    }
}
//  every channel by itself
BOUNDED(B26_channels)
{
    const std::size_t W = vk::size("W", 1, 5), H = vk::size("H", 1, 5);
    const auto a = vk::image<RGB>("a", W, H);
    const auto r = dct2(a);
    ASSERT(SHAPE(r, W, H), "dct2.channels-shape");
    const auto b = idct2(r);
    for (std::size_t c = 0; c < 3; ++c)
    {
        const auto p = dct2(getPlane(a, c));
        for (std::size_t i = 0; i < W * H; ++i)
        {
            ASSERT(std::abs(r.getImageData()[i].channels[c] - p.getImageData()[i]) < 1e-6, "dct2.channel");
            ASSERT(std::abs(b.getImageData()[i].channels[c] - static_cast<double>(a.getImageData()[i].channels[c])) < 1e-6, "dct2.channel-inverse");
        }
    }
}
