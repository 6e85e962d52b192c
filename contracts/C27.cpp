// Keypoints, matches and stitched images follow their definitions.
#include "img.h"
#include <cmath>
#include <execution>
#include <iostream>
#include <numbers>
using u8 = std::uint8_t;
using Pt = Point<2>;
#define SHAPE(im, w, h) ((im).getDimensionality() == 2 && (im).getWidth() == (w) && (im).getHeight() == (h) && (im).getImageData().size() == (w) * (h))
//  any real; natively a small whole number, so that rounding stays out of the comparison
#ifdef VK_REPLAY
static double real(const char* n) { return static_cast<double>(vk_i64_(n, -8, 8)); }
#else
static double real(const char* n) { return vk_f64_(n); }
#endif
//  ------------------------------------------------------------------ one 3 x 3 block
CONTRACT(C27_extremum_size)
{
    DIMS;
    ASSUME(W != 3 || H != 3);
    const auto a = vk::image<double>("a", 3, 3), b = vk::image<double>("b", W, H);
    ASSERT(vk::outcome([&] { SIFT_impl::is_it_extremum(b, a, a); }) == vk::RUNTIME_ERROR, "extremum.size1");
    ASSERT(vk::outcome([&] { SIFT_impl::is_it_extremum(a, b, a); }) == vk::RUNTIME_ERROR, "extremum.size2");
    ASSERT(vk::outcome([&] { SIFT_impl::is_it_extremum(a, a, b); }) == vk::RUNTIME_ERROR, "extremum.size3");
}
template<class V> static bool extremum_(const V& a, const V& b, const V& c, std::size_t w, std::size_t x, std::size_t y, double limit)
{
    const auto m = b[y * w + x];
    bool above = true, below = true;
    for (std::size_t j = y - 1; j <= y + 1; ++j) for (std::size_t i = x - 1; i <= x + 1; ++i)
    {
        const std::size_t k = j * w + i;
        above = above && m > a[k] && m > c[k] && (k == y * w + x || m > b[k]);
        below = below && m < a[k] && m < c[k] && (k == y * w + x || m < b[k]);
    }
    return !(std::abs(m) <= limit) && (above || below);
}
BOUNDED(B27_extremum)
{
    const auto a = vk::image<u8>("a", 3, 3), b = vk::image<u8>("b", 3, 3), c = vk::image<u8>("c", 3, 3);
    const std::size_t cut = vk::size("limit", 0, 4), kind = vk::size("kind", 0, 4), at = vk::size("at", 0, 26);
    auto v1 = std::vector<double>(a.getImageData().begin(), a.getImageData().end()), v2 = std::vector<double>(b.getImageData().begin(), b.getImageData().end()), v3 = std::vector<double>(c.getImageData().begin(), c.getImageData().end());
    if (kind == 1) v2[4] = 300;
    if (kind == 2) v2[4] = -1;
    if (kind >= 3) { v2[4] = kind == 3 ? 300 : -1; (at < 9 ? v1 : at < 18 ? v2 : v3)[at % 9] = v2[4]; }
    const double limit = static_cast<double>(cut) * 100;
    const std::size_t n = 3;
    ASSERT(SIFT_impl::is_it_extremum(Image<double>(v1, n, n), Image<double>(v2, n, n), Image<double>(v3, n, n), limit) == extremum_(v1, v2, v3, 3, 1, 1, limit), "extremum");
}
//  the step lands on the stationary point of the quadratic through the block
CONTRACT(C27_refinement)
{
    const double gx = real("gx"), gy = real("gy"), xx = real("xx"), yy = real("yy"), xy = real("xy"), c = real("c");
    ASSUME(xx * yy - xy * xy != 0.0);
    std::vector<double> v(9);
    for (int j = 0; j < 3; ++j) for (int i = 0; i < 3; ++i)
        v[j * 3 + i] = c + gx * (i - 1) + gy * (j - 1) + 0.5 * xx * (i - 1) * (i - 1) + 0.5 * yy * (j - 1) * (j - 1) + xy * (i - 1) * (j - 1);
    const std::size_t n = 3, x = vk::size("x", 0, vk::MAXDIM), y = vk::size("y", 0, vk::MAXDIM);
    const auto p = SIFT_impl::keypoint_refinement(Image<double>(v, n, n), std::make_tuple(x, y));
    const double det = xx * yy - xy * xy;
    ASSERT(vk::near((std::get<0>(p) - static_cast<double>(x)) * det, xy * gy - yy * gx), "refinement.x");
    ASSERT(vk::near((std::get<1>(p) - static_cast<double>(y)) * det, xy * gx - xx * gy), "refinement.y");
}
CONTRACT(C27_filtering)
{
    const auto a = vk::image<double>("a", 3, 3);
    const double low = vk_f64_("low"), edge = vk_f64_("edge");
    const auto& d = a.getImageData();
    const bool kept = SIFT_impl::keypoint_filtering(a, low, edge);
    if (d[4] <= low) ASSERT(!kept, "filtering.contrast");
}
CONTRACT(C27_orientation)
{
    const auto a = vk::image<double>("a", 3, 3);
    const auto& d = a.getImageData();
    const auto r = SIFT_impl::compute_each_pixel_orientation(a);
    const double dx = d[5] - d[3], dy = d[7] - d[1];
    ASSERT(vk::near(std::get<0>(r), std::hypot(dx, dy)), "orientation.magnitude");
    ASSERT(vk::near(std::get<1>(r), std::atan2(dy, dx) * (180.0 / std::numbers::pi) + 180.0), "orientation.angle");
}
CONTRACT(C27_orientation_size)
{
    DIMS;
    ASSUME(W != 3 || H != 3);
    const auto a = vk::image<double>("a", W, H);
    ASSERT(vk::outcome([&] { SIFT_impl::compute_each_pixel_orientation(a); }) == vk::RUNTIME_ERROR, "orientation.size");
}
//  a point keeps its place when the sizes agree, and scales exactly by whole factors
CONTRACT(C27_mapping)
{
    DIMS; PROBE;
    const std::size_t k = vk::size("k", 1, 64), l = vk::size("l", 1, 64);
    const auto p = SIFT_impl::mapping_point(std::make_tuple(static_cast<double>(px), static_cast<double>(py)), W, H, W * k, H * l);
    ASSERT(p.p[0] == px * k && p.p[1] == py * l, "mapping.point");
}
//  ------------------------------------------------------------------ detection
static Image<double> scene(const char* n, std::size_t w, std::size_t h)
{
    const auto a = vk::image<u8>(n, w, h);
    return Image<double>(std::vector<double>(a.getImageData().begin(), a.getImageData().end()), w, h);
}
BOUNDED(B27_extrema)
{
    DIMS;
    const auto a = scene("a", W, H), c = scene("c", W, H);
    auto b = scene("b", W, H);
    PROBE;
    b.at(px, py) = 400;                                     //  at least one extremum when the point is inside
    const double limit = 3.0 * static_cast<double>(vk::size("limit", 0, 200));
    const auto got = SIFT_impl::find_local_extrema(a, b, c, 5, 7, limit, 12.1, false);
    std::vector<std::tuple<std::size_t, std::size_t, double, double>> want;
    for (std::size_t y = 1; y + 1 < H; ++y) for (std::size_t x = 1; x + 1 < W; ++x)
        if (extremum_(a.getImageData(), b.getImageData(), c.getImageData(), W, x, y, limit))
        {
            const auto p = SIFT_impl::keypoint_refinement(subimage(b, 3, 3, x, y), std::make_tuple(x, y));
            want.emplace_back(5, 7, std::get<0>(p), std::get<1>(p));
        }
    ASSERT(got.size() == want.size(), "extrema.count");
    for (const auto& w : want)
    {
        bool in = false;
        for (const auto& g : got) in = in || (std::get<0>(g) == 5 && std::get<1>(g) == 7 && vk::same(std::get<2>(g), std::get<2>(w)) && vk::same(std::get<3>(g), std::get<3>(w)));
        ASSERT(in, "extrema.point");
    }
}
CONTRACT(C27_extrema_mismatch)
{
    DIMS;
    const std::size_t w = vk::size("w", 1, vk::MAXDIM), h = vk::size("h", 1, vk::MAXDIM);
    ASSUME(w != W || h != H);
    const auto a = vk::image<double>("a", W, H), b = vk::image<double>("b", w, h);
    ASSERT(vk::outcome([&] { SIFT_impl::find_local_extrema(b, a, a, 0, 0); }) == vk::RUNTIME_ERROR, "extrema.mismatch1");
    ASSERT(vk::outcome([&] { SIFT_impl::find_local_extrema(a, b, a, 0, 0); }) == vk::RUNTIME_ERROR, "extrema.mismatch2");
    ASSERT(vk::outcome([&] { SIFT_impl::find_local_extrema(a, a, b, 0, 0); }) == vk::RUNTIME_ERROR, "extrema.mismatch3");
}
//  gradients of the pixels around a point, from the image extended as subimage does
static std::tuple<double, double> gradient(const Image<double>& a, std::size_t x, std::size_t y)
{
    return SIFT_impl::compute_each_pixel_orientation(subimage(a, 3, 3, x, y));
}
BOUNDED(B27_histogram)
{
    DIMS; PROBE;
    const auto a = scene("a", W, H);
    const std::size_t block = vk::size("block", 0, 4);
    const auto h = SIFT_impl::get_orientation_histogram(a, Pt{ px, py }, block);
    ASSERT(h.size() == 37, "histogram.bins");
    std::vector<double> want(37);
    for (std::size_t y = 0; y < H; ++y) for (std::size_t x = 0; x < W; ++x)
        if (x + block >= px && x <= px + block && y + block >= py && y <= py + block)
        {
            const auto [m, t] = gradient(a, x, y);
            want[static_cast<std::size_t>(t / 10)] += m;
        }
    for (std::size_t i = 0; i < 37; ++i) ASSERT(vk::near(h[i], want[i]), "histogram.bin");
}
BOUNDED(B27_descriptor)
{
    DIMS; PROBE;
    const auto a = scene("a", W, H);
    const auto d = SIFT_impl::get_keypoint_descriptor(a, Pt{ px, py });
    ASSERT(d.size() == 128, "descriptor.size");
    std::vector<double> want(128);
    for (std::size_t j = 0; j < 16; ++j) for (std::size_t i = 0; i < 16; ++i)
    {
        if (px + i < 8 || py + j < 8 || px + i - 8 >= W || py + j - 8 >= H) continue;
        const auto [m, t] = gradient(a, px + i - 8, py + j - 8);
        want[(j / 4 * 4 + i / 4) * 8 + std::min<std::size_t>(7, static_cast<std::size_t>(t / 45))] += m;
    }
    for (std::size_t i = 0; i < 128; ++i) ASSERT(vk::near(d[i], want[i]), "descriptor.entry");
}
BOUNDED(B27_octave)
{
    const std::size_t W = 18 + vk::size("W", 1, vk::MAXDIM), H = 18 + vk::size("H", 1, vk::MAXDIM);     //  the mirrored margin fits
    PROBE;
    const auto a = scene("a", W, H);
    const std::size_t n = vk::size("levels", 0, 3);
    const double s = 0.5 + 0.25 * static_cast<double>(vk::size("sigma", 0, 3)), k = 1.0 + 0.25 * static_cast<double>(vk::size("factor", 1, 3));
    const auto o = SIFT_impl::generate_octave(a, n, s, k);
    ASSERT(o.size() == (n < 2 ? 0 : n - 1), "octave.count");
    double t = s;
    for (std::size_t i = 0; i < o.size(); ++i, t *= k)
    {
        const auto w = difference_of_gaussian(a, t, t * k);
        ASSERT(o[i].getSize() == w.getSize() && std::abs(RAW(o[i], px, py) - RAW(w, px, py)) <= 1e-9 * 256, "octave.image");
    }
}
//  ------------------------------------------------------------------ matching
struct Quiet
{
    Quiet() { std::cout.setstate(std::ios::failbit); std::cerr.setstate(std::ios::failbit); }
    ~Quiet() { std::cout.clear(); std::cerr.clear(); }
};
static std::vector<SiftDescriptor> descriptors(const char* n, std::size_t count)
{
    const auto a = vk::image<u8>(n, 3, count ? count : 1);
    std::vector<SiftDescriptor> r(count, SiftDescriptor(3));
    for (std::size_t j = 0; j < count; ++j) for (std::size_t i = 0; i < 3; ++i) r[j][i] = RAW(a, i, j) % 6;
    return r;
}
using Matches = std::vector<std::pair<std::size_t, std::size_t>>;
static Matches closest(const std::vector<SiftDescriptor>& a, const std::vector<SiftDescriptor>& b, double ratio)
{
    Matches r;
    for (std::size_t i = 0; i < a.size() && !b.empty(); ++i)
    {
        std::vector<double> d;
        for (const auto& q : b) { double s = 0; for (std::size_t k = 0; k < 3; ++k) s += (a[i][k] - q[k]) * (a[i][k] - q[k]); d.push_back(s); }
        const std::size_t best = std::min_element(d.begin(), d.end()) - d.begin();
        bool unique = true;
        for (std::size_t j = 0; j < d.size(); ++j) if (j != best && !(d[best] < ratio * ratio * d[j])) unique = false;
        if (unique) r.emplace_back(i, best);
    }
    return r;
}
static bool same_set(Matches a, Matches b) { std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); return a == b; }
BOUNDED(B27_matches)
{
    Quiet q;
    const auto a = descriptors("a", vk::size("n", 0, 6)), b = descriptors("b", vk::size("m", 0, 6));
    const double r = 0.25 * static_cast<double>(vk::size("ratio", 1, 4));
    const auto want = closest(a, b, r);
    ASSERT(same_set(find_keypoint_matches(std::execution::seq, a, b, r), want), "matches.seq");
    ASSERT(same_set(find_raw_matches(std::execution::seq, a, b, r), want), "matches.raw");
    ASSERT(same_set(find_raw_matches(a, b, r), want), "matches.raw-plain");
    Matches both;
    const auto back = closest(b, a, r);
    for (const auto& m : want) for (const auto& w : back) if (m.first == w.second && m.second == w.first) both.push_back(m);
    ASSERT(same_set(find_robust_matches(std::execution::seq, a, b, r), both), "matches.robust");
    ASSERT(same_set(find_robust_matches(a, b, r), both), "matches.robust-plain");
}
BOUNDED(B27_matches_par)
{
    Quiet q;
    const auto a = descriptors("a", vk::size("n", 0, 6)), b = descriptors("b", vk::size("m", 0, 6));
    const double r = 0.25 * static_cast<double>(vk::size("ratio", 1, 4));
    ASSERT(same_set(find_keypoint_matches(std::execution::par, a, b, r), closest(a, b, r)), "matches.par");
    ASSERT(same_set(find_robust_matches(std::execution::par, a, b, r), find_robust_matches(a, b, r)), "matches.robust-par");
}
//  ------------------------------------------------------------------ homographies
using Mat = linalg::Matrix<double>;
static Mat matrix()
{
    Mat m(3, 3);
    const char* names[9] = { "00", "01", "02", "10", "11", "12", "20", "21", "22" };
    for (std::size_t i = 0; i < 3; ++i) for (std::size_t j = 0; j < 3; ++j) m.at(i, j) = real(names[i * 3 + j]);
    return m;
}
CONTRACT(C27_scale_homography)
{
    const Mat h = matrix();
    const std::size_t a = vk::size("w1", 1, vk::MAXDIM), b = vk::size("h1", 1, vk::MAXDIM), c = vk::size("w1s", 1, vk::MAXDIM), d = vk::size("h1s", 1, vk::MAXDIM);
    const std::size_t e = vk::size("w2", 1, vk::MAXDIM), f = vk::size("h2", 1, vk::MAXDIM), g = vk::size("w2s", 1, vk::MAXDIM), k = vk::size("h2s", 1, vk::MAXDIM);
    const Mat r = scale_homography(h, a, b, c, d, e, f, g, k);
    ASSERT(r.rows() == 3 && r.cols() == 3, "scale.shape");
    const auto D = [](std::size_t x) { return static_cast<double>(x); };
    const double s1[3] = { D(a) / D(c), D(b) / D(d), 1 }, s2[3] = { D(g) / D(e), D(k) / D(f), 1 };
    for (std::size_t i = 0; i < 3; ++i) for (std::size_t j = 0; j < 3; ++j)
        ASSERT(vk::near(r.at(i, j), s2[i] * h.at(i, j) * s1[j]), "scale.entry");
}
//  an interpolator that shows where it was asked to sample
struct Where
{
    double a = 0, b = 0;
    double operator()(const Image<double>& s, double x, double y) const { return s.getImageData()[0] + a * x + b * y; }
};
template<class F> static void warp(F f, bool inverse)
{
    DIMS;
    const auto src = vk::image<double>("src", 1, 1);
    const Mat h = matrix();
    Where at; at.a = real("a"); at.b = real("b");
    const auto r = f(src, h, W, H, Where(at));
    ASSERT(SHAPE(r, W, H), "warp.shape");
    PROBE;
    const Mat& m = h;
    const double x = static_cast<double>(px), y = static_cast<double>(py), w = m.at(2, 0) * x + m.at(2, 1) * y + m.at(2, 2);
    if (std::abs(w) < std::numeric_limits<double>::epsilon()) { ASSERT(vk::same(RAW(r, px, py), 0.0), "warp.infinity"); return; }
    ASSERT(vk::near(RAW(r, px, py), src.getImageData()[0] + at.a * ((m.at(0, 0) * x + m.at(0, 1) * y + m.at(0, 2)) / w) + at.b * ((m.at(1, 0) * x + m.at(1, 1) * y + m.at(1, 2)) / w)), "warp.pixel");
    (void)inverse;
}
CONTRACT(C27_warp) { warp([](auto& s, auto& h, std::size_t w, std::size_t k, Where&& i) { return warp_perspective<double, double, Where>{}(s, h, w, k, std::move(i)); }, false); }
CONTRACT(C27_warp_empty)
{
    DIMS;
    const auto src = vk::image<double>("src", 1, 1);
    const auto r = warp_perspective<double, double, Where>{}(src, Mat(), W, H, Where{});
    ASSERT(SHAPE(r, W, H), "warp.empty.shape");
    PROBE;
    ASSERT(vk::same(RAW(r, px, py), 0.0), "warp.empty.pixel");
}
BOUNDED(B27_warp_policy)
{
    DIMS; PROBE;
    Quiet q;
    const auto src = vk::image<double>("src", 1, 1);
    const auto e = vk::image<u8>("h", 3, 3);
    Mat h(3, 3);
    for (std::size_t i = 0; i < 3; ++i) for (std::size_t j = 0; j < 3; ++j) h.at(i, j) = (RAW(e, j, i) % 9 - 4.0) / (i == 2 && j < 2 ? 64 : 1);
    const Mat m = linalg::invert(h);
    ASSUME(!m.empty());
    Where at; at.a = 1; at.b = 1000;
    const auto r = warp_perspective<double, double, Where>{}(std::execution::seq, src, h, W, H, Where(at));
    const auto p = warp_perspective<double, double, Where>{}(std::execution::par, src, h, W, H, Where(at));
    const auto want = warp_perspective<double, double, Where>{}(src, m, W, H, Where(at));
    ASSERT(SHAPE(r, W, H) && SHAPE(p, W, H), "warp.shape");
    ASSERT(vk::same(RAW(r, px, py), RAW(want, px, py)) && vk::same(RAW(p, px, py), RAW(want, px, py)), "warp.policy");
}
//  a homography through four or more points in general position, and its refinement over inliers only
static Pt image_of(const Pt& p, std::size_t sx, std::size_t sy, std::size_t tx, std::size_t ty, bool swap)
{
    const std::size_t x = p.p[0] * sx + tx, y = p.p[1] * sy + ty;
    return swap ? Pt{ y, x } : Pt{ x, y };
}
static bool maps(const Mat& h, const Pt& p, const Pt& q)
{
    const double x = static_cast<double>(p.p[0]), y = static_cast<double>(p.p[1]), w = h.at(2, 0) * x + h.at(2, 1) * y + h.at(2, 2);
    return std::abs((h.at(0, 0) * x + h.at(0, 1) * y + h.at(0, 2)) / w - static_cast<double>(q.p[0])) < 0.05 && std::abs((h.at(1, 0) * x + h.at(1, 1) * y + h.at(1, 2)) / w - static_cast<double>(q.p[1])) < 0.05;
}
BOUNDED(B27_homography)
{
    Quiet q;
    const std::size_t sx = vk::size("sx", 1, 3), sy = vk::size("sy", 1, 3), tx = vk::size("tx", 1, 20), ty = vk::size("ty", 1, 20), extra = vk::size("extra", 0, 3), bad = vk::size("bad", 0, 2), drop = vk::size("drop", 0, 5);
    const bool swap = vk::size("swap", 0, 1) == 1;
    const std::size_t a = vk::size("a", 10, 30), b = vk::size("b", 10, 30), x0 = vk::size("x0", 0, 5), y0 = vk::size("y0", 0, 5);
    std::vector<Pt> k1 = { { x0, y0 }, { x0 + a, y0 + 1 }, { x0 + 2, y0 + b }, { x0 + a + 3, y0 + b + 4 } };
    for (std::size_t i = 0; i < extra; ++i) k1.push_back({ x0 + 5 + 3 * i, y0 + 7 - i });
    std::vector<std::pair<Pt, Pt>> pairs;
    std::vector<Pt> k2;
    Matches m;
    for (std::size_t i = 0; i < k1.size(); ++i) { k2.push_back(image_of(k1[i], sx, sy, tx, ty, swap)); pairs.emplace_back(k1[i], k2[i]); m.emplace_back(i, i); }
    Mat h;
    const auto few = std::vector<std::pair<Pt, Pt>>(pairs.begin(), pairs.begin() + std::min<std::size_t>(drop, 3));
    ASSERT(!compute_homography<double>(few, h), "homography.few");
    ASSERT(compute_homography<double>(pairs, h) && h.rows() == 3 && h.cols() == 3, "homography.found");
    ASSERT(std::abs(h.at(2, 2) - 1) < 1e-12, "homography.scale");
    for (const auto& p : pairs) ASSERT(maps(h, p.first, p.second), "homography.maps");
    //  outliers do not take part
    auto k1o = k1, k2o = k2;
    for (std::size_t i = 0; i < bad; ++i) { k1o.push_back({ 3 + i, 9 }); k2o.push_back({ image_of(k1o.back(), sx, sy, tx, ty, swap).p[0] + 40, 3 }); m.insert(m.begin(), { k1o.size() - 1, k2o.size() - 1 }); }
    const Mat r = refine_homography<double>(k1o, k2o, m, h, 2.0);
    ASSERT(r.rows() == 3, "refine.shape");
    for (const auto& p : pairs) ASSERT(maps(r, p.first, p.second), "refine.maps");
    std::mt19937 rng(static_cast<unsigned>(tx));
    const Mat s = find_homography_robust<double>(k1o, k2o, m, rng, drop % 2 ? RobustEstimatorMethod::MSAC : RobustEstimatorMethod::RANSAC, 60, 2.0);
    //  no worse than the true model (60 samples of four: one without outliers is certain enough)
    if (extra <= bad) return;
    double cost = 0;
    for (const auto& t : m)
    {
        const double x = static_cast<double>(k1o[t.first].p[0]), y = static_cast<double>(k1o[t.first].p[1]), w = s.at(2, 0) * x + s.at(2, 1) * y + s.at(2, 2);
        const double ex = (s.at(0, 0) * x + s.at(0, 1) * y + s.at(0, 2)) / w - static_cast<double>(k2o[t.second].p[0]), ey = (s.at(1, 0) * x + s.at(1, 1) * y + s.at(1, 2)) / w - static_cast<double>(k2o[t.second].p[1]);
        const double e = ex * ex + ey * ey;
        cost += drop % 2 ? std::min(e, 4.0) : e < 4.0 ? 0.0 : 4.0;
    }
    ASSERT(cost <= 4.0 * static_cast<double>(bad) + 0.05, "robust.cost");
}
//  ------------------------------------------------------------------ stitching
static const RGB& pixel(const Image<RGB>& a, std::size_t x, std::size_t y) { return RAW(a, x, y); }
template<class F> static void stitch(F f)
{
    Quiet q;
    DIMS;
    const std::size_t w = vk::size("w", 1, vk::MAXDIM), h = vk::size("h", 1, vk::MAXDIM);
    const auto a = vk::image<RGB>("a", W, H), b = vk::image<RGB>("b", w, h);
    //  img2 lies at (dx, dy) in the frame of img1
    const int dx = static_cast<int>(vk::size("dx", 0, 8)) - 4, dy = static_cast<int>(vk::size("dy", 0, 8)) - 4;
    Mat m(3, 3);
    m.at(0, 0) = m.at(1, 1) = m.at(2, 2) = 1; m.at(0, 2) = -dx; m.at(1, 2) = -dy;
    const auto r = f(a, b, m);
    const int ox = std::max(0, -dx), oy = std::max(0, -dy);                 //  place of img1 on the canvas
    const int cw = std::max<int>(W, dx + (int)w - 1) + ox, ch = std::max<int>(H, dy + (int)h - 1) + oy;
    ASSERT((int)r.getWidth() == cw && (int)r.getHeight() == ch, "stitch.size");
    for (int y = 0; y < ch; ++y) for (int x = 0; x < cw; ++x)
    {
        const int ax = x - ox, ay = y - oy, bx = ax - dx, by = ay - dy;
        const bool in1 = ax >= 0 && ax < (int)W && ay >= 0 && ay < (int)H;
        const bool in2 = bx >= 0 && bx < (int)w && by >= 0 && by < (int)h;
        if (bx == -1 || bx == (int)w || by == -1 || by == (int)h) continue;  //  the interpolator may extend the border
        RGB p2{ 0, 0, 0 };
        if (in2) p2 = default_bicubic_interpolator<RGB, double>{}(b, static_cast<double>(bx), static_cast<double>(by));
        else if (bx < -1 || bx > (int)w || by < -1 || by > (int)h) p2 = default_bicubic_interpolator<RGB, double>{}(b, static_cast<double>(bx), static_cast<double>(by));
        const bool has2 = p2.channels[0] > 5 || p2.channels[1] > 5 || p2.channels[2] > 5;
        RGB want{ 0, 0, 0 };
        if (in1 && has2) { const double t = static_cast<double>(ax) / W; for (int c = 0; c < 3; ++c) want.channels[c] = static_cast<u8>(pixel(a, ax, ay).channels[c] * (1.0 - t) + p2.channels[c] * t); }
        else if (in1) want = pixel(a, ax, ay);
        else if (has2) want = p2;
        ASSERT(vk::same(pixel(r, x, y), want), "stitch.pixel");
    }
}
BOUNDED(B27_stitch) { stitch([](auto& a, auto& b, auto& m) { return create_stitched_image(a, b, m); }); }
BOUNDED(B27_stitch_policy) { stitch([](auto& a, auto& b, auto& m) { return create_stitched_image(std::execution::par, a, b, m); }); }
BOUNDED(B27_stitch_empty)
{
    Quiet q;
    const auto a = vk::image<RGB>("a", 2, 2);
    ASSERT(create_stitched_image(a, a, Mat()).getImageData().empty(), "stitch.empty");
    ASSERT(create_stitched_image(a, a, Mat(3, 3)).getImageData().empty(), "stitch.singular");
}
BOUNDED(B27_draw_matches)
{
    DIMS;
    const std::size_t w = vk::size("w", 1, vk::MAXDIM);
    const auto a = vk::image<RGB>("a", W, H), b = vk::image<RGB>("b", w, H);
    const auto c = draw_matches(a, b, {}, {}, {});
    ASSERT(SHAPE(c, W + w, H), "draw_matches.shape");
    const auto a2 = copyResizeBicubic(a, W, H), b2 = copyResizeBicubic(b, w, H);
    for (std::size_t y = 0; y < H; ++y) for (std::size_t x = 0; x < W + w; ++x)
        ASSERT(vk::same(pixel(c, x, y), x < W ? pixel(a2, x, y) : pixel(b2, x - W, y)), "draw_matches.side-by-side");
}
