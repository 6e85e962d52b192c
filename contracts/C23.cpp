// C23: neighbourhood filters: every output pixel is the filter of the window around it in the unmodified (padded) input
#include "img.h"
#include <execution>
//  pixel of the input continued over its border
template<class T> T border(const Image<T>& in, std::ptrdiff_t x, std::ptrdiff_t y, BoundaryCondition b, const T& v)
{
    const std::ptrdiff_t W = in.getWidth(), H = in.getHeight();
    if (b == BoundaryCondition::constant) { if (x < 0 || y < 0 || x >= W || y >= H) return v; }
    else if (b == BoundaryCondition::mirror)
    {
        if (x < 0) x = -x; else if (x >= W) x = 2 * (W - 1) - x;
        if (y < 0) y = -y; else if (y >= H) y = 2 * (H - 1) - y;
    }
    else
    {
        if (x < 0) x = 0; else if (x >= W) x = W - 1;
        if (y < 0) y = 0; else if (y >= H) y = H - 1;
    }
    return RAW(in, x, y);
}
//  a filter that picks one pixel of the window: the result is the input shifted
template<class T, class P> void shifted(P&& policy, BoundaryCondition b)
{
    DIMS;
    auto in = vk::image<T>("a", W, H);
    const std::size_t w = vk::size("w", 1, b == BoundaryCondition::mirror ? W - 1 : vk::MAXDIM), h = vk::size("h", 1, b == BoundaryCondition::mirror ? H - 1 : vk::MAXDIM);
    const std::size_t qx = vk::size("qx", 0, w - 1), qy = vk::size("qy", 0, h - 1);
    const auto v = vk::value<T>("v");
    const auto out = windowed_filter(policy, in, std::vector<std::size_t>{ w, h }, [&](const Image<T>& win) { return RAW(win, qx, qy); }, b, v);
    PROBE;
    ASSERT(out.getWidth() == W && out.getHeight() == H, "windowed_filter.shape");
    ASSERT(vk::same(RAW(out, px, py), border(in, std::ptrdiff_t(px + qx) - std::ptrdiff_t(w / 2), std::ptrdiff_t(py + qy) - std::ptrdiff_t(h / 2), b, v)), "windowed_filter.window");
}
CONTRACT(C23_windowed_u8) { shifted<std::uint8_t>(std::execution::seq, BoundaryCondition::constant); }
CONTRACT(C23_windowed_u8_par) { shifted<std::uint8_t>(std::execution::par, BoundaryCondition::constant); }
CONTRACT(C23_windowed_f64) { shifted<double>(std::execution::seq, BoundaryCondition::constant); }
CONTRACT(C23_windowed_rgb) { shifted<RGB>(std::execution::seq, BoundaryCondition::constant); }
CONTRACT(C23_windowed_mirror) { shifted<std::uint8_t>(std::execution::seq, BoundaryCondition::mirror); }
BOUNDED(B23_windowed_replicate) { shifted<std::uint8_t>(std::execution::seq, BoundaryCondition::replicate); }
//  every window has the requested size
CONTRACT(C23_window_shape)
{
    DIMS;
    auto in = vk::image<std::uint8_t>("a", W, H);
    const std::size_t w = vk::size("w", 1, vk::MAXDIM), h = vk::size("h", 1, vk::MAXDIM);
    const auto out = windowed_filter(std::execution::seq, in, std::vector<std::size_t>{ w, h },
        [&](const Image<std::uint8_t>& win) { return static_cast<std::uint8_t>(win.getDimensionality() == 2 && win.getWidth() == w && win.getHeight() == h && win.count() == w * h); }, BoundaryCondition::constant);
    PROBE;
    ASSERT(RAW(out, px, py) == 1, "windowed_filter.window-shape");
}
CONTRACT(C23_windowed_dims)
{
    DIMS;
    auto in = vk::image<std::uint8_t>("a", W, H);
    const std::size_t n = vk::size("n", 0, 9);
    ASSUME(n != 2);
    ASSERT(vk::outcome([&] { windowed_filter(std::execution::seq, in, std::vector<std::size_t>(n, 1), [&](const Image<std::uint8_t>& win) { return RAW(win, 0, 0); }); }) == vk::RUNTIME_ERROR, "windowed_filter.dimensionality");
}
//  three dimensions: no padding, what lies outside reads as the default element
BOUNDED(B23_windowed_3d)
{
    const std::size_t W = vk::size("W", 1, 6), H = vk::size("H", 1, 5), D = vk::size("D", 1, 4);
    std::vector<std::uint8_t> data(W * H * D);
    vk::fill(data, "a");
    Image<std::uint8_t> in(data, std::vector<std::size_t>{ W, H, D });
    const std::size_t w = vk::size("w", 1, 4), h = vk::size("h", 1, 4), d = vk::size("d", 1, 4);
    const std::size_t qx = vk::size("qx", 0, w - 1), qy = vk::size("qy", 0, h - 1), qz = vk::size("qz", 0, d - 1);
    const auto out = windowed_filter(std::execution::seq, in, std::vector<std::size_t>{ w, h, d }, [&](const Image<std::uint8_t>& win) { return win.getImageData()[(qz * h + qy) * w + qx]; });
    PROBE;
    const std::size_t pz = vk::size("pz", 0, D - 1);
    const std::ptrdiff_t x = std::ptrdiff_t(px + qx) - std::ptrdiff_t(w / 2), y = std::ptrdiff_t(py + qy) - std::ptrdiff_t(h / 2), z = std::ptrdiff_t(pz + qz) - std::ptrdiff_t(d / 2);
    const bool inside = x >= 0 && y >= 0 && z >= 0 && x < std::ptrdiff_t(W) && y < std::ptrdiff_t(H) && z < std::ptrdiff_t(D);
    ASSERT(out.getImageData()[(pz * H + py) * W + px] == (inside ? data[(z * H + y) * W + x] : 0), "windowed_filter.window3d");
}
CONTRACT(C23_center)
{
    DIMS;
    auto in = vk::image<std::uint8_t>("a", W, H);
    ASSERT(get_center_pixel(in) == RAW(in, W / 2, H / 2), "get_center_pixel");
}
//  bilateral filter against its definition (weights: range kernel of the difference times spatial kernel of the distance)
template<class T> void bilateral()
{
    DIMS;
    ASSUME(W > 1 && H > 1);
    auto in = vk::image<T>("a", W, H);
    const std::size_t w = vk::size("w", 1, W - 1), h = vk::size("h", 1, H - 1);
    auto rk = [](double d) { return 1.0 / (1.0 + d * d); };
    auto sk = [](double d) { return 1.0 / (1.0 + d); };
    const auto out = bilateral_filter(in, std::vector<std::size_t>{ w, h }, rk, sk);
    ASSERT(out.getWidth() == W && out.getHeight() == H, "bilateral_filter.shape");
    PROBE;
    double s = 0, t = 0;
    for (std::size_t j = 0; j < h; ++j)
        for (std::size_t i = 0; i < w; ++i)
        {
            const std::ptrdiff_t dx = std::ptrdiff_t(i) - std::ptrdiff_t(w / 2), dy = std::ptrdiff_t(j) - std::ptrdiff_t(h / 2);
            const double v = border(in, std::ptrdiff_t(px) + dx, std::ptrdiff_t(py) + dy, BoundaryCondition::mirror, T{});
            const double k = rk(std::fabs(v - RAW(in, px, py))) * sk(std::sqrt(double(dx * dx + dy * dy)));
            s += v * k; t += k;
        }
    if constexpr (std::is_integral_v<T>) ASSERT(std::fabs(RAW(out, px, py) - s / t) <= 1.000001, "bilateral_filter.pixel");
    else ASSERT(vk::near(RAW(out, px, py), s / t), "bilateral_filter.pixel");
}
BOUNDED(B23_bilateral_f64) { bilateral<double>(); }
BOUNDED(B23_bilateral_u8) { bilateral<std::uint8_t>(); }
//  Gaussian blur against its definition: normalised kernel centred on the pixel
BOUNDED(B23_gaussian)
{
    DIMS;
    auto in = vk::image<double>("a", W, H);
    const auto b = static_cast<BoundaryCondition>(vk_u64_("b", 0, 2));
    const int kx = 2 * static_cast<int>(vk_u64_("kx", 0, 3)) + 1, ky = 2 * static_cast<int>(vk_u64_("ky", 0, 3)) + 1;
    if (b == BoundaryCondition::mirror) ASSUME(kx < int(W) && ky < int(H));
    const double s1 = 0.25 * vk_u64_("s1", 2, 12), s2 = 0.25 * vk_u64_("s2", 2, 12);
    const auto out = imgaussfilt(std::execution::seq, in, s1, s2, kx, ky, b, 3.0);
    ASSERT(out.getWidth() == W && out.getHeight() == H, "imgaussfilt.shape");
    PROBE;
    double s = 0, t = 0, m = 0;
    for (int j = 0; j < ky; ++j)
        for (int i = 0; i < kx; ++i)
        {
            const int dx = i - kx / 2, dy = j - ky / 2;
            const double g = std::exp(-dx * dx / (2 * s1 * s1)) * std::exp(-dy * dy / (2 * s2 * s2));
            const double v = border(in, std::ptrdiff_t(px) + dx, std::ptrdiff_t(py) + dy, b, 3.0);
            s += g * v; t += g; m = std::max(m, std::fabs(v));
        }
    ASSERT(std::fabs(RAW(out, px, py) - s / t) <= 1e-9 * (1 + m), "imgaussfilt.pixel");
}
//  difference of Gaussians is the difference of the two blurs
BOUNDED(B23_dog)
{
    DIMS;
    ASSUME(W > 5 && H > 5);
    auto in = vk::image<double>("a", W, H);
    const auto out = difference_of_gaussian(in, 1.0, 0.5);
    const auto g1 = imgaussfilt(in, 1.0), g2 = imgaussfilt(in, 0.5);
    PROBE;
    ASSERT(vk::near(RAW(out, px, py), RAW(g1, px, py) - RAW(g2, px, py)), "difference_of_gaussian.pixel");
}
CONTRACT(C23_imgaussfilt_sigma)
{
    DIMS;
    const auto in = vk::image<double>("a", W, H);
    const double s1 = 0.5 * static_cast<double>(static_cast<std::int64_t>(vk_u64_("s1", 0, 8)) - 4), s2 = 0.5 * static_cast<double>(static_cast<std::int64_t>(vk_u64_("s2", 0, 8)) - 4);
    ASSUME(s1 <= 0 || s2 <= 0);
    ASSERT(vk::outcome([&] { imgaussfilt(std::execution::seq, in, s1, s2, 0.25, 3, 3, BoundaryCondition::constant, 0.0); }) == vk::RUNTIME_ERROR, "imgaussfilt.sigma");
}
//  the overload with an angle: no turn, no difference
BOUNDED(B23_gaussian_angle_zero)
{
    DIMS;
    const auto in = vk::image<double>("a", W, H);
    const double s1 = 0.25 * vk_u64_("s1", 2, 12), s2 = 0.25 * vk_u64_("s2", 2, 12);
    const auto a = imgaussfilt(std::execution::seq, in, s1, s2, 0.0, 3, 3, BoundaryCondition::constant, 0.0), b = imgaussfilt(std::execution::seq, in, s1, s2, 3, 3, BoundaryCondition::constant, 0.0);
    ASSERT(a.getWidth() == W && a.getHeight() == H, "angle.shape");
    PROBE;
    ASSERT(vk::near(RAW(a, px, py), RAW(b, px, py)), "angle.pixel");
}
