// C21: iterations of parallel loops do not interfere (loops whose bodies index through floating-point coordinates or accumulate)
// IR-FLAGS: -fopenmp -include vk_par.h
// REPLAY-MODE: threads
// OBLIGATIONS: races
//  only interference is decided here: accesses of one iteration are assumed in bounds (checked natively by at()), exceptions not examined
#include "par.h"
CONTRACT(C21_subimage_u8)
{
    DIMS;
    auto a = vk::image<std::uint8_t>("a", W, H);
    const std::size_t x1 = vk::size("x1", 0, W - 1), x0 = vk::size("x0", 0, x1), y1 = vk::size("y1", 0, H - 1), y0 = vk::size("y0", 0, y1);
    auto s = subimage2(a, x0, x1, y0, y1);
    PASSERT(RAW(s, 0, 0) == RAW(a, x0, y0) && RAW(s, x1 - x0, y1 - y0) == RAW(a, x1, y1), "subimage2.pixel");
}
CONTRACT(C21_conv2)
{
    DIMS;
    auto a = vk::image<std::int32_t>("a", W, H);
    auto b = vk::image<std::int32_t>("b", vk::size("w", 1, vk::MAXDIM), vk::size("h", 1, vk::MAXDIM));
    auto c = conv2(std::execution::par, a, b);
}
CONTRACT(C21_resize_nearest)
{
    DIMS;
    auto a = vk::image<std::uint8_t>("a", W, H);
    auto c = resize_nearest_neighbor(a, vk::size("w", 1, vk::MAXDIM), vk::size("h", 1, vk::MAXDIM));
}
CONTRACT(C21_resize_bicubic)
{
    DIMS;
    auto a = vk::image<std::uint8_t>("a", W, H);
    auto c = copyResizeBicubic(a, vk::size("w", 1, vk::MAXDIM), vk::size("h", 1, vk::MAXDIM));
}
BOUNDED(B21_resize_lanczos)
{
    DIMS;
    auto a = vk::image<std::uint8_t>("a", W, H);
    auto c = lanczos_resample(std::execution::par, a, vk::size("w", 1, vk::MAXDIM), vk::size("h", 1, vk::MAXDIM));
}
CONTRACT(C21_gaussian_figure)
{
    DIMS;
    auto g = gaussianFigure2D<double>(W, H, vk::size("cx", 0, W), vk::size("cy", 0, H), 2.0, 3.0, 0.25);
}
CONTRACT(C21_gaussian_figure_par)
{
    DIMS;
    auto g = gaussianFigure2D(std::execution::par, W, H, vk::size("cx", 0, W), vk::size("cy", 0, H), 2.0, 3.0, 0.25);
}
CONTRACT(C21_dct3_plane)
{
    DIMS;
    std::vector<Image<double>> v;
    v.push_back(vk::image<double>("a", W, H));
    auto c = dct3_one_plane(v, 0);
}
CONTRACT(C21_dct3_plane_par)
{
    DIMS;
    std::vector<Image<double>> v;
    v.push_back(vk::image<double>("a", W, H));
    auto c = dct3_one_plane(std::execution::par, v, 0);
}
CONTRACT(C21_idct3_plane)
{
    DIMS;
    std::vector<Image<double>> v;
    v.push_back(vk::image<double>("a", W, H));
    auto c = idct3_one_plane(v, 0);
}
CONTRACT(C21_fisheye)
{
    DIMS;
    auto a = vk::image<std::uint8_t>("a", W, H);
    auto c = gaussian_fisheye(a, 30.0);
}
CONTRACT(C21_fisheye_par)
{
    DIMS;
    auto a = vk::image<std::uint8_t>("a", W, H);
    auto c = gaussian_fisheye(std::execution::par, a, 30.0);
}
BOUNDED(B21_paste)
{
    DIMS;
    auto a = vk::image<std::uint8_t>("a", W, H);
    auto b = vk::image<std::uint8_t>("b", vk::size("w", 1, vk::MAXDIM), vk::size("h", 1, vk::MAXDIM));
    auto d = paste2D(std::execution::par, a, b, vk::size("x", 0, vk::MAXDIM), vk::size("y", 0, vk::MAXDIM));
}
BOUNDED(B21_extrema)
{
    const std::size_t W = 4 + vk::size("W", 1, vk::MAXDIM), H = 4 + vk::size("H", 1, vk::MAXDIM);
    const Image<double> flat(std::vector<double>(W * H, 0.0), W, H);
    Image<double> b = flat;
    for (std::size_t y = 0; y < H; y += 2) for (std::size_t x = 0; x < W; x += 2) b.at(x, y) = 9;      //  every other pixel is an extremum
    const auto p = SIFT_impl::find_local_extrema(flat, b, flat, 0, 0, 1.0, 12.1, false);
    std::size_t n = 0;
    for (std::size_t y = 2; y + 1 < H; y += 2) for (std::size_t x = 2; x + 1 < W; x += 2) ++n;
    PASSERT(p.size() == n, "extrema.count");
}
BOUNDED(B21_matches)
{
    const auto a = vk::image<std::uint8_t>("a", 3, 8);
    std::vector<SiftDescriptor> d(8, SiftDescriptor(3));
    for (std::size_t j = 0; j < 8; ++j) for (std::size_t i = 0; i < 3; ++i) d[j][i] = RAW(a, i, j) + 1000.0 * static_cast<double>(j);
    const auto m = find_raw_matches(std::execution::par, d, d, 0.9);
    PASSERT(m.size() == 8, "matches.count");
}
