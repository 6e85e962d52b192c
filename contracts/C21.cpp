// C21: iterations of parallel loops do not interfere, so every schedule gives the sequential result
// IR-FLAGS: -fopenmp -include vk_par.h
// REPLAY-MODE: threads
//  VERIFY: obligations "two iterations ... write/read different cells", generated at every parallel loop that is reached.
//  REPLAY: loops run on three real threads under ThreadSanitizer, and PASSERT compares with the sequential definition.
#include "par.h"
template<class T> void flips()
{
    DIMS;
    auto a = vk::image<T>("a", W, H);
    auto h = flip_horizontal(a);
    auto v = flip_vertical(a);
    auto hv = flip_horizontal_vertical(a);
    PROBE;
    PASSERT(vk::same(RAW(h, W - 1 - px, py), RAW(a, px, py)), "flip_horizontal.pixel");
    PASSERT(vk::same(RAW(v, px, H - 1 - py), RAW(a, px, py)), "flip_vertical.pixel");
    PASSERT(vk::same(RAW(hv, W - 1 - px, H - 1 - py), RAW(a, px, py)), "flip_horizontal_vertical.pixel");
}
CONTRACT(C21_flips_u8) { flips<std::uint8_t>(); }
CONTRACT(C21_flips_rgb) { flips<RGB>(); }
CONTRACT(C21_transpose_u8)
{
    DIMS;
    auto a = vk::image<std::uint8_t>("a", W, H);
    auto t = transpose(std::execution::par, a);
    PROBE;
    PASSERT(vk::same(RAW(t, py, px), RAW(a, px, py)), "transpose.pixel");
}
template<class P> void planes()
{
    DIMS;
    auto a = vk::image<P>("a", W, H);
    PROBE;
    if constexpr (std::is_same_v<P, HSV>)
    {
        auto c0 = getHplane(a), c1 = getSplane(a), c2 = getVplane(a);
        PASSERT(vk::same(RAW(c0, px, py), RAW(a, px, py).channels[0]) && vk::same(RAW(c1, px, py), RAW(a, px, py).channels[1]) && vk::same(RAW(c2, px, py), RAW(a, px, py).channels[2]), "plane.pixel");
    }
    else if constexpr (std::is_same_v<P, RGB> || std::is_same_v<P, RGB_DOUBLE>)
    {
        auto c0 = getRplane(a), c1 = getGplane(a), c2 = getBplane(a);
        PASSERT(vk::same(RAW(c0, px, py), RAW(a, px, py).channels[0]) && vk::same(RAW(c1, px, py), RAW(a, px, py).channels[1]) && vk::same(RAW(c2, px, py), RAW(a, px, py).channels[2]), "plane.pixel");
    }
    else
    {
        auto c = getPlane(a, 1);
        PASSERT(vk::same(RAW(c, px, py), RAW(a, px, py).channels[1]), "plane.pixel");
    }
}
CONTRACT(C21_planes_rgb) { planes<RGB>(); }
CONTRACT(C21_planes_rgbdouble) { planes<RGB_DOUBLE>(); }
CONTRACT(C21_planes_hsv) { planes<HSV>(); }
CONTRACT(C21_planes_mc3) { planes<MultiChannel<float, 3>>(); }
CONTRACT(C21_construct_rgb)
{
    DIMS;
    auto r = vk::image<std::uint8_t>("r", W, H), g = vk::image<std::uint8_t>("g", W, H), b = vk::image<std::uint8_t>("b", W, H);
    auto c = constructRGB(r, g, b);
    PROBE;
    PASSERT(RAW(c, px, py).channels[0] == RAW(r, px, py) && RAW(c, px, py).channels[1] == RAW(g, px, py) && RAW(c, px, py).channels[2] == RAW(b, px, py), "constructRGB.pixel");
}
CONTRACT(C21_construct_rgbdouble)
{
    DIMS;
    auto r = vk::image<double>("r", W, H), g = vk::image<double>("g", W, H), b = vk::image<double>("b", W, H);
    auto c = constructRGBDOUBLE(r, g, b);
    PROBE;
    PASSERT(vk::same(RAW(c, px, py).channels[0], RAW(r, px, py)) && vk::same(RAW(c, px, py).channels[1], RAW(g, px, py)) && vk::same(RAW(c, px, py).channels[2], RAW(b, px, py)), "constructRGBDOUBLE.pixel");
}
CONTRACT(C21_construct_hsv)
{
    DIMS;
    auto r = vk::image<double>("r", W, H), g = vk::image<double>("g", W, H), b = vk::image<double>("b", W, H);
    auto c = constructHSV(r, g, b);
    PROBE;
    PASSERT(vk::same(RAW(c, px, py).channels[0], RAW(r, px, py)) && vk::same(RAW(c, px, py).channels[1], RAW(g, px, py)) && vk::same(RAW(c, px, py).channels[2], RAW(b, px, py)), "constructHSV.pixel");
}
template<class D, class S> void convert()
{
    DIMS;
    auto a = vk::image<S>("a", W, H);
    auto c = convert_image<D>(a);
    PROBE;
    using C = std::remove_cvref_t<decltype(c.getImageData()[0].channels[0])>;
    PASSERT(RAW(c, px, py).channels[1] == static_cast<C>(RAW(a, px, py).channels[1]), "convert_image.pixel");
}
CONTRACT(C21_convert_rgbdouble) { convert<RGB_DOUBLE, RGB>(); }
CONTRACT(C21_construct_mc2)
{
    DIMS;
    auto a = vk::image<float>("a", W, H), b = vk::image<float>("b", W, H);
    auto c = constructMultiChannel(a, b);
    PROBE;
    PASSERT(vk::same(RAW(c, px, py).channels[0], RAW(a, px, py)) && vk::same(RAW(c, px, py).channels[1], RAW(b, px, py)), "constructMultiChannel.pixel");
}
CONTRACT(C21_construct_mc3)
{
    DIMS;
    auto a = vk::image<std::uint16_t>("a", W, H), b = vk::image<std::uint16_t>("b", W, H), d = vk::image<std::uint16_t>("d", W, H);
    auto c = constructMultiChannel(a, b, d);
    PROBE;
    PASSERT(RAW(c, px, py).channels[0] == RAW(a, px, py) && RAW(c, px, py).channels[1] == RAW(b, px, py) && RAW(c, px, py).channels[2] == RAW(d, px, py), "constructMultiChannel.pixel");
}
CONTRACT(C21_each_pixel)
{
    DIMS;
    auto a = vk::image<std::uint8_t>("a", W, H);
    const int k = static_cast<int>(vk_i64_("k", -9, 9));
    auto o = apply_each_pixel_openmp(a, [&](std::uint8_t v, int q) { return v + q; }, k);
    auto p = apply_each_pixel(std::execution::par, a, [&](std::uint8_t v, int q) { return v + q; }, k);
    PROBE;
    PASSERT(RAW(o, px, py) == RAW(a, px, py) + k, "apply_each_pixel_openmp.pixel");
    PASSERT(RAW(p, px, py) == RAW(a, px, py) + k, "apply_each_pixel.pixel");
}
CONTRACT(C21_pixelwise_transform)
{
    DIMS;
    auto a = vk::image<std::uint8_t>("a", W, H);
    auto p = pixelwise_transform(std::execution::par, [](std::uint8_t v) { return static_cast<int>(v) * 3; }, a);
    PROBE;
    PASSERT(RAW(p, px, py) == RAW(a, px, py) * 3, "pixelwise_transform.pixel");
}
CONTRACT(C21_draw_point)
{
    DIMS;
    auto a = vk::image<std::uint8_t>("a", W, H);
    const std::size_t x = vk::size("x", 0, vk::MAXDIM), y = vk::size("y", 0, vk::MAXDIM), r = vk::size("r", 0, vk::MAXDIM);
    const auto c = vk::value<std::uint8_t>("c");
    auto d = draw_point(a, Point<2>{x, y}, c, r);
    PASSERT(d.getWidth() == W && d.getHeight() == H, "draw_point.shape");
}
CONTRACT(C21_difference)
{
    const std::size_t N = vk::size("N", 1, vk::MAXDIM);
    std::vector<int> a(N), b(N);
    for (std::size_t i = 0; i < N; ++i) { a[i] = 7; b[i] = 9; }
    auto d = difference(std::execution::par, a, b);
    PASSERT(d[N - 1] == 2, "difference.element");
}
CONTRACT(C21_replace)
{
    DIMS;
    auto a = vk::image<std::uint8_t>("a", W, H);
    const auto t = vk::value<std::uint8_t>("t"), n = vk::value<std::uint8_t>("n");
    auto d = replace(std::execution::par, a, t, n);
    PROBE;
    PASSERT(RAW(d, px, py) == (RAW(a, px, py) == t ? n : RAW(a, px, py)), "replace.pixel");
}
