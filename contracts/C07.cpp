// Channel planes: splitting an image into planes and constructing it from planes are inverse; conversions act per channel.
#include "img.h"
#define SHAPE(im, w, h) ((im).getDimensionality() == 2 && (im).getWidth() == (w) && (im).getHeight() == (h) && (im).getImageData().size() == (w) * (h))
using u8 = std::uint8_t;
using u32 = std::uint32_t;
template<std::size_t N> using MC = MultiChannel<u32, N>;
using MCD = MultiChannel<double, 3>;
//  construct from three planes: every pixel holds exactly the three plane values, in order
template<class P, class F> void construct3(F f)
{
    DIMS;
    const auto a = vk::image<P>("a", W, H), b = vk::image<P>("b", W, H), c = vk::image<P>("c", W, H);
    const auto out = f(a, b, c);
    ASSERT(SHAPE(out, W, H), "construct.shape");
    PROBE;
    const auto p = RAW(out, px, py);
    ASSERT(vk::same(p.channels[0], RAW(a, px, py)) && vk::same(p.channels[1], RAW(b, px, py)) && vk::same(p.channels[2], RAW(c, px, py)), "construct.channels");
}
template<class P, class F> void construct3_mismatch(F f)
{
    DIMS;
    const std::size_t w = vk::size("w", 1, vk::MAXDIM), h = vk::size("h", 1, vk::MAXDIM), u = vk::size("u", 1, vk::MAXDIM), v = vk::size("v", 1, vk::MAXDIM);
    ASSUME(w != W || h != H || u != W || v != H);
    const auto a = vk::image<P>("a", W, H), b = vk::image<P>("b", w, h), c = vk::image<P>("c", u, v);
    ASSERT(vk::outcome([&] { f(a, b, c); }) == vk::RUNTIME_ERROR, "construct.mismatch.throws");
}
#define FN(g) [](auto&&... a) { return g(a...); }
CONTRACT(C07_construct_rgb) { construct3<u8>(FN(constructRGB)); }
CONTRACT(C07_construct_rgbd) { construct3<double>(FN(constructRGBDOUBLE)); }
CONTRACT(C07_construct_hsv) { construct3<double>(FN(constructHSV)); }
CONTRACT(C07_construct_mc) { construct3<u32>(FN(constructMultiChannel)); }
CONTRACT(C07_construct_rgb_mismatch) { construct3_mismatch<u8>(FN(constructRGB)); }
CONTRACT(C07_construct_rgbd_mismatch) { construct3_mismatch<double>(FN(constructRGBDOUBLE)); }
CONTRACT(C07_construct_hsv_mismatch) { construct3_mismatch<double>(FN(constructHSV)); }
CONTRACT(C07_construct_mc_mismatch) { construct3_mismatch<u32>(FN(constructMultiChannel)); }
CONTRACT(C07_construct_1)
{
    DIMS;
    const auto a = vk::image<u32>("a", W, H);
    const auto out = constructMultiChannel(a);
    ASSERT(SHAPE(out, W, H), "construct1.shape");
    PROBE;
    ASSERT(RAW(out, px, py).channels[0] == RAW(a, px, py), "construct1.channels");
}
CONTRACT(C07_construct_2)
{
    DIMS;
    const std::size_t w = vk::size("w", 1, vk::MAXDIM), h = vk::size("h", 1, vk::MAXDIM);
    const auto a = vk::image<u32>("a", W, H), b = vk::image<u32>("b", w, h);
    Image<MC<2>> out;
    const auto o = vk::outcome([&] { out = constructMultiChannel(a, b); });
    if (w != W || h != H) { ASSERT(o == vk::RUNTIME_ERROR, "construct2.mismatch.throws"); return; }
    ASSERT(o == vk::RETURNED && SHAPE(out, W, H), "construct2.shape");
    PROBE;
    ASSERT(RAW(out, px, py).channels[0] == RAW(a, px, py) && RAW(out, px, py).channels[1] == RAW(b, px, py), "construct2.channels");
}
CONTRACT(C07_construct_4)
{
    DIMS;
    const auto a = vk::image<u32>("a", W, H), b = vk::image<u32>("b", W, H), c = vk::image<u32>("c", W, H), d = vk::image<u32>("d", W, H);
    const auto out = constructMultiChannel(a, b, c, d);
    ASSERT(SHAPE(out, W, H), "construct4.shape");
    PROBE;
    const auto p = RAW(out, px, py);
    ASSERT(p.channels[0] == RAW(a, px, py) && p.channels[1] == RAW(b, px, py) && p.channels[2] == RAW(c, px, py) && p.channels[3] == RAW(d, px, py), "construct4.channels");
}
CONTRACT(C07_add_channel)
{
    DIMS;
    const std::size_t w = vk::size("w", 1, vk::MAXDIM), h = vk::size("h", 1, vk::MAXDIM);
    const auto a = vk::image<MC<3>>("a", W, H);
    const auto b = vk::image<u32>("b", w, h);
    Image<MC<4>> out;
    const auto o = vk::outcome([&] { out = addChannel(a, b); });
    if (w != W || h != H) { ASSERT(o == vk::RUNTIME_ERROR, "addChannel.mismatch.throws"); return; }
    ASSERT(o == vk::RETURNED && SHAPE(out, W, H), "addChannel.shape");
    PROBE;
    const auto p = RAW(out, px, py);
    const auto q = RAW(a, px, py);
    ASSERT(p.channels[0] == q.channels[0] && p.channels[1] == q.channels[1] && p.channels[2] == q.channels[2] && p.channels[3] == RAW(b, px, py), "addChannel.channels");
}
//  plane c of an image holds channel c of every pixel
template<class T, std::size_t C, class F> void plane(F f)
{
    DIMS;
    const auto a = vk::image<T>("a", W, H);
    const auto out = f(a);
    ASSERT(SHAPE(out, W, H), "plane.shape");
    PROBE;
    ASSERT(vk::same(RAW(out, px, py), RAW(a, px, py).channels[C]), "plane.channel");
}
#define PLANES(T, n) \
CONTRACT(C07_plane0_##n) { plane<T, 0>([](auto& a) { return getPlane(a, 0); }); } \
CONTRACT(C07_plane1_##n) { plane<T, 1>([](auto& a) { return getPlane(a, 1); }); } \
CONTRACT(C07_plane2_##n) { plane<T, 2>([](auto& a) { return getPlane(a, 2); }); }
PLANES(RGB, rgb)
PLANES(RGB_DOUBLE, rgbd)
PLANES(HSV, hsv)
PLANES(MC<3>, mc3)
CONTRACT(C07_plane3_mc4) { plane<MC<4>, 3>([](auto& a) { return getPlane(a, 3); }); }
CONTRACT(C07_plane_missing)
{
    DIMS;
    const auto a = vk::image<MC<4>>("a", W, H);
    const std::size_t i = vk::size("i", 4, vk::MAXIDX);
    ASSERT(vk::outcome([&] { getPlane(a, i); }) == vk::RUNTIME_ERROR, "plane.missing.throws");
}
CONTRACT(C07_R) { plane<RGB, 0>([](auto& a) { return getRplane(a); }); }
CONTRACT(C07_G) { plane<RGB, 1>([](auto& a) { return getGplane(a); }); }
CONTRACT(C07_B) { plane<RGB, 2>([](auto& a) { return getBplane(a); }); }
CONTRACT(C07_Rd) { plane<RGB_DOUBLE, 0>([](auto& a) { return getRplane(a); }); }
CONTRACT(C07_Gd) { plane<RGB_DOUBLE, 1>([](auto& a) { return getGplane(a); }); }
CONTRACT(C07_Bd) { plane<RGB_DOUBLE, 2>([](auto& a) { return getBplane(a); }); }
CONTRACT(C07_Hp) { plane<HSV, 0>([](auto& a) { return getHplane(a); }); }
CONTRACT(C07_Sp) { plane<HSV, 1>([](auto& a) { return getSplane(a); }); }
CONTRACT(C07_Vp) { plane<HSV, 2>([](auto& a) { return getVplane(a); }); }
//  conversions between the pixel types
CONTRACT(C07_to_rgbd)
{
    DIMS;
    const auto a = vk::image<RGB>("a", W, H);
    const auto out = im2double(a);
    ASSERT(SHAPE(out, W, H), "im2double.shape");
    PROBE;
    const auto p = RAW(out, px, py);
    const auto q = RAW(a, px, py);
    ASSERT(vk::same(p.channels[0], (double)q.channels[0]) && vk::same(p.channels[1], (double)q.channels[1]) && vk::same(p.channels[2], (double)q.channels[2]), "im2double.channels");
}
CONTRACT(C07_roundtrip)
{
    DIMS;
    const auto a = vk::image<RGB>("a", W, H);
    const auto out = im2uint8(im2double(a));
    ASSERT(SHAPE(out, W, H), "roundtrip.shape");
    PROBE;
    ASSERT(vk::same(RAW(out, px, py), RAW(a, px, py)), "roundtrip.pixel");
}
CONTRACT(C07_gray_roundtrip)
{
    DIMS;
    const auto a = vk::image<u8>("a", W, H);
    const auto out = im2uint8(im2double(a));
    ASSERT(SHAPE(out, W, H), "gray.shape");
    PROBE;
    ASSERT(RAW(out, px, py) == RAW(a, px, py), "gray.pixel");
}
CONTRACT(C07_gray2rgb)
{
    DIMS;
    const auto a = vk::image<u8>("a", W, H);
    const auto out = Grayscale2RGB(a);
    ASSERT(SHAPE(out, W, H), "Grayscale2RGB.shape");
    PROBE;
    ASSERT(vk::same(RAW(out, px, py), Grayscale2RGB(RAW(a, px, py))), "Grayscale2RGB.pixel");
}
//  apply_each: the operation sees each plane on its own and the results are put together in order
template<class T, class U> void each_plane()
{
    DIMS;
    const auto a = vk::image<T>("a", W, H);
    const auto out = apply_each(a, [](auto&& p) { return transpose(p); });
    ASSERT(SHAPE(out, H, W), "apply_each.shape");
    PROBE;
    const auto p = RAW(out, py, px);
    const auto q = RAW(a, px, py);
    ASSERT(vk::same(p.channels[0], q.channels[0]) && vk::same(p.channels[1], q.channels[1]) && vk::same(p.channels[2], q.channels[2]), "apply_each.channels");
}
CONTRACT(C07_apply_each_rgb) { each_plane<RGB, u8>(); }
CONTRACT(C07_apply_each_rgbd) { each_plane<RGB_DOUBLE, double>(); }
CONTRACT(C07_apply_each_hsv) { each_plane<HSV, double>(); }
CONTRACT(C07_apply_each_mc3) { each_plane<MC<3>, u32>(); }
template<class T> void each_plane2()
{
    DIMS;
    const auto a = vk::image<T>("a", W, H), b = vk::image<T>("b", W, H);
    const auto out = apply_each(a, b, [](auto&& p, auto&& q) { return subtract(p, q); });
    ASSERT(SHAPE(out, W, H), "apply_each2.shape");
    PROBE;
    const auto p = RAW(out, px, py);
    const auto x = RAW(a, px, py), y = RAW(b, px, py);
    for (int i = 0; i < 3; ++i) ASSERT(vk::same(p.channels[i], x.channels[i] - y.channels[i]), "apply_each2.channels");
}
CONTRACT(C07_apply_each2_rgbd) { each_plane2<RGB_DOUBLE>(); }
CONTRACT(C07_apply_each2_hsv) { each_plane2<HSV>(); }
CONTRACT(C07_apply_each2_mc3) { each_plane2<MC<3>>(); }
