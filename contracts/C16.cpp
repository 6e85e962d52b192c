// Colour conversion between RGB and HSV.
#include "img.h"
using u8 = std::uint8_t;
#define RGBIN const u8 r = vk::value<u8>("r"), g = vk::value<u8>("g"), b = vk::value<u8>("b"); const u8 hi = std::max(r, std::max(g, b)), lo = std::min(r, std::min(g, b)); (void)hi; (void)lo
static RGB rgb(u8 r, u8 g, u8 b) { RGB p{}; p.channels[0] = r; p.channels[1] = g; p.channels[2] = b; return p; }
CONTRACT(C16_value)
{
    RGBIN;
    const HSV h = rgb2hsv(rgb(r, g, b));
    ASSERT(h.channels[2] == static_cast<double>(hi), "hsv.value-is-largest");
}
CONTRACT(C16_saturation)
{
    RGBIN;
    const HSV h = rgb2hsv(rgb(r, g, b));
    if (hi == 0) ASSERT(h.channels[1] == 0.0, "hsv.black-saturation");
    else ASSERT(vk::near(h.channels[1], 1.0 - static_cast<double>(lo) / static_cast<double>(hi)), "hsv.saturation");
}
CONTRACT(C16_grey)
{
    RGBIN;
    if (hi == lo) { const HSV h = rgb2hsv(rgb(r, g, b)); ASSERT(h.channels[0] == 0.0, "hsv.grey-hue"); }
}
#define SHAPE(im, w, h) ((im).getDimensionality() == 2 && (im).getWidth() == (w) && (im).getHeight() == (h) && (im).getImageData().size() == (w) * (h))
CONTRACT(C16_double)
{
    RGBIN;
    RGB_DOUBLE d{};
    d.channels[0] = r; d.channels[1] = g; d.channels[2] = b;
    ASSERT(vk::same(rgb2hsv(d), rgb2hsv(rgb(r, g, b))), "hsv.same-from-double");
}
template<class F> static void to_hsv(F f)
{
    DIMS;
    const auto a = vk::image<RGB>("a", W, H);
    const auto h = f(a);
    ASSERT(SHAPE(h, W, H), "hsv.image-shape");
    PROBE;
    ASSERT(vk::same(RAW(h, px, py), rgb2hsv(RAW(a, px, py))), "hsv.every-pixel");
}
CONTRACT(C16_image) { to_hsv([](auto& a) { return rgb2hsv(a); }); }
CONTRACT(C16_image_par) { to_hsv([](auto& a) { return rgb2hsv(std::execution::par, a); }); }
template<class F> static void to_rgb(F f)
{
    DIMS;
    const auto a = vk::image<HSV>("a", W, H);
    const auto h = f(a);
    ASSERT(SHAPE(h, W, H), "rgb.image-shape");
    PROBE;
    ASSERT(vk::same(RAW(h, px, py), hsv2rgb(RAW(a, px, py))), "rgb.every-pixel");
}
#if 1
CONTRACT(C16_back) { to_rgb([](auto& a) { return hsv2rgb(a); }); }
CONTRACT(C16_back_par) { to_rgb([](auto& a) { return hsv2rgb(std::execution::par, a); }); }
#endif
CONTRACT(C16_scale)
{
    const u8 v = vk::value<u8>("v");
    HSV h{};
    h.channels[0] = static_cast<double>(v) / 256.0 * 360; h.channels[1] = 1.0; h.channels[2] = 255.0;
    ASSERT(vk::same(Grayscale2RGB(v), hsv2rgb(h)), "scale.hue");
}
CONTRACT(C16_scale_image)
{
    DIMS;
    const auto a = vk::image<u8>("a", W, H);
    const auto c = Grayscale2RGB(a);
    ASSERT(SHAPE(c, W, H), "scale.image-shape");
    PROBE;
    ASSERT(vk::same(RAW(c, px, py), Grayscale2RGB(RAW(a, px, py))), "scale.every-pixel");
}
//  every colour: hue and saturation in range, and conversion there and back moves a channel by at most 5 (the hue is the arc-cosine one, not the hexagonal one)
BOUNDED(B16_round_trip)
{
    const u8 r = static_cast<u8>(vk::size("red", 0, 255));
    for (int g = 0; g < 256; ++g)
        for (int b = 0; b < 256; ++b)
        {
            const RGB p = rgb(r, static_cast<u8>(g), static_cast<u8>(b));
            const HSV h = rgb2hsv(p);
            ASSERT(h.channels[0] >= 0.0 && h.channels[0] < 360.0, "hsv.hue-range");
            ASSERT(h.channels[1] >= 0.0 && h.channels[1] <= 1.0, "hsv.saturation-range");
            const RGB q = hsv2rgb(h);
            for (int c = 0; c < 3; ++c) ASSERT(std::abs(int(q.channels[c]) - int(p.channels[c])) <= 5, "hsv.there-and-back");
        }
}
//  hexagonal cone: the independent closed form of the same map
BOUNDED(B16_hexcone)
{
    const double V = static_cast<double>(vk::size("val", 0, 255)), S = static_cast<double>(vk::size("sat", 0, 40)) / 40.0;
    for (int i = 0; i < 720; ++i)
    {
        HSV h{};
        h.channels[0] = i * 0.5; h.channels[1] = S; h.channels[2] = V;
        const RGB q = hsv2rgb(h);
        const int n[3] = { 5, 3, 1 };
        for (int c = 0; c < 3; ++c)
        {
            const double k = std::fmod(n[c] + h.channels[0] / 60.0, 6.0), want = V - V * S * std::max(0.0, std::min({ k, 4.0 - k, 1.0 }));
            ASSERT(q.channels[c] <= want + 1e-9 && q.channels[c] > want - 1.0 - 1e-9, "rgb.hexcone");
        }
    }
}
