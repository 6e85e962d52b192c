#include "img.h"
template<class T, class F> void check_transpose(F f)
{
    DIMS;
    auto in = vk::image<T>("a", W, H);
    const auto out = f(in);
    PROBE;
    ASSERT(out.getDimensionality() == 2, "transpose.dim");
    ASSERT(out.getWidth() == H && out.getHeight() == W, "transpose.size");
    ASSERT(vk::same(out.at(py, px), in.at(px, py)), "transpose.pixel");
}
template<class T, class F> void check_flip(F f, bool fx, bool fy)
{
    DIMS;
    auto in = vk::image<T>("a", W, H);
    const auto out = f(in);
    PROBE;
    ASSERT(out.getDimensionality() == 2, "flip.dim");
    ASSERT(out.getWidth() == W && out.getHeight() == H, "flip.size");
    ASSERT(vk::same(out.at(fx ? W - 1 - px : px, fy ? H - 1 - py : py), in.at(px, py)), "flip.pixel");
}
#define ALL(T, n) \
CONTRACT(C03_transpose_##n) { check_transpose<T>([](const Image<T>& i) { return transpose(i); }); } \
CONTRACT(C03_transpose_policy_##n) { check_transpose<T>([](const Image<T>& i) { return transpose(std::execution::seq, i); }); } \
CONTRACT(C03_flip_h_##n) { check_flip<T>([](const Image<T>& i) { return flip_horizontal(i); }, true, false); } \
CONTRACT(C03_flip_v_##n) { check_flip<T>([](const Image<T>& i) { return flip_vertical(i); }, false, true); } \
CONTRACT(C03_flip_hv_##n) { check_flip<T>([](const Image<T>& i) { return flip_horizontal_vertical(i); }, true, true); } \
CONTRACT(C03_inv_transpose_##n) { DIMS; auto in = vk::image<T>("a", W, H); const auto out = transpose(transpose(in)); PROBE; \
    ASSERT(out.getWidth() == W && out.getHeight() == H && vk::same(out.at(px, py), in.at(px, py)), "transpose.involution"); } \
CONTRACT(C03_inv_flips_##n) { DIMS; auto in = vk::image<T>("a", W, H); const auto out = flip_horizontal_vertical(flip_vertical(flip_horizontal(in))); PROBE; \
    ASSERT(out.getWidth() == W && out.getHeight() == H && vk::same(out.at(px, py), in.at(px, py)), "flips.involution"); }
ALL(int, i32)
ALL(std::uint8_t, u8)
ALL(double, f64)
ALL(RGB, rgb)
ALL(HSV, hsv)
