// Pixelwise arithmetic: every output pixel is the operation on exactly the corresponding input pixels; sizes must match.
#include "img.h"
#define SHAPE(im, w, h) ((im).getDimensionality() == 2 && (im).getWidth() == (w) && (im).getHeight() == (h) && (im).getImageData().size() == (w) * (h))
using u32 = std::uint32_t;
using MC3 = MultiChannel<double, 3>;
//  pixel arithmetic stated independently of the library's operators
template<class T> T plus_(T a, T b) { return a + b; }
template<class T> T minus_(T a, T b) { return a - b; }
template<> RGB plus_(RGB a, RGB b) { RGB r; for (int i = 0; i < 3; ++i) r.channels[i] = (std::uint8_t)(a.channels[i] + b.channels[i]); return r; }
template<> RGB minus_(RGB a, RGB b) { RGB r; for (int i = 0; i < 3; ++i) r.channels[i] = (std::uint8_t)(a.channels[i] - b.channels[i]); return r; }
template<> RGB_DOUBLE plus_(RGB_DOUBLE a, RGB_DOUBLE b) { RGB_DOUBLE r; for (int i = 0; i < 3; ++i) r.channels[i] = a.channels[i] + b.channels[i]; return r; }
template<> RGB_DOUBLE minus_(RGB_DOUBLE a, RGB_DOUBLE b) { RGB_DOUBLE r; for (int i = 0; i < 3; ++i) r.channels[i] = a.channels[i] - b.channels[i]; return r; }
template<> HSV plus_(HSV a, HSV b) { HSV r; for (int i = 0; i < 3; ++i) r.channels[i] = a.channels[i] + b.channels[i]; return r; }
template<> HSV minus_(HSV a, HSV b) { HSV r; for (int i = 0; i < 3; ++i) r.channels[i] = a.channels[i] - b.channels[i]; return r; }
template<> MC3 plus_(MC3 a, MC3 b) { MC3 r; for (int i = 0; i < 3; ++i) r.channels[i] = a.channels[i] + b.channels[i]; return r; }
template<> MC3 minus_(MC3 a, MC3 b) { MC3 r; for (int i = 0; i < 3; ++i) r.channels[i] = a.channels[i] - b.channels[i]; return r; }
//  f(image, image) -> image of R; want(pixel, pixel) -> R;  a second image of another shape must be rejected
template<class T, class F, class G> void binary(F f, G want)
{
    DIMS;
    const auto a = vk::image<T>("a", W, H), b = vk::image<T>("b", W, H);
    const auto out = f(a, b);
    ASSERT(SHAPE(out, W, H), "pixelwise.shape");
    PROBE;
    ASSERT(vk::same(RAW(out, px, py), want(RAW(a, px, py), RAW(b, px, py))), "pixelwise.value");
    ASSERT(SHAPE(a, W, H) && SHAPE(b, W, H), "pixelwise.inputs-kept");
}
template<class T, class F> void mismatch(F f)
{
    DIMS;
    const std::size_t w = vk::size("w", 1, vk::MAXDIM), h = vk::size("h", 1, vk::MAXDIM);
    ASSUME(w != W || h != H);
    const auto a = vk::image<T>("a", W, H), b = vk::image<T>("b", w, h);
    ASSERT(vk::outcome([&] { f(a, b); }) == vk::RUNTIME_ERROR, "pixelwise.mismatch.throws");
}
template<class T, class F, class G> void unary(F f, G want)
{
    DIMS;
    const auto a = vk::image<T>("a", W, H);
    const auto out = f(a);
    ASSERT(SHAPE(out, W, H), "pixelwise.shape");
    PROBE;
    ASSERT(vk::same(RAW(out, px, py), want(RAW(a, px, py))), "pixelwise.value");
}
template<class T, class F, class G> void inplace(F f, G want)
{
    DIMS;
    auto a = vk::image<T>("a", W, H);
    const auto b = vk::image<T>("b", W, H);
    PROBE;
    const T before = RAW(a, px, py);
    f(a, b);
    ASSERT(SHAPE(a, W, H), "inplace.shape");
    ASSERT(vk::same(RAW(a, px, py), want(before, RAW(b, px, py))), "inplace.value");
}
template<class T, class F> void inplace_mismatch(F f)
{
    DIMS;
    const std::size_t w = vk::size("w", 1, vk::MAXDIM), h = vk::size("h", 1, vk::MAXDIM);
    ASSUME(w != W || h != H);
    auto a = vk::image<T>("a", W, H);
    const auto b = vk::image<T>("b", w, h);
    PROBE;
    const T before = RAW(a, px, py);
    ASSERT(vk::outcome([&] { f(a, b); }) == vk::RUNTIME_ERROR, "inplace.mismatch.throws");
    ASSERT(SHAPE(a, W, H) && vk::same(RAW(a, px, py), before), "inplace.mismatch.unchanged");
}
#define ADDSUB(T, n) \
CONTRACT(C06_add_##n) { binary<T>([](auto& a, auto& b) { return add(a, b); }, plus_<T>); } \
CONTRACT(C06_add_mismatch_##n) { mismatch<T>([](auto& a, auto& b) { return add(a, b); }); } \
CONTRACT(C06_subtract_mismatch_##n) { mismatch<T>([](auto& a, auto& b) { return subtract(a, b); }); } \
CONTRACT(C06_op_plus_##n) { binary<T>([](auto& a, auto& b) { return a + b; }, plus_<T>); } \
CONTRACT(C06_op_minus_##n) { binary<T>([](auto& a, auto& b) { return a - b; }, minus_<T>); } \
CONTRACT(C06_op_plus_mismatch_##n) { mismatch<T>([](auto& a, auto& b) { return a + b; }); } \
CONTRACT(C06_op_minus_mismatch_##n) { mismatch<T>([](auto& a, auto& b) { return a - b; }); } \
CONTRACT(C06_add_assign_##n) { inplace<T>([](auto& a, auto& b) { a += b; }, plus_<T>); } \
CONTRACT(C06_sub_assign_##n) { inplace<T>([](auto& a, auto& b) { a -= b; }, minus_<T>); } \
CONTRACT(C06_add_assign_mismatch_##n) { inplace_mismatch<T>([](auto& a, auto& b) { a += b; }); } \
CONTRACT(C06_sub_assign_mismatch_##n) { inplace_mismatch<T>([](auto& a, auto& b) { a -= b; }); }
ADDSUB(u32, u32)
ADDSUB(double, f64)
ADDSUB(RGB, rgb)
CONTRACT(C06_add_rgbd) { binary<RGB_DOUBLE>([](auto& a, auto& b) { return add(a, b); }, plus_<RGB_DOUBLE>); }
CONTRACT(C06_add_hsv) { binary<HSV>([](auto& a, auto& b) { return add(a, b); }, plus_<HSV>); }
CONTRACT(C06_add_mc3) { binary<MC3>([](auto& a, auto& b) { return add(a, b); }, plus_<MC3>); }
CONTRACT(C06_op_minus_rgbd) { binary<RGB_DOUBLE>([](auto& a, auto& b) { return a - b; }, minus_<RGB_DOUBLE>); }
CONTRACT(C06_op_minus_hsv) { binary<HSV>([](auto& a, auto& b) { return a - b; }, minus_<HSV>); }
CONTRACT(C06_op_minus_mc3) { binary<MC3>([](auto& a, auto& b) { return a - b; }, minus_<MC3>); }
CONTRACT(C06_subtract_u32) { binary<u32>([](auto& a, auto& b) { return subtract(a, b); }, minus_<u32>); }
CONTRACT(C06_subtract_f64) { binary<double>([](auto& a, auto& b) { return subtract(a, b); }, minus_<double>); }
CONTRACT(C06_subtract_mc3) { binary<MC3>([](auto& a, auto& b) { return subtract(a, b); }, minus_<MC3>); }
//  subtraction of RGB images saturates at 0
CONTRACT(C06_subtract_rgb)
{
    binary<RGB>([](auto& a, auto& b) { return subtract(a, b); }, [](RGB a, RGB b)
    {
        RGB r;
        for (int i = 0; i < 3; ++i) r.channels[i] = a.channels[i] > b.channels[i] ? (std::uint8_t)(a.channels[i] - b.channels[i]) : 0;
        return r;
    });
}
CONTRACT(C06_add3)
{
    DIMS;
    const auto a = vk::image<u32>("a", W, H), b = vk::image<u32>("b", W, H), c = vk::image<u32>("c", W, H);
    const auto out = add(a, b, c);
    ASSERT(SHAPE(out, W, H), "add3.shape");
    PROBE;
    ASSERT(RAW(out, px, py) == RAW(a, px, py) + RAW(b, px, py) + RAW(c, px, py), "add3.value");
}
CONTRACT(C06_add3_mismatch)
{
    DIMS;
    const std::size_t w = vk::size("w", 1, vk::MAXDIM), h = vk::size("h", 1, vk::MAXDIM);
    ASSUME(w != W || h != H);
    const auto a = vk::image<u32>("a", W, H), b = vk::image<u32>("b", w, h), c = vk::image<u32>("c", W, H);
    ASSERT(vk::outcome([&] { add(a, b, c); }) == vk::RUNTIME_ERROR, "add3.middle.throws");
    ASSERT(vk::outcome([&] { add(b, a, c); }) == vk::RUNTIME_ERROR, "add3.first.throws");
    ASSERT(vk::outcome([&] { pixelwise_multiplies(b, a, c); }) == vk::RUNTIME_ERROR, "multiply3.first.throws");
}
//  recorded, not repaired: backgroundTest relies on it
BOUNDED(K06_transform_mismatch) { mismatch<u32>([](auto& a, auto& b) { return pixelwise_transform(std::plus<>{}, a, b); }); }
CONTRACT(C06_multiply_pixels) { binary<double>([](auto& a, auto& b) { return pixelwise_multiplies(a, b); }, [](double x, double y) { return x * y; }); }
CONTRACT(C06_multiply_pixels_u32) { binary<u32>([](auto& a, auto& b) { return pixelwise_multiplies(a, b); }, [](u32 x, u32 y) { return x * y; }); }
CONTRACT(C06_multiply_pixels_mismatch) { mismatch<u32>([](auto& a, auto& b) { return pixelwise_multiplies(a, b); }); }
CONTRACT(C06_mul_assign) { inplace<u32>([](auto& a, auto& b) { a *= b; }, [](u32 x, u32 y) { return x * y; }); }
CONTRACT(C06_mul_assign_f64) { inplace<double>([](auto& a, auto& b) { a *= b; }, [](double x, double y) { return x * y; }); }
CONTRACT(C06_div_assign_f64) { inplace<double>([](auto& a, auto& b) { a /= b; }, [](double x, double y) { return x / y; }); }
CONTRACT(C06_mul_assign_mismatch) { inplace_mismatch<u32>([](auto& a, auto& b) { a *= b; }); }
CONTRACT(C06_div_assign_mismatch) { inplace_mismatch<double>([](auto& a, auto& b) { a /= b; }); }
CONTRACT(C06_divides) { binary<double>([](auto& a, auto& b) { return divides(a, b); }, [](double x, double y) { return x / y; }); }
CONTRACT(C06_divides_mismatch) { mismatch<double>([](auto& a, auto& b) { return divides(a, b); }); }
CONTRACT(C06_modulus_mismatch) { mismatch<u32>([](auto& a, auto& b) { return modulus(a, b); }); }
CONTRACT(C06_difference_mismatch) { mismatch<double>([](auto& a, auto& b) { return difference(a, b); }); }
CONTRACT(C06_difference_f64) { binary<double>([](auto& a, auto& b) { return difference(a, b); }, [](double x, double y) { return x > y ? x - y : y - x; }); }
CONTRACT(C06_difference_u32) { binary<u32>([](auto& a, auto& b) { return difference(a, b); }, [](u32 x, u32 y) { return x > y ? x - y : y - x; }); }
template<class T, class U> void difference_channels()
{
    binary<T>([](auto& a, auto& b) { return difference(a, b); }, [](T x, T y)
    {
        T r{};
        for (std::size_t i = 0; i < vk::scalar<T>::n; ++i) r.channels[i] = x.channels[i] > y.channels[i] ? (U)(x.channels[i] - y.channels[i]) : (U)(y.channels[i] - x.channels[i]);
        return r;
    });
}
CONTRACT(C06_difference_rgb) { difference_channels<RGB, std::uint8_t>(); }
CONTRACT(C06_difference_rgbd) { difference_channels<RGB_DOUBLE, double>(); }
CONTRACT(C06_difference_hsv) { difference_channels<HSV, double>(); }
CONTRACT(C06_difference_mc3) { difference_channels<MC3, double>(); }
CONTRACT(C06_difference_mc2) { difference_channels<MultiChannel<u32, 2>, u32>(); }
CONTRACT(C06_difference_mc4) { difference_channels<MultiChannel<u32, 4>, u32>(); }
CONTRACT(C06_negate) { unary<double>([](auto& a) { return negate(a); }, [](double x) { return -x; }); }
CONTRACT(C06_negate_policy) { unary<double>([](auto& a) { return negate(std::execution::par, a); }, [](double x) { return -x; }); }
CONTRACT(C06_abs) { unary<double>([](auto& a) { return abs(a); }, [](double x) { return std::abs(x); }); }
CONTRACT(C06_pow) { unary<double>([](auto& a) { return pow(a, 1.5); }, [](double x) { return std::pow(x, 1.5); }); }
CONTRACT(C06_pow_policy) { unary<double>([](auto& a) { return pow(std::execution::par, a, 1.5); }, [](double x) { return std::pow(x, 1.5); }); }
CONTRACT(C06_scale)
{
    DIMS;
    const auto a = vk::image<double>("a", W, H);
    const double k = vk::value<double>("k");
    const auto out = multiplies(a, k), out2 = multiplies(k, a);
    const auto out3 = a * k, out4 = k * a;
    ASSERT(SHAPE(out, W, H) && SHAPE(out2, W, H) && SHAPE(out3, W, H) && SHAPE(out4, W, H), "scale.shape");
    PROBE;
    const double want = RAW(a, px, py) * k;
    ASSERT(vk::same(RAW(out, px, py), want) && vk::same(RAW(out2, px, py), want) && vk::same(RAW(out3, px, py), want) && vk::same(RAW(out4, px, py), want), "scale.value");
}
CONTRACT(C06_divides_scalar)
{
    DIMS;
    const auto a = vk::image<double>("a", W, H);
    const double k = vk::value<double>("k");
    const auto out = divides(a, k);
    ASSERT(SHAPE(out, W, H), "divides.shape");
    PROBE;
    ASSERT(vk::same(RAW(out, px, py), RAW(a, px, py) / k), "divides.value");
}
CONTRACT(C06_apply_each_pixel)
{
    DIMS;
    const auto a = vk::image<u32>("a", W, H);
    const u32 k = vk::value<u32>("k");
    const auto f = [](u32 x, u32 y) { return (std::uint64_t)x * 3 + y; };
    const auto o1 = apply_each_pixel(std::execution::par, a, f, k);
    const auto o2 = apply_each_pixel_openmp(a, f, k);
    const auto o3 = pixelwise_transform([&](u32 x) { return f(x, k); }, a);
    const auto o4 = pixelwise_transform(std::execution::seq, [&](u32 x) { return f(x, k); }, a);
    ASSERT(SHAPE(o1, W, H) && SHAPE(o2, W, H) && SHAPE(o3, W, H) && SHAPE(o4, W, H), "apply.shape");
    PROBE;
    const auto want = f(RAW(a, px, py), k);
    ASSERT(RAW(o1, px, py) == want && RAW(o2, px, py) == want && RAW(o3, px, py) == want && RAW(o4, px, py) == want, "apply.value");
}
CONTRACT(C06_threshold)
{
    DIMS;
    const auto a = vk::image<u32>("a", W, H);
    const u32 k = vk::value<u32>("k");
    const auto out = apply_threshold_openmp(a, k);
    ASSERT(SHAPE(out, W, H), "threshold.shape");
    PROBE;
    ASSERT(RAW(out, px, py) == (RAW(a, px, py) > k ? 0xffffffffu : 0u), "threshold.value");
}
//  lists of images: image by image
template<class Op, class Ref> static void each_pair(Op op, Ref ref)
{
    DIMS; PROBE;
    const std::size_t U = vk::size("U", 1, vk::MAXDIM), V = vk::size("V", 1, vk::MAXDIM);
    const std::vector<Image<u32>> a{ vk::image<u32>("a0", W, H), vk::image<u32>("a1", U, V) }, b{ vk::image<u32>("b0", W, H), vk::image<u32>("b1", U, V) };
    const auto o = op(a, b);
    ASSERT(o.size() == 2 && SHAPE(o[0], W, H) && SHAPE(o[1], U, V), "list.shape");
    ASSERT(RAW(o[0], px, py) == ref(RAW(a[0], px, py), RAW(b[0], px, py)), "list.first");
    const std::size_t qx = vk::size("qx", 0, U - 1), qy = vk::size("qy", 0, V - 1);
    ASSERT(RAW(o[1], qx, qy) == ref(RAW(a[1], qx, qy), RAW(b[1], qx, qy)), "list.second");
}
CONTRACT(C06_add_list) { each_pair([](auto& a, auto& b) { return add(a, b); }, [](u32 x, u32 y) { return x + y; }); }
CONTRACT(C06_subtract_list) { each_pair([](auto& a, auto& b) { return subtract(a, b); }, [](u32 x, u32 y) { return x - y; }); }
CONTRACT(C06_multiplies_list) { each_pair([](auto& a, auto& b) { return pixelwise_multiplies(a, b); }, [](u32 x, u32 y) { return x * y; }); }
CONTRACT(C06_point)
{
    Point<2> a{ vk::size("a0", 0, ~0ull), vk::size("a1", 0, ~0ull) }, b{ vk::size("b0", 0, ~0ull), vk::size("b1", 0, ~0ull) };
    const auto s = a + b, d = a - b;
    ASSERT(s.p[0] == a.p[0] + b.p[0] && s.p[1] == a.p[1] + b.p[1], "point.plus");
    ASSERT(d.p[0] == a.p[0] - b.p[0] && d.p[1] == a.p[1] - b.p[1], "point.minus");
}
CONTRACT(C06_divides_list)
{
    DIMS; PROBE;
    const std::vector<Image<double>> a{ vk::image<double>("a0", W, H), vk::image<double>("a1", W, H) }, b{ vk::image<double>("b0", W, H), vk::image<double>("b1", W, H) };
    const auto o = divides(a, b);
    ASSERT(o.size() == 2 && SHAPE(o[0], W, H) && SHAPE(o[1], W, H), "list.shape");
    for (std::size_t k = 0; k < 2; ++k) ASSERT(vk::same(RAW(o[k], px, py), RAW(a[k], px, py) / RAW(b[k], px, py)), "list.pixel");
}
