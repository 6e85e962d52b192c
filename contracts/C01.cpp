// Addressing: a coordinate names exactly one storage cell, out-of-range and wrong-arity accesses throw and touch nothing.
#include "img.h"
#include <array>
#include <tuple>
#define ANYIDX(n) vk_u64_(n, 0, ~std::uint64_t{0})
#define IDX(n) vk::size(n, 0, vk::MAXIDX)

template<class T> void at_read()
{
    DIMS;
    const auto in = vk::image<T>("a", W, H);
    const std::size_t x = IDX("x"), y = IDX("y");
    T got{};
    const auto o = vk::outcome([&] { got = in.at(x, y); });
    if (x < W && y < H)
    {
        ASSERT(o == vk::RETURNED, "at.in-range.returns");
        ASSERT(vk::same(got, in.getImageData()[y * W + x]), "at.cell");
        ASSERT(vk::same(in.at_without_boundary_check(x, y), got), "at_without_boundary_check.cell");
        ASSERT(vk::same(in.get(y * W + x), got), "get.cell");
        const T br = in[x, y];
        ASSERT(vk::same(br, got), "subscript.cell");
    }
    else ASSERT(o == vk::OUT_OF_RANGE, "at.out-of-range.throws");
}
template<class T> void at_write()
{
    DIMS;
    auto im = vk::image<T>("a", W, H);
    const auto old = im;
    const T v = vk::value<T>("v");
    const std::size_t x = IDX("x"), y = IDX("y");
    const auto o = vk::outcome([&] { im.at(x, y) = v; });
    PROBE;
    ASSERT(o == ((x < W && y < H) ? vk::RETURNED : vk::OUT_OF_RANGE), "at.write.outcome");
    ASSERT(im.getWidth() == W && im.getHeight() == H && im.getImageData().size() == W * H, "at.write.shape");
    if (px == x && py == y) ASSERT(vk::same(im.getImageData()[py * W + px], v), "at.write.value");
    else ASSERT(vk::same(im.getImageData()[py * W + px], old.getImageData()[py * W + px]), "at.write.frame");
}
template<class T> void set_tuple()
{
    DIMS;
    auto im = vk::image<T>("a", W, H);
    const auto old = im;
    const T v = vk::value<T>("v");
    const std::size_t x = IDX("x"), y = IDX("y");
    const bool r = im.set(std::make_tuple(x, y), v);
    PROBE;
    ASSERT(r == (x < W && y < H), "set.result");
    if (px == x && py == y) ASSERT(vk::same(im.at(px, py), v), "set.value");
    else ASSERT(vk::same(im.at(px, py), old.at(px, py)), "set.frame");
}
template<class T> void set_index()
{
    DIMS;
    auto im = vk::image<T>("a", W, H);
    const auto old = im;
    const T v = vk::value<T>("v");
    const std::size_t i = vk::size("i", 0, vk::MAXIDX * vk::MAXIDX > vk::MAXIDX ? vk::MAXIDX : vk::MAXIDX);
    const auto o = vk::outcome([&] { im.set(i) = v; });
    PROBE;
    ASSERT(o == (i < W * H ? vk::RETURNED : vk::OUT_OF_RANGE), "set-index.outcome");
    if (py * W + px == i) ASSERT(vk::same(im.at(px, py), v), "set-index.value");
    else ASSERT(vk::same(im.at(px, py), old.at(px, py)), "set-index.frame");
}
#define ALL(T, n) \
CONTRACT(C01_at_read_##n) { at_read<T>(); } \
CONTRACT(C01_at_write_##n) { at_write<T>(); } \
CONTRACT(C01_set_tuple_##n) { set_tuple<T>(); } \
CONTRACT(C01_set_index_##n) { set_index<T>(); }
ALL(int, i32)
ALL(std::uint8_t, u8)
ALL(double, f64)
ALL(RGB, rgb)

CONTRACT(C01_at_signed)
{
    DIMS;
    const auto in = vk::image<int>("a", W, H);
    const std::int64_t x = vk_i64_("x", -(std::int64_t{1} << 40), std::int64_t{1} << 40), y = vk_i64_("y", -(std::int64_t{1} << 40), std::int64_t{1} << 40);
    int got = 0;
    const auto o = vk::outcome([&] { got = in.at(x, y); });
    if (x >= 0 && y >= 0 && (std::size_t)x < W && (std::size_t)y < H) ASSERT(o == vk::RETURNED && got == in.getImageData()[(std::size_t)y * W + (std::size_t)x], "at.signed.cell");
    else ASSERT(o == vk::OUT_OF_RANGE, "at.signed.throws");
}
CONTRACT(C01_at_int)
{
    DIMS;
    const auto in = vk::image<int>("a", W, H);
    const int x = (int)vk_i64_("x", -2147483647 - 1, 2147483647), y = (int)vk_i64_("y", -2147483647 - 1, 2147483647);
    int got = 0;
    const auto o = vk::outcome([&] { got = in.at(x, y); });
    if (x >= 0 && y >= 0 && (std::size_t)x < W && (std::size_t)y < H) ASSERT(o == vk::RETURNED && got == in.getImageData()[(std::size_t)y * W + (std::size_t)x], "at.int.cell");
    else ASSERT(o == vk::OUT_OF_RANGE, "at.int.throws");
}
CONTRACT(C01_arity)
{
    DIMS;
    auto in = vk::image<int>("a", W, H);
    const std::size_t x = IDX("x"), y = IDX("y"), z = IDX("z");
    ASSERT(vk::outcome([&] { in.at(x); }) == vk::RUNTIME_ERROR, "arity.1");
    ASSERT(vk::outcome([&] { in.at(x, y, z); }) == vk::RUNTIME_ERROR, "arity.3");
    ASSERT(vk::outcome([&] { in.at_without_boundary_check(x, y, z); }) == vk::RUNTIME_ERROR, "arity.unchecked.3");
    ASSERT(vk::outcome([&] { in.set(std::make_tuple(x, y, z), 1); }) == vk::RUNTIME_ERROR, "arity.set.3");
    ASSERT(vk::outcome([&] { in.set(std::make_tuple(x), 1); }) == vk::RUNTIME_ERROR, "arity.set.1");
    const std::array<std::size_t, 3> r3{x, y, z};
    const std::array<std::size_t, 1> r1{x};
    const auto& cin = in;
    ASSERT(vk::outcome([&] { in.at(r3); }) == vk::RUNTIME_ERROR && vk::outcome([&] { cin.at(r3); }) == vk::RUNTIME_ERROR, "arity.range.3");
    ASSERT(vk::outcome([&] { in.at(r1); }) == vk::RUNTIME_ERROR && vk::outcome([&] { cin.at(r1); }) == vk::RUNTIME_ERROR, "arity.range.1");
}
CONTRACT(C01_no_dimensions)
{
    Image<int> im;
    const std::size_t i = ANYIDX("i");
    ASSERT(im.count() == 0 && im.getDimensionality() == 0, "default.count");
    ASSERT(vk::outcome([&] { im.set(i) = 1; }) == vk::OUT_OF_RANGE, "default.set");
    ASSERT(vk::outcome([&] { im.at(i); }) == vk::RUNTIME_ERROR, "default.at");
}
CONTRACT(C01_at_1d)
{
    const std::size_t W = vk::size("W", 1, vk::MAXDIM);
    std::vector<int> v(W); vk::fill(v, "a");
    Image<int> im(v, W);
    const std::size_t x = IDX("x"), p = vk::size("p", 0, W - 1);
    const auto o = vk::outcome([&] { im.at(x) = 7; });
    ASSERT(o == (x < W ? vk::RETURNED : vk::OUT_OF_RANGE), "at1.outcome");
    ASSERT(im.getImageData()[p] == (p == x ? 7 : v[p]), "at1.frame");
}
CONTRACT(C01_at_3d)
{
    const std::size_t A = vk::size("A", 1, vk::MAXDIM), B = vk::size("B", 1, vk::MAXDIM), D = vk::size("D", 1, vk::MAXDIM);
    std::vector<int> v(A * B * D); vk::fill(v, "a");
    Image<int> im(v, A, B, D);
    const std::size_t x = IDX("x"), y = IDX("y"), z = IDX("z");
    const auto o = vk::outcome([&] { im.at(x, y, z) = 7; });
    const std::size_t p = vk::size("p", 0, A - 1), q = vk::size("q", 0, B - 1), r = vk::size("r", 0, D - 1);
    ASSERT(o == ((x < A && y < B && z < D) ? vk::RETURNED : vk::OUT_OF_RANGE), "at3.outcome");
    ASSERT(im.getImageData()[(r * B + q) * A + p] == ((p == x && q == y && r == z) ? 7 : v[(r * B + q) * A + p]), "at3.frame");
    ASSERT(im.getStride(0) == 1 && im.getStride(1) == A && im.getStride(2) == A * B, "stride");
    ASSERT(im.count() == A * B * D, "count");
}
CONTRACT(C01_at_range_2d)
{
    DIMS;
    auto im = vk::image<int>("a", W, H);
    const auto old = im;
    const std::size_t x = IDX("x"), y = IDX("y");
    const std::array<std::size_t, 2> ix{x, y};
    const auto o = vk::outcome([&] { im.at(ix) = 7; });
    PROBE;
    ASSERT(o == ((x < W && y < H) ? vk::RETURNED : vk::OUT_OF_RANGE), "at-range.outcome");
    ASSERT(im.at(px, py) == ((px == x && py == y) ? 7 : old.at(px, py)), "at-range.frame");
    const std::vector<std::size_t> iv{px, py};
    ASSERT(im.at(iv) == im.at(px, py), "at-range.vector");
}
CONTRACT(C01_at_range_3d)
{
    const std::size_t A = vk::size("A", 1, vk::MAXDIM), B = vk::size("B", 1, vk::MAXDIM), D = vk::size("D", 1, vk::MAXDIM);
    std::vector<int> v(A * B * D); vk::fill(v, "a");
    Image<int> im(v, A, B, D);
    const std::size_t x = IDX("x"), y = IDX("y"), z = IDX("z");
    const std::array<std::size_t, 3> ix{x, y, z};
    int got = 0;
    const auto o = vk::outcome([&] { got = im.at(ix); });
    if (x < A && y < B && z < D) ASSERT(o == vk::RETURNED && got == v[(z * B + y) * A + x], "at-range3.cell");
    else ASSERT(o == vk::OUT_OF_RANGE, "at-range3.throws");
}
BOUNDED(B01_pixels)
{
    DIMS;
    auto im = vk::image<int>("a", W, H);
    auto old = im;
    for (auto&& [value, x, y] : im.pixels_with_coordinates()) { value = (int)(x + 3 * y); }
    PROBE;
    ASSERT(im.at(px, py) == (int)(px + 3 * py), "pixels.coordinates");
}
