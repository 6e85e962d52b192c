// Construction: every way of building an image yields exactly the requested shape, a cell per coordinate, the given data; mismatches throw.
#include "img.h"
#include <array>
#define SH(im) ((im).getDimensionality() == 2 && (im).getWidth() == W && (im).getHeight() == H && (im).getSize(0) == W && (im).getSize(1) == H && (im).getImageData().size() == W * H && (im).count() == W * H)
template<class T> void sized()
{
    DIMS;
    Image<T> im(W, H);
    PROBE;
    ASSERT(SH(im), "sized.shape");
    ASSERT(vk::same(im.at(px, py), T{}), "sized.zero");
}
template<class T> void sized_vector()
{
    DIMS;
    const std::vector<std::size_t> sz{W, H};
    Image<T> im(sz);
    PROBE;
    ASSERT(SH(im), "sized-vector.shape");
    ASSERT(vk::same(im.at(px, py), T{}), "sized-vector.zero");
}
template<class T> void from_data()
{
    DIMS;
    std::vector<T> v(W * H); vk::fill(v, "a");
    const Image<T> im(v, W, H);
    PROBE;
    ASSERT(SH(im), "data.shape");
    ASSERT(vk::same(im.at(px, py), v[py * W + px]), "data.row-major");
    const std::vector<std::size_t> sz{W, H};
    const Image<T> im2(v, sz);
    ASSERT(SH(im2), "data-sizes.shape");
    ASSERT(vk::same(im2.at(px, py), v[py * W + px]), "data-sizes.row-major");
}
template<class T> void mismatch()
{
    DIMS;
    const std::size_t n = vk::size("n", 1, vk::MAXIDX);
    ASSUME(n != W * H);
    std::vector<T> v(n); vk::fill(v, "a");
    ASSERT(vk::outcome([&] { Image<T> im(v, W, H); }) == vk::RUNTIME_ERROR, "mismatch.throws");
    const std::vector<std::size_t> sz{W, H};
    ASSERT(vk::outcome([&] { Image<T> im(v, sz); }) == vk::RUNTIME_ERROR, "mismatch-sizes.throws");
}
template<class T> void copies()
{
    DIMS;
    auto a = vk::image<T>("a", W, H);
    Image<T> b = a;                      // copy is independent
    const T v = vk::value<T>("v");
    PROBE;
    const std::size_t x = vk::size("x", 0, W - 1), y = vk::size("y", 0, H - 1);
    const T before = a.at(px, py);
    b.at(x, y) = v;
    ASSERT(SH(b), "copy.shape");
    ASSERT(vk::same(a.at(px, py), before), "copy.independent");
    Image<T> c;
    c = a;
    ASSERT(SH(c) && vk::same(c.at(px, py), before), "assign");
    Image<T> d = std::move(a);
    ASSERT(SH(d) && vk::same(d.at(px, py), before), "move");
}
template<class T> void all_value()
{
    DIMS;
    auto a = vk::image<T>("a", W, H);
    const T v = vk::value<T>("v");
    a.setAllValue(v);
    PROBE;
    ASSERT(SH(a) && vk::same(a.at(px, py), v), "setAllValue");
}
#define ALL(T, n) \
CONTRACT(C02_sized_##n) { sized<T>(); } \
CONTRACT(C02_sized_vector_##n) { sized_vector<T>(); } \
CONTRACT(C02_data_##n) { from_data<T>(); } \
CONTRACT(C02_mismatch_##n) { mismatch<T>(); } \
CONTRACT(C02_copies_##n) { copies<T>(); } \
CONTRACT(C02_setall_##n) { all_value<T>(); }
ALL(int, i32)
ALL(std::uint8_t, u8)
ALL(double, f64)
ALL(RGB, rgb)
CONTRACT(C02_3d)
{
    const std::size_t A = vk::size("A", 1, vk::MAXDIM), B = vk::size("B", 1, vk::MAXDIM), D = vk::size("D", 1, vk::MAXDIM);
    Image<int> im(A, B, D);
    ASSERT(im.getDimensionality() == 3 && im.getSize(0) == A && im.getSize(1) == B && im.getSize(2) == D, "3d.shape");
    ASSERT(im.getImageData().size() == A * B * D && im.count() == A * B * D, "3d.count");
    const std::size_t p = vk::size("p", 0, A - 1), q = vk::size("q", 0, B - 1), r = vk::size("r", 0, D - 1);
    ASSERT(im.at(p, q, r) == 0, "3d.zero");
}
CONTRACT(C02_int_sizes)
{
    const int W = (int)vk::size("W", 1, vk::MAXDIM), H = (int)vk::size("H", 1, vk::MAXDIM);
    Image<int> im(W, H);
    ASSERT(im.getDimensionality() == 2 && im.getWidth() == (std::size_t)W && im.getHeight() == (std::size_t)H, "int.shape");
    ASSERT(im.getImageData().size() == (std::size_t)W * (std::size_t)H, "int.count");
}
CONTRACT(C02_empty)
{
    const std::vector<std::size_t> none;
    const std::vector<int> nodata;
    DIMS;
    ASSERT(vk::outcome([&] { Image<int> im(none); }) == vk::RUNTIME_ERROR, "empty.sizes");
    ASSERT(vk::outcome([&] { Image<int> im(nodata, W, H); }) == vk::RUNTIME_ERROR, "empty.data");
    const std::vector<std::vector<int>> norows;
    ASSERT(vk::outcome([&] { Image<int> im(norows); }) == vk::RUNTIME_ERROR, "empty.rows");
}
CONTRACT(C02_cast)
{
    DIMS;
    const auto a = vk::image<std::uint8_t>("a", W, H);
    const auto b = a.cast<int>();
    const auto c = vk::image<int>("c", W, H).cast<std::uint8_t>();
    PROBE;
    ASSERT(SH(b) && b.at(px, py) == (int)a.at(px, py), "cast.widen");
    ASSERT(SH(c), "cast.shape");
}
CONTRACT(C02_cast_double)
{
    DIMS;
    const auto a = vk::image<int>("a", W, H);
    const auto b = a.cast<double>();
    PROBE;
    ASSERT(SH(b) && b.at(px, py) == (double)a.at(px, py), "cast.double");
}
CONTRACT(C02_equal)
{
    DIMS;
    const auto a = vk::image<int>("a", W, H);
    const auto b = vk::image<int>("b", W, H);
    PROBE;
    ASSERT(a == a, "equal.reflexive");
    if (a == b) ASSERT(a.at(px, py) == b.at(px, py), "equal.pixelwise");
    if (a != b) ASSERT(!(a == b), "not-equal");
    else ASSERT(a == b, "not-equal.false");
}
CONTRACT(C02_equal_shape)
{
    DIMS;
    const std::size_t V = vk::size("V", 1, vk::MAXDIM), G = vk::size("G", 1, vk::MAXDIM);
    const auto a = vk::image<int>("a", W, H);
    const auto b = vk::image<int>("b", V, G);
    ASSUME(W != V || H != G);
    ASSERT(!(a == b) && a != b, "equal.shape");
}
CONTRACT(C02_equal_one)
{
    DIMS;
    const auto a = vk::image<int>("a", W, H);
    auto c = a;
    const int v = vk::value<int>("v");
    const std::size_t x = vk::size("x", 0, W - 1), y = vk::size("y", 0, H - 1);
    ASSERT(a == c, "equal.copy");
    const int before = c.at(x, y);
    c.at(x, y) = v;
    if (v != before) ASSERT(!(a == c), "equal.one-pixel");
    else ASSERT(a == c, "equal.same-pixel");
}
CONTRACT(C02_rows3)
{
    const std::size_t W = vk::size("W", 1, vk::MAXDIM), V = vk::size("V", 1, vk::MAXDIM);
    std::vector<int> r0(W), r1(W), r2(V); vk::fill(r0, "a"); vk::fill(r1, "b"); vk::fill(r2, "c");
    const std::vector<std::vector<int>> v{r0, r1, r2};
    Image<int> im;
    const auto o = vk::outcome([&] { im = Image<int>(v); });
    if (V != W) ASSERT(o == vk::RUNTIME_ERROR, "rows.ragged");
    else
    {
        const std::size_t H = 3;
        PROBE;
        ASSERT(o == vk::RETURNED && SH(im), "rows3.shape");
        ASSERT(im.at(px, py) == (py == 0 ? r0[px] : py == 1 ? r1[px] : r2[px]), "rows3.data");
    }
}
BOUNDED(B02_rows)
{
    DIMS;
    std::vector<std::vector<int>> v(H);
    for (std::size_t j = 0; j < H; ++j) for (std::size_t i = 0; i < W; ++i) v[j].push_back((int)(j * W + i));
    const std::size_t cut = vk::size("cut", 0, H), at = vk::size("at", 0, H - 1);
    if (cut > 0 && H > 1 && W > 0) v[at].pop_back();
    Image<int> im;
    const auto o = vk::outcome([&] { im = Image<int>(v); });
    if (cut > 0 && H > 1) { ASSERT(o == vk::RUNTIME_ERROR, "rows.ragged"); return; }
    ASSERT(o == vk::RETURNED && SH(im), "rows.shape");
    for (std::size_t j = 0; j < H; ++j) for (std::size_t i = 0; i < W; ++i) ASSERT(im.at(i, j) == (int)(j * W + i), "rows.data");
}
CONTRACT(C02_equal_shape3)
{
    const std::size_t A = vk::size("A", 1, vk::MAXDIM), B = vk::size("B", 1, vk::MAXDIM), D = vk::size("D", 1, vk::MAXDIM);
    const std::size_t A2 = vk::size("A2", 1, vk::MAXDIM), B2 = vk::size("B2", 1, vk::MAXDIM), D2 = vk::size("D2", 1, vk::MAXDIM);
    std::vector<int> v(A * B * D), w(A2 * B2 * D2);
    const Image<int> a(v, A, B, D), b(w, A2, B2, D2);
    if (A != A2 || B != B2 || D != D2) ASSERT(!(a == b) && a != b, "equal.shape3");
    const Image<int> flat(v, A * B, D);
    ASSERT(!(a == flat) && a != flat, "equal.dimensionality");
}
CONTRACT(C02_same_size)
{
    DIMS;
    const std::size_t w = vk::size("w", 1, vk::MAXDIM), h = vk::size("h", 1, vk::MAXDIM), w3 = vk::size("w3", 1, vk::MAXDIM), h3 = vk::size("h3", 1, vk::MAXDIM);
    const auto a = vk::image<int>("a", W, H), b = vk::image<int>("b", w, h), c = vk::image<int>("c", w3, h3);
    ASSERT(is_width_same(a, b) == (W == w), "same.width");
    ASSERT(is_height_same(a, b) == (H == h), "same.height");
    ASSERT(is_size_same(a, b) == (W == w && H == h), "same.size");
    ASSERT(is_width_same(a, b, c) == (W == w && w == w3), "same.width3");
    ASSERT(is_height_same(a, b, c) == (H == h && h == h3), "same.height3");
    ASSERT(is_size_same(a, b, c) == (W == w && H == h && w == w3 && h == h3), "same.size3");
}
CONTRACT(C02_check_size)
{
    DIMS;
    const std::size_t w = vk::size("w", 1, vk::MAXDIM), h = vk::size("h", 1, vk::MAXDIM);
    const auto a = vk::image<int>("a", W, H), b = vk::image<int>("b", w, h);
    ASSERT(vk::outcome([&] { check_width_same(a, b); }) == (W == w ? vk::RETURNED : vk::RUNTIME_ERROR), "check.width");
    ASSERT(vk::outcome([&] { check_height_same(a, b); }) == (H == h ? vk::RETURNED : vk::RUNTIME_ERROR), "check.height");
    ASSERT(vk::outcome([&] { check_size_same(a, b); }) == (W == w && H == h ? vk::RETURNED : vk::RUNTIME_ERROR), "check.size");
}
CONTRACT(C02_default)
{
    Image<int> im;
    ASSERT(im.count() == 0 && im.getDimensionality() == 0 && im.getImageData().empty(), "default.empty");
}
