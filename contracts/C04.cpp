// Cutting and joining: subimage, subimage2, split, paste2D, concat_*, add_border_2d move every pixel to exactly its place.
#include "img.h"
#define SHAPE(im, w, h) ((im).getDimensionality() == 2 && (im).getWidth() == (w) && (im).getHeight() == (h) && (im).getImageData().size() == (w) * (h))
template<class T> void crop2()
{
    DIMS;
    const auto in = vk::image<T>("a", W, H);
    const std::size_t x0 = vk::size("x0", 0, vk::MAXIDX), x1 = vk::size("x1", 0, vk::MAXIDX), y0 = vk::size("y0", 0, vk::MAXIDX), y1 = vk::size("y1", 0, vk::MAXIDX);
    Image<T> out;
    const auto o = vk::outcome([&] { out = subimage2(in, x0, x1, y0, y1); });
    if (x0 > x1 || y0 > y1 || x1 >= W || y1 >= H) { ASSERT(o == vk::RUNTIME_ERROR, "subimage2.rejects"); return; }
    ASSERT(o == vk::RETURNED, "subimage2.accepts");
    ASSERT(SHAPE(out, x1 - x0 + 1, y1 - y0 + 1), "subimage2.shape");
    const std::size_t px = vk::size("px", 0, x1 - x0), py = vk::size("py", 0, y1 - y0);
    ASSERT(vk::same(RAW(out, px, py), RAW(in, x0 + px, y0 + py)), "subimage2.pixel");
}
template<class T> void crop()
{
    DIMS;
    const auto in = vk::image<T>("a", W, H);
    const T dflt = vk::value<T>("d");
    const std::size_t w = vk::size("w", 1, vk::MAXDIM), h = vk::size("h", 1, vk::MAXDIM), cx = vk::size("cx", 0, vk::MAXIDX), cy = vk::size("cy", 0, vk::MAXIDX);
    const auto out = subimage(in, w, h, cx, cy, dflt);
    ASSERT(SHAPE(out, w, h), "subimage.shape");
    const std::size_t px = vk::size("px", 0, w - 1), py = vk::size("py", 0, h - 1);
    const std::int64_t sx = (std::int64_t)(cx + px) - (std::int64_t)(w / 2), sy = (std::int64_t)(cy + py) - (std::int64_t)(h / 2);
    if (sx >= 0 && sy >= 0 && (std::size_t)sx < W && (std::size_t)sy < H) ASSERT(vk::same(RAW(out, px, py), RAW(in, (std::size_t)sx, (std::size_t)sy)), "subimage.pixel");
    else ASSERT(vk::same(RAW(out, px, py), dflt), "subimage.default");
}
template<class T> void paste()
{
    DIMS;
    const std::size_t w = vk::size("w", 1, vk::MAXDIM), h = vk::size("h", 1, vk::MAXDIM), x0 = vk::size("x0", 0, vk::MAXDIM), y0 = vk::size("y0", 0, vk::MAXDIM);
    const auto bg = vk::image<T>("a", W, H);
    const auto tg = vk::image<T>("b", w, h);
    const T dflt = vk::value<T>("d");
    const auto out = paste2D(bg, tg, x0, y0, dflt);
    const std::size_t ow = std::max(W, x0 + w), oh = std::max(H, y0 + h);
    ASSERT(SHAPE(out, ow, oh), "paste2D.shape");
    const std::size_t px = vk::size("px", 0, ow - 1), py = vk::size("py", 0, oh - 1);
    const T got = RAW(out, px, py);
    if (px >= x0 && px < x0 + w && py >= y0 && py < y0 + h) ASSERT(vk::same(got, RAW(tg, px - x0, py - y0)), "paste2D.target");
    else if (px < W && py < H) ASSERT(vk::same(got, RAW(bg, px, py)), "paste2D.background");
    else ASSERT(vk::same(got, dflt), "paste2D.default");
}
template<class T> void cat_h()
{
    DIMS;
    const std::size_t w = vk::size("w", 1, vk::MAXDIM), h = vk::size("h", 1, vk::MAXDIM);
    const auto a = vk::image<T>("a", W, H);
    const auto b = vk::image<T>("b", w, h);
    Image<T> out;
    const auto o = vk::outcome([&] { out = concat_horizontal(a, b); });
    if (h != H) { ASSERT(o != vk::RETURNED, "concat_horizontal.rejects"); return; }
    ASSERT(o == vk::RETURNED && SHAPE(out, W + w, H), "concat_horizontal.shape");
    const std::size_t px = vk::size("px", 0, W + w - 1), py = vk::size("py", 0, H - 1);
    if (px < W) ASSERT(vk::same(RAW(out, px, py), RAW(a, px, py)), "concat_horizontal.left");
    else ASSERT(vk::same(RAW(out, px, py), RAW(b, px - W, py)), "concat_horizontal.right");
}
template<class T> void cat_v()
{
    DIMS;
    const std::size_t w = vk::size("w", 1, vk::MAXDIM), h = vk::size("h", 1, vk::MAXDIM);
    const auto a = vk::image<T>("a", W, H);
    const auto b = vk::image<T>("b", w, h);
    Image<T> out;
    const auto o = vk::outcome([&] { out = concat_vertical(a, b); });
    if (w != W) { ASSERT(o != vk::RETURNED, "concat_vertical.rejects"); return; }
    ASSERT(o == vk::RETURNED && SHAPE(out, W, H + h), "concat_vertical.shape");
    const std::size_t px = vk::size("px", 0, W - 1), py = vk::size("py", 0, H + h - 1);
    if (py < H) ASSERT(vk::same(RAW(out, px, py), RAW(a, px, py)), "concat_vertical.top");
    else ASSERT(vk::same(RAW(out, px, py), RAW(b, px, py - H)), "concat_vertical.bottom");
}
template<class T> void border()
{
    DIMS;
    const std::size_t e = vk::size("e", 0, vk::MAXDIM);
    const auto in = vk::image<T>("a", W, H);
    const T v = vk::value<T>("v");
    const auto out = add_border_2d(std::execution::seq, in, e, v);
    ASSERT(SHAPE(out, W + 2 * e, H + 2 * e), "border.shape");
    const std::size_t px = vk::size("px", 0, W + 2 * e - 1), py = vk::size("py", 0, H + 2 * e - 1);
    if (px >= e && px < e + W && py >= e && py < e + H) ASSERT(vk::same(RAW(out, px, py), RAW(in, px - e, py - e)), "border.inside");
    else ASSERT(vk::same(RAW(out, px, py), v), "border.outside");
}
#define ALL(T, n) \
CONTRACT(C04_subimage2_##n) { crop2<T>(); } \
CONTRACT(C04_paste2D_##n) { paste<T>(); } \
CONTRACT(C04_concat_horizontal_##n) { cat_h<T>(); } \
CONTRACT(C04_concat_vertical_##n) { cat_v<T>(); } \
CONTRACT(C04_border_##n) { border<T>(); }
ALL(int, i32)
ALL(double, f64)
ALL(RGB, rgb)
CONTRACT(C04_subimage_i32) { crop<int>(); }
CONTRACT(C04_subimage_f64) { crop<double>(); }
BOUNDED(B04_subimage_rgb) { crop<RGB>(); }
template<class T> void cat_vectors()
{
    DIMS;
    const std::size_t w = vk::size("w", 1, vk::MAXDIM), u = vk::size("u", 1, vk::MAXDIM);
    const auto a = vk::image<T>("a", W, H), b = vk::image<T>("b", w, H), c = vk::image<T>("c", u, H);
    const auto out = concat_horizontal(std::vector<Image<T>>{a, b, c});
    ASSERT(SHAPE(out, W + w + u, H), "concat_horizontal3.shape");
    const std::size_t px = vk::size("px", 0, W + w + u - 1), py = vk::size("py", 0, H - 1);
    if (px < W) ASSERT(vk::same(RAW(out, px, py), RAW(a, px, py)), "concat_horizontal3.first");
    else if (px < W + w) ASSERT(vk::same(RAW(out, px, py), RAW(b, px - W, py)), "concat_horizontal3.second");
    else ASSERT(vk::same(RAW(out, px, py), RAW(c, px - W - w, py)), "concat_horizontal3.third");
}
template<class T> void cat_vectors_v()
{
    DIMS;
    const std::size_t h = vk::size("h", 1, vk::MAXDIM), g = vk::size("g", 1, vk::MAXDIM);
    const auto a = vk::image<T>("a", W, H), b = vk::image<T>("b", W, h), c = vk::image<T>("c", W, g);
    const auto out = concat_vertical(std::vector<Image<T>>{a, b, c});
    ASSERT(SHAPE(out, W, H + h + g), "concat_vertical3.shape");
    const std::size_t px = vk::size("px", 0, W - 1), py = vk::size("py", 0, H + h + g - 1);
    if (py < H) ASSERT(vk::same(RAW(out, px, py), RAW(a, px, py)), "concat_vertical3.first");
    else if (py < H + h) ASSERT(vk::same(RAW(out, px, py), RAW(b, px, py - H)), "concat_vertical3.second");
    else ASSERT(vk::same(RAW(out, px, py), RAW(c, px, py - H - h)), "concat_vertical3.third");
}
template<class T> void cat_2x2()
{
    DIMS;
    const std::size_t w = vk::size("w", 1, vk::MAXDIM), h = vk::size("h", 1, vk::MAXDIM);
    const auto a = vk::image<T>("a", W, H), b = vk::image<T>("b", w, H), c = vk::image<T>("c", W, h), d = vk::image<T>("d", w, h);
    const auto out = concat(std::vector<std::vector<Image<T>>>{{a, b}, {c, d}});
    ASSERT(SHAPE(out, W + w, H + h), "concat.shape");
    const std::size_t px = vk::size("px", 0, W + w - 1), py = vk::size("py", 0, H + h - 1);
    const auto& part = px < W ? (py < H ? a : c) : (py < H ? b : d);
    ASSERT(vk::same(RAW(out, px, py), RAW(part, px < W ? px : px - W, py < H ? py : py - H)), "concat.pixel");
}
template<class T, std::size_t NX, std::size_t NY> void split_fixed()
{
    DIMS;
    ASSUME(W >= NX && H >= NY);
    const auto in = vk::image<T>("a", W, H);
    const auto parts = split(in, NX, NY);
    ASSERT(parts.size() == NY, "split.rows");
    const std::size_t w = W / NX, h = H / NY;
    const std::size_t px = vk::size("px", 0, w - 1), py = vk::size("py", 0, h - 1);
    for (std::size_t j = 0; j < NY; ++j)
    {
        ASSERT(parts[j].size() == NX, "split.columns");
        for (std::size_t i = 0; i < NX; ++i)
        {
            ASSERT(SHAPE(parts[j][i], w, h), "split.shape");
            ASSERT(vk::same(RAW(parts[j][i], px, py), RAW(in, i * w + px, j * h + py)), "split.pixel");
        }
    }
}
CONTRACT(C04_concat3_horizontal) { cat_vectors<int>(); }
CONTRACT(C04_concat3_vertical) { cat_vectors_v<int>(); }
CONTRACT(C04_concat_grid) { cat_2x2<int>(); }
CONTRACT(C04_split_2x1) { split_fixed<int, 2, 1>(); }
CONTRACT(C04_split_2x2) { split_fixed<int, 2, 2>(); }
CONTRACT(C04_split_1x3) { split_fixed<int, 1, 3>(); }
BOUNDED(B04_split)
{
    DIMS;
    const std::size_t nx = vk::size("nx", 1, W), ny = vk::size("ny", 1, H);
    const auto in = vk::image<int>("a", W, H);
    const auto parts = split(in, nx, ny);
    const std::size_t w = W / nx, h = H / ny;
    ASSERT(parts.size() == ny, "split.rows");
    for (std::size_t j = 0; j < ny; ++j)
    {
        ASSERT(parts[j].size() == nx, "split.columns");
        for (std::size_t i = 0; i < nx; ++i)
        {
            ASSERT(SHAPE(parts[j][i], w, h), "split.shape");
            for (std::size_t y = 0; y < h; ++y) for (std::size_t x = 0; x < w; ++x) ASSERT(RAW(parts[j][i], x, y) == RAW(in, i * w + x, j * h + y), "split.pixel");
        }
    }
    if (W % nx == 0 && H % ny == 0) ASSERT(concat(parts) == in, "split.concat");
}
