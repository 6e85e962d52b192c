// Drawing: exactly the pixels of the shape take the draw value, all others keep theirs.
#include "img.h"
using u8 = std::uint8_t; using u32 = std::uint32_t; using u64 = std::uint64_t; using i64 = std::int64_t;
#define SHAPE(im, w, h) ((im).getDimensionality() == 2 && (im).getWidth() == (w) && (im).getHeight() == (h) && (im).getImageData().size() == (w) * (h))
#define CENTRE const std::size_t cx = vk::size("cx", 0, vk::MAXDIM), cy = vk::size("cy", 0, vk::MAXDIM), rad = vk::size("rad", 0, vk::MAXDIM)
static bool in_disc(std::size_t x, std::size_t y, std::size_t cx, std::size_t cy, std::size_t rad)
{
    const i64 dx = static_cast<i64>(x) - static_cast<i64>(cx), dy = static_cast<i64>(y) - static_cast<i64>(cy), r = static_cast<i64>(rad);
    return dx * dx + dy * dy < r * r;
}
template<class T> static void point_()
{
    DIMS;
    const auto a = vk::image<T>("a", W, H);
    const T t = vk::value<T>("t");
    CENTRE;
    const auto r = draw_point(a, Point<2>{ {cx, cy} }, t, rad);
    ASSERT(SHAPE(r, W, H), "point.shape");
    PROBE;
    if (in_disc(px, py, cx, cy, rad)) ASSERT(vk::same(RAW(r, px, py), t), "point.disc-drawn");
    else ASSERT(vk::same(RAW(r, px, py), RAW(a, px, py)), "point.rest-kept");
}
CONTRACT(C22_point_u8) { point_<u8>(); }
CONTRACT(C22_point_f64) { point_<double>(); }
CONTRACT(C22_point_rgb) { point_<RGB>(); }
CONTRACT(C22_points)
{
    DIMS;
    const auto a = vk::image<u8>("a", W, H);
    const u8 t = vk::value<u8>("t");
    const std::size_t x0 = vk::size("x0", 0, vk::MAXDIM), y0 = vk::size("y0", 0, vk::MAXDIM), x1 = vk::size("x1", 0, vk::MAXDIM), y1 = vk::size("y1", 0, vk::MAXDIM), rad = vk::size("rad", 0, vk::MAXDIM);
    const auto r = draw_points(a, std::vector<Point<2>>{ Point<2>{ {x0, y0} }, Point<2>{ {x1, y1} } }, t, rad);
    ASSERT(SHAPE(r, W, H), "points.shape");
    PROBE;
    if (in_disc(px, py, x0, y0, rad) || in_disc(px, py, x1, y1, rad)) ASSERT(RAW(r, px, py) == t, "points.discs-drawn");
    else ASSERT(RAW(r, px, py) == RAW(a, px, py), "points.rest-kept");
}
CONTRACT(C22_circle_radius0)
{
    DIMS;
    const auto a = vk::image<u8>("a", W, H);
    const std::size_t cx = vk::size("cx", 0, vk::MAXDIM), cy = vk::size("cy", 0, vk::MAXDIM);
    const auto r = draw_circle(a, std::make_tuple(cx, cy), 0, vk::value<u8>("t"));
    ASSERT(SHAPE(r, W, H), "circle0.shape");
    PROBE;
    ASSERT(RAW(r, px, py) == RAW(a, px, py), "circle0.rest-kept");
}
//  the frame around [sx, ex] x [sy, ey], clipped to the image
static bool near_edge(std::size_t p, std::size_t e, std::size_t w) { return p < e ? e - p < w : p - e < w; }
CONTRACT(C22_highlight)
{
    DIMS;
    const auto a = vk::image<RGB>("a", W, H);
    const std::size_t sx = vk::size("sx", 0, W - 1), ex = vk::size("ex", 0, W - 1), sy = vk::size("sy", 0, H - 1), ey = vk::size("ey", 0, H - 1), w = vk::size("w", 0, vk::MAXDIM);
    ASSUME(sx <= ex); ASSUME(sy <= ey);
    const u8 cr = vk::value<u8>("cr"), cg = vk::value<u8>("cg"), cb = vk::value<u8>("cb");
    const auto r = highlight_region(a, sx, ex, sy, ey, w, cr, cg, cb);
    ASSERT(SHAPE(r, W, H), "highlight.shape");
    PROBE;
    const bool in = px + w / 2 >= sx && px < ex + w / 2 && py + w / 2 >= sy && py < ey + w / 2;
    const bool frame = near_edge(px, sx, w) || near_edge(px, ex, w) || near_edge(py, sy, w) || near_edge(py, ey, w);
    const auto p = RAW(r, px, py);
    if (in && frame) ASSERT(p.channels[0] == cr && p.channels[1] == cg && p.channels[2] == cb, "highlight.frame-drawn");
    else ASSERT(vk::same(p, RAW(a, px, py)), "highlight.rest-kept");
}
CONTRACT(C22_not_2d)
{
    const std::size_t n = vk::size("n", 1, 64);
    const Image<u8> a(std::vector<u8>(n), std::vector<std::size_t>{ n, 1, 1 });
    ASSERT(vk::outcome([&] { draw_circle(a, std::make_tuple(std::size_t{0}, std::size_t{0}), 2, u8{1}); }) == vk::RUNTIME_ERROR, "circle.3d-throws");
    ASSERT(vk::outcome([&] { draw_line(a, Point<2>{ {0, 0} }, Point<2>{ {1, 1} }, u8{1}); }) == vk::RUNTIME_ERROR, "line.3d-throws");
}
//  midpoint circle: in the octant 0 <= x <= y the pixel of column x is the first one not inside the circle
static bool on_circle(i64 dx, i64 dy, i64 r)
{
    dx = std::abs(dx); dy = std::abs(dy);
    auto first = [&](i64 x) { i64 y = 0; while (x * x + y * y < r * r) ++y; return y; };
    for (int swap = 0; swap < 2; ++swap, std::swap(dx, dy))
        if (dx <= (dx == 0 ? r : first(dx - 1)) && dy == first(dx)) return true;
    return false;
}
BOUNDED(B22_circle)
{
    DIMS;
    const auto a = vk::image<u8>("a", W, H);
    const u8 t = vk::value<u8>("t");
    const std::size_t cx = vk::size("cx", 0, 12), cy = vk::size("cy", 0, 12), rad = vk::size("rad", 1, 9);
    const auto r = draw_circle(a, std::make_tuple(cx, cy), rad, t);
    ASSERT(SHAPE(r, W, H), "circle.shape");
    for (std::size_t y = 0; y < H; ++y)
        for (std::size_t x = 0; x < W; ++x)
            if (on_circle(static_cast<i64>(x) - static_cast<i64>(cx), static_cast<i64>(y) - static_cast<i64>(cy), rad)) ASSERT(RAW(r, x, y) == t, "circle.drawn");
            else ASSERT(RAW(r, x, y) == RAW(a, x, y), "circle.rest-kept");
}
BOUNDED(B22_line)
{
    DIMS;
    const auto a0 = vk::image<u8>("a", W, H);
    auto a = a0;
    const u8 t = 255;
    for (std::size_t y = 0; y < H; ++y) for (std::size_t x = 0; x < W; ++x) a.at(x, y) = RAW(a0, x, y) % 200;
    const i64 x1 = vk::size("x1", 0, 10), y1 = vk::size("y1", 0, 10), x2 = vk::size("x2", 0, 10), y2 = vk::size("y2", 0, 10);
    const auto r = draw_line(a, Point<2>{ {std::size_t(x1), std::size_t(y1)} }, Point<2>{ {std::size_t(x2), std::size_t(y2)} }, t);
    ASSERT(SHAPE(r, W, H), "line.shape");
    const i64 dx = x2 - x1, dy = y2 - y1, len = std::max(std::abs(dx), std::abs(dy));
    auto drawn = [&](i64 x, i64 y) { return x >= 0 && y >= 0 && x < i64(W) && y < i64(H) && RAW(r, x, y) == t; };
    for (i64 y = 0; y < i64(H); ++y)
        for (i64 x = 0; x < i64(W); ++x)
            if (drawn(x, y))
            {
                ASSERT(x >= std::min(x1, x2) && x <= std::max(x1, x2) && y >= std::min(y1, y2) && y <= std::max(y1, y2), "line.inside-box");
                ASSERT(2 * std::abs(dx * (y - y1) - dy * (x - x1)) <= len, "line.nearest-pixel");
            }
            else ASSERT(RAW(r, x, y) == RAW(a, x, y), "line.rest-kept");
    //  one pixel for every step along the longer axis
    for (i64 k = 0; k <= len; ++k)
    {
        const i64 step = std::abs(dx) >= std::abs(dy) ? x1 + (dx < 0 ? -k : k) : y1 + (dy < 0 ? -k : k);
        int n = 0, inside = 0;
        for (i64 o = -1; o <= 12; ++o)
        {
            const i64 x = std::abs(dx) >= std::abs(dy) ? step : o, y = std::abs(dx) >= std::abs(dy) ? o : step;
            if (2 * std::abs(dx * (y - y1) - dy * (x - x1)) <= len) inside += (x >= 0 && y >= 0 && x < i64(W) && y < i64(H)) ? 1 : 100;
            n += drawn(x, y);
        }
        if (inside < 100) ASSERT(n == 1, "line.one-per-step");
        else ASSERT(n <= 1, "line.at-most-one-per-step");
    }
}
//  for every pair of points: the end point is drawn, each pixel keeps its value or takes the draw value
CONTRACT(C22_line_frame)
{
    DIMS;
    const auto a = vk::image<u8>("a", W, H);
    const u8 t = vk::value<u8>("t");
    const std::size_t x1 = vk::size("x1", 0, vk::MAXDIM), y1 = vk::size("y1", 0, vk::MAXDIM), x2 = vk::size("x2", 0, vk::MAXDIM), y2 = vk::size("y2", 0, vk::MAXDIM);
    const auto r = draw_line(a, Point<2>{ {x1, y1} }, Point<2>{ {x2, y2} }, t);
    ASSERT(SHAPE(r, W, H), "line.shape");
    if (x2 < W && y2 < H) ASSERT(RAW(r, x2, y2) == t, "line.end-drawn");
    PROBE;
    const u8 p = RAW(r, px, py);
    ASSERT(p == t || p == RAW(a, px, py), "line.kept-or-drawn");
}
