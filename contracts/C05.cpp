// Padding: the input sits unchanged in the middle, the margin holds exactly the constant / mirrored / nearest pixel.
#include "img.h"
#define SHAPE(im, w, h) ((im).getDimensionality() == 2 && (im).getWidth() == (w) && (im).getHeight() == (h) && (im).getImageData().size() == (w) * (h))
#define MARGINS const std::size_t we = vk::size("we", 0, vk::MAXDIM), he = vk::size("he", 0, vk::MAXDIM)
#define OUTPROBE const std::size_t px = vk::size("px", 0, W + 2 * we - 1), py = vk::size("py", 0, H + 2 * he - 1)
//  reflection about the border pixel (reflect-101)
static inline std::size_t mirror1(std::size_t p, std::size_t e, std::size_t n)
{
    if (p < e) return e - p;
    if (p < e + n) return p - e;
    return n - 1 - (p - (e + n - 1));
}
static inline std::size_t nearest(std::size_t p, std::size_t e, std::size_t n)
{
    if (p < e) return 0;
    if (p < e + n) return p - e;
    return n - 1;
}
template<class T> void check_constant(const Image<T>& in, const Image<T>& out, std::size_t W, std::size_t H, std::size_t we, std::size_t he, const T& v)
{
    ASSERT(SHAPE(out, W + 2 * we, H + 2 * he), "constant.shape");
    OUTPROBE;
    if (px >= we && px < we + W && py >= he && py < he + H) ASSERT(vk::same(RAW(out, px, py), RAW(in, px - we, py - he)), "constant.inside");
    else ASSERT(vk::same(RAW(out, px, py), v), "constant.margin");
}
template<class T> void check_mirror(const Image<T>& in, const Image<T>& out, std::size_t W, std::size_t H, std::size_t we, std::size_t he)
{
    ASSERT(SHAPE(out, W + 2 * we, H + 2 * he), "mirror.shape");
    OUTPROBE;
    ASSERT(vk::same(RAW(out, px, py), RAW(in, mirror1(px, we, W), mirror1(py, he, H))), "mirror.pixel");
}
template<class T> void check_replicate(const Image<T>& in, const Image<T>& out, std::size_t W, std::size_t H, std::size_t we, std::size_t he)
{
    ASSERT(SHAPE(out, W + 2 * we, H + 2 * he), "replicate.shape");
    OUTPROBE;
    ASSERT(vk::same(RAW(out, px, py), RAW(in, nearest(px, we, W), nearest(py, he, H))), "replicate.pixel");
}
template<class T> void constant_pad()
{
    DIMS; MARGINS;
    const auto in = vk::image<T>("a", W, H);
    const T v = vk::value<T>("v");
    check_constant(in, generate_constant_padding_image(in, we, he, v), W, H, we, he, v);
}
template<class T> void constant_padded()
{
    DIMS; MARGINS;
    const auto in = vk::image<T>("a", W, H);
    const T v = vk::value<T>("v");
    check_constant(in, generate_padded_image(std::execution::seq, in, we, he, BoundaryCondition::constant, v), W, H, we, he, v);
}
template<class T> void mirror_pad()
{
    DIMS; MARGINS;
    ASSUME(we < W && he < H);
    const auto in = vk::image<T>("a", W, H);
    check_mirror(in, generate_mirror_padding_image(in, we, he), W, H, we, he);
}
template<class T> void mirror_too_wide()
{
    DIMS; MARGINS;
    ASSUME(we >= W || he >= H);
    const auto in = vk::image<T>("a", W, H);
    ASSERT(vk::outcome([&] { generate_mirror_padding_image(in, we, he); }) == vk::RUNTIME_ERROR, "mirror.too-wide.throws");
}
template<class T> void mirror_padded()
{
    DIMS; MARGINS;
    ASSUME(we < W && he < H);
    const auto in = vk::image<T>("a", W, H);
    check_mirror(in, generate_padded_image(std::execution::seq, in, we, he, BoundaryCondition::mirror), W, H, we, he);
}
template<class T> void replicate_pad()
{
    DIMS; MARGINS;
    const auto in = vk::image<T>("a", W, H);
    check_replicate(in, generate_replicate_padding_image(in, we, he), W, H, we, he);
}
template<class T, std::size_t we, std::size_t he> void replicate_fixed()
{
    DIMS;
    const auto in = vk::image<T>("a", W, H);
    check_replicate(in, generate_replicate_padding_image(in, we, he), W, H, we, he);
}
#define ALL(T, n) \
CONTRACT(C05_constant_##n) { constant_pad<T>(); } \
CONTRACT(C05_constant_padded_##n) { constant_padded<T>(); } \
CONTRACT(C05_mirror_##n) { mirror_pad<T>(); } \
CONTRACT(C05_mirror_too_wide_##n) { mirror_too_wide<T>(); } \
CONTRACT(C05_mirror_padded_##n) { mirror_padded<T>(); } \
BOUNDED(B05_replicate_##n) { replicate_pad<T>(); } \
CONTRACT(C05_replicate_00_##n) { replicate_fixed<T, 0, 0>(); } \
CONTRACT(C05_replicate_11_##n) { replicate_fixed<T, 1, 1>(); } \
CONTRACT(C05_replicate_20_##n) { replicate_fixed<T, 2, 0>(); } \
CONTRACT(C05_replicate_02_##n) { replicate_fixed<T, 0, 2>(); }
ALL(int, i32)
ALL(RGB, rgb)
//  split_overlap: block (i, j) is the block extended by the margins, taken from the padded image
template<std::size_t NX, std::size_t NY> void overlap_fixed()
{
    DIMS;
    ASSUME(W >= NX && H >= NY);
    const std::size_t we = vk::size("we", 0, vk::MAXDIM), he = vk::size("he", 0, vk::MAXDIM);
    const auto in = vk::image<int>("a", W, H);
    const int v = vk::value<int>("v");
    const auto parts = split_overlap(std::execution::seq, in, NX, NY, we, he, BoundaryCondition::constant, v);
    const std::size_t w = W / NX, h = H / NY;
    const std::size_t px = vk::size("px", 0, w + 2 * we - 1), py = vk::size("py", 0, h + 2 * he - 1);
    ASSERT(parts.size() == NY, "split_overlap.rows");
    for (std::size_t j = 0; j < NY; ++j)
    {
        ASSERT(parts[j].size() == NX, "split_overlap.columns");
        for (std::size_t i = 0; i < NX; ++i)
        {
            ASSERT(SHAPE(parts[j][i], w + 2 * we, h + 2 * he), "split_overlap.shape");
            const std::size_t X = i * w + px, Y = j * h + py;      // in the padded image
            const int want = (X >= we && X < we + W && Y >= he && Y < he + H) ? RAW(in, X - we, Y - he) : v;
            ASSERT(RAW(parts[j][i], px, py) == want, "split_overlap.pixel");
        }
    }
}
CONTRACT(C05_overlap_1x1) { overlap_fixed<1, 1>(); }
BOUNDED(B05_overlap_2x1) { overlap_fixed<2, 1>(); }
BOUNDED(B05_overlap)
{
    DIMS;
    const std::size_t nx = vk::size("nx", 1, W), ny = vk::size("ny", 1, H), we = vk::size("we", 0, W - 1), he = vk::size("he", 0, H - 1);
    const auto in = vk::image<int>("a", W, H);
    const std::size_t bc = vk::size("bc", 0, 2);
    const auto parts = split_overlap(std::execution::seq, in, nx, ny, we, he, bc == 0 ? BoundaryCondition::constant : bc == 1 ? BoundaryCondition::mirror : BoundaryCondition::replicate, 77);
    const std::size_t w = W / nx, h = H / ny;
    for (std::size_t j = 0; j < ny; ++j) for (std::size_t i = 0; i < nx; ++i)
    {
        ASSERT(SHAPE(parts[j][i], w + 2 * we, h + 2 * he), "split_overlap.shape");
        for (std::size_t y = 0; y < h + 2 * he; ++y) for (std::size_t x = 0; x < w + 2 * we; ++x)
        {
            const std::size_t X = i * w + x, Y = j * h + y;
            const bool inside = X >= we && X < we + W && Y >= he && Y < he + H;
            const int want = bc == 1 ? RAW(in, mirror1(X, we, W), mirror1(Y, he, H)) : bc == 2 ? RAW(in, nearest(X, we, W), nearest(Y, he, H)) : inside ? RAW(in, X - we, Y - he) : 77;
            ASSERT(RAW(parts[j][i], x, y) == want, "split_overlap.pixel");
        }
    }
}
