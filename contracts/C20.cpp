// Volumetric images: storage and voxelwise arithmetic.
#include "img.h"
#include "cube.h"
#include "cube_operations.h"
using u8 = std::uint8_t; using u32 = std::uint32_t;
constexpr std::size_t LIM = 1 << 16;
#define VOLUME const std::size_t W = vk::size("W", 1, std::min(LIM, vk::MAXDIM)), H = vk::size("H", 1, std::min(LIM, vk::MAXDIM)), D = vk::size("D", 1, std::min(LIM, vk::MAXDIM))
#define VOXEL const std::size_t px = vk::size("px", 0, W - 1), py = vk::size("py", 0, H - 1), pz = vk::size("pz", 0, D - 1), at = pz * W * H + py * W + px
template<class T> static VolumetricImage<T> volume(const char* n, std::size_t w, std::size_t h, std::size_t d)
{
    std::vector<T> v(w * h * d);
    vk::fill(v, n);
    return VolumetricImage<T>(v, w, h, d);
}
#define SHAPE(v, what) ASSERT((v).getWidth() == W && (v).getHeight() == H && (v).getDepth() == D && (v).getData().size() == W * H * D, what)
template<class T> static void make()
{
    VOLUME; VOXEL;
    const VolumetricImage<T> a(W, H, D);
    SHAPE(a, "volume.shape");
    ASSERT(a.at(px, py, pz) == T{}, "volume.zero");
    const T x = vk::value<T>("x");
    const VolumetricImage<T> b(W, H, D, x);
    SHAPE(b, "volume.shape-init");
    ASSERT(b.at(px, py, pz) == x, "volume.initial-value");
}
template<class T> static void of_vector()
{
    VOLUME; VOXEL;
    std::vector<T> v(W * H * D);
    vk::fill(v, "v");
    VolumetricImage<T> a(v, W, H, D);
    const auto& c = a;
    SHAPE(a, "volume.shape-vector");
    ASSERT(a.at(px, py, pz) == v[at] && c.at(px, py, pz) == v[at], "volume.row-major");
    const T x = vk::value<T>("x");
    const std::size_t qx = vk::size("qx", 0, W - 1), qy = vk::size("qy", 0, H - 1), qz = vk::size("qz", 0, D - 1);
    a.at(px, py, pz) = x;
    ASSERT(a.at(qx, qy, qz) == (px == qx && py == qy && pz == qz ? x : v[qz * W * H + qy * W + qx]), "volume.write-one-voxel");
}
template<class T> static void of_vector_mismatch()
{
    VOLUME;
    const std::size_t n = vk::size("n", 0, vk::MAXIDX);
    ASSUME(n != W * H * D);
    const std::vector<T> v(n);
    ASSERT(vk::outcome([&] { VolumetricImage<T>(v, W, H, D); }) == vk::RUNTIME_ERROR, "volume.count-mismatch-throws");
}
template<class T> static void bounds()
{
    VOLUME;
    const std::size_t x = vk::size("x", 0, vk::MAXIDX), y = vk::size("y", 0, vk::MAXIDX), z = vk::size("z", 0, vk::MAXIDX);
    auto a = volume<T>("a", W, H, D);
    const auto& c = a;
    const bool in = x < W && y < H && z < D;
    ASSERT((vk::outcome([&] { a.at(x, y, z); }) == vk::RETURNED) == in, "volume.bounds");
    ASSERT((vk::outcome([&] { c.at(x, y, z); }) == vk::RETURNED) == in, "volume.bounds-const");
    if (!in) ASSERT(vk::outcome([&] { c.at(x, y, z); }) == vk::OUT_OF_RANGE, "volume.out-of-range");
}
template<class T, class F, class G> static void arith(F f, G g)
{
    VOLUME; VOXEL;
    const auto a = volume<T>("a", W, H, D), b = volume<T>("b", W, H, D);
    const VolumetricImage<T> r = f(a, b);
    SHAPE(r, "voxelwise.shape");
    ASSERT(vk::same(r.at(px, py, pz), static_cast<T>(g(a.at(px, py, pz), b.at(px, py, pz)))), "voxelwise.value");
}
template<class T, class F> static void mismatch(F f)
{
    VOLUME;
    const std::size_t W2 = vk::size("W2", 1, std::min(LIM, vk::MAXDIM)), H2 = vk::size("H2", 1, std::min(LIM, vk::MAXDIM)), D2 = vk::size("D2", 1, std::min(LIM, vk::MAXDIM));
    ASSUME(W2 != W || H2 != H || D2 != D);
    const auto a = volume<T>("a", W, H, D), b = volume<T>("b", W2, H2, D2);
    ASSERT(vk::outcome([&] { f(a, b); }) == vk::RUNTIME_ERROR, "voxelwise.size-mismatch-throws");
}
template<class T> static void scale()
{
    VOLUME; VOXEL;
    const auto a = volume<T>("a", W, H, D);
    const T x = vk::value<T>("x");
    const VolumetricImage<T> r = multiplies(a, x), q = multiplies(x, a), s = a * x, t = x * a, n = negate(a);
    SHAPE(r, "scale.shape");
    const T want = static_cast<T>(a.at(px, py, pz) * x);
    ASSERT(r.at(px, py, pz) == want && q.at(px, py, pz) == want && s.at(px, py, pz) == want && t.at(px, py, pz) == want, "scale.value");
    ASSERT(n.at(px, py, pz) == static_cast<T>(-a.at(px, py, pz)), "negate.value");
}
template<class T> static void equal_()
{
    VOLUME;
    const auto a = volume<T>("a", W, H, D);
    auto b = a;
    ASSERT(a == b, "equal.copy");
    VOXEL; (void)at;
    const T x = vk::value<T>("x");
    b.at(px, py, pz) = x;
    ASSERT((a == b) == (x == a.at(px, py, pz)), "equal.one-voxel");
    ASSERT((a != b) == !(a == b), "equal.not-equal");
}
#define OP(n, e, f) \
CONTRACT(C20_##n##_u32) { arith<u32>([](auto& a, auto& b) { return e; }, [](u32 x, u32 y) { return f; }); } \
CONTRACT(C20_##n##_f64) { arith<double>([](auto& a, auto& b) { return e; }, [](double x, double y) { return f; }); } \
CONTRACT(C20_##n##_mismatch) { mismatch<u32>([](auto& a, auto& b) { return e; }); }
OP(plus, plus(a, b), x + y)
OP(subtract, subtract(a, b), x - y)
OP(multiplies, multiplies(a, b), x * y)
CONTRACT(C20_oplus_u8) { arith<u8>([](auto& a, auto& b) { return a + b; }, [](u8 x, u8 y) { return x + y; }); }
CONTRACT(C20_ominus_u8) { arith<u8>([](auto& a, auto& b) { return a - b; }, [](u8 x, u8 y) { return x - y; }); }
OP(oplus, a + b, x + y)
OP(ominus, a - b, x - y)
CONTRACT(C20_divides_f64) { arith<double>([](auto& a, auto& b) { return divides(a, b); }, [](double x, double y) { return x / y; }); }
CONTRACT(C20_divides_mismatch) { mismatch<double>([](auto& a, auto& b) { return divides(a, b); }); }
CONTRACT(C20_modulus_mismatch) { mismatch<u32>([](auto& a, auto& b) { return modulus(a, b); }); }
CONTRACT(C20_times_assign_u32) { arith<u32>([](auto& a, auto& b) { auto c = a; c *= b; return c; }, [](u32 x, u32 y) { return x * y; }); }
CONTRACT(C20_divide_assign_f64) { arith<double>([](auto& a, auto& b) { auto c = a; c /= b; return c; }, [](double x, double y) { return x / y; }); }
CONTRACT(C20_plus3_u32)
{
    VOLUME; VOXEL; (void)at;
    const auto a = volume<u32>("a", W, H, D), b = volume<u32>("b", W, H, D), c = volume<u32>("c", W, H, D);
    const auto r = plus(a, b, c);
    ASSERT(r.at(px, py, pz) == a.at(px, py, pz) + b.at(px, py, pz) + c.at(px, py, pz), "plus3.value");
}
CONTRACT(C20_make_u8) { make<u8>(); }
CONTRACT(C20_make_u32) { make<u32>(); }
CONTRACT(C20_vector_u8) { of_vector<u8>(); }
CONTRACT(C20_vector_u32) { of_vector<u32>(); }
CONTRACT(C20_vector_mismatch_u8) { of_vector_mismatch<u8>(); }
CONTRACT(C20_bounds_u8) { bounds<u8>(); }
CONTRACT(C20_scale_u32) { scale<u32>(); }
CONTRACT(C20_equal_u32) { equal_<u32>(); }
template<std::size_t N> static void slices()
{
    DIMS;
    const std::size_t D = N;
    std::vector<Image<u8>> v;
    const char* names[] = { "s0", "s1", "s2" };
    for (std::size_t z = 0; z < N; ++z) v.push_back(vk::image<u8>(names[z], W, H));
    const VolumetricImage<u8> a(v);
    SHAPE(a, "slices.shape");
    PROBE;
    for (std::size_t z = 0; z < N; ++z) ASSERT(a.at(px, py, z) == v[z].at(px, py), "slices.voxel");
}
CONTRACT(C20_slices_1) { slices<1>(); }
CONTRACT(C20_slices_2) { slices<2>(); }
CONTRACT(C20_slices_3) { slices<3>(); }
BOUNDED(B20_slices)
{
    const std::size_t W = vk::size("W", 1, 9), H = vk::size("H", 1, 9), D = vk::size("D", 1, 9);
    const auto all = vk::image<u8>("all", W, H * D);
    std::vector<Image<u8>> v;
    for (std::size_t z = 0; z < D; ++z) { Image<u8> s(W, H); for (std::size_t y = 0; y < H; ++y) for (std::size_t x = 0; x < W; ++x) s.at(x, y) = all.at(x, z * H + y); v.push_back(s); }
    const VolumetricImage<u8> a(v);
    SHAPE(a, "slices.shape");
    for (std::size_t z = 0; z < D; ++z) for (std::size_t y = 0; y < H; ++y) for (std::size_t x = 0; x < W; ++x) ASSERT(a.at(x, y, z) == all.at(x, z * H + y), "slices.voxel");
}
CONTRACT(C20_same_size)
{
    VOLUME;
    const std::size_t w = vk::size("w", 1, std::min(LIM, vk::MAXDIM)), h = vk::size("h", 1, std::min(LIM, vk::MAXDIM)), d = vk::size("d", 1, std::min(LIM, vk::MAXDIM));
    const VolumetricImage<u8> a(W, H, D), b(w, h, d), c(w, H, D);
    ASSERT(is_width_same(a, b) == (W == w), "same.width");
    ASSERT(is_height_same(a, b) == (H == h), "same.height");
    ASSERT(is_depth_same(a, b) == (D == d), "same.depth");
    ASSERT(is_size_same(a, b) == (W == w && H == h && D == d), "same.size");
    ASSERT(is_width_same(a, b, c) == (W == w), "same.width3");
    ASSERT(is_height_same(a, b, c) == (H == h), "same.height3");
    ASSERT(is_depth_same(a, b, c) == (D == d), "same.depth3");
    ASSERT(is_size_same(a, b, c) == (W == w && H == h && D == d), "same.size3");
}
CONTRACT(C20_check_size)
{
    VOLUME;
    const std::size_t w = vk::size("w", 1, std::min(LIM, vk::MAXDIM)), h = vk::size("h", 1, std::min(LIM, vk::MAXDIM)), d = vk::size("d", 1, std::min(LIM, vk::MAXDIM));
    const VolumetricImage<u8> a(W, H, D), b(w, h, d);
    ASSERT(vk::outcome([&] { check_width_same(a, b); }) == (W == w ? vk::RETURNED : vk::RUNTIME_ERROR), "check.width");
    ASSERT(vk::outcome([&] { check_height_same(a, b); }) == (H == h ? vk::RETURNED : vk::RUNTIME_ERROR), "check.height");
    ASSERT(vk::outcome([&] { check_depth_same(a, b); }) == (D == d ? vk::RETURNED : vk::RUNTIME_ERROR), "check.depth");
    ASSERT(vk::outcome([&] { check_size_same(a, b); }) == (W == w && H == h && D == d ? vk::RETURNED : vk::RUNTIME_ERROR), "check.size");
}
//  lists of volumes: volume by volume
template<class T, class Op, class Ref> static void each_pair(Op op, Ref ref)
{
    VOLUME; VOXEL;
    const std::vector<VolumetricImage<T>> a{ volume<T>("a0", W, H, D), volume<T>("a1", W, H, D) }, b{ volume<T>("b0", W, H, D), volume<T>("b1", W, H, D) };
    const auto o = op(a, b);
    ASSERT(o.size() == 2, "list.size");
    for (std::size_t k = 0; k < 2; ++k)
    {
        SHAPE(o[k], "list.shape");
        ASSERT(vk::same(o[k].getData()[at], ref(a[k].getData()[at], b[k].getData()[at])), "list.voxel");
    }
}
CONTRACT(C20_plus_list) { each_pair<u32>([](auto& a, auto& b) { return plus(a, b); }, [](u32 x, u32 y) { return x + y; }); }
CONTRACT(C20_subtract_list) { each_pair<u32>([](auto& a, auto& b) { return subtract(a, b); }, [](u32 x, u32 y) { return x - y; }); }
CONTRACT(C20_divides_list) { each_pair<double>([](auto& a, auto& b) { return divides(a, b); }, [](double x, double y) { return x / y; }); }
