// linalg::Matrix: transpose, product, symmetry test, 3x3 inverse, eigen solver.
#include "img.h"
#include "linear_algebra.h"
namespace la = TinyDIP::linalg;
template<class T> la::Matrix<T> matrix(const char* name, std::size_t r, std::size_t c)
{
    std::vector<T> v(r * c);
    vk::fill(v, name);
    la::Matrix<T> m(r, c);
    for (std::size_t i = 0; i < r; ++i)
        for (std::size_t j = 0; j < c; ++j) m.at(i, j) = v[i * c + j];
    return m;
}
#define RC const std::size_t R = vk::size("R", 1, vk::MAXDIM), C = vk::size("C", 1, vk::MAXDIM)
#define RCPROBE const std::size_t r = vk::size("r", 0, R - 1), c = vk::size("c", 0, C - 1)
CONTRACT(C19_at)
{
    RC;
    auto m = matrix<double>("m", R, C);
    const auto before = m;
    RCPROBE;
    const std::size_t r2 = vk::size("r2", 0, R - 1), c2 = vk::size("c2", 0, C - 1);
    const double v = vk_f64_("v");
    m.at(r, c) = v;
    ASSERT(m.rows() == R && m.cols() == C && !m.empty(), "matrix.shape");
    ASSERT(vk::same(m.at(r, c), v), "matrix.write");
    ASSERT((r == r2 && c == c2) || vk::same(m.at(r2, c2), before.at(r2, c2)), "matrix.others-kept");
}
CONTRACT(C19_transpose)
{
    RC;
    const auto m = matrix<double>("m", R, C);
    const auto t = la::transpose(m);
    ASSERT(t.rows() == C && t.cols() == R, "transpose.shape");
    RCPROBE;
    ASSERT(vk::same(t.at(c, r), m.at(r, c)), "transpose.value");
}
CONTRACT(C19_multiply)
{
    RC;
    const std::size_t N = vk::size("N", 1, vk::MAXDIM);
    const auto a = matrix<double>("a", R, N), b = matrix<double>("b", N, C);
    const auto p = la::multiply(a, b);
    ASSERT(p.rows() == R && p.cols() == C, "multiply.shape");
    RCPROBE;
    double s = 0;
    for (std::size_t k = 0; k < N; ++k) s += a.at(r, k) * b.at(k, c);
    ASSERT(vk::same(p.at(r, c), s), "multiply.value");
}
CONTRACT(C19_multiply_mismatch)
{
    RC;
    const std::size_t N = vk::size("N", 1, vk::MAXDIM), N2 = vk::size("N2", 1, vk::MAXDIM);
    ASSUME(N != N2);
    const auto a = matrix<double>("a", R, N), b = matrix<double>("b", N2, C);
    ASSERT(vk::outcome([&] { la::multiply(a, b); }) == vk::RUNTIME_ERROR, "multiply.mismatch");
}
template<class M> void symmetric_(M sym, bool policy)
{
    RC;
    const auto m = matrix<int>("m", R, C);
    const bool s = sym(m);
    if (R != C) { ASSERT(!s, "symmetry.not-square"); return; }
    RCPROBE;
    if (s) ASSERT(m.at(r, c) == m.at(c, r), "symmetry.true-means-every-pair");
}
CONTRACT(C19_symmetry_true) { symmetric_([](auto& m) { return la::is_symmetry(m); }, false); }
CONTRACT(C19_symmetry_true_policy) { symmetric_([](auto& m) { return la::is_symmetry(std::execution::seq, m); }, false); }
template<class M> void symmetric_false_(M sym)
{
    const std::size_t R = vk::size("R", 1, vk::MAXDIM);
    auto m = matrix<int>("m", R, R);
    //  make it symmetric from its upper half
    la::Matrix<int> s(R, R);
    for (std::size_t i = 0; i < R; ++i)
        for (std::size_t j = 0; j < R; ++j) s.at(i, j) = i < j ? m.at(i, j) : m.at(j, i);
    ASSERT(sym(s), "symmetry.symmetric-accepted");
}
CONTRACT(C19_symmetry_accepts) { symmetric_false_([](auto& m) { return la::is_symmetry(m); }); }
CONTRACT(C19_symmetry_accepts_policy) { symmetric_false_([](auto& m) { return la::is_symmetry(std::execution::seq, m); }); }
CONTRACT(C19_invert)
{
    auto m = matrix<double>("m", 3, 3);
#ifdef VK_REPLAY
    double hi = 0;
    for (int i = 0; i < 9; ++i) hi = std::max(hi, std::abs(m.at(i / 3, i % 3)));
    ASSUME(hi > 0);
    for (int i = 0; i < 9; ++i) m.at(i / 3, i % 3) /= hi;
    const double det = m.at(0, 0) * (m.at(1, 1) * m.at(2, 2) - m.at(2, 1) * m.at(1, 2)) - m.at(0, 1) * (m.at(1, 0) * m.at(2, 2) - m.at(1, 2) * m.at(2, 0)) + m.at(0, 2) * (m.at(1, 0) * m.at(2, 1) - m.at(1, 1) * m.at(2, 0));
    ASSUME(std::abs(det) > 1e-4);
#endif
    const auto inv = la::invert(m);
    if (inv.empty()) return;
    ASSERT(inv.rows() == 3 && inv.cols() == 3, "invert.shape");
    const std::size_t i = vk::size("i", 0, 2), j = vk::size("j", 0, 2);
    ASSERT(vk::near(m.at(i, 0) * inv.at(0, j) + m.at(i, 1) * inv.at(1, j) + m.at(i, 2) * inv.at(2, j), i == j ? 1.0 : 0.0), "invert.product-is-identity");
}
CONTRACT(C19_invert_shape)
{
    RC;
    ASSUME(R != 3 || C != 3);
    const auto m = matrix<double>("m", R, C);
    ASSERT(vk::outcome([&] { la::invert(m); }) == vk::RUNTIME_ERROR, "invert.only-3x3");
}
BOUNDED(B19_invert_singular)
{
    auto m = matrix<double>("m", 3, 3);
    const std::size_t i = vk::size("i", 0, 2), k = vk::size("k", 0, 2);
    for (std::size_t j = 0; j < 3; ++j) m.at(i, j) = k == i ? 0.0 : m.at(k, j);
    double hi = 1;
    for (int q = 0; q < 9; ++q) hi = std::max(hi, std::abs(m.at(q / 3, q % 3)));
    for (int q = 0; q < 9; ++q) m.at(q / 3, q % 3) /= hi;
    ASSERT(la::invert(m).empty(), "invert.singular-gives-empty");
}
BOUNDED(B19_invert_regular)
{
    auto m = matrix<double>("m", 3, 3);
    const double det = m.at(0, 0) * (m.at(1, 1) * m.at(2, 2) - m.at(2, 1) * m.at(1, 2)) - m.at(0, 1) * (m.at(1, 0) * m.at(2, 2) - m.at(1, 2) * m.at(2, 0)) + m.at(0, 2) * (m.at(1, 0) * m.at(2, 1) - m.at(1, 1) * m.at(2, 0));
    ASSUME(std::abs(det) > 1e-6);
    ASSERT(!la::invert(m).empty(), "invert.regular-is-inverted");
}
BOUNDED(B19_jacobi)
{
    const std::size_t n = vk::size("n", 1, 6);
    auto m = matrix<double>("m", n, n);
    double hi = 1;
    for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < n; ++j) { m.at(j, i) = m.at(i, j); hi = std::max(hi, std::abs(m.at(i, j))); }
    for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < n; ++j) m.at(i, j) /= hi;
    std::vector<double> ev;
    la::Matrix<double> v;
    la::jacobi_eigen_solver(m, ev, v, 500);
    ASSERT(ev.size() == n && v.rows() == n && v.cols() == n, "jacobi.shape");
    for (std::size_t k = 0; k < n; ++k)
        for (std::size_t i = 0; i < n; ++i)
        {
            double s = 0, d = 0;
            for (std::size_t j = 0; j < n; ++j) { s += m.at(i, j) * v.at(j, k); d += v.at(j, i) * v.at(j, k); }
            ASSERT(std::abs(s - ev[k] * v.at(i, k)) < 1e-6, "jacobi.eigenpair");
            ASSERT(std::abs(d - (i == k)) < 1e-6, "jacobi.orthonormal");
        }
}
BOUNDED(B19_svd)
{
    //  A h = 0 has the solution the rows were made orthogonal to
    const std::size_t n = vk::size("n", 2, 9), rows = vk::size("rows", n, 12);
    auto a = matrix<double>("a", rows, n);
    auto z = matrix<double>("z", 1, n);
    double zz = 0, hi = 1;
    for (std::size_t j = 0; j < n; ++j) zz += z.at(0, j) * z.at(0, j);
    ASSUME(zz > 1e-3);
    for (std::size_t i = 0; i < rows; ++i)
    {
        double d = 0;
        for (std::size_t j = 0; j < n; ++j) d += a.at(i, j) * z.at(0, j);
        for (std::size_t j = 0; j < n; ++j) { a.at(i, j) -= d / zz * z.at(0, j); hi = std::max(hi, std::abs(a.at(i, j))); }
    }
    for (std::size_t i = 0; i < rows; ++i) for (std::size_t j = 0; j < n; ++j) a.at(i, j) /= hi;
    const auto h = la::svd_solve_ah_zero(a);
    ASSERT(h.size() == n, "svd.shape");
    double norm = 0;
    for (double x : h) norm += x * x;
    ASSERT(std::abs(norm - 1) < 1e-6, "svd.unit");
    for (std::size_t i = 0; i < rows; ++i)
    {
        double d = 0;
        for (std::size_t j = 0; j < n; ++j) d += a.at(i, j) * h[j];
        ASSERT(std::abs(d) < 1e-3, "svd.solves");
    }
}
//  3 x 3 determinant of an image, over the reals
template<class T> static void determinant()
{
    const auto m = vk::image<T>("m", 3, 3);
    const auto c = [&](std::size_t x, std::size_t y) { return static_cast<double>(RAW(m, x, y)); };
    double d = 0;
    //  permutations with sign
    d += c(0, 0) * c(1, 1) * c(2, 2); d += c(1, 0) * c(2, 1) * c(0, 2); d += c(2, 0) * c(0, 1) * c(1, 2);
    d -= c(2, 0) * c(1, 1) * c(0, 2); d -= c(0, 0) * c(2, 1) * c(1, 2); d -= c(1, 0) * c(0, 1) * c(2, 2);
    ASSERT(vk::near(determinant3x3(m), d), "determinant3x3");
}
CONTRACT(C19_determinant) { determinant<double>(); }
CONTRACT(C19_determinant_i32) { determinant<std::int16_t>(); }
//  linear systems: the result satisfies every equation (regular) or is zero (no pivot above the threshold)
template<std::size_t N> static double det_of(const std::array<std::array<double, N>, N>& a)
{
    if constexpr (N == 1) return a[0][0];
    else
    {
        double d = 0;
        for (std::size_t c = 0; c < N; ++c)
        {
            std::array<std::array<double, N - 1>, N - 1> m;
            for (std::size_t i = 1; i < N; ++i) for (std::size_t j = 0, k = 0; j < N; ++j) if (j != c) m[i - 1][k++] = a[i][j];
            d += (c % 2 ? -1.0 : 1.0) * a[0][c] * det_of<N - 1>(m);
        }
        return d;
    }
}
template<std::size_t N> struct System { std::array<std::array<double, N>, N> a; std::array<double, N> b; };
template<std::size_t N> static System<N> linear_system()
{
    std::vector<double> v(N * N), w(N);
    vk::fill(v, "a");
    vk::fill(w, "b");
    System<N> s;
    for (std::size_t i = 0; i < N; ++i) { s.b[i] = w[i]; for (std::size_t j = 0; j < N; ++j) s.a[i][j] = v[i * N + j]; }
#ifdef VK_REPLAY
    double hi = 0;
    for (auto& row : s.a) for (auto x : row) hi = std::max(hi, std::abs(x));
    ASSUME(hi > 0);
    for (auto& row : s.a) for (auto& x : row) x /= hi;
    ASSUME(std::abs(det_of<N>(s.a)) > 1e-3);
#endif
    return s;
}
template<std::size_t N> static void solved()
{
    const auto [a, b] = linear_system<N>();
    const auto x = solve_linear_system<N>(a, b);
    bool zero = true;
    for (auto v : x) zero = zero && v == 0.0;
    if (zero) return;
    for (std::size_t i = 0; i < N; ++i)
    {
        double s = 0;
        for (std::size_t j = 0; j < N; ++j) s += a[i][j] * x[j];
        ASSERT(vk::near(s, b[i]), "solve.equation");
    }
}
CONTRACT(C19_solve_1) { solved<1>(); }
CONTRACT(C19_solve_2) { solved<2>(); }
CONTRACT(C19_solve_3) { solved<3>(); }
template<std::size_t N> static void recovered()
{
    const auto [a, x] = linear_system<N>();
    std::array<double, N> b{};
    for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < N; ++j) b[i] += a[i][j] * x[j];
    const auto r = solve_linear_system<N>(a, b);
    double big = 1;
    for (auto v : x) big = std::max(big, std::abs(v));
    for (std::size_t i = 0; i < N; ++i) ASSERT(std::abs(r[i] - x[i]) < big * 1e-8, "solve.solution");
}
BOUNDED(B19_solve_1) { recovered<1>(); }
BOUNDED(B19_solve_3) { recovered<3>(); }
BOUNDED(B19_solve_6) { recovered<6>(); }
