// C18: linear algebra
#include "img.h"
using namespace g;
using namespace TinyDIP;
typedef long double L;
typedef linalg::Matrix<double> M;

static double ge(Src& s) { switch (s.draw(3)) { case 0: return static_cast<double>(s.sint(5)); case 1: return s.dyadic(16, 8); case 2: return 0; default: return s.real(-10, 10); } }
static M gm(Src& s, std::size_t r, std::size_t c) { M m(r, c); for (std::size_t i = 0; i < r; ++i) for (std::size_t j = 0; j < c; ++j) m.at(i, j) = ge(s); return m; }
static std::string str(const M& m) { std::ostringstream o; for (std::size_t i = 0; i < m.rows(); ++i) { o << (i ? "; " : "["); for (std::size_t j = 0; j < m.cols(); ++j) o << (j ? " " : "") << m.at(i, j); } o << "]"; return o.str(); }

PROP(products, "an inner dimension above one")
{
    std::size_t a = s.sz(0, 5), b = s.sz(0, 5), c = s.sz(0, 5), d = s.chance(1, 4) ? s.sz(0, 5) : b; if (s.draw(79) == 79) { a = 10 + s.draw(25); b = d = 10 + s.draw(25); c = 10 + s.draw(25); } M A = gm(s, a, b), B = gm(s, d, c); s.desc << str(A) << " times " << str(B); s.nontrivial(b > 1 && b == d);
    M T = linalg::transpose(A); REQ(T.rows() == b && T.cols() == a, "transposed shape"); for (std::size_t i = 0; i < a; ++i) for (std::size_t j = 0; j < b; ++j) REQ(T.at(j, i) == A.at(i, j), "transpose at " << j << "," << i);
    REQ(A.rows() == a && A.cols() == b && A.empty() == (a == 0 || b == 0), "shape"); M E; REQ(E.empty() && E.rows() == 0 && E.cols() == 0, "default matrix");
    if (b != d) { REQ(throws<std::runtime_error>([&] { linalg::multiply(A, B); }), "incompatible shapes accepted"); return; }
    M C = linalg::multiply(A, B); REQ(C.rows() == a && C.cols() == c, "product shape"); for (std::size_t i = 0; i < a; ++i) for (std::size_t j = 0; j < c; ++j) { L q = 0; for (std::size_t k = 0; k < b; ++k) q += L(A.at(i, k)) * B.at(k, j); REQ(close(C.at(i, j), static_cast<double>(q), 1e-12, 1e-12), "product at " << i << "," << j << " is " << C.at(i, j) << " expected " << static_cast<double>(q)); }
    std::ostringstream o; o << A; std::istringstream in(o.str()); std::string line; std::size_t rows = 0; while (std::getline(in, line)) { std::istringstream l(line); double v; std::size_t n = 0; while (l >> v) { REQ(close(v, A.at(rows, n), 1e-4, 1e-4), "printed element"); ++n; } REQ(n == b, "printed columns"); ++rows; } REQ(rows == a, "printed rows");
}
PROPW(eigen, 2, "a dimension above two")
{
    std::size_t n = s.draw(79) == 79 ? 11 + s.draw(14) : s.sz(1, 10); M A(n, n); int mode = static_cast<int>(s.draw(3)); for (std::size_t i = 0; i < n; ++i) for (std::size_t j = i; j < n; ++j) A.at(i, j) = A.at(j, i) = (mode == 1 && i != j) ? 0 : ge(s);
    if (mode == 2) { M B = gm(s, s.sz(1, n), n); A = linalg::multiply(linalg::transpose(B), B); } s.desc << str(A); s.nontrivial(n > 2); double mx = 1; for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < n; ++j) mx = std::max(mx, std::fabs(A.at(i, j)));
    std::vector<double> e; M V; linalg::jacobi_eigen_solver(A, e, V); REQ(e.size() == n && V.rows() == n && V.cols() == n, "shape of the result"); double tr = 0, es = 0; for (std::size_t i = 0; i < n; ++i) { tr += A.at(i, i); es += e[i]; } double tol = 1e-8 + 1e-11 * mx * static_cast<double>(n * n); REQ(std::fabs(tr - es) < tol, "eigenvalues sum to " << es << ", trace " << tr);
    for (std::size_t k = 0; k < n; ++k) for (std::size_t i = 0; i < n; ++i) { L q = 0; for (std::size_t j = 0; j < n; ++j) q += L(A.at(i, j)) * V.at(j, k); REQ(std::fabs(static_cast<double>(q - L(e[k]) * V.at(i, k))) < tol, "A v differs from " << e[k] << " v by " << static_cast<double>(q - L(e[k]) * V.at(i, k)) << " in pair " << k); }
    for (std::size_t k = 0; k < n; ++k) for (std::size_t l = 0; l < n; ++l) { L q = 0; for (std::size_t j = 0; j < n; ++j) q += L(V.at(j, k)) * V.at(j, l); REQ(std::fabs(static_cast<double>(q) - (k == l)) < 1e-9, "eigenvectors " << k << " and " << l << " have product " << static_cast<double>(q)); }
    M R = gm(s, n, n + 1); REQ(throws<std::runtime_error>([&] { linalg::jacobi_eigen_solver(R, e, V); }), "a rectangular matrix is accepted");
}
PROP(null_vector, "more columns than the rank")
{   // unit vector that minimises ||A h||, exactly orthogonal to all rows when there are fewer than columns
    std::size_t c = s.sz(1, 9), r = s.sz(1, c + 3); M A = gm(s, r, c); if (s.flip() && r >= c && c > 1) { for (std::size_t i = 0; i < r; ++i) { A.at(i, c - 1) = A.at(i, 0) * 2 - (c > 2 ? A.at(i, 1) : 0); } } s.desc << str(A); auto h = linalg::svd_solve_ah_zero(A); REQ(h.size() == c, "length"); L nn = 0; for (auto v : h) nn += L(v) * v; REQ(close(static_cast<double>(nn), 1, 1e-9, 0), "norm " << static_cast<double>(nn));
    auto res = [&](const std::vector<double>& v) { L q = 0; for (std::size_t i = 0; i < r; ++i) { L t = 0; for (std::size_t j = 0; j < c; ++j) t += L(A.at(i, j)) * v[j]; q += t * t; } return static_cast<double>(q); }; double mine = res(h); s.nontrivial(r < c && c > 2); if (r < c) REQ(mine < 1e-7, "residual " << mine << " though a null vector exists");
    for (int t = 0; t < 6; ++t) { std::vector<double> v(c); double m = 0; for (auto& e : v) { e = s.real(-1, 1); m += e * e; } if (m < 1e-3) continue; for (auto& e : v) e /= std::sqrt(m); REQ(res(v) >= mine - 1e-7, "another unit vector has the smaller residual " << res(v) << " than " << mine); }
    for (std::size_t k = 0; k < c; ++k) { auto v = h; v[k] += 1e-3; double m = 0; for (auto e : v) m += e * e; if (m < 1e-6) continue; for (auto& e : v) e /= std::sqrt(m); REQ(res(v) >= mine - 1e-7, "a neighbouring unit vector has a smaller residual"); }
}
PROPW(inverse, 2, "an invertible matrix")
{
    M A = gm(s, 3, 3); int mode = static_cast<int>(s.draw(3)); if (mode == 1) for (std::size_t j = 0; j < 3; ++j) A.at(2, j) = A.at(0, j) * 2 + A.at(1, j); if (s.chance(1, 4)) { std::size_t row = s.draw(3); double f = std::ldexp(s.flip() ? 1 : -1, static_cast<int>(s.in(-12, 4))); for (std::size_t i = 0; i < 3; ++i) for (std::size_t j = 0; j < 3; ++j) if (row == 3 || i == row) A.at(i, j) *= f; } L det = 0; for (int k = 0; k < 3; ++k) det += L(A.at(0, static_cast<std::size_t>(k))) * (L(A.at(1, static_cast<std::size_t>((k + 1) % 3))) * A.at(2, static_cast<std::size_t>((k + 2) % 3)) - L(A.at(1, static_cast<std::size_t>((k + 2) % 3))) * A.at(2, static_cast<std::size_t>((k + 1) % 3)));
    s.desc << str(A) << " det " << static_cast<double>(det); s.nontrivial(std::fabs(static_cast<double>(det)) > 1e-3); M I = linalg::invert(A);
    std::vector<double> f; for (std::size_t i = 0; i < 3; ++i) for (std::size_t j = 0; j < 3; ++j) f.push_back(A.at(i, j)); Image<double> im(f, Sz{3, 3}); double rn = 1; for (std::size_t i = 0; i < 3; ++i) rn *= std::fabs(A.at(i, 0)) + std::fabs(A.at(i, 1)) + std::fabs(A.at(i, 2)); REQ(close(determinant3x3(im), static_cast<double>(det), 1e-11, 1e-10 + 1e-14 * rn), "determinant " << determinant3x3(im) << " expected " << static_cast<double>(det));
    if (det == 0) REQ(I.empty() || std::fabs(static_cast<double>(det)) < 1e-9, "inverse of a singular matrix");
    if (std::fabs(static_cast<double>(det)) > 4e-9 + 1e-14 * rn) { REQ(!I.empty(), "no inverse though the determinant is " << static_cast<double>(det)); M P = linalg::multiply(A, I), Q = linalg::multiply(I, A); double mi = 1; for (std::size_t i = 0; i < 3; ++i) for (std::size_t j = 0; j < 3; ++j) mi = std::max(mi, std::fabs(I.at(i, j))); for (std::size_t i = 0; i < 3; ++i) for (std::size_t j = 0; j < 3; ++j) REQ(std::fabs(P.at(i, j) - (i == j)) < 1e-9 * mi * 100 && std::fabs(Q.at(i, j) - (i == j)) < 1e-9 * mi * 100, "A times inverse is " << str(P)); }
    std::size_t r = s.sz(0, 5), c = s.sz(0, 5); if (r != 3 || c != 3) { M B = gm(s, r, c); REQ(throws<std::runtime_error>([&] { linalg::invert(B); }), "inverting " << r << "x" << c << " accepted"); }
}
PROP(singular, "a non-zero matrix")
{   // integer matrices of rank two or less: the determinant is exactly zero and there is no inverse
    M A(3, 3); for (std::size_t j = 0; j < 3; ++j) { A.at(0, j) = static_cast<double>(s.sint(9)); A.at(1, j) = static_cast<double>(s.sint(9)); } double p = static_cast<double>(s.sint(3)), q = static_cast<double>(s.sint(3)); for (std::size_t j = 0; j < 3; ++j) A.at(2, j) = p * A.at(0, j) + q * A.at(1, j); std::size_t k = s.draw(2); if (k) for (std::size_t j = 0; j < 3; ++j) std::swap(A.at(2, j), A.at(2 - k, j)); s.desc << str(A); s.nontrivial(A.at(0, 0) != 0); REQ(linalg::invert(A).empty(), "a singular matrix has the inverse " << str(linalg::invert(A)));
}
template<std::size_t N> static void solve_n(Src& s)
{
    std::array<std::array<double, N>, N> A; std::array<double, N> x, b{}; for (auto& r : A) for (auto& e : r) e = ge(s); for (auto& e : x) e = ge(s); bool sing = s.chance(1, 4) && N > 1; if (sing) { if (s.flip()) for (std::size_t i = 0; i < N; ++i) A[i][N - 1] = 0; else { for (auto& r : A) for (auto& e : r) e = static_cast<double>(s.sint(2)); A[N - 1] = A[0]; } } else for (std::size_t i = 0; i < N; ++i) { double t = 1; for (auto e : A[i]) t += std::fabs(e); A[i][i] += (A[i][i] < 0 ? -t : t); std::size_t j = s.draw(N - 1); (void)j; }
    if (!sing) for (std::size_t i = 0; i + 1 < N; ++i) if (s.flip()) std::swap(A[i], A[i + 1 + s.draw(N - 2 - i)]);
    for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < N; ++j) b[i] += A[i][j] * x[j]; std::ostringstream d; for (auto& r : A) { for (auto e : r) d << e << " "; d << ";"; } s.desc << (sing ? "singular " : "") << d.str(); s.nontrivial(!sing && N > 1);
    auto got = solve_linear_system<N, double>(A, b); if (sing) { if (A[0][N - 1] == 0 && A[N - 1][N - 1] == 0) for (auto e : got) REQ(e == 0, "singular system gives " << e); return; } for (std::size_t i = 0; i < N; ++i) REQ(close(got[i], x[i], 1e-9, 1e-9), "unknown " << i << " is " << got[i] << " expected " << x[i]);
}
PROP(solving, "a regular system of several unknowns") { switch (s.draw(3)) { case 0: solve_n<1>(s); break; case 1: solve_n<2>(s); break; case 2: solve_n<4>(s); break; default: solve_n<6>(s); } }
template<class T, class G> static void sym(Src& s, G gg, T step)
{
    std::size_t n = s.sz(0, 6), c = s.chance(1, 5) ? s.sz(0, 6) : n; linalg::Matrix<T> A(n, c); for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < c; ++j) A.at(i, j) = (n == c && j < i) ? A.at(j, i) : gg(s); bool want = n == c; if (n == c && n > 0 && s.flip()) { std::size_t i = s.draw(n - 1), j = s.draw(n - 1); A.at(i, j) += step; want = i == j; } s.desc << n << "x" << c << " symmetric " << want; s.nontrivial(n > 1 && n == c);
    REQ(linalg::is_symmetry(A) == want, "is_symmetry"); REQ(linalg::is_symmetry(std::execution::seq, A) == want && linalg::is_symmetry(std::execution::par, A) == want, "is_symmetry with policy");
}
PROP(symmetry, "a square matrix") { switch (s.draw(3)) { case 3: sym<std::string>(s, [](Src& t) { return std::string(1, static_cast<char>(97 + t.draw(3))); }, std::string("x")); break; case 0: sym<int>(s, [](Src& t) { return static_cast<int>(t.sint(3)); }, 1); break; case 1: sym<double>(s, gd, 0.125); break; default: sym<std::complex<double>>(s, [](Src& t) { return std::complex<double>(gd(t), gd(t)); }, std::complex<double>(0, 0.5)); } }
