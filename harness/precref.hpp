// Independent dense reference of the operator that a multilevel
// factorization represents, rebuilt from its stored levels.
#pragma once
#include "hifx.hpp"

namespace vf {
struct LevelInfo {
  size_t m, n;
};
template <class It>
Dense dense_level(It it, It last, bool &ok) {
  const auto & pr = *it;
  const size_t m = pr.m, n = pr.n, nm = n - m;
  Dense        K(n, n);
  Dense        L = Dense::eye(m), U = Dense::eye(m), B(m, m);
  if (m) {
    Dense l = dense_of(pr.L_B), u = dense_of(pr.U_B);
    if (l.m != m || l.n != m || u.m != m || u.n != m) {
      ok = false;
      return K;
    }
    L = L + l;
    U = U + u;
    for (size_t i = 0; i < m; ++i)
      for (size_t j = 0; j < m; ++j) U(i, j) *= up(pr.d_B[i]);  // D*U
    B = L * U;
  }
  for (size_t i = 0; i < m; ++i)
    for (size_t j = 0; j < m; ++j) K(i, j) = B(i, j);
  if (nm) {
    Dense S;
    auto  nx = it;
    ++nx;
    if (!pr.dense_solver.empty() || !pr.symm_dense_solver.empty()) {
      S = Dense(nm, nm);
      const auto &get = [&](size_t i, size_t j) {
        return !pr.dense_solver.empty() ? up(pr.dense_solver.mat_backup()(i, j)) : up(pr.symm_dense_solver.mat_backup()(i, j));
      };
      for (size_t i = 0; i < nm; ++i)
        for (size_t j = 0; j < nm; ++j) S(i, j) = get(i, j);
    } else {
      if (nx == last) {
        ok = false;
        return K;
      }
      S = dense_level(nx, last, ok);
      if (!ok) return K;
    }
    Dense E(nm, m), F(m, nm);
    if (m) {
      E = dense_of(pr.E);
      F = dense_of(pr.F);
      // E * inv(LDU) * F by triangular solves in extended precision
      Dense Y = F;
      for (size_t c = 0; c < nm; ++c) {
        for (size_t i = 0; i < m; ++i)
          for (size_t k = 0; k < i; ++k) Y(i, c) -= L(i, k) * Y(k, c);
        for (size_t ii = m; ii-- > 0;) {
          for (size_t k = ii + 1; k < m; ++k) Y(ii, c) -= U(ii, k) * Y(k, c);
          Y(ii, c) /= U(ii, ii);
        }
      }
      Dense EY = E * Y;
      for (size_t i = 0; i < nm; ++i)
        for (size_t j = 0; j < nm; ++j) S(i, j) += EY(i, j);
    }
    for (size_t i = 0; i < nm; ++i)
      for (size_t j = 0; j < nm; ++j) K(m + i, m + j) = S(i, j);
    for (size_t i = 0; i < m; ++i)
      for (size_t j = 0; j < nm; ++j) {
        K(i, m + j) = F(i, j);
        K(m + j, i) = E(j, i);
      }
  }
  Dense M(n, n);
  for (size_t k = 0; k < n; ++k)
    for (size_t l = 0; l < n; ++l) M(pr.p[k], pr.q[l]) = K(k, l) / ((ld)pr.s[pr.p[k]] * (ld)pr.t[pr.q[l]]);
  return M;
}
// how much the level chain can amplify rounding noise: product over levels of
// (1 + |E||B^-1|)(1 + |B^-1||F|), of the element growth inside the leading
// block, and of what the scalings do to the noise of the trailing part
struct DMat {  // plain double-precision square work matrix
  size_t                            n;
  std::vector<std::complex<double>> a;
  explicit DMat(size_t n_) : n(n_), a(n_ * n_) {}
  std::complex<double> &      operator()(size_t i, size_t j) { return a[i * n + j]; }
  const std::complex<double> &operator()(size_t i, size_t j) const { return a[i * n + j]; }
  double                      fro() const {
    double s = 0;
    for (auto &v : a) s += std::norm(v);
    return std::sqrt(s);
  }
};
template <class Hif>
double level_growth(const Hif &M) {
  double g = 1;
  auto   d = [](const cld &v) { return std::complex<double>((double)v.real(), (double)v.imag()); };
  for (auto &pr : M.precs()) {
    const size_t m = pr.m, nm = pr.n - pr.m;
    auto         S = [&](size_t i) { return (double)std::abs(up(pr.s[pr.p[i]])); };
    auto         T = [&](size_t i) { return (double)std::abs(up(pr.t[pr.q[i]])); };
    if (nm && (!pr.dense_solver.empty() || !pr.symm_dense_solver.empty())) {
      Dense D(nm, nm), X;
      for (size_t i = 0; i < nm; ++i)
        for (size_t j = 0; j < nm; ++j)
          D(i, j) = !pr.dense_solver.empty() ? up(pr.dense_solver.mat_backup()(i, j)) : up(pr.symm_dense_solver.mat_backup()(i, j));
      if (invert(D, X) && (double)(D.fro() * X.fro()) < 1e12) {
        double tx = 0, xs = 0, txs = 0, sm = 0, tm = 0;
        for (size_t i = 0; i < nm; ++i) {
          sm = std::max(sm, S(m + i)), tm = std::max(tm, T(m + i));
          for (size_t j = 0; j < nm; ++j) {
            double x = (double)std::norm(X(i, j)), t = T(m + i), s = S(m + j);
            tx += t * t * x, xs += x * s * s, txs += t * t * x * s * s;
          }
        }
        tx = std::sqrt(tx), xs = std::sqrt(xs), txs = std::sqrt(txs);
        const double dn = (double)D.fro();
        g *= std::max(1.0, std::max(tx * (dn * xs + sm), xs * (dn * tx + tm)) / txs);
      }
    }
    if (!m) continue;
    Dense L0 = dense_of(pr.L_B), U0 = dense_of(pr.U_B);
    if (L0.m != m || U0.m != m) return 1e300;
    DMat L(m), U(m), Li(m), Ui(m), X(m);
    for (size_t i = 0; i < m; ++i) {
      for (size_t j = 0; j < i; ++j) L(i, j) = d(L0(i, j));
      for (size_t j = i + 1; j < m; ++j) U(i, j) = d(U0(i, j));
    }
    for (size_t c = 0; c < m; ++c) {
      Li(c, c) = Ui(c, c) = 1;
      for (size_t i = c + 1; i < m; ++i)
        for (size_t k = c; k < i; ++k) Li(i, c) -= L(i, k) * Li(k, c);
      for (size_t i = c; i-- > 0;)
        for (size_t k = i + 1; k <= c; ++k) Ui(i, c) -= U(i, k) * Ui(k, c);
    }
    std::vector<double> D(m);
    for (size_t i = 0; i < m; ++i) {
      L(i, i) = U(i, i) = 1;
      D[i]              = (double)std::abs(up(pr.d_B[i]));
    }
    double x = 0, xa = 0, b = 0, ba = 0;
    for (size_t i = 0; i < m; ++i)
      for (size_t j = 0; j < m; ++j) {
        std::complex<double> e = 0, f = 0;
        double               ea = 0, fa = 0;
        for (size_t k = std::max(i, j); k < m; ++k) {
          auto q = Ui(i, k) * Li(k, j) / d(up(pr.d_B[k]));
          e += q, ea += std::abs(q);
        }
        for (size_t k = 0; k <= std::min(i, j); ++k) {
          auto q = L(i, k) * U(k, j) * d(up(pr.d_B[k]));
          f += q, fa += std::abs(q);
        }
        X(i, j) = e;
        x += std::norm(e), xa += ea * ea, b += std::norm(f), ba += fa * fa;
      }
    x = std::sqrt(x);
    g *= std::sqrt(xa) / x * (std::sqrt(ba) / std::sqrt(b));
    if (!nm) continue;
    Dense  E = dense_of(pr.E), F = dense_of(pr.F);
    double ge = x * (double)E.fro(), gf = x * (double)F.fro();
    if (E.m == nm && E.n == m && F.m == m && F.n == nm && pr.s.size() == pr.n && pr.t.size() == pr.n) {
      double e2 = 0, f2 = 0;
      for (size_t i = 0; i < nm; ++i)
        for (size_t j = 0; j < m; ++j) {
          double e = 0, f = 0;
          for (size_t k = 0; k < m; ++k) {
            if (E(i, k) != cld(0, 0)) e += (double)std::abs(E(i, k)) * std::abs(X(k, j));
            if (F(k, i) != cld(0, 0)) f += (double)std::abs(F(k, i)) * std::abs(X(j, k));
          }
          e *= S(j) / S(m + i);
          f *= T(j) / T(m + i);
          e2 += e * e, f2 += f * f;
        }
      ge = std::max(ge, std::sqrt(e2)), gf = std::max(gf, std::sqrt(f2));
    }
    g *= (1 + ge) * (1 + gf);
  }
  return std::isfinite(g) ? g : 1e300;
}
template <class Hif>
Dense dense_M(const Hif &M, bool &ok) {
  ok = true;
  return dense_level(M.precs().cbegin(), M.precs().cend(), ok);
}
}  // namespace vf
