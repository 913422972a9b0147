// dense: the end-level dense solvers judged against what their operators must
// be, computed in extended precision from the input block (C17), and the
// several-vector forms (C09).
#include "hifx.hpp"
#ifndef VT
#  define VT double
#endif
using namespace vf;
typedef VT          T;
typedef Tr<T>::real R;
template <class X> struct Other;
template <> struct Other<double> { typedef float type; };
template <> struct Other<float> { typedef double type; };
template <class X> struct Other<std::complex<X>> { typedef std::complex<typename Other<X>::type> type; };
typedef Other<T>::type OT;
typedef hif::DenseMatrix<T> DM;
typedef typename std::conditional<sizeof(R) == 4, OT, T>::type WT;
static const double EPS = epsof<T>();

static cld rc(Rng &r) { return cld(r.uni(-1, 1), Tr<T>::cplx ? r.uni(-1, 1) : 0); }
// random unitary matrix (twice orthogonalised)
static Dense unitary(Rng &r, size_t n) {
  Dense Q(n, n);
  for (size_t j = 0; j < n; ++j) {
    for (;;) {
      for (size_t i = 0; i < n; ++i) Q(i, j) = rc(r);
      for (int w = 0; w < 2; ++w)
        for (size_t k = 0; k < j; ++k) {
          cld d = 0;
          for (size_t i = 0; i < n; ++i) d += std::conj(Q(i, k)) * Q(i, j);
          for (size_t i = 0; i < n; ++i) Q(i, j) -= d * Q(i, k);
        }
      ld s = 0;
      for (size_t i = 0; i < n; ++i) s += std::norm(Q(i, j));
      s = std::sqrt(s);
      if (s < 1e-3) continue;
      for (size_t i = 0; i < n; ++i) Q(i, j) /= s;
      break;
    }
  }
  return Q;
}
static std::vector<ld> spectrum(Rng &r, size_t n) {
  std::vector<ld> w(n);
  const double    lg = -std::log10(EPS);
  switch ((int)r.in(0, 4)) {
    case 0:
      for (auto &v : w) v = r.uni(.3, 2);
      break;
    case 1: {  // geometric
      double c = r.uni(0, .9 * lg);
      for (size_t i = 0; i < n; ++i) w[i] = std::pow(10.0L, -(ld)c * i / (n > 1 ? n - 1 : 1));
      break;
    }
    case 2: {  // a gap
      size_t k = (size_t)r.in(0, n);
      double g = std::pow(10.0, -r.uni(.2 * lg, .95 * lg));
      for (size_t i = 0; i < n; ++i) w[i] = (i < k ? 1 : g) * r.uni(.5, 1.5);
      break;
    }
    case 3: {  // exactly deficient up to rounding
      size_t k = (size_t)r.in(0, n);
      for (size_t i = 0; i < n; ++i) w[i] = i < k ? r.uni(.5, 1.5) : 0;
      break;
    }
    default:
      for (size_t i = 0; i < n; ++i) w[i] = std::pow(10.0L, -(ld)r.uni(0, .3 * lg));
  }
  ld s = std::pow(10.0L, (ld)(r.chance(.7) ? 0 : r.uni(-.5, .5) * (sizeof(R) == 4 ? 16 : 100)));
  for (auto &v : w) v *= s;
  return w;
}
static Dense rounded(const Dense &A) {
  Dense B = A;
  for (auto &v : B.a) v = up(down<T>(v));
  return B;
}
static Dense gen_block(Rng &r, size_t n, std::string &name) {
  Dense A(n, n);
  switch ((int)r.in(0, 7)) {
    case 0:
      name = "random";
      for (auto &v : A.a) v = rc(r);
      break;
    case 1:
    case 2:
    case 3: {
      name  = "spectrum";
      auto  w = spectrum(r, n);
      Dense U = unitary(r, n), V = unitary(r, n);
      for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j) U(i, j) *= w[j];
      A = U * V;
      break;
    }
    case 4: {
      name = "integer";  // exact arithmetic, exact ties
      for (auto &v : A.a) v = cld((ld)r.in(-3, 3), Tr<T>::cplx ? (ld)r.in(-2, 2) : 0);
      break;
    }
    case 5: {
      name = "deficient";  // duplicated / zero rows and columns
      for (auto &v : A.a) v = r.chance(.4) ? rc(r) : 0;
      for (int k = 0; k < 3; ++k) {
        size_t i = (size_t)r.in(0, n - 1), j = (size_t)r.in(0, n - 1);
        bool   row = r.chance(.5), z = r.chance(.4);
        for (size_t l = 0; l < n; ++l) {
          if (row)
            A(i, l) = z ? cld(0) : A(j, l);
          else
            A(l, i) = z ? cld(0) : A(l, j);
        }
      }
      break;
    }
    case 6: {
      name = "colscaled";
      for (auto &v : A.a) v = rc(r);
      for (size_t j = 0; j < n; ++j) {
        ld s = std::pow(10.0L, (ld)r.uni(-.6, .1) * (ld)-std::log10(EPS));
        for (size_t i = 0; i < n; ++i) A(i, j) *= s;
      }
      break;
    }
    default:
      name = r.chance(.2) ? "zero" : "sparse";
      if (name == "sparse")
        for (size_t i = 0; i < n; ++i)
          for (size_t j = 0; j < n; ++j)
            if (i == j || r.chance(.15)) A(i, j) = rc(r);
  }
  return rounded(A);
}
static DM to_dm(const Dense &A) {
  DM m(A.m, A.n);
  for (size_t i = 0; i < A.m; ++i)
    for (size_t j = 0; j < A.n; ++j) m(i, j) = down<T>(A(i, j));
  return m;
}
static Csr<T> to_csr(const Dense &A, Rng &r) {
  Coo<T> c((int)A.m, (int)A.n);
  for (size_t i = 0; i < A.m; ++i)
    for (size_t j = 0; j < A.n; ++j)
      if (A(i, j) != cld(0, 0) || r.chance(.1)) c.set((int)i, (int)j, (double)A(i, j).real(), (double)A(i, j).imag());
  return c.csr();
}
static uint64_t hash_dense(const Dense &A) {
  uint64_t h = A.n * 1315423911u;
  for (auto &v : A.a) {
    double d[2] = {(double)v.real(), (double)v.imag()};
    for (double x : d) {
      uint64_t u;
      memcpy(&u, &x, 8);
      h = (h ^ u) * 0x9E3779B97F4A7C15ull;
      h ^= h >> 29;
    }
  }
  return h;
}
// a block handed over as a constant stays what it was
static std::unique_ptr<std::pair<DM, Dense>> kept;
static void kept_check(Ctx &c) {
  if (!kept) return;
  bool same = true;
  for (size_t i = 0; i < kept->second.m; ++i)
    for (size_t j = 0; j < kept->second.n; ++j) same = same && up(kept->first(i, j)) == kept->second(i, j);
  c.expect(same, "user-block-modified");
  c.ev("user-block-compared");
  kept.reset();
}
// hand the block over in one of the ways the library offers
template <class S>
static void give(Ctx &c, Rng &r, S &s, const Dense &A) {
  int w = (int)r.in(0, 4);
  if (w == 0)
    s.set_matrix(mk_crs(to_csr(A, r)));
  else if (w == 1)
    s.set_matrix(mk_ccs(to_csr(A, r)));
  else if (w == 2)
    s.set_matrix(to_dm(A));
  else if (w == 3) {
    const DM d = to_dm(A);
    s.set_matrix(d);
    kept.reset(new std::pair<DM, Dense>(d, A));
  } else {
    // a wider type that holds the same numbers
    hif::DenseMatrix<WT> d(A.m, A.n);
    for (size_t i = 0; i < A.m; ++i)
      for (size_t j = 0; j < A.n; ++j) d(i, j) = down<WT>(A(i, j));
    s.set_matrix(d);
  }
  c.ev(fmt("given-%d", w));
  bool same = s.mat_backup().nrows() == A.m && s.mat_backup().ncols() == A.n;
  for (size_t i = 0; same && i < A.m; ++i)
    for (size_t j = 0; same && j < A.n; ++j) same = up(s.mat_backup()(i, j)) == A(i, j);
  c.expect(same, "block-not-taken-over", fmt("way %d", w));
}
template <class S>
static bool backup_same(const S &s, const Dense &A) {
  bool same = s.mat_backup().nrows() == A.m && s.mat_backup().ncols() == A.n;
  for (size_t i = 0; same && i < A.m; ++i)
    for (size_t j = 0; same && j < A.n; ++j) same = up(s.mat_backup()(i, j)) == A(i, j);
  return same;
}
// uniform access to the three solvers: what 0 solve, 1 multiply
template <class X>
static void ap(const hif::QRCP<T> &s, hif::Array<X> &x, int what, size_t rk, bool tr) {
  what ? s.multiply(x, rk, tr) : s.solve(x, rk, tr);
}
template <class X>
static void ap(const hif::SYEIG<T> &s, hif::Array<X> &x, int what, size_t rk, bool) {
  what ? s.multiply(x, rk) : s.solve(x, rk);
}
template <class X>
static void ap(const hif::LUP<T> &s, hif::Array<X> &x, int what, size_t, bool tr) {
  if (!what)
    s.solve(x, size_t(0), tr);
  else {
    hif::Array<X> y(x.size());
    s.multiply(x, y, size_t(0), tr);
    std::copy(y.cbegin(), y.cend(), x.begin());
  }
}
template <class X, size_t N>
static bool apm(const hif::QRCP<T> &s, hif::Array<std::array<X, N>> &x, int what, size_t rk, bool tr) {
  what ? s.multiply_mrhs(x, rk, tr) : s.solve_mrhs(x, rk, tr);
  return true;
}
template <class X, size_t N>
static bool apm(const hif::SYEIG<T> &s, hif::Array<std::array<X, N>> &x, int what, size_t rk, bool) {
  what ? s.multiply_mrhs(x, rk) : s.solve_mrhs(x, rk);
  return true;
}
template <class X, size_t N>
static bool apm(const hif::LUP<T> &s, hif::Array<std::array<X, N>> &x, int what, size_t, bool tr) {
  if (what) return false;
  s.solve_mrhs(x, size_t(0), tr);
  return true;
}
template <class S>
static Dense op(const S &s, size_t n, int what, size_t rk, bool tr) {
  Dense         D(n, n);
  hif::Array<T> x(n);
  for (size_t j = 0; j < n; ++j) {
    for (size_t i = 0; i < n; ++i) x[i] = T(i == j ? 1 : 0);
    ap(s, x, what, rk, tr);
    for (size_t i = 0; i < n; ++i) D(i, j) = up(x[i]);
  }
  return D;
}
template <class S, class X, size_t N>
static void blockform(Ctx &c, Rng &r, const S &s, size_t n, int what, size_t rk, bool tr, double nrm) {
  hif::Array<std::array<X, N>> x(n);
  std::vector<hif::Array<X>>   cols;
  for (size_t k = 0; k < N; ++k) {
    hif::Array<X> v(n);
    for (size_t i = 0; i < n; ++i) v[i] = x[i][k] = down<X>(rc(r));
    cols.push_back(v);
  }
  if (!apm(s, x, what, rk, tr)) return;
  const double eps = std::max(EPS, epsof<X>());
  for (size_t k = 0; k < N; ++k) {
    ap(s, cols[k], what, rk, tr);
    ld d = 0, m = 0;
    for (size_t i = 0; i < n; ++i) d += std::norm(up(x[i][k]) - up(cols[k][i])), m += std::norm(up(cols[k][i]));
    // both carry rounding of the same operator; nrm bounds it relative to the result
    if (m > 0 || d > 0)
      c.near((double)std::sqrt(d), 1e2 * n * eps * (double)std::max(std::sqrt(m), (ld)nrm), fmt("block-form-%zu:", N) + std::string(what ? "multiply" : "solve") + (tr ? ":adjoint" : ""), fmt("n=%zu column %zu", n, k));
  }
  c.ev(fmt("block-width=%zu", N));
}
template <class S>
static void blocks(Ctx &c, Rng &r, const S &s, size_t n, size_t rk, const Dense &G, const Dense &M, double kap, bool symm) {
  for (int w = 0; w < 2; ++w) {
    bool   tr  = !symm && r.chance(.5);
    double nrm = kap * (double)(w ? M : G).fro();
    if (!(w ? M : G).finite()) continue;
    const ld  f  = (w ? M : G).fro();
    const int hi = f < 1e30L && f > 1e-30L ? 5 : 3;  // float vectors must be able to hold the result
    switch ((int)r.in(0, hi)) {
      case 0: blockform<S, T, 1>(c, r, s, n, w, rk, tr, nrm); break;
      case 1: blockform<S, T, 2>(c, r, s, n, w, rk, tr, nrm); break;
      case 2: blockform<S, T, 3>(c, r, s, n, w, rk, tr, nrm); break;
      case 3: blockform<S, T, 8>(c, r, s, n, w, rk, tr, nrm); break;
      case 4: blockform<S, OT, 2>(c, r, s, n, w, rk, tr, nrm); break;
      default: blockform<S, OT, 5>(c, r, s, n, w, rk, tr, nrm);
    }
  }
}
// a vector of the other precision sees the same operator
template <class S>
static void otherprec(Ctx &c, Rng &r, const S &s, size_t n, size_t rk, bool tr, const Dense &G, const Dense &M, double kap) {
  for (int w = 0; w < 2; ++w) {
    const Dense & D = w ? M : G;
    hif::Array<OT> x(n);
    for (size_t i = 0; i < n; ++i) x[i] = down<OT>(rc(r));
    cvec ref = mv(tr ? D.H() : D, upa(x));
    ap(s, x, w, rk, tr);
    double eps = std::max(EPS, epsof<OT>());
    ld     big = sizeof(R) == 8 ? 1e30L : 1e300L;
    if (D.finite() && D.fro() < big && D.fro() > 1 / big)
      c.near((double)nrm2(upa(x) - ref), 1e2 * n * eps * kap * (double)D.fro() * std::sqrt((double)n) + 1e-300, w ? "other-precision-multiply" : "other-precision-solve", "");
    c.ev("other-precision");
  }
}
static Dense cols_of(const Dense &A, const std::vector<size_t> &J) {
  Dense B(A.m, J.size());
  for (size_t i = 0; i < A.m; ++i)
    for (size_t k = 0; k < J.size(); ++k) B(i, k) = A(i, J[k]);
  return B;
}
static hif::Options opts(Rng &r, double cond, int spd) {
  hif::Options o = hif::get_default_options();
  o.verbose      = hif::VERBOSE_NONE;
  o.rrqr_cond    = cond;
  o.spd          = spd;
  (void)r;
  return o;
}
static double pick_cond(Rng &r) {
  if (r.chance(.4)) return r.chance(.5) ? 0 : -1;
  return std::pow(10.0, r.uni(.5, .85 * -std::log10(EPS)));
}
// order in which pivoting selects the columns, deduced from the rank-k products
static bool selection(Ctx &c, const hif::QRCP<T> &s, const Dense &A, std::vector<size_t> &J) {
  const size_t     n = A.n;
  std::vector<int> in(n, 0);
  J.clear();
  for (size_t k = 1; k <= n; ++k) {
    Dense M = op(s, n, 1, k, false);
    std::vector<size_t> now;
    for (size_t j = 0; j < n; ++j) {
      bool nz = false;
      for (size_t i = 0; i < n; ++i) nz |= M(i, j) != cld(0, 0);
      if (nz) now.push_back(j);
    }
    size_t fresh = n, cnt = 0;
    for (size_t j : now)
      if (!in[j]) fresh = j, ++cnt;
    if (now.size() < J.size() || cnt > 1) return c.expect(false, "rank-k-product-columns", fmt("k=%zu: %zu columns, %zu new", k, now.size(), cnt));
    if (cnt == 0) return false;  // a zero column was selected: cannot be told
    in[fresh] = 1;
    J.push_back(fresh);
  }
  return true;
}
static void qrcp_judge(Ctx &c, Rng &r, hif::QRCP<T> &s, const Dense &A, double cond) {
  const size_t n   = A.n;
  const size_t rk  = s.rank();
  const double thr = cond <= 0 ? std::pow((double)(R)EPS, -2. / 3) : cond;
  if (!c.expect(rk <= n, "rank-range")) return;
  c.expect(s.full_rank() == (rk == n), "full-rank-flag");
  if (A.fro() == 0) {
    c.expect(rk == 0, "rank-of-zero", fmt("%zu", rk));
    Dense G = op(s, n, 0, 0, false), M = op(s, n, 1, 0, true);
    c.expect(G.fro() == 0 && M.fro() == 0, "zero-block-operators");
    c.ev("zero-block");
    return;
  }
  std::vector<size_t> J;
  if (!selection(c, s, A, J)) {
    c.ev("selection-unknown");
    // still: default operators must be finite and consistent
    if (rk) {
      Dense G = op(s, n, 0, 0, false), M = op(s, n, 1, 0, false);
      c.expect(G.finite() && M.finite(), "not-finite");
      ld k = G.fro() * M.fro();
      if (k * EPS < 1e-6) c.near((double)(M * G * M - M).fro(), 50 * n * EPS * (double)(k * M.fro()), "generalized-inverse");
    } else
      c.expect(false, "rank-of-nonzero", "0");
    return;
  }
  // residual norms of the selection (diagonal of the triangular factor), greedy choice
  Dense           W = A;
  std::vector<ld> d(n);
  for (size_t k = 0; k < n; ++k) {
    ld best = 0, mine = 0;
    for (size_t l = k; l < n; ++l) {
      ld q = 0;
      for (size_t i = 0; i < n; ++i) q += std::norm(W(i, J[l]));
      q = std::sqrt(q);
      if (l == k) mine = q;
      best = std::max(best, q);
    }
    d[k] = mine;
    if (best > 1e3 * n * EPS * A.fro()) {
      c.near((double)((best - mine) / best), 1e-2 + 1e3 * n * EPS * (double)(A.fro() / best), "pivot-is-largest-residual", fmt("k=%zu", k));
      c.ev("pivots-judged");
    }
    if (mine == 0) continue;
    for (int w = 0; w < 2; ++w)
      for (size_t l = k + 1; l < n; ++l) {
        cld t = 0;
        for (size_t i = 0; i < n; ++i) t += std::conj(W(i, J[k])) * W(i, J[l]);
        t /= mine * mine;
        for (size_t i = 0; i < n; ++i) W(i, J[l]) -= t * W(i, J[k]);
      }
  }
  // rank
  ld dmin = d[0];
  for (auto v : d) dmin = std::min(dmin, v);
  const double ft = std::sqrt(EPS);
  if (dmin > 1.01L * ft * d[0] + 1e2 * n * EPS * d[0])
    c.expect(rk == n, "rank-of-well-conditioned", fmt("rank %zu of %zu, smallest pivot %Lg of %Lg", rk, n, dmin, d[0])), c.ev("judged-rank-full");
  else if (rk < n) {
    c.expect(dmin <= 1.01L * ft * d[0] + 1e2 * n * EPS * d[0], "rank-truncated-without-need");
    std::vector<size_t> J1(J.begin(), J.begin() + rk + 1), J0(J.begin(), J.begin() + rk);
    auto                s1 = singvals(cols_of(A, J1));
    // the next column would exceed the threshold; the estimator never overestimates
    if (thr < .02 / (EPS * n))
      c.expect(s1.back() * thr <= s1[0] * 1.05L + 1e3L * n * EPS * s1[0] * thr, "rank-too-small", fmt("rank %zu of %zu: cond of %zu columns %Lg within %g", rk, n, rk + 1, s1[0] / s1.back(), thr));
    c.ev("judged-rank-deficient");
    if (c.expect(rk > 0, "rank-of-nonzero", "0")) {
      auto s0 = singvals(cols_of(A, J0));
      c.mx("cond-over-threshold", (double)(s0[0] / s0.back()) / thr);
      c.expect(s0[0] <= s0.back() * thr * 30 * std::sqrt((ld)n), "rank-too-large", fmt("rank %zu of %zu: cond %Lg, threshold %g", rk, n, s0[0] / s0.back(), thr));
    }
  } else {
    auto s0 = singvals(A);
    if (dmin < .98L * ft * d[0] - 1e2 * n * EPS * d[0] && thr < .02 / (EPS * n)) {
      c.expect(s0[0] <= s0.back() * thr * 30 * std::sqrt((ld)n), "rank-too-large", fmt("full rank %zu: cond %Lg, threshold %g", rk, s0[0] / s0.back(), thr));
      c.ev("judged-rank-full-by-condition");
    }
  }
  // operators at the numerical rank, at explicit ranks, and beyond the size
  std::vector<size_t> ks = {0, (size_t)r.in(1, n), (size_t)r.in(1, n)};
  if (r.chance(.3)) ks.push_back(n + (size_t)r.in(1, 5));
  for (size_t k : ks) {
    const size_t        kk = k == 0 ? rk : std::min(k, n);
    if (!kk) continue;
    std::vector<size_t> Jk(J.begin(), J.begin() + kk);
    Dense               B = cols_of(A, Jk);
    auto                sv = singvals(B);
    Dense               M = op(s, n, 1, k, false), G = op(s, n, 0, k, false);
    // product: the selected columns, nothing else
    Dense E(n, n);
    for (size_t l = 0; l < kk; ++l)
      for (size_t i = 0; i < n; ++i) E(i, Jk[l]) = A(i, Jk[l]);
    c.near((double)(M - E).fro(), 30 * n * EPS * (double)E.fro(), "product", fmt("rank %zu", k));
    Dense Mt = op(s, n, 1, k, true);
    c.near((double)(Mt - E.H()).fro(), 30 * n * EPS * (double)E.fro(), "adjoint-product", fmt("rank %zu", k));
    c.ev("judged-product");
    const double kap = (double)(sv[0] / std::max(sv.back(), (ld)1e-4000L));
    if (!(kap * EPS * n < 1e-4)) {
      c.ev("solve-illconditioned");
      continue;
    }
    // solve: least squares on the selected columns (B^H B)^-1 B^H in extended precision
    // via scaled normal equations of an orthogonalised basis
    Dense Q = B, Rr(kk, kk);
    for (size_t j = 0; j < kk; ++j) {
      for (int w = 0; w < 2; ++w)
        for (size_t l = 0; l < j; ++l) {
          cld t = 0;
          for (size_t i = 0; i < n; ++i) t += std::conj(Q(i, l)) * Q(i, j);
          for (size_t i = 0; i < n; ++i) Q(i, j) -= t * Q(i, l);
          Rr(l, j) += t;
        }
      ld q = 0;
      for (size_t i = 0; i < n; ++i) q += std::norm(Q(i, j));
      q        = std::sqrt(q);
      Rr(j, j) = q;
      for (size_t i = 0; i < n; ++i) Q(i, j) /= q;
    }
    Dense X;
    if (!invert(Rr, X)) continue;
    X = X * Q.H();
    Dense P(n, n);
    for (size_t l = 0; l < kk; ++l)
      for (size_t i = 0; i < n; ++i) P(Jk[l], i) = X(l, i);
    c.near((double)(G - P).fro(), 30 * n * EPS * kap * (double)P.fro(), "solve", fmt("rank %zu cond %g", k, kap));
    Dense Gt = op(s, n, 0, k, true);
    c.near((double)(Gt - P.H()).fro(), 30 * n * EPS * kap * (double)P.fro(), "adjoint-solve", fmt("rank %zu cond %g", k, kap));
    c.ev("judged-solve");
    if (kk < n) c.ev("judged-truncated");
    blocks(c, r, s, n, k, G, M, kap, false);
    otherprec(c, r, s, n, k, r.chance(.5), G, M, kap);
  }
}
static void run_qrcp(Ctx &c, Rng &r) {
  hif::QRCP<T> s;
  const int    reps = (int)r.in(1, 3);
  for (int w = 0; w < reps; ++w) {
    const size_t n = (size_t)r.in(1, c.thorough ? 32 : 20);
    std::string  nm;
    Dense        A    = gen_block(r, n, nm);
    double       cond = pick_cond(r);
    c.desc            = fmt("QRCP<%s> %s n=%zu cond=%g use %d", Tr<T>::name(), nm.c_str(), n, cond, w);
    give(c, r, s, A);
    s.factorize(opts(r, cond, 0));
    kept_check(c);
    qrcp_judge(c, r, s, A, cond);
    if (r.chance(.5)) {
      size_t rk = s.rank();
      Dense  G0 = op(s, n, 0, 0, false);
      c.expect(backup_same(s, A), "backup-changed");
      s.refactorize(opts(r, cond, 0));
      c.expect(rk == s.rank(), "refactorization-rank");
      Dense G1 = op(s, n, 0, 0, false);
      bool  eq = true;
      for (size_t i = 0; i < G0.a.size(); ++i) eq = eq && (G0.a[i] == G1.a[i] || !(G0.a[i] == G0.a[i]));
      c.expect(eq, "refactorization-differs");
      cond = pick_cond(r);
      c.desc += fmt(" then cond=%g", cond);
      s.refactorize(opts(r, cond, 0));
      qrcp_judge(c, r, s, A, cond);
      c.ev("refactorized");
    }
    c.nontrivial(hash_dense(A));
  }
  c.ev("qrcp");
}
static void run_lup(Ctx &c, Rng &r) {
  hif::LUP<T> s;
  const int   reps = (int)r.in(1, 2);
  for (int w = 0; w < reps; ++w) {
    const size_t n = (size_t)r.in(1, c.thorough ? 32 : 20);
    std::string  nm;
    Dense        A = gen_block(r, n, nm);
    c.desc         = fmt("LUP<%s> %s n=%zu use %d", Tr<T>::name(), nm.c_str(), n, w);
    give(c, r, s, A);
    s.factorize(opts(r, 0, 0));
    kept_check(c);
    for (int again = 0; again < 2; ++again) {
      bool zc = false;  // a zero column makes a zero pivot for certain
      for (size_t j = 0; j < n; ++j) {
        bool z = true;
        for (size_t i = 0; i < n; ++i) z = z && A(i, j) == cld(0, 0);
        zc = zc || z;
      }
      if (zc) {
        c.expect(s.rank() < n && !s.full_rank(), "lu-rank-of-singular", fmt("%zu of %zu", (size_t)s.rank(), n));
        c.ev("lu-singular");
      }
      Dense  X;
      Dense  M = op(s, n, 1, 0, false), Mt = op(s, n, 1, 0, true);
      c.near((double)(M - A).fro(), 30 * n * EPS * (double)A.fro(), "lu-product");
      c.near((double)(Mt - A.H()).fro(), 30 * n * EPS * (double)A.fro(), "lu-adjoint-product");
      if (!zc && invert(A, X)) {
        const double kap = (double)(A.fro() * X.fro());
        if (kap * EPS * n < 1e-5) {
          c.expect(s.rank() == n && s.full_rank(), "lu-rank", fmt("%zu of %zu cond %g", (size_t)s.rank(), n, kap));
          Dense G = op(s, n, 0, 0, false), Gt = op(s, n, 0, 0, true);
          // growth of partial pivoting stays tiny for these blocks
          c.near((double)(G - X).fro(), 1e2 * n * EPS * kap * (double)X.fro(), "lu-solve", fmt("cond %g", kap));
          c.near((double)(Gt - X.H()).fro(), 1e2 * n * EPS * kap * (double)X.fro(), "lu-adjoint-solve", fmt("cond %g", kap));
          blocks(c, r, s, n, 0, G, M, kap, false);
          otherprec(c, r, s, n, 0, r.chance(.5), G, M, kap);
          c.ev("lu-judged");
        }
      }
      if (again || !r.chance(.4)) break;
      c.expect(backup_same(s, A), "backup-changed");
      s.refactorize(opts(r, 0, 0));
      c.ev("refactorized");
    }
    c.nontrivial(hash_dense(A) ^ 1);
  }
  c.ev("lup");
}
static void run_syeig(Ctx &c, Rng &r) {
  hif::SYEIG<T> s;
  const int     reps = (int)r.in(1, 3);
  for (int w = 0; w < reps; ++w) {
    const size_t    n = (size_t)r.in(1, c.thorough ? 32 : 20);
    const int       how = (int)r.in(0, 4);
    std::vector<ld> ev;
    Dense           Q, A(n, n);
    if (how == 0) {  // exact: integer diagonal
      Q = Dense::eye(n);
      for (size_t i = 0; i < n; ++i) ev.push_back((ld)r.in(-6, 6));
    } else {
      Q  = unitary(r, n);
      ev = spectrum(r, n);
      int sg = (int)r.in(0, 2);  // all positive, all negative, mixed
      for (auto &v : ev)
        if (sg == 1 || (sg == 2 && r.chance(.5))) v = -v;
    }
    Dense QL = Q;
    for (size_t i = 0; i < n; ++i)
      for (size_t j = 0; j < n; ++j) QL(i, j) *= ev[j];
    A = QL * Q.H();
    for (size_t i = 0; i < n; ++i) {
      A(i, i) = A(i, i).real();
      for (size_t j = 0; j < i; ++j) A(j, i) = std::conj(A(i, j));
    }
    A = rounded(A);
    int spd = (int)r.pick({0, 0, 1, -1, 1, -1, 3, -2});
    c.desc  = fmt("SYEIG<%s> how=%d n=%zu spd=%d use %d", Tr<T>::name(), how, n, spd, w);
    give(c, r, s, A);
    s.factorize(opts(r, 0, spd));
    kept_check(c);
    for (int again = 0; again < 2; ++again) {
      ld mx = 0;
      for (auto v : ev) mx = std::max(mx, std::fabs(v));
      const ld noise = 4 * n * EPS * mx, thr = std::pow((ld)EPS, 2.0L / 3) * mx;
      // keys: larger is kept first
      std::vector<size_t> o(n);
      for (size_t i = 0; i < n; ++i) o[i] = i;
      auto key = [&](size_t i) { return spd > 0 ? ev[i] : spd < 0 ? -ev[i] : std::fabs(ev[i]); };
      std::sort(o.begin(), o.end(), [&](size_t a, size_t b) { return key(a) > key(b); });
      bool   amb = false;
      size_t rk  = 0;
      for (size_t i = 0; i < n; ++i) {
        ld k = key(i);
        if (how == 0) {
          if (k > thr && mx > 0) ++rk;
          continue;
        }
        if (std::fabs(k - thr) < noise + .02L * thr) amb = true;
        if (noise > thr) amb = amb || (std::fabs(k) < 2 * noise);
        if (k > thr) ++rk;
      }
      c.expect((size_t)s.rank() <= n, "rank-range");
      if (!amb) {
        c.expect((size_t)s.rank() == rk, "symmetric-rank", fmt("%zu expected %zu of %zu", (size_t)s.rank(), rk, n));
        c.expect(s.full_rank() == (rk == n), "full-rank-flag");
        c.ev("judged-symmetric-rank");
        if (spd && rk < n) c.ev("definite-truncated");
      } else
        c.ev("symmetric-rank-ambiguous");
      std::vector<size_t> ks = {0, (size_t)r.in(1, n), n};
      if (r.chance(.3)) ks.push_back(n + (size_t)r.in(1, 4));
      for (size_t k : ks) {
        const size_t kk = k == 0 ? (size_t)s.rank() : std::min(k, n);
        if (k == 0 && amb) continue;
        Dense P(n, n), G(n, n);
        ld    gap = mx, wmin = mx;
        for (size_t a = 0; a < kk; ++a) wmin = std::min(wmin, std::fabs(ev[o[a]]));
        bool tie = false;
        for (size_t a = 0; a < kk; ++a)
          for (size_t b = kk; b < n; ++b) {
            gap = std::min(gap, std::fabs(ev[o[a]] - ev[o[b]]));
            if (std::fabs(key(o[a]) - key(o[b])) < 1e-6L * mx + 50 * noise) tie = true;
          }
        if (tie) {
          c.ev("symmetric-tie");
          continue;
        }
        for (size_t a = 0; a < kk; ++a)
          for (size_t i = 0; i < n; ++i)
            for (size_t j = 0; j < n; ++j) {
              cld q = Q(i, o[a]) * std::conj(Q(j, o[a]));
              P(i, j) += q * ev[o[a]];
              if (ev[o[a]] != 0) G(i, j) += q / ev[o[a]];
            }
        const ld e = 20 * noise;
        Dense    M = op(s, n, 1, k, false);
        if (mx > 0) c.near((double)((M - P).fro() / mx), (double)(e * (1 / mx + (kk < n ? 1 / gap : 0)) * std::sqrt((ld)n)), "symmetric-product", fmt("rank %zu", k));
        else
          c.expect(M.fro() == 0, "symmetric-product-of-zero");
        c.ev("judged-symmetric-product");
        if (kk == 0) {
          Dense S0 = op(s, n, 0, k, false);
          c.expect(S0.fro() == 0, "symmetric-solve-rank-zero");
          continue;
        }
        if (!(wmin > 1e4 * noise)) continue;
        Dense S = op(s, n, 0, k, false);
        ld    tol = e * (1 / wmin + (kk < n ? 1 / gap : 0));
        c.near((double)((S - G).fro() * wmin), (double)(tol * std::sqrt((ld)n)), "symmetric-solve", fmt("rank %zu wmin %Lg gap %Lg", k, wmin / mx, gap / mx));
        c.ev("judged-symmetric-solve");
        if (kk < n) c.ev("judged-symmetric-truncated");
        blocks(c, r, s, n, k, S, M, (double)(mx / wmin), true);
        otherprec(c, r, s, n, k, false, S, M, (double)(mx / wmin));
      }
      if (again || !r.chance(.4)) break;
      c.expect(backup_same(s, A), "backup-changed");
      spd = (int)r.pick({0, 1, -1});
      c.desc += fmt(" then spd=%d", spd);
      s.refactorize(opts(r, 0, spd));
      c.ev("refactorized");
    }
    c.nontrivial(hash_dense(A) ^ (uint64_t)(spd + 10));
  }
  c.ev("syeig");
}
static void run(Ctx &c, Rng &r, long) {
  int w = (int)r.in(0, 9);
  w < 5 ? run_qrcp(c, r) : w < 8 ? run_syeig(c, r) : run_lup(c, r);
  if (c.samples.size() < 3) c.sample(c.desc);
}
int main(int argc, char **argv) { return harness_main(argc, argv, 0x17, run); }
