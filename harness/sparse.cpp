// sparse: every operation of the compressed storages against the dense
// definition of the operation (C16), and the several-vector forms (C09).
#include "hifx.hpp"
#ifndef VT
#  define VT double
#endif
using namespace vf;
typedef VT          T;
typedef Tr<T>::real R;
template <class X> struct Other;
template <> struct Other<double> { typedef float type; };
template <> struct Other<float> { typedef double type; };
template <class X> struct Other<std::complex<X>> { typedef std::complex<typename Other<X>::type> type; };
typedef Other<T>::type OT;
static const double EPS = epsof<T>();

static Csr<T> gen_rect(Rng &r, int m, int n) {
  Coo<T> c(m, n);
  int    style = (int)r.in(0, 3);
  double d     = r.pick({0.0, .05, .2, .5, 1.0});
  for (int i = 0; i < m; ++i) {
    if (r.chance(.2)) continue;  // empty row
    for (int j = 0; j < n; ++j)
      if (r.chance(d)) c.set(i, j, r.chance(.03) ? 0 : rval(r, style), Tr<T>::cplx ? rval(r, style) : 0);
  }
  Csr<T> a = c.csr();
  a.kind   = "rect";
  return a;
}
static Csr<T> sub(const Csr<T> &a, int c0, int c1) {  // columns [c0,c1)
  Csr<T> b;
  b.m = a.m, b.n = c1 - c0;
  b.ptr.assign(1, 0);
  for (int i = 0; i < a.m; ++i) {
    for (ptrdiff_t k = a.ptr[i]; k < a.ptr[i + 1]; ++k)
      if (a.ind[k] >= c0 && a.ind[k] < c1) b.ind.push_back(a.ind[k] - c0), b.val.push_back(a.val[k]);
    b.ptr.push_back((ptrdiff_t)b.ind.size());
  }
  return b;
}
// exact comparison of a library matrix with the expected rows
template <class Cs>
static void same(Ctx &c, const Cs &A, const Csr<T> &e0, const std::string &sig, bool vals = true, int base = 0) {
  Csr<T> e = Cs::ROW_MAJOR ? e0 : e0.transpose();
  bool   ok = (int)A.nrows() == e0.m && (int)A.ncols() == e0.n;
  if (!c.expect(ok, sig + ":shape", fmt("%zux%zu expected %dx%d", A.nrows(), A.ncols(), e0.m, e0.n))) return;
  if (A.ind_start().size() < (size_t)e.m + 1) {
    c.expect(e.nnz() == 0 && A.nnz() == 0, sig + ":offsets");
    return;
  }
  for (int i = 0; ok && i <= e.m; ++i) ok = (ptrdiff_t)A.ind_start()[i] == e.ptr[i] + base;
  if (!c.expect(ok, sig + ":offsets", "")) return;
  ok = (ptrdiff_t)A.inds().size() >= e.nnz() && (!vals || (ptrdiff_t)A.vals().size() >= e.nnz()) && (ptrdiff_t)A.nnz() == e.nnz();
  if (!c.expect(ok, sig + ":lengths", "")) return;
  for (ptrdiff_t k = 0; ok && k < e.nnz(); ++k) ok = (int)A.inds()[k] == e.ind[k] + base;
  if (!c.expect(ok, sig + ":indices", "")) return;
  if (vals)
    for (ptrdiff_t k = 0; ok && k < e.nnz(); ++k) ok = A.vals()[k] == e.val[k];
  c.expect(ok, sig + ":values", "");
  c.ev(sig);
}
template <class V>
static V rv(Rng &r) {
  return Tr<V>::mk(r.uni(-2, 2), r.uni(-2, 2));
}
template <class V>
static hif::Array<V> rvec(Rng &r, size_t n) {
  hif::Array<V> a(n);
  for (size_t i = 0; i < n; ++i) a[i] = rv<V>(r);
  return a;
}
// y vs op(A) x, with the accuracy of the working type
template <class Y>
static void vecnear(Ctx &c, const Y &y, const Dense &A, const cvec &x, double eps, const std::string &sig) {
  cvec e = mv(A, x);
  if (!c.expect(y.size() == e.size(), sig + ":size")) return;
  double worst = 0;
  for (size_t i = 0; i < e.size(); ++i) {
    ld s = 0;
    for (size_t j = 0; j < x.size(); ++j) s += std::abs(A(i, j)) * std::abs(x[j]);
    ld d = std::abs(up(y[i]) - e[i]);
    double q = s > 0 ? (double)(d / (s * eps * (8 + 2 * (ld)A.n))) : d > 0 ? 1e9 : 0;
    if (!(q <= worst)) worst = q;
  }
  c.near(worst, 1, sig);
  c.ev(sig);
}
template <class X, class Y>
static double eps2() {
  return std::max(EPS, std::max(epsof<X>(), epsof<Y>()));
}
template <class Cs, size_t N, class X, class Y>
static void mrhs(Ctx &c, Rng &r, const Cs &A, const Dense &D, const char *nm) {
  const size_t                 m = D.m, n = D.n;
  hif::Array<std::array<X, N>> x(n), xt(m);
  hif::Array<std::array<Y, N>> y(m), yt(n), z(m);
  for (size_t i = 0; i < n; ++i)
    for (size_t k = 0; k < N; ++k) x[i][k] = rv<X>(r), yt[i][k] = Y(7);
  for (size_t i = 0; i < m; ++i)
    for (size_t k = 0; k < N; ++k) xt[i][k] = rv<X>(r), y[i][k] = z[i][k] = Y(7);
  r.chance(.5) ? A.multiply_mrhs_nt(x, y) : A.multiply_mrhs(x, y, false);
  r.chance(.5) ? A.multiply_mrhs_t(xt, yt) : A.multiply_mrhs(xt, yt, true);
  hif::mt::get_nthreads((int)r.in(1, 4));
  hif::mt::multiply_mrhs_nt(A, x, z);
  hif::mt::get_nthreads(1);
  Dense DH = D.H();
  for (size_t k = 0; k < N; ++k) {
    cvec a(n), b(m), ya(m), yb(n), za(m);
    for (size_t i = 0; i < n; ++i) a[i] = up(x[i][k]), yb[i] = up(yt[i][k]);
    for (size_t i = 0; i < m; ++i) b[i] = up(xt[i][k]), ya[i] = up(y[i][k]), za[i] = up(z[i][k]);
    struct W {
      const cvec &v;
      size_t      size() const { return v.size(); }
      std::complex<double> operator[](size_t i) const { return std::complex<double>((double)v[i].real(), (double)v[i].imag()); }
    };
    vecnear(c, W{ya}, D, a, eps2<X, Y>(), std::string("multiply_mrhs_nt:") + nm);
    vecnear(c, W{yb}, DH, b, eps2<X, Y>(), std::string("multiply_mrhs_t:") + nm);
    vecnear(c, W{za}, D, a, eps2<X, Y>(), std::string("mt-multiply_mrhs_nt:") + nm);
  }
}
template <class Cs, class X, class Y>
static void prods(Ctx &c, Rng &r, const Cs &A, const Dense &D, const char *nm) {
  hif::Array<X> x = rvec<X>(r, D.n), xt = rvec<X>(r, D.m);
  hif::Array<Y> y = rvec<Y>(r, D.m), yt = rvec<Y>(r, D.n);
  const double  e = eps2<X, Y>();
  std::string   s(nm);
  r.chance(.5) ? A.multiply_nt(x, y) : A.multiply(x, y);
  vecnear(c, y, D, upa(x), e, "multiply_nt:" + s);
  r.chance(.5) ? A.multiply_t(xt, yt) : A.multiply(xt, yt, true);
  vecnear(c, yt, D.H(), upa(xt), e, "multiply_t:" + s);
  y = rvec<Y>(r, D.m);
  A.multiply_nt_low(x.data(), y.data());
  vecnear(c, y, D, upa(x), e, "multiply_nt_low:" + s);
  A.multiply_t_low(xt.data(), yt.data());
  vecnear(c, yt, D.H(), upa(xt), e, "multiply_t_low:" + s);
  hif::mt::get_nthreads((int)r.in(1, 5));
  y = rvec<Y>(r, D.m);
  hif::mt::multiply_nt(A, x, y);
  vecnear(c, y, D, upa(x), e, "mt-multiply_nt:" + s);
  y = rvec<Y>(r, D.m);
  hif::mt::multiply_nt_low(A, x.data(), y.data());
  vecnear(c, y, D, upa(x), e, "mt-multiply_nt_low:" + s);
  hif::mt::get_nthreads(1);
  hif::multiply(A, x, y, false);
  vecnear(c, y, D, upa(x), e, "free-multiply:" + s);
  hif::multiply(A, xt, yt, true);
  vecnear(c, yt, D.H(), upa(xt), e, "free-multiply-t:" + s);
}
template <class Cs>
static void all_mrhs(Ctx &c, Rng &r, const Cs &A, const Dense &D) {
  const char *nm = Cs::ROW_MAJOR ? "rows" : "columns";
  switch (r.in(0, 8)) {
    case 0: mrhs<Cs, 1, T, T>(c, r, A, D, nm); break;
    case 1: mrhs<Cs, 2, T, T>(c, r, A, D, nm); break;
    case 2: mrhs<Cs, 3, T, T>(c, r, A, D, nm); break;
    case 3: mrhs<Cs, 5, T, T>(c, r, A, D, nm); break;
    case 4: mrhs<Cs, 8, T, T>(c, r, A, D, nm); break;
    case 5: mrhs<Cs, 3, OT, OT>(c, r, A, D, nm); break;
    case 6: mrhs<Cs, 2, T, OT>(c, r, A, D, nm); break;
    case 7: mrhs<Cs, 4, OT, T>(c, r, A, D, nm); break;
    case 8: mrhs<Cs, 4, T, T>(c, r, A, D, nm); break;
  }
}
// strict triangular solves: (I + A) z = y, in place
template <class Cs, class Y>
static void tri_one(Ctx &c, Rng &r, const Cs &A, const Dense &D, bool lower, double growth, const char *nm) {
  const size_t n = D.n;
  for (int tr = 0; tr < 2; ++tr) {
    hif::Array<Y> y = rvec<Y>(r, n);
    cvec          b = upa(y);
    if (lower)
      tr ? A.solve_as_strict_lower_tran(y) : A.solve_as_strict_lower(y);
    else
      tr ? A.solve_as_strict_upper_tran(y) : A.solve_as_strict_upper(y);
    Dense M = Dense::eye(n) + D;
    if (tr) M = M.H();
    std::string sig = fmt("strict_%s%s:%s", lower ? "lower" : "upper", tr ? "_tran" : "", nm);
    c.near((double)nrminf(mv(M, upa(y)) - b), std::max(EPS, epsof<Y>()) * 50 * (n + 4) * growth, sig);
    c.ev(sig);
  }
}
template <class Cs, class Y, size_t N>
static void tri_mrhs(Ctx &c, Rng &r, const Cs &A, const Dense &D, bool lower, double growth, const char *nm) {
  const size_t n = D.n;
  for (int tr = 0; tr < 2; ++tr) {
    hif::Array<std::array<Y, N>> y(n);
    std::vector<cvec>            b(N, cvec(n));
    for (size_t i = 0; i < n; ++i)
      for (size_t k = 0; k < N; ++k) y[i][k] = rv<Y>(r), b[k][i] = up(y[i][k]);
    if (lower)
      tr ? A.solve_as_strict_lower_mrhs_tran(y) : A.solve_as_strict_lower_mrhs(y);
    else
      tr ? A.solve_as_strict_upper_mrhs_tran(y) : A.solve_as_strict_upper_mrhs(y);
    Dense M = Dense::eye(n) + D;
    if (tr) M = M.H();
    std::string sig = fmt("strict_%s_mrhs%s:%s", lower ? "lower" : "upper", tr ? "_tran" : "", nm);
    for (size_t k = 0; k < N; ++k) {
      cvec x(n);
      for (size_t i = 0; i < n; ++i) x[i] = up(y[i][k]);
      c.near((double)nrminf(mv(M, x) - b[k]), std::max(EPS, epsof<Y>()) * 50 * (n + 4) * growth, sig, fmt("width=%zu", N));
    }
    c.ev(sig);
  }
}
static void tri(Ctx &c, Rng &r) {
  const int  n     = (int)r.in(1, c.thorough ? 60 : 24);
  const bool lower = r.chance(.5);
  Coo<T>     q(n);
  double     d = r.pick({.1, .3, .8});
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j)
      if ((lower ? j < i : j > i) && r.chance(d)) q.set(i, j, rval(r, 0) * .5, Tr<T>::cplx ? rval(r, 0) * .5 : 0);
  Csr<T> a = q.csr();
  Dense  D = a.dense(), M = Dense::eye(n) + D, X;
  invert(M, X);
  const double g = (double)(X.fro() * M.fro());
  c.desc         = fmt("strict %s n=%d nnz=%ld growth=%g", lower ? "lower" : "upper", n, (long)a.nnz(), g);
  if (!(g * EPS < 1e-3)) return;
  auto A = mk_crs(a);
  auto B = mk_ccs(a);
  tri_one<decltype(A), T>(c, r, A, D, lower, g, "rows");
  tri_one<decltype(B), T>(c, r, B, D, lower, g, "columns");
  tri_one<decltype(A), OT>(c, r, A, D, lower, g, "rows");
  tri_one<decltype(B), OT>(c, r, B, D, lower, g, "columns");
  switch (r.in(0, 4)) {
    case 0: tri_mrhs<decltype(A), T, 1>(c, r, A, D, lower, g, "rows"); tri_mrhs<decltype(B), T, 1>(c, r, B, D, lower, g, "columns"); break;
    case 1: tri_mrhs<decltype(A), T, 2>(c, r, A, D, lower, g, "rows"); tri_mrhs<decltype(B), T, 2>(c, r, B, D, lower, g, "columns"); break;
    case 2: tri_mrhs<decltype(A), T, 3>(c, r, A, D, lower, g, "rows"); tri_mrhs<decltype(B), T, 3>(c, r, B, D, lower, g, "columns"); break;
    case 3: tri_mrhs<decltype(A), T, 7>(c, r, A, D, lower, g, "rows"); tri_mrhs<decltype(B), T, 7>(c, r, B, D, lower, g, "columns"); break;
    case 4: tri_mrhs<decltype(A), OT, 4>(c, r, A, D, lower, g, "rows"); tri_mrhs<decltype(B), OT, 4>(c, r, B, D, lower, g, "columns"); break;
  }
  c.nontrivial(a.hash());
}
template <bool S, class A>
static A split1(const A &a, size_t m, int form, const hif::Array<std::ptrdiff_t> &st) {
  if (form == 0) return a.template split<S>(m);
  if (form == 1) return a.template split<S>(m, st);
  auto p = form == 2 ? a.split(m) : a.split(m, st);
  return S ? p.second : p.first;
}
template <class Cs>
static Csr<T> to_csr(const Cs &A) {
  Csr<T> a;
  a.m = (int)A.primary_size();
  a.n = Cs::ROW_MAJOR ? (int)A.ncols() : (int)A.nrows();
  a.ptr.assign(A.ind_start().cbegin(), A.ind_start().cend());
  a.ind.assign(A.inds().cbegin(), A.inds().cbegin() + a.nnz());
  a.val.assign(A.vals().cbegin(), A.vals().cbegin() + a.nnz());
  return Cs::ROW_MAJOR ? a : a.transpose();
}
static bool bad(const std::function<void()> &f) {
  try {
    f();
  } catch (const std::exception &) {
    return true;
  }
  return false;
}
static void structural(Ctx &c, Rng &r, const Csr<T> &a) {
  const int m = a.m, n = a.n;
  auto      A = mk_crs(a);
  auto      B = mk_ccs(a);
  typedef decltype(A) CR;
  typedef decltype(B) CC;
  // conversions and copies
  same(c, CC(A), a, "rows-to-columns");
  same(c, CR(B), a, "columns-to-rows");
  same(c, CR(CC(A)), a, "round-trip");
  {
    CR s(A), d(A, true);
    same(c, d, a, "clone");
    if (a.nnz()) {
      c.expect(s.vals().data() == A.vals().data(), "copy-is-shallow");
      c.expect(d.vals().data() != A.vals().data(), "clone-is-deep");
      T old      = A.vals()[0];
      d.vals()[0] = T(99);
      c.expect(A.vals()[0] == old, "clone-is-independent");
    }
    CC s2(B, true);
    same(c, s2, a, "clone-columns");
    s2.destroy();
    c.expect(s2.nrows() == 0 && s2.ncols() == 0 && s2.nnz() == 0, "destroy");
    same(c, B, a, "destroy-leaves-original");
  }
  // dense
  {
    auto Dm = hif::DenseMatrix<T>::from_sparse(A);
    auto Dn = hif::DenseMatrix<T>::from_sparse(B);
    Dense D = a.dense();
    bool ok = (int)Dm.nrows() == m && (int)Dm.ncols() == n && (int)Dn.nrows() == m && (int)Dn.ncols() == n;
    for (int i = 0; ok && i < m; ++i)
      for (int j = 0; ok && j < n; ++j) ok = up(Dm(i, j)) == D(i, j) && up(Dn(i, j)) == D(i, j);
    c.expect(ok, "to-dense");
    c.ev("to-dense");
  }
  // assembly
  {
    CR C(m, n);
    CC E(m, n);
    Csr<T> at = a.transpose();
    C.begin_assemble_rows();
    std::vector<T> v(std::max(m, n) + 1, T(0));
    for (int i = 0; i < m; ++i) {
      for (auto k = a.ptr[i]; k < a.ptr[i + 1]; ++k) v[a.ind[k]] = a.val[k];
      auto b = a.ind.begin() + a.ptr[i], e = a.ind.begin() + a.ptr[i + 1];
      if (b == e && r.chance(.5))
        C.push_back_empty_row(i);
      else if (r.chance(.5)) {
        auto mid = b + r.in(0, e - b);
        C.push_back_row(i, b, mid, v, mid, e, v);
      } else
        C.push_back_row(i, b, e, v);
    }
    C.end_assemble_rows();
    same(c, C, a, "assemble-rows");
    E.begin_assemble_cols();
    for (int i = 0; i < n; ++i) {
      for (auto k = at.ptr[i]; k < at.ptr[i + 1]; ++k) v[at.ind[k]] = at.val[k];
      auto b = at.ind.begin() + at.ptr[i], e = at.ind.begin() + at.ptr[i + 1];
      if (b == e && r.chance(.5))
        E.push_back_empty_col(i);
      else if (r.chance(.5)) {
        auto mid = b + r.in(0, e - b);
        E.push_back_col(i, b, mid, v, mid, e, v);
      } else
        E.push_back_col(i, b, e, v);
    }
    E.end_assemble_cols();
    same(c, E, a, "assemble-columns");
  }
  // coordinate lists, unordered
  {
    std::vector<int> o;
    for (ptrdiff_t k = 0; k < a.nnz(); ++k) o.push_back((int)k);
    r.shuffle(o);
    std::vector<int> row(a.nnz());
    for (int i = 0; i < m; ++i)
      for (auto k = a.ptr[i]; k < a.ptr[i + 1]; ++k) row[k] = i;
    hif::Array<int> ri(o.size()), ci(o.size());
    hif::Array<T>   vv(o.size());
    for (size_t k = 0; k < o.size(); ++k) ri[k] = row[o[k]], ci[k] = a.ind[o[k]], vv[k] = a.val[o[k]];
    CR C;
    CC E;
    C.resize(m, n);
    E.resize(m, n);
    hif::convert_coo2cs(m, n, ri, ci, vv, C.row_start(), C.col_ind(), C.vals());
    hif::convert_coo2cs(n, m, ci, ri, vv, E.col_start(), E.row_ind(), E.vals());
    same(c, C, a, "coordinates-to-rows");
    same(c, E, a, "coordinates-to-columns");
  }
  // exporting
  if (m && n) {
    std::vector<std::ptrdiff_t> ip(m + 1), jp(n + 1);
    std::vector<int>            ii(a.nnz()), jj(a.nnz());
    std::vector<T>              v1(a.nnz()), v2(a.nnz());
    const bool                  fromcols = r.chance(.5);
    if (a.nnz()) {
      fromcols ? hif::export_compressed_data<CR>(B, ip.data(), ii.data(), v1.data()) : hif::export_compressed_data<CR>(A, ip.data(), ii.data(), v1.data());
      fromcols ? hif::export_compressed_data<CC>(A, jp.data(), jj.data(), v2.data()) : hif::export_compressed_data<CC>(B, jp.data(), jj.data(), v2.data());
      same(c, CR(m, n, ip.data(), ii.data(), v1.data(), true), a, "export-rows");
      same(c, CC(m, n, jp.data(), jj.data(), v2.data(), true), a, "export-columns");
    }
    // wrapping
    if (a.nnz()) {
      same(c, hif::wrap_const_crs(m, n, ip.data(), ii.data(), v1.data()), a, "wrap-rows");
      same(c, hif::wrap_const_ccs(m, n, jp.data(), jj.data(), v2.data()), a, "wrap-columns");
    }
  }
  // splitting
  for (int q = 0; q < 2; ++q) {
    const size_t sc = (size_t)r.in(0, n), sr = (size_t)r.in(0, m);
    hif::Array<std::ptrdiff_t> st(m), st2(n);
    Csr<T> at = a.transpose();
    for (int i = 0; i < m; ++i) {
      st[i] = a.ptr[i];
      while (st[i] < a.ptr[i + 1] && a.ind[st[i]] < (int)sc) ++st[i];
    }
    for (int i = 0; i < n; ++i) {
      st2[i] = at.ptr[i];
      while (st2[i] < at.ptr[i + 1] && at.ind[st2[i]] < (int)sr) ++st2[i];
    }
    int f = (int)r.in(0, 3);
    same(c, split1<false>(A, sc, f, st), sub(a, 0, (int)sc), "split-first-rows");
    same(c, split1<true>(A, sc, f, st), sub(a, (int)sc, n), "split-second-rows");
    same(c, split1<false>(B, sr, f, st2), sub(at, 0, (int)sr).transpose(), "split-first-columns");
    same(c, split1<true>(B, sr, f, st2), sub(at, (int)sr, m).transpose(), "split-second-columns");
    if (r.chance(.5)) {
      same(c, A.template split_ccs<false>(sc), sub(a, 0, (int)sc), "split-dual-first-rows");
      same(c, A.template split_ccs<true>(sc), sub(a, (int)sc, n), "split-dual-second-rows");
      same(c, B.template split_crs<false>(sr), sub(at, 0, (int)sr).transpose(), "split-dual-first-columns");
      same(c, B.template split_crs<true>(sr), sub(at, (int)sr, m).transpose(), "split-dual-second-columns");
    } else {
      same(c, A.template split_ccs<false>(sc, st), sub(a, 0, (int)sc), "split-dual-start-first-rows");
      same(c, A.template split_ccs<true>(sc, st), sub(a, (int)sc, n), "split-dual-start-second-rows");
      same(c, B.template split_crs<false>(sr, st2), sub(at, 0, (int)sr).transpose(), "split-dual-start-first-columns");
      same(c, B.template split_crs<true>(sr, st2), sub(at, (int)sr, m).transpose(), "split-dual-start-second-columns");
    }
  }
  c.expect(bad([&] { A.template split<false>(n + 1); }), "split-range");
  // permuting and extracting
  {
    std::vector<int> p = r.perm(m), q = r.perm(n), pi(m), qi(n);
    for (int i = 0; i < m; ++i) pi[p[i]] = i;
    for (int i = 0; i < n; ++i) qi[q[i]] = i;
    Coo<T> e(m, n);
    for (int i = 0; i < m; ++i)
      for (auto k = a.ptr[i]; k < a.ptr[i + 1]; ++k) e.set(pi[i], qi[a.ind[k]], (double)up(a.val[k]).real(), (double)up(a.val[k]).imag());
    Csr<T>    full = e.csr();
    const int mn   = std::min(m, n);
    for (int lead : {0, mn ? (int)r.in(1, mn) : 0, mn}) {
      Csr<T> ex = full;
      bool   all = lead == 0 || (lead == m && lead == n);
      if (!all) {
        Coo<T> l(lead, lead);
        for (int i = 0; i < lead; ++i)
          for (auto k = full.ptr[i]; k < full.ptr[i + 1]; ++k)
            if (full.ind[k] < lead) l.set(i, full.ind[k], (double)up(full.val[k]).real(), (double)up(full.val[k]).imag());
        ex = l.csr();
      }
      bool so = r.chance(.3);
      auto P = A.compute_perm(arr(p), arr(qi), lead, so);
      auto Q = B.compute_perm(arr(pi), arr(q), lead, so);
      same(c, P, ex, "permute-rows", !so);
      same(c, Q, ex, "permute-columns", !so);
    }
  }
  {
    const int mn = std::min(m, n);
    for (int lead : {0, (int)r.in(0, mn), mn}) {
      Coo<T> l(lead, lead);
      for (int i = 0; i < lead; ++i)
        for (auto k = a.ptr[i]; k < a.ptr[i + 1]; ++k)
          if (a.ind[k] < lead) l.set(i, a.ind[k], (double)up(a.val[k]).real(), (double)up(a.val[k]).imag());
      same(c, A.extract_leading(lead), l.csr(), "leading-rows");
      same(c, B.extract_leading(lead), l.csr(), "leading-columns");
    }
  }
  // scaling
  {
    hif::Array<R> s(m), t(n);
    for (int i = 0; i < m; ++i) s[i] = (R)std::ldexp(1.0, (int)r.in(-4, 4));
    for (int i = 0; i < n; ++i) t[i] = (R)std::ldexp(r.chance(.5) ? 1 : -1, (int)r.in(-4, 4));
    Csr<T> l = a, rr = a, lr = a;
    for (int i = 0; i < m; ++i)
      for (auto k = a.ptr[i]; k < a.ptr[i + 1]; ++k) {
        l.val[k] *= s[i];
        rr.val[k] *= t[a.ind[k]];
        lr.val[k] = l.val[k] * t[a.ind[k]];
      }
    CR x(A, true);
    CC y(B, true);
    x.scale_diag_left(s);
    y.scale_diag_left(s);
    same(c, x, l, "scale-left-rows");
    same(c, y, l, "scale-left-columns");
    x = CR(A, true), y = CC(B, true);
    x.scale_diag_right(t);
    y.scale_diag_right(t);
    same(c, x, rr, "scale-right-rows");
    same(c, y, rr, "scale-right-columns");
    x = CR(A, true), y = CC(B, true);
    x.scale_diags(s, t);
    y.scale_diags(s, t);
    same(c, x, lr, "scale-both-rows");
    same(c, y, lr, "scale-both-columns");
    hif::Array<R> sh(m ? m - 1 : 0), th(n ? n - 1 : 0);
    if (m && n) {
      c.expect(bad([&] { CR(A, true).scale_diag_left(sh); }) && bad([&] { CC(B, true).scale_diag_left(sh); }), "scale-left-size");
      c.expect(bad([&] { CR(A, true).scale_diag_right(th); }) && bad([&] { CC(B, true).scale_diag_right(th); }), "scale-right-size");
    }
  }
  // pruning
  {
    const double eps = r.pick({0.0, -1.0, .1, .5, .9, 1.0});
    R            e   = (R)(eps < 0 ? 0 : eps);
    std::vector<R> rm(m, 0), cm(n, 0);
    auto           A1 = mk_crs(a);
    for (int i = 0; i < m; ++i)
      for (auto k = a.ptr[i]; k < a.ptr[i + 1]; ++k) {
        R v       = std::abs(a.val[k]);
        rm[i]     = std::max(rm[i], v);
        cm[a.ind[k]] = std::max(cm[a.ind[k]], v);
      }
    Csr<T> ex = a;
    ex.ptr.assign(1, 0);
    ex.ind.clear();
    ex.val.clear();
    bool amb = false;
    for (int i = 0; i < m; ++i) {
      for (auto k = a.ptr[i]; k < a.ptr[i + 1]; ++k) {
        R v = std::abs(a.val[k]), th = std::min(e * rm[i], e * cm[a.ind[k]]);
        if (e != 0 && e != 1 && std::abs((double)(v - th)) < 1e-5 * (double)th) amb = true;
        if (!(v <= th)) ex.ind.push_back(a.ind[k]), ex.val.push_back(a.val[k]);
      }
      ex.ptr.push_back((ptrdiff_t)ex.ind.size());
    }
    if (!amb) {
      const bool sh = r.chance(.5);
      const int  bs = r.chance(.3) && a.nnz();
      CR         x  = mk_crs(a, bs);
      CC         y  = mk_ccs(a, bs);
      size_t     k1 = x.prune((R)eps, sh), k2 = y.prune((R)eps, sh);
      same(c, x, ex, bs ? "prune-rows-one-based" : "prune-rows", true, bs);
      same(c, y, ex, bs ? "prune-columns-one-based" : "prune-columns", true, bs);
      c.expect(k1 == (size_t)(a.nnz() - ex.nnz()) && k2 == k1, "prune-count", fmt("%zu %zu expected %ld", k1, k2, (long)(a.nnz() - ex.nnz())));
    }
  }
  if (m && n && a.nnz()) {  // binary files and size errors
    hif::Array<T> xs(n + 1), ys(m);
    c.expect(bad([&] { A.multiply_nt(xs, ys); }) && bad([&] { B.multiply_nt(xs, ys); }) && bad([&] { A.multiply_t(ys, xs); }) && bad([&] { B.multiply_t(ys, xs); }), "product-size");
  }
}
static void range_products(Ctx &c, Rng &r, const hif::CRS<T, int> &A, const Dense &D) {
  if (!D.m || !D.n) return;
  const size_t  i0 = (size_t)r.in(0, D.m - 1), len = (size_t)r.in(0, D.m - i0);
  hif::Array<T> x = rvec<T>(r, D.n), y(D.m);
  for (size_t i = 0; i < D.m; ++i) y[i] = T(5);
  A.multiply_nt(x, i0, len, y);
  hif::Array<std::array<T, 3>> X(D.n), Y(D.m);
  for (size_t i = 0; i < D.n; ++i)
    for (int k = 0; k < 3; ++k) X[i][k] = x[i] * T(k + 1);
  for (size_t i = 0; i < D.m; ++i) Y[i].fill(T(5));
  A.multiply_mrhs_nt(X, i0, len, Y);
  cvec e = mv(D, upa(x));
  bool out = true;
  double w = 0;
  for (size_t i = 0; i < D.m; ++i) {
    if (i < i0 || i >= i0 + len) {
      out = out && y[i] == T(5) && Y[i][0] == T(5) && Y[i][2] == T(5);
      continue;
    }
    ld s = 1e-300L;
    for (size_t j = 0; j < D.n; ++j) s += std::abs(D(i, j)) * std::abs(up(x[j]));
    w = std::max(w, (double)(std::abs(up(y[i]) - e[i]) / s));
    for (int k = 0; k < 3; ++k) w = std::max(w, (double)(std::abs(up(Y[i][k]) - (ld)(k + 1) * e[i]) / (s * (k + 1))));
  }
  c.expect(out, "partial-product-outside-range");
  c.near(w, EPS * (8 + 2 * D.n), "partial-product");
  c.expect(bad([&] { A.multiply_nt(x, D.m, 1, y); }) && bad([&] { A.multiply_nt(x, i0, D.m - i0 + 1, y); }), "partial-product-range-check");
  c.ev("partial-product");
}
static void run(Ctx &c, Rng &r, long) {
  if (r.chance(.25)) return tri(c, r);
  int    mx = c.thorough ? 50 : 22;
  int    m = r.chance(.06) ? 0 : (int)r.in(1, mx), n = r.chance(.06) ? 0 : (int)r.in(1, mx);
  if (r.chance(.3)) n = m;
  if (r.chance(.03)) m = 1000 + (int)r.in(0, 50), n = (int)r.in(1, 6);  // many rows: the threaded products
  Csr<T> a = gen_rect(r, m, n);
  c.desc   = mdesc(a);
  Dense D  = a.dense();
  auto  A  = mk_crs(a);
  auto  B  = mk_ccs(a);
  c.nontrivial(a.hash());
  if (m == 0 || n == 0) c.ev("empty-shape");
  if (a.nnz() == 0) c.ev("no-entries");
  if (m != n) c.ev("rectangular");
  all_mrhs(c, r, A, D);
  all_mrhs(c, r, B, D);
  if (c.prop == "C09") return;
  prods<decltype(A), T, T>(c, r, A, D, "rows");
  prods<decltype(B), T, T>(c, r, B, D, "columns");
  int w = (int)r.in(0, 2);
  if (w == 0) {
    prods<decltype(A), OT, OT>(c, r, A, D, "rows");
    prods<decltype(B), OT, OT>(c, r, B, D, "columns");
  } else if (w == 1) {
    prods<decltype(A), T, OT>(c, r, A, D, "rows");
    prods<decltype(B), T, OT>(c, r, B, D, "columns");
  } else {
    prods<decltype(A), OT, T>(c, r, A, D, "rows");
    prods<decltype(B), OT, T>(c, r, B, D, "columns");
  }
  range_products(c, r, A, D);
  structural(c, r, a);
  if (c.samples.size() < 3) c.sample(c.desc);
}
int main(int argc, char **argv) { return harness_main(argc, argv, 3, run); }
