// pre: matching, equilibration, pre-scaling and reordering judged against
// their definitions (C18).
#include "hifx.hpp"
#ifndef VT
#  define VT double
#endif
using namespace vf;
typedef VT                  T;
typedef Tr<T>::real         R;
typedef hif::CRS<T, int>    Crs;
typedef hif::CCS<T, int>    Ccs;
typedef hif::BiPermMatrix<int> Perm;
static const double         EPS = epsof<T>();

// smallest total cost of a perfect matching; INFINITY if there is none
static ld hungarian(const std::vector<std::vector<ld>> &a) {
  const int        n = (int)a.size();
  const ld         INF = 1e18L, BIG = 1e12L;
  std::vector<ld>  u(n + 1), v(n + 1);
  std::vector<int> p(n + 1), way(n + 1);
  for (int i = 1; i <= n; ++i) {
    p[0]   = i;
    int j0 = 0;
    std::vector<ld>   minv(n + 1, INF);
    std::vector<char> used(n + 1, 0);
    do {
      used[j0] = 1;
      int i0 = p[j0], j1 = 0;
      ld  delta = INF;
      for (int j = 1; j <= n; ++j)
        if (!used[j]) {
          ld cur = (std::isinf(a[i0 - 1][j - 1]) ? BIG : a[i0 - 1][j - 1]) - u[i0] - v[j];
          if (cur < minv[j]) minv[j] = cur, way[j] = j0;
          if (minv[j] < delta) delta = minv[j], j1 = j;
        }
      for (int j = 0; j <= n; ++j)
        if (used[j])
          u[p[j]] += delta, v[j] -= delta;
        else
          minv[j] -= delta;
      j0 = j1;
    } while (p[j0] != 0);
    do {
      int j1 = way[j0];
      p[j0]  = p[j1];
      j0     = j1;
    } while (j0);
  }
  ld s = 0;
  for (int j = 1; j <= n; ++j) {
    ld q = a[p[j] - 1][j - 1];
    if (std::isinf(q)) return std::numeric_limits<ld>::infinity();
    s += q;
  }
  return s;
}
template <class P>
static bool is_perm(const P &p, size_t n) {
  if (p.size() < n) return false;
  std::vector<char> seen(n, 0);
  for (size_t i = 0; i < n; ++i) {
    if ((long)p[i] < 0 || (size_t)p[i] >= n || seen[p[i]]) return false;
    seen[p[i]] = 1;
  }
  return true;
}
static Csr<T> gen_pre(Rng &r, int nmax) {
  int n = (int)r.in(1, nmax);
  if (r.chance(.35)) {
    Csr<T> A = gen_square<T>(r, n, r.chance(.5) ? 1 : 0, -1);
    return A;
  }
  // every sparsity pattern: random, with empty lines, explicit zeros, hidden
  // permutation, wide dynamic range
  Coo<T> c(n, n);
  double d = r.pick({.02, .08, .2, .5, 1.0}), span = r.chance(.5) ? 0 : r.uni(0, sizeof(R) == 4 ? 6 : 40);
  bool   perm = r.chance(.6);
  std::vector<int> p(n);
  for (int i = 0; i < n; ++i) p[i] = i;
  for (int i = n - 1; i > 0; --i) std::swap(p[i], p[r.in(0, i)]);
  std::vector<double> rs(n), cs(n);
  for (int i = 0; i < n; ++i) rs[i] = std::pow(10.0, r.uni(-.5, .5) * span), cs[i] = std::pow(10.0, r.uni(-.5, .5) * span);
  bool integer = r.chance(.2);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) {
      bool on = r.chance(d) || (perm && p[i] == j);
      if (!on) continue;
      if (r.chance(.02)) {
        c.set(i, j, 0, 0);
        continue;
      }
      double v = integer ? (double)r.in(1, 4) * (r.chance(.5) ? 1 : -1) : r.uni(-2, 2) * rs[i] * cs[j];
      c.set(i, j, v, Tr<T>::cplx ? v * r.uni(-1, 1) : 0);
    }
  if (r.chance(.3)) {  // make the pattern symmetric
    Csr<T> a = c.csr();
    for (int i = 0; i < n; ++i)
      for (ptrdiff_t k = a.ptr[i]; k < a.ptr[i + 1]; ++k) {
        cld q = up(a.val[k]);
        c.set(a.ind[k], i, (double)q.real(), -(double)q.imag());
      }
  }
  Csr<T> A = c.csr();
  A.kind   = "pattern";
  return A;
}
template <class Cs>
static std::vector<char> bytes(const Cs &A) {
  std::vector<char> b;
  auto add = [&](const void *q, size_t n) { b.insert(b.end(), (const char *)q, (const char *)q + n); };
  add(A.ind_start().data(), A.ind_start().size() * sizeof(A.ind_start()[0]));
  add(A.inds().data(), A.inds().size() * sizeof(int));
  add(A.vals().data(), A.vals().size() * sizeof(T));
  return b;
}
static void matching(Ctx &c, Rng &r) {
  Csr<T> A0 = gen_pre(r, c.thorough ? 40 : 22);
  const size_t n = A0.n;
  bool symm_pat = true;
  {
    Dense D = A0.dense();
    std::vector<char> st(n * n, 0);
    for (size_t i = 0; i < n; ++i)
      for (ptrdiff_t k = A0.ptr[i]; k < A0.ptr[i + 1]; ++k) st[i * n + A0.ind[k]] = 1;
    for (size_t i = 0; i < n && symm_pat; ++i)
      for (size_t j = 0; j < i; ++j)
        if (st[i * n + j] != st[j * n + i] || std::abs(std::abs(D(i, j)) - std::abs(D(j, i))) > 0) symm_pat = false;
  }
  const bool         symm  = symm_pat && r.chance(.7);
  const size_t       m0    = r.chance(.7) ? n : (size_t)r.in(1, n);
  const size_t       level = r.chance(.6) ? 1 : (size_t)r.in(2, 3);
  hif::Options       o     = hif::get_default_options();
  o.verbose                = hif::VERBOSE_NONE;
  o.reorder                = (int)r.in(0, 3);
  o.pre_scale              = (int)r.pick({0, 0, 1, 2});
  o.beta                   = r.pick({1e3, 1e3, 10.0, -1.0, 1.0, 1e8});
  c.desc = fmt("%s m0=%zu level=%zu symm=%d reorder=%d pre_scale=%d beta=%g", mdesc(A0).c_str(), m0, level, (int)symm, o.reorder, o.pre_scale, o.beta);
  Ccs              A  = mk_ccs(A0);
  Crs              Ar = mk_crs(A0);
  auto             b1 = bytes(A);
  auto             b2 = bytes(Ar);
  hif::Array<R>    s, t;
  Perm             p, q;
  if (r.chance(.3)) {  // reused outputs of another size
    p.resize(r.in(0, 2 * n)), q.resize(r.in(0, 2 * n));
    s.resize(r.in(0, 2 * n)), t.resize(r.in(0, 2 * n));
  }
  const size_t m = symm ? hif::do_preprocessing<true>(A, Ar, m0, level, o, s, t, p, q)
                        : hif::do_preprocessing<false>(A, Ar, m0, level, o, s, t, p, q);
  c.expect(bytes(A) == b1 && bytes(Ar) == b2, "input-changed");
  if (!c.expect(m <= m0, "block-size", fmt("%zu of %zu", m, m0))) return;
  if (!c.expect(is_perm(p(), n) && is_perm(q(), n) && p().size() == n && q().size() == n, "not-a-permutation")) return;
  bool ok = p.inv().size() >= n && q.inv().size() >= n;
  for (size_t i = 0; ok && i < n; ++i) ok = (size_t)p.inv(p[i]) == i && (size_t)q.inv(q[i]) == i;
  c.expect(ok, "inverse-permutation");
  ok = s.size() == n && t.size() == n;
  c.expect(ok, "scaling-size");
  if (!ok) return;
  for (size_t i = 0; ok && i < n; ++i) ok = s[i] > 0 && t[i] > 0 && std::isfinite(s[i]) && std::isfinite(t[i]);
  if (!c.expect(ok, "scaling-not-positive")) return;
  // outside of the requested block nothing is touched
  ok = true;
  for (size_t i = m0; i < n; ++i) ok = ok && (size_t)p[i] == i && (size_t)q[i] == i && s[i] == 1 && t[i] == 1;
  c.expect(ok, "trailing-part-touched");
  if (symm) {
    ok = true;
    for (size_t i = 0; i < n; ++i) ok = ok && p[i] == q[i] && (s[i] == t[i]);
    c.expect(ok, "symmetric-treatment-differs");
    c.ev("symmetric");
  }
  c.ev("judged");
  if (A0.nnz() == 0) c.ev("no-entries");
  // --- the leading block
  Dense D = A0.dense();
  std::vector<std::vector<ld>> cost(m0, std::vector<ld>(m0, std::numeric_limits<ld>::infinity()));
  ld                           lg = 1;
  for (size_t i = 0; i < m0; ++i)
    for (size_t j = 0; j < m0; ++j)
      if (D(i, j) != cld(0, 0)) {
        cost[i][j] = -std::log(std::abs(D(i, j)));
        lg         = std::max(lg, std::fabs(cost[i][j]));
      }
  const ld     best = hungarian(cost);
  const double tol  = 40 * EPS * (double)lg * (m0 + 4);
  const bool   nons = std::isfinite((double)best);
  c.ev(nons ? "structurally-nonsingular" : "structurally-singular");
  if (nons) {
    // scaled entries of the matched block
    ld   mx    = 0;
    bool fixed = false;  // levels > 1 may rebalance badly paired scalings
    if (level > 1 && (o.beta < 0 ? 1e3 : o.beta) > 1) {
      double b = o.beta < 0 ? 1e3 : o.beta;
      for (size_t i = 0; i < m0; ++i) {
        (void)b;
        if (s[p[i]] == t[q[i]]) fixed = true;
      }
    }
    for (size_t i = 0; i < m0; ++i)
      for (size_t j = 0; j < m0; ++j) mx = std::max(mx, std::abs(D(i, j)) * (ld)s[i] * (ld)t[j]);
    if (!fixed || symm) {
      c.near((double)(mx - 1), tol, "scaled-entry-above-one", fmt("largest %Lg", mx));
      c.ev("judged-entries");
    }
    if (!symm) {
      // all pairs (p_i,q_i), deferred ones included, are the matched pairs
      ld sum = 0;
      double worst = 0;
      for (size_t i = 0; i < m0; ++i) {
        ld v = std::abs(D(p[i], q[i]));
        sum += v > 0 ? -std::log(v) : std::numeric_limits<ld>::infinity();
        worst = std::max(worst, (double)std::fabs(v * (ld)s[p[i]] * (ld)t[q[i]] - 1));
        if (!(v > 0)) worst = 1e9;
      }
      c.near(worst, tol, "matched-entry-not-one");
      c.near((double)(sum - best), tol * m0, "product-not-maximal", fmt("%Lg vs %Lg", sum, best));
      c.ev("judged-matching");
    } else if (o.reorder == 0) {
      c.ev("symmetric-no-reorder");
    }
  }
  // --- static deferral: exactly the pairs with a negligible diagonal
  if (!symm || true) {
    size_t good = 0;
    bool   amb = false, lead = true, tail = true;
    for (size_t i = 0; i < m0; ++i) {
      ld mxv = 0;
      for (size_t j = 0; j < n; ++j) mxv = std::max(mxv, std::max(std::abs(D(p[i], j)), std::abs(D(j, q[i]))));
      if (mxv == 0) mxv = 1;
      ld v = std::abs(D(p[i], q[i]));
      if (v > .9L * EPS * mxv && v < 1.1L * EPS * mxv) amb = true;
      bool g = v > EPS * mxv;
      good += g;
      if (i < m && !g) lead = false;
      if (i >= m && g) tail = false;
    }
    if (!amb) {
      c.expect(lead, "negligible-diagonal-in-block", fmt("m=%zu", m));
      c.expect(tail, "good-diagonal-deferred", fmt("m=%zu", m));
      c.expect(good == m, "block-size-after-deferral", fmt("%zu good, block %zu", good, m));
      c.ev("judged-deferral");
      if (m < m0) c.ev("with-deferrals");
    }
  }
  // --- reordering permutes the block but neither the matched pairs nor the scalings
  if (o.reorder) {
    hif::Options  o2 = o;
    o2.reorder       = 0;
    hif::Array<R> s2, t2;
    Perm          p2, q2;
    const size_t  m2 = symm ? hif::do_preprocessing<true>(A, Ar, m0, level, o2, s2, t2, p2, q2)
                            : hif::do_preprocessing<false>(A, Ar, m0, level, o2, s2, t2, p2, q2);
    std::set<std::pair<int, int>> x, y;
    for (size_t i = 0; i < m; ++i) x.insert(std::make_pair((int)p[i], (int)q[i]));
    for (size_t i = 0; i < m2; ++i) y.insert(std::make_pair((int)p2[i], (int)q2[i]));
    c.expect(m == m2 && x == y, "reordering-changes-pairs");
    ok = true;
    for (size_t i = 0; i < n; ++i) ok = ok && s[i] == s2[i] && t[i] == t2[i];
    for (size_t i = m; i < n; ++i) ok = ok && p[i] == p2[i] && q[i] == q2[i];
    c.expect(ok, "reordering-changes-rest");
    c.ev("judged-reordering");
  }
  c.nontrivial(A0.hash() ^ (m0 << 20) ^ (level << 40) ^ (uint64_t)(o.reorder * 8 + o.pre_scale * 2 + symm));
  c.ev(fmt("pre_scale=%d", o.pre_scale));
}
// symmetric matching directly: the maximal product and the bound on entries
static void symmatching(Ctx &c, Rng &r) {
  Csr<T>       A0 = gen_square<T>(r, (int)r.in(1, c.thorough ? 40 : 22), 1 | 2, -1);
  const size_t n  = A0.n;
  Dense        D  = A0.dense();
  for (size_t i = 0; i < n; ++i)
    for (size_t j = 0; j < i; ++j)
      if (std::abs(D(i, j)) != std::abs(D(j, i))) return;
  const int     ps = (int)r.in(0, 2);
  c.desc           = fmt("symmetric %s pre_scale=%d", mdesc(A0).c_str(), ps);
  hif::Array<int> p(n), q(n);
  hif::Array<R>   s(n), t(n);
  const bool      symm = r.chance(.6);
  Crs             B    = mk_crs(A0);
  if (symm)
    hif::EqlDriver<T, int>::do_matching<true>(B, p, q, s, t, ps, 0);
  else
    hif::EqlDriver<T, int>::do_matching<false>(B, p, q, s, t, ps, 0);
  if (!c.expect(is_perm(p, n) && is_perm(q, n), "not-a-permutation")) return;
  std::vector<std::vector<ld>> cost(n, std::vector<ld>(n, std::numeric_limits<ld>::infinity()));
  ld                           lg = 1;
  for (size_t i = 0; i < n; ++i)
    for (size_t j = 0; j < n; ++j)
      if (D(i, j) != cld(0, 0)) {
        cost[i][j] = -std::log(std::abs(D(i, j)));
        lg         = std::max(lg, std::fabs(cost[i][j]));
      }
  const ld     best = hungarian(cost);
  const double tol  = 40 * EPS * (double)lg * (n + 4);
  bool         ok   = true;
  for (size_t i = 0; i < n; ++i) ok = ok && s[i] > 0 && t[i] > 0 && std::isfinite(s[i]) && std::isfinite(t[i]);
  c.expect(ok, "scaling-not-positive");
  if (symm) {
    ok = true;
    for (size_t i = 0; i < n; ++i) ok = ok && p[i] == q[i] && s[i] == t[i];
    c.expect(ok, "symmetric-treatment-differs");
  } else {
    ok = true;
    for (size_t i = 0; i < n; ++i) ok = ok && (size_t)q[i] == i;
    c.expect(ok, "column-permutation-not-identity");
  }
  if (!std::isfinite((double)best)) return;
  ld sum = 0, mx = 0;
  for (size_t i = 0; i < n; ++i) {
    ld v = std::abs(D(p[i], i));
    sum += v > 0 ? -std::log(v) : std::numeric_limits<ld>::infinity();
    for (size_t j = 0; j < n; ++j) mx = std::max(mx, std::abs(D(i, j)) * (ld)s[i] * (ld)t[j]);
  }
  c.near((double)(sum - best), tol * n, "product-not-maximal", fmt("%Lg vs %Lg", sum, best));
  c.near((double)(mx - 1), tol, "scaled-entry-above-one", fmt("largest %Lg", mx));
  c.ev(symm ? "judged-symmetric-matching" : "judged-direct-matching");
  c.nontrivial(A0.hash() ^ 77);
}
static void reorder(Ctx &c, Rng &r) {
  const int n = (int)r.in(0, r.chance(.1) ? (c.thorough ? 600 : 200) : 40);
  Coo<T>    co(n, n);
  int       style = (int)r.in(0, 6);
  auto      on    = [&](int i, int j) {
    if (i >= 0 && j >= 0 && i < n && j < n) co.set(i, j, 1, 0);
  };
  switch (style) {
    case 0: {  // random, unsymmetric
      double d = r.pick({.01, .05, .2, .6});
      for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j)
          if (r.chance(d)) on(i, j);
      break;
    }
    case 1: break;  // empty
    case 2:
      for (int i = 0; i < n; ++i) on(i, i);
      break;
    case 3: {  // grid with stray couplings
      int w = std::max(1, (int)std::sqrt((double)n));
      for (int i = 0; i < n; ++i) {
        on(i, i), on(i, i + 1), on(i + 1, i), on(i, i + w), on(i + w, i);
        if (r.chance(.05)) on(i, (int)r.in(0, n - 1));
      }
      break;
    }
    case 4: {  // dense rows and columns
      for (int i = 0; i < n; ++i) {
        on(i, i);
        if (r.chance(.5)) on(i, 0);
        if (r.chance(.5)) on(n - 1, i);
        on(0, i);
      }
      break;
    }
    case 5: {  // several components, isolated nodes
      int b = (int)r.in(1, 6);
      for (int i = 0; i < n; ++i)
        for (int k = 0; k < 2; ++k) {
          int j = (int)r.in(0, std::max(0, n - 1));
          if (i % b == j % b && i % b) on(i, j), on(j, i);
        }
      break;
    }
    default:  // one long path, shuffled
    {
      std::vector<int> p(n);
      for (int i = 0; i < n; ++i) p[i] = i;
      for (int i = n - 1; i > 0; --i) std::swap(p[i], p[r.in(0, i)]);
      for (int i = 0; i + 1 < n; ++i) {
        on(p[i], p[i + 1]);
        if (r.chance(.9)) on(p[i + 1], p[i]);
      }
    }
  }
  Csr<T> A = co.csr();
  c.desc   = fmt("reordering n=%d style=%d nnz=%ld", n, style, (long)A.nnz());
  hif::Options o = hif::get_default_options();
  o.verbose      = hif::VERBOSE_NONE;
  if (n && A.nnz()) {  // the driver only orders blocks with nonzero diagonals
    auto B  = mk_ccs(A);
    auto b0 = bytes(B);
    auto P  = hif::run_amd<false>(B, o);
    c.expect(P.size() == (size_t)n && is_perm(P, n), "amd-not-a-permutation");
    c.expect(bytes(B) == b0, "amd-changes-input");
    c.ev("amd");
    bool sp = true;
    {
      Csr<T> At = A.transpose();
      sp        = At.ptr == A.ptr && At.ind == A.ind;
    }
    if (sp) {
      auto P2 = hif::run_amd<true>(B, o);
      c.expect(P2.size() == (size_t)n && is_perm(P2, n), "amd-not-a-permutation");
      c.ev("amd-symmetric");
    }
    auto B2 = mk_ccs(A);
    auto P3 = hif::run_rcm(B2, o);
    c.expect(P3.size() == (size_t)n && is_perm(P3, n), "rcm-not-a-permutation");
    c.ev("rcm");
    // bandwidth reduction on a connected path is perfect
    if (style == 6 && sp && n > 2 && (int)A.nnz() == 2 * (n - 1)) {
      std::vector<int> inv(n);
      for (int i = 0; i < n; ++i) inv[P3[i]] = i;
      int bw = 0;
      for (int i = 0; i < n; ++i)
        for (ptrdiff_t k = A.ptr[i]; k < A.ptr[i + 1]; ++k) bw = std::max(bw, std::abs(inv[i] - inv[A.ind[k]]));
      c.expect(bw <= 2, "rcm-bandwidth-of-a-path", fmt("%d", bw));
      c.ev("rcm-path");
    }
    // the same with wide integers, unsorted and repeated entries
    typedef std::ptrdiff_t L;
    std::vector<L>         ap(A.ptr.begin(), A.ptr.end()), ai;
    std::vector<L>         ap2(1, 0);
    for (int i = 0; i < n; ++i) {
      std::vector<L> row(A.ind.begin() + A.ptr[i], A.ind.begin() + A.ptr[i + 1]);
      for (size_t k = row.size(); k > 1; --k) std::swap(row[k - 1], row[r.in(0, k - 1)]);
      if (!row.empty() && r.chance(.2)) row.push_back(row[0]);
      ai.insert(ai.end(), row.begin(), row.end());
      ap2.push_back((L)ai.size());
    }
    if (ai.empty()) ai.push_back(0);
    std::vector<L> P4(n, -1);
    double         C[HIF_AMD_CONTROL], I[AMD_INFO];
    hif::amd::AMD<L>::defaults(C);
    C[HIF_AMD_SYMM_FLAG] = 1;  // the setting the driver uses for unsorted rows
    if (r.chance(.3)) C[AMD_DENSE] = r.pick({-1.0, 0.0, 1.0, 3.0, 100.0});
    if (r.chance(.3)) C[AMD_AGGRESSIVE] = 0;
    int st = hif::amd::AMD<L>::order((L)n, ap2.data(), ai.data(), P4.data(), C, I);
    c.expect(st == AMD_OK || st == AMD_OK_BUT_JUMBLED, "amd-status", fmt("%d", st));
    c.expect(is_perm(P4, n), "amd-not-a-permutation");
    c.ev("amd-jumbled");
  }
  c.nontrivial(A.hash() ^ (uint64_t)style);
}
static void run(Ctx &c, Rng &r, long) {
  int w = (int)r.in(0, 9);
  w < 6 ? matching(c, r) : w < 7 ? symmatching(c, r) : reorder(c, r);
  if (c.samples.size() < 3) c.sample(c.desc);
}
int main(int argc, char **argv) { return harness_main(argc, argv, 0x18, run); }
