// core: factorize a generated system and judge the resulting operator against
// independent extended-precision references.  --prop selects the oracle:
//   C01 solve / product consistency     C02 adjoint consistency
//   C03 exactness without dropping      C11 structural invariants
//   C19 dropping and fill limits        C23 symmetric mode
//   C25 reported statistics             C26 conditioning control
#include "precref.hpp"
#ifndef VT
#  define VT double
#endif
using namespace vf;
typedef VT               T;
typedef hif::HIF<T, int> H;
typedef Tr<T>::real      R;
static const double      EPS = epsof<T>();

struct Case {
  Csr<T>      A;
  hif::Params p;
  bool        nodrop = false, ccs = false;
  size_t      m0 = 0;
};

static Dense op(const H &M, size_t n, int what, size_t rk) {
  Dense         D(n, n);
  hif::Array<T> b(n), x(n);
  for (size_t j = 0; j < n; ++j) {
    for (size_t i = 0; i < n; ++i) b[i] = T(i == j), x[i] = T(77);
    if (what < 2)
      M.solve(b, x, what == 1, rk);
    else
      M.mmultiply(b, x, what == 3, rk);
    for (size_t i = 0; i < n; ++i) D(i, j) = up(x[i]);
  }
  return D;
}
static cvec app(const H &M, const std::vector<T> &v, int what, size_t rk) {
  hif::Array<T> b = arr(v), x(v.size());
  for (size_t i = 0; i < v.size(); ++i) x[i] = T(-3);
  if (what < 2)
    M.solve(b, x, what == 1, rk);
  else
    M.mmultiply(b, x, what == 3, rk);
  return upa(x);
}

static Case make(Ctx &c, Rng &r, bool nodrop, int maxn, int flags) {
  Case k;
  int  n   = r.chance(.12) ? (int)r.in(1, 6) : (int)r.in(5, maxn);
  k.A      = gen_square<T>(r, n, flags);
  k.nodrop = nodrop;
  if (flags != G_NONSING && r.chance(.004)) {  // a matrix without any stored entry
    std::fill(k.A.ptr.begin(), k.A.ptr.end(), 0);
    k.A.ind.clear();
    k.A.val.clear();
    k.A.kind = "nothing";
    k.A.symm = k.A.singular = true;
  }
  if (k.A.symm && r.chance(.4)) hermitize(r, k.A, .8);
  k.p      = gen_params(r, nodrop, k.A.symm);
  if (!k.p.is_symm && !Tr<T>::cplx && k.p.pivot != 1 && k.A.kind.find("tinydiag") == std::string::npos && r.chance(.1)) {
    k.m0 = (size_t)r.in(1, k.A.n);
    k.A  = symm_leading(k.A, (int)k.m0);
  }
  if (nodrop) k.p.alpha_L = k.p.alpha_U = k.A.n + 1;
  if (k.A.singular && k.p.c_d < .05) {
    // with the dense endgame (the rank-revealing stage) suppressed, rounding
    // noise of an exactly singular system would be factorized as if it were data
    k.p.c_d         = 10;
    k.p.rho         = .5;
    k.p.dense_thres = 2000;
  }
  k.ccs  = r.chance(.3);
  c.desc = mdesc(k.A) + fmt(" m0=%zu ", k.m0) + pdesc(k.p) + (k.ccs ? " ccs" : "");
  return k;
}
static void factorize(H &M, const Case &k) {
  if (k.ccs) {
    auto A = mk_ccs(k.A);
    M.factorize(A, k.p, k.m0);
  } else {
    auto A = mk_crs(k.A);
    M.factorize(A, k.p, k.m0);
  }
}
static double levels_key(const H &M) { return (double)M.levels(); }

static void ev_shape(Ctx &c, const H &M, const Case &k) {
  c.ev(fmt("levels=%zu", M.levels()));
  c.ev("kind:" + k.A.kind.substr(0, k.A.kind.find('+')));
  c.ev(k.p.is_symm ? "symm-mode" : fmt("pivot=%d", k.p.pivot));
  if (M.rank() < (size_t)k.A.n) c.ev("rank-deficient");
  if (k.m0) c.ev("leading-symmetric-block");
  const auto &b = M.precs().back();
  if (b.m == b.n) c.ev("ends-without-dense");
  if (M.stats(1)) c.ev("dynamic-deferrals");
  if (M.stats(0) > M.stats(1)) c.ev("static-deferrals");
  if (M.stats(4)) c.ev("droppings");
  if (M.stats(5)) c.ev("space-droppings");
}

// ------------------------------------------------------------------ C01/C02
static void run_ops(Ctx &c, Rng &r, bool adj) {
  Case k = make(c, r, r.chance(.25), c.thorough ? 80 : 48, G_ANY);
  H    M;
  factorize(M, k);
  ev_shape(c, M, k);
  const size_t n    = k.A.n;
  const bool   full = M.rank() == n;
  bool         ok   = true;
  Dense        D    = dense_M(M, ok);
  if (!c.expect(ok && D.finite(), "level-chain-broken")) return;
  size_t rk = 0;
  if (!full && r.chance(.5)) rk = M.schur_rank();  // explicit rank = default rank
  const size_t ss = M.schur_size();
  if (full && ss && r.chance(.3)) rk = ss + (size_t)r.in(0, 3);  // "as large as the block" is the whole block
  Dense  G = op(M, n, 0, rk), P = op(M, n, 2, rk);
  double kap = (double)(G.fro() * P.fro());
  c.mx("cond", kap);
  const double tol = 2e3 * EPS * kap;
  if (!c.expect(P.finite(), "product-not-finite")) return;
  if (!G.finite() || !(tol < 2e-2)) {
    c.ev("skipped-illconditioned");
    if (!G.finite()) {
      // an infinite inverse is only acceptable for a numerically singular operator
      Dense X;
      c.expect(!full || !invert(D, X) || EPS * 100 * (double)(D.fro() * X.fro()) > 1e-2, "solve-not-finite");
    }
    return;
  }
  if (!full) {
    const double g = level_growth(M);
    c.mx("level-growth-deficient", g);
    if (!(g < 1e6)) {
      c.ev("skipped-noise-amplified");
      return;
    }
  }
  c.ev("judged");
  c.ev(full ? "judged-full-rank" : "judged-rank-deficient");
  if (k.p.is_symm) c.ev("judged-symm");
  c.nontrivial(k.A.hash() ^ (uint64_t)(std::min(k.p.tau_L, 1e9) * 1e9) ^ ((uint64_t)M.nnz() << 20));
  if (!adj) {
    if (full) {
      // independent reference built from the stored levels
      double e = (double)((P - D).fro() / D.fro());
      c.near(e, 1e-3 * tol + 2e3 * EPS * std::sqrt(kap) + 1e3 * EPS, "product-vs-stored-levels", fmt("cond=%g", kap));
      Dense X;
      if (!c.expect(invert(D, X), "stored-levels-singular")) return;
      c.near((double)((G - X).fro() / X.fro()), tol, "solve-vs-stored-levels", fmt("cond=%g", kap));
      Dense I = Dense::eye(n);
      c.near((double)((G * P - I).maxabs()), tol, "solve-of-product-is-identity");
      c.near((double)((P * G - I).maxabs()), tol, "product-of-solve-is-identity");
    }
    Dense GPG = G * (P * G), PGP = P * (G * P);
    c.near((double)((GPG - G).fro() / (G.fro() + 1e-300L)), tol, "solve-product-solve");
    c.near((double)((PGP - P).fro() / (P.fro() + 1e-300L)), tol, "product-solve-product");
    // linearity: arbitrary vectors against the explicit operators
    for (int q = 0; q < 2; ++q) {
      auto v = gen_vec<T>(r, (int)n);
      cvec x = upv(v), a = app(M, v, 0, rk), ref = mv(G, x);
      c.near((double)(nrm2(a - ref) / (G.fro() * nrm2(x) + 1e-300L)), tol, "solve-linear");
      a = app(M, v, 2, rk), ref = mv(P, x);
      c.near((double)(nrm2(a - ref) / (P.fro() * nrm2(x) + 1e-300L)), 2e3 * EPS * std::sqrt(kap) + tol * 1e-3, "product-linear");
    }
    // zero maps to zero
    std::vector<T> z(n, T(0));
    c.expect(nrminf(app(M, z, 0, rk)) == 0, "solve-of-zero");
    c.expect(nrminf(app(M, z, 2, rk)) == 0, "product-of-zero");
    // truncated ranks: G_r is an outer... generalised inverse of P_r
    if (ss > 2) {
      size_t q = 1 + (size_t)r.in(0, (int64_t)std::min(ss, std::max<size_t>(1, M.schur_rank())) - 1);
      Dense  g = op(M, n, 0, q), p = op(M, n, 2, q);
      if (g.finite() && p.finite()) {
        double t2 = 2e3 * EPS * (double)(g.fro() * p.fro());
        if (t2 < 2e-2) {
          c.ev("explicit-rank");
          c.near((double)((g * (p * g) - g).fro() / g.fro()), t2, "explicit-rank-solve-product-solve");
          c.near((double)((p * (g * p) - p).fro() / p.fro()), t2, "explicit-rank-product-solve-product");
        }
      }
    }
    // solve may write its result over a differently initialised vector (no accumulation)
    auto v = gen_vec<T>(r, (int)n);
    hif::Array<T> b = arr(v), x1(n), x2(n);
    for (size_t i = 0; i < n; ++i) x1[i] = T(0), x2[i] = T(1e5);
    M.solve(b, x1);
    M.solve(b, x2);
    bool same = true;
    for (size_t i = 0; i < n; ++i) same = same && x1[i] == x2[i];
    c.expect(same, "solve-depends-on-output-buffer");
    M.mmultiply(b, x1);
    for (size_t i = 0; i < n; ++i) x2[i] = T(-1e5);
    M.mmultiply(b, x2);
    same = true;
    for (size_t i = 0; i < n; ++i) same = same && x1[i] == x2[i];
    c.expect(same, "product-depends-on-output-buffer");
  } else {
    Dense GH = op(M, n, 1, rk), PH = op(M, n, 3, rk);
    c.near((double)((GH - G.H()).fro() / (G.fro() + 1e-300L)), tol, "solve-adjoint", fmt("cond=%g rank=%zu/%zu", kap, M.rank(), n));
    c.near((double)((PH - P.H()).fro() / (P.fro() + 1e-300L)), 2e3 * EPS * std::sqrt(kap) + tol * 1e-3, "product-adjoint", fmt("cond=%g", kap));
    if (full) {
      Dense X;
      if (invert(D, X)) {
        c.near((double)((GH - X.H()).fro() / X.fro()), tol, "adjoint-solve-vs-stored-levels");
        c.near((double)((PH - D.H()).fro() / D.fro()), 1e-3 * tol + 2e3 * EPS * std::sqrt(kap), "adjoint-product-vs-stored-levels");
      }
    }
    Dense GPG = GH * (PH * GH);
    c.near((double)((GPG - GH).fro() / (GH.fro() + 1e-300L)), tol, "adjoint-solve-product-solve");
    for (int q = 0; q < 2; ++q) {
      auto v = gen_vec<T>(r, (int)n), w = gen_vec<T>(r, (int)n);
      cvec x = upv(v), y = upv(w);
      cld  a = dotc(y, app(M, v, 0, rk)), b = dotc(app(M, w, 1, rk), x);
      c.near((double)(std::abs(a - b) / (G.fro() * nrm2(x) * nrm2(y) + 1e-300L)), tol, "solve-inner-product");
      a = dotc(y, app(M, v, 2, rk)), b = dotc(app(M, w, 3, rk), x);
      c.near((double)(std::abs(a - b) / (P.fro() * nrm2(x) * nrm2(y) + 1e-300L)), tol, "product-inner-product");
    }
    if (ss > 2) {
      size_t q = 1 + (size_t)r.in(0, (int64_t)std::max<size_t>(1, M.schur_rank()) - 1);
      Dense  g = op(M, n, 0, q), gh = op(M, n, 1, q), p = op(M, n, 2, q), ph = op(M, n, 3, q);
      double t2 = 2e3 * EPS * (double)(g.fro() * p.fro());
      if (g.finite() && t2 < 2e-2) {
        c.ev("explicit-rank");
        c.near((double)((gh - g.H()).fro() / g.fro()), t2, "explicit-rank-solve-adjoint");
        c.near((double)((ph - p.H()).fro() / p.fro()), t2, "explicit-rank-product-adjoint");
      }
    }
  }
  if (c.samples.size() < 3) c.sample(c.desc + fmt(" levels=%zu rank=%zu cond=%.3g", M.levels(), M.rank(), kap));
}

// ---------------------------------------------------------------------- C03
static void run_exact(Ctx &c, Rng &r) {
  Case k = make(c, r, true, c.thorough ? 110 : 64, r.chance(.15) ? G_ANY : G_NONSING);
  H    M;
  factorize(M, k);
  ev_shape(c, M, k);
  const size_t n    = k.A.n;
  const bool   full = M.rank() == n;
  Dense        a    = k.A.dense();
  Dense        X;
  const bool   inv  = invert(a, X) && X.finite();
  double       kap  = inv ? (double)(a.fro() * X.fro()) : 1e300;
  c.expect(M.stats(5) == 0, "space-droppings-with-dropping-disabled");
  Dense P = op(M, n, 2, 0);
  double perr = 0;
  if (full) {
    // the product is backward stable for any conditioning, up to growth
    // element growth: larger where scaling or pivoting is (partly) disabled by the input
    const bool   grow = k.m0 || k.A.kind.find("badscale") != std::string::npos;
    perr = (double)((P - a).fro() / a.fro());
    c.near(perr, grow ? std::min(.05, 2e7 * EPS) : 2e4 * EPS, "product-equals-matrix", fmt("cond=%g", kap));
    c.ev("judged-product");
    c.nontrivial(k.A.hash());
  } else if (inv && !k.m0) {
    c.expect(EPS * kap > 1e-6, "reported-rank-deficient-for-wellconditioned", fmt("rank=%zu n=%zu cond=%g", M.rank(), n, kap));
  } else if (!inv)
    c.ev("exactly-singular");
  const double tol = 2e3 * EPS * kap + 100 * perr * kap;
  auto         v   = gen_vec<T>(r, (int)n, 1);
  cvec         x   = upv(v);
  if (inv && full && tol < 2e-2) {
    c.ev("judged-solve");
    std::vector<T> b(n);
    cvec           ax = mv(a, x);
    for (size_t i = 0; i < n; ++i) b[i] = down<T>(ax[i]);
    c.near((double)(nrm2(app(M, b, 0, 0) - x) / nrm2(x)), tol, "solve-recovers-solution", fmt("cond=%g", kap));
    ax = mv(a.H(), x);
    for (size_t i = 0; i < n; ++i) b[i] = down<T>(ax[i]);
    c.near((double)(nrm2(app(M, b, 1, 0) - x) / nrm2(x)), tol, "adjoint-solve-recovers-solution", fmt("cond=%g", kap));
    Dense G = op(M, n, 0, 0);
    c.near((double)((G - X).fro() / X.fro()), tol, "solve-equals-inverse", fmt("cond=%g", kap));
    c.near((double)((G * a - Dense::eye(n)).maxabs()), tol, "solve-of-matrix-is-identity");
  }
  if (k.A.singular && !full) {
    // consistent singular system: the solve still solves it
    auto   sv = singvals(a);
    double gap = 0;
    size_t rank = M.rank();
    if (rank && rank < n) gap = (double)(sv[rank - 1] / sv[0]);
    if (gap > 1e3 * EPS && (double)(sv[rank] / sv[0]) < 1e-3 * gap) {
      cvec           ax = mv(a, x);
      std::vector<T> b(n);
      for (size_t i = 0; i < n; ++i) b[i] = down<T>(ax[i]);
      double tl = 1e6 * EPS / gap;
      if (tl < 1e-2) {
        c.ev("judged-consistent-singular");
        cvec y = app(M, b, 0, 0);
        c.near((double)(nrm2(mv(a, y) - ax) / (nrm2(ax) + 1e-300L)), tl, "consistent-singular-system-solved", fmt("gap=%g rank=%zu", gap, rank));
      }
    }
  }
  if (c.samples.size() < 3) c.sample(c.desc + fmt(" levels=%zu cond=%.3g", M.levels(), kap));
}

#include "core_struct.hpp"

static void run(Ctx &c, Rng &r, long i) {
  static const std::string asked = c.prop;
  if (asked == "C04") {  // every kind of workload in turn
    static const char *all[] = {"C01", "C02", "C03", "C11", "C19", "C23", "C25", "C26"};
    c.prop                   = all[(i / 8 + i) % 8];
    c.ev("workload=" + c.prop);
    wild_params() = i % 4 == 1;
  }
  try {
    if (c.prop == "C01")
      run_ops(c, r, false);
    else if (c.prop == "C02")
      run_ops(c, r, true);
    else if (c.prop == "C03")
      run_exact(c, r);
    else
      run_struct(c, r);
  } catch (const std::exception &e) {
    c.fail("unexpected-exception", e.what());
  }
}
int main(int argc, char **argv) { return harness_main(argc, argv, 1, run); }
