// thr: builds and products with every number of threads and many schedules,
// compared bit by bit with one thread; run on the system's OpenMP runtime, on
// our own runtime with chosen team sizes and orders, and under ThreadSanitizer (C05).
#include <omp.h>
#include "hifx.hpp"
#ifdef VF_SHIM
#  include "omp_shim.hpp"
#endif
#ifndef VF_TSAN
#  define VF_TSAN 0
#endif
#ifndef VT
#  define VT double
#endif
using namespace vf;
typedef VT                  T;
typedef hif::HIF<T, int>    Prec;

static void team(Rng &r, Ctx &c, bool dynamic) {
#ifdef VF_SHIM
  using namespace vfomp;
  cfg.seed    = r.u64();
  cfg.serial  = VF_SHIM == 2 ? false : r.chance(.7);
  cfg.delays  = VF_SHIM == 2 ? (int)r.pick({0.0, 30.0, 200.0}) : (int)r.pick({0.0, 0.0, 50.0});
  cfg.smaller = dynamic && r.chance(.7);
  cfg.limit   = dynamic && !cfg.smaller ? (int)r.in(1, 3) : 0;
  cfg.nested  = r.chance(.5);
  cfg.max_threads = (int)r.in(1, 6);
#else
  omp_set_dynamic(dynamic);
  omp_set_max_active_levels((int)r.in(1, 2));
  (void)c;
#endif
}
template <class A>
static void hnum(Hash &h, const A &a) {
  h.pod((uint64_t)a.size());
  for (size_t i = 0; i < a.size(); ++i) {
    long long v = (long long)a[i];
    h.pod(v);
  }
}
template <class Cs>
static void hcs(Hash &h, const Cs &A) {
  h.pod((uint64_t)A.nrows());
  h.pod((uint64_t)A.ncols());
  const size_t nz = A.ind_start().size() ? (size_t)A.nnz() : 0;
  h.pod((uint64_t)nz);
  if (!nz) return;
  hnum(h, A.ind_start());
  for (size_t k = 0; k < nz; ++k) {
    long long j = (long long)A.inds()[k];
    h.pod(j);
    h.pod(A.vals()[k]);
  }
}
// every level as a list of digests, so that a difference can be named
static std::vector<std::pair<std::string, uint64_t>> state(const Prec &h) {
  std::vector<std::pair<std::string, uint64_t>> v;
  auto put = [&](const std::string &n, const Hash &d) { v.emplace_back(n, d.h); };
  {
    Hash d;
    d.pod((uint64_t)h.levels());
    put("levels", d);
  }
  int l = 0;
  for (auto it = h.precs().cbegin(); it != h.precs().cend(); ++it, ++l) {
    const auto &b = *it;
    auto        p = [&](const char *n, const std::function<void(Hash &)> &f) {
      Hash d;
      f(d);
      put(fmt("%s@%d", n, l), d);
    };
    p("m,n", [&](Hash &d) { d.pod((uint64_t)b.m), d.pod((uint64_t)b.n); });
    p("L_B", [&](Hash &d) { hcs(d, b.L_B); });
    p("U_B", [&](Hash &d) { hcs(d, b.U_B); });
    p("d_B", [&](Hash &d) { d.arr(b.d_B.data(), b.m); });
    p("E", [&](Hash &d) { hcs(d, b.E); });
    p("F", [&](Hash &d) { hcs(d, b.F); });
    p("scalings", [&](Hash &d) { d.arr(b.s.data(), b.n), d.arr(b.t.data(), b.n); });
    p("permutations", [&](Hash &d) { hnum(d, b.p), hnum(d, b.q), hnum(d, b.p_inv), hnum(d, b.q_inv); });
    p("dense", [&](Hash &d) {
      if (!b.dense_solver.empty()) d.vec(b.dense_solver.mat_backup().array()), d.pod((uint64_t)b.dense_solver.rank());
      if (!b.symm_dense_solver.empty())
        d.vec(b.symm_dense_solver.mat_backup().array()), d.pod((uint64_t)b.symm_dense_solver.rank());
    });
  }
  Hash d;
  if (!h.empty())
    for (int i = 0; i < 6; ++i) d.pod((uint64_t)h.stats(i));
  d.pod((uint64_t)h.nnz()), d.pod((uint64_t)h.rank()), d.pod((uint64_t)h.schur_rank());
  put("statistics", d);
  return v;
}
static T rv(Rng &r) { return gen_vec<T>(r, 1)[0]; }

// a system whose first level leaves a large coupled remainder
static Csr<T> coupled(Rng &r, int m, int N, int k, bool symm, std::string &kind) {
  const int                        n = m + N;
  std::vector<std::map<int, T>>    rows(n);
  auto val = [&]() {
    T v = T(0);
    while (v == T(0)) v = T((typename Tr<T>::real)r.uni(-1, 1));
    if (Tr<T>::cplx) v = v * std::sqrt(T(-1)) * T(.5) + v;
    return v;
  };
  auto put = [&](int i, int j, T v) {
    rows[i][j] = v;
    if (symm && i != j) rows[j][i] = hif::conjugate(v);
  };
  for (int i = 0; i < m; ++i) {
    put(i, i, T((typename Tr<T>::real)r.uni(3, 6)));
    for (int q = 0; q < 2; ++q) {
      int j = (int)r.in(0, m - 1);
      if (j != i) put(i, j, val() * T(.3));
    }
  }
  for (int i = m; i < n; ++i) {
    // couplings; a few remainder lines are (nearly) uncoupled
    const int kk = r.chance(.05) ? (int)r.in(0, 2) : k;
    for (int q = 0; q < kk; ++q) put(i, (int)r.in(0, m - 1), val());
    if (!symm)
      for (int q = 0; q < kk; ++q) put((int)r.in(0, m - 1), i, val());
    for (int q = 0; q < 3; ++q) {
      int j = (int)r.in(m, n - 1);
      if (j != i) put(i, j, val() * T(.1));
    }
    if (r.chance(.5)) put(i, i, T((typename Tr<T>::real)1e-12));
  }
  Csr<T> a;
  a.m = a.n = n;
  a.symm    = symm;
  a.kind    = kind = symm ? "coupled-symmetric" : "coupled";
  a.ptr.assign(1, 0);
  for (int i = 0; i < n; ++i) {
    for (auto &e : rows[i]) a.ind.push_back(e.first), a.val.push_back(e.second);
    a.ptr.push_back((ptrdiff_t)a.ind.size());
  }
  return a;
}
static long parallel_regions() {
#ifdef VF_SHIM
  return vfomp::seen.parallel.load();
#else
  return 0;
#endif
}
static void build_case(Ctx &c, Rng &r) {
  const bool symm = r.chance(.3);
  const bool deep = r.chance(.4);
  int        N = (int)r.in(205, c.thorough ? 420 : 300), m = (int)r.in(150, c.thorough ? 600 : 350);
  int        k = (int)r.in(45, 80);
  if (r.chance(.1)) N = (int)r.in(190, 204);  // around the threshold
  std::string kind;
  Csr<T>      a = coupled(r, m, N, k, symm, kind);
  hif::Params p = gen_params(r, false, symm);
  p.verbose     = 0;
  p.is_symm     = symm && r.chance(.7);
  p.tau_L = p.tau_U = r.pick({0.0, 1e-6, 1e-4, 1e-3});
  p.alpha_L = r.pick({200.0, 200.0, 3.0, 1.0, .6, .3});
  p.alpha_U = r.chance(.5) ? p.alpha_L : r.pick({200.0, 3.0, 1.0, .5});
  if (r.chance(.6)) p.no_pre = 1;
  if (p.is_symm) p.no_pre = r.chance(.5);
  p.kappa = p.kappa_d = r.pick({2.0, 3.0, 10.0, 100.0});
  if (deep) {
    p.c_d         = .01;
    p.dense_thres = 1;
    p.rho         = 1e12;
  } else {
    p.c_d         = 10;
    p.dense_thres = 2000;
    p.rho         = .5;
  }
  auto A = mk_crs<T>(a);
  auto Ac = mk_ccs<T>(a);
  const bool csr = r.chance(.5);
  c.desc = mdesc(a) + " " + pdesc(p);
  auto build = [&](Prec &P) {
    if (csr)
      P.factorize(A, p);
    else
      P.factorize(Ac, p);
  };
  p.threads = 1;
  Prec ref;
  try {
    build(ref);
  } catch (const std::exception &e) {
    c.ev("build-refused");
    return;
  }
  const auto want = state(ref);
  const size_t n = a.m;
  auto       b = arr(gen_vec<T>(r, (int)n));
  hif::Array<T> x0(n), y0(n), z0(n);
  hif::mt::get_nthreads(1);
  ref.solve(b, x0);
  ref.mmultiply(b, y0);
  ref.hifir(A, b, 3, z0);
  c.ev(fmt("levels=%zu", std::min((size_t)6, (size_t)ref.precs().size())));
  const size_t N1 = ref.prec(0).n - ref.prec(0).m;
  if (N1 > 200) c.ev("large-remainder");
  const int tries = c.thorough ? 6 : 3;
  Hash      hh;
  hh.bytes(c.desc.data(), c.desc.size());
  for (int q = 0; q < tries; ++q) {
    int threads = (int)r.pick({2.0, 3.0, 4.0, 4.0, 5.0, 6.0, 7.0, 8.0, 8.0, 13.0, 16.0, 33.0});
    if (r.chance(.05)) threads = (int)N1 + (int)r.in(-2, 3);
    if (threads > 64) threads = VF_TSAN ? 40 : std::min(threads, 300);
    const bool dyn = r.chance(.4), inside = r.chance(.2);
    team(r, c, dyn);
    p.threads = threads;
    if (r.chance(.15)) {  // the number of threads from the environment
      p.threads = (int)r.pick({0.0, -1.0, -7.0});
      setenv(r.chance(.5) ? "HIF_NUM_THREADS" : "OMP_NUM_THREADS", fmt("%d", threads).c_str(), 1);
    }
    const std::string what = fmt("threads=%d(%d) dyn=%d inside=%d ", threads, p.threads, dyn, inside) + c.desc;
    Prec              P;
    std::string       err;
    hif::Array<T>     x(n), y(n), z(n);
    auto              body = [&] {
      try {
        const long r1 = parallel_regions();
        build(P);
        const long r2 = parallel_regions() - r1;
        if (r2) c.ev(fmt("parallel-regions-of-a-build=%ld", std::min(r2, 6l)));
        if (r2) c.ev("builds-in-parallel");
        P.solve(b, x);
        P.mmultiply(b, y);
        P.hifir(A, b, 3, z);
      } catch (const std::exception &e) {
        err = e.what();
      }
    };
    if (inside) {
#pragma omp parallel num_threads(3)
      {
        // one thread of a user's own team builds and applies
        if (omp_get_thread_num() == omp_get_num_threads() - 1) body();
      }
    } else
      body();
    unsetenv("HIF_NUM_THREADS");
    setenv("OMP_NUM_THREADS", "1", 1);
    if (!c.expect(err.empty(), "refused-with-threads", err + " " + what)) continue;
    const auto got = state(P);
    c.expect(got.size() == want.size(), "number-of-levels", what);
    for (size_t i = 0; i < std::min(got.size(), want.size()); ++i)
      if (!c.expect(got[i] == want[i], "build-differs:" + want[i].first.substr(0, want[i].first.find('@')),
                    want[i].first + " " + what))
        break;
    c.expect(!memcmp(x.data(), x0.data(), n * sizeof(T)), "solve-differs", what);
    c.expect(!memcmp(y.data(), y0.data(), n * sizeof(T)), "product-differs", what);
    c.expect(!memcmp(z.data(), z0.data(), n * sizeof(T)), "refinement-differs", what);
    c.ev("builds-compared");
    if (inside) c.ev("inside-a-team");
    hh.pod(threads);
    c.nontrivial(hh.h);
  }
  if (r.chance(.1)) c.sample(c.desc);
}

template <size_t K, class CS>
static void block_products(Ctx &c, Rng &r, const CS &A, int threads, bool dyn, const std::string &what) {
  typedef hif::Array<std::array<T, K>> B;
  B X(A.ncols()), Y(A.nrows()), Z(A.nrows());
  for (size_t i = 0; i < X.size(); ++i)
    for (size_t j = 0; j < K; ++j) X[i][j] = rv(r);
  auto poison = [&](B &Q) {
    for (size_t i = 0; i < Q.size(); ++i) Q[i].fill(T(-77));
  };
  poison(Y), poison(Z);
  A.multiply_mrhs_nt(X, Y);
  team(r, c, dyn);
  hif::mt::get_nthreads(threads);
  hif::mt::multiply_mrhs_nt(A, X, Z);
  c.expect(!Y.size() || !memcmp(Y.data(), Z.data(), Y.size() * sizeof(Y[0])), fmt("block-product-differs"), what);
  poison(Z);
  if (A.nrows() && A.ncols()) {
    hif::mt::multiply_mrhs_nt_low<K>(A, X[0].data(), Z[0].data());
    c.expect(!memcmp(Y.data(), Z.data(), Y.size() * sizeof(Y[0])), fmt("low-block-product-differs"), what);
  }
  c.ev("block-products");
}
static void product_case(Ctx &c, Rng &r) {
  // sizes around the thresholds and around multiples of the number of threads
  const int shape = (int)r.in(0, 4);
  int       m     = shape == 0 ? (int)r.in(1000, 1300) : shape == 1 ? (int)r.in(1, 40) : shape == 2 ? (int)r.in(990, 1010) : (int)r.in(1, 400);
  int       n     = r.chance(.5) ? m : (int)r.in(1, 300);
  int       per   = shape == 1 || shape >= 3 ? (int)r.in(15, 45) : (int)r.in(0, 12);
  per             = std::min(per, n);
  Csr<T> a;
  a.m = m, a.n = n;
  a.kind = "sparse";
  a.ptr.assign(1, 0);
  const bool skew = r.chance(.4);
  for (int i = 0; i < m; ++i) {
    std::set<int> s;
    int           q = r.chance(.2) ? 0 : skew ? (int)r.in(0, 2 * per) : per;
    for (int t = 0; t < q; ++t) s.insert((int)r.in(0, n - 1));
    for (int j : s) a.ind.push_back(j), a.val.push_back(rv(r));
    a.ptr.push_back((ptrdiff_t)a.ind.size());
  }
  auto A  = mk_crs<T>(a);
  auto Ac = mk_ccs<T>(a);
  c.desc  = mdesc(a);
  auto x  = arr(gen_vec<T>(r, n));
  hif::Array<T> y(m), y2(m), z(m);
  auto poison = [&](hif::Array<T> &q) { std::fill(q.begin(), q.end(), T(-77)); };
  poison(y), poison(y2);
  A.multiply_nt(x, y);
  Ac.multiply_nt(x, y2);
  Hash hh;
  hh.bytes(c.desc.data(), c.desc.size());
  hh.vec(y);
  for (int q = 0; q < 3; ++q) {
    int threads = (int)r.pick({1.0, 2.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 8.0, 9.0, 16.0, 31.0});
    if (r.chance(.1)) threads = m + (int)r.in(-2, 5);
    if (threads < 1) threads = 1;
    if (threads > 64) threads = VF_TSAN ? 40 : std::min(threads, 300);
    const bool        dyn  = r.chance(.4);
    const std::string what = fmt("threads=%d dyn=%d ", threads, dyn) + c.desc;
    const long        r0   = parallel_regions();
    team(r, c, dyn);
    hif::mt::get_nthreads(threads);
    poison(z);
    hif::mt::multiply_nt(A, x, z);
    c.expect(!memcmp(y.data(), z.data(), m * sizeof(T)), "product-differs", what);
    poison(z);
    hif::mt::multiply_nt_low(A, x.data(), z.data());
    c.expect(!memcmp(y.data(), z.data(), m * sizeof(T)), "low-product-differs", what);
    poison(z);
    hif::mt::multiply_nt(Ac, x, z);
    c.expect(!memcmp(y2.data(), z.data(), m * sizeof(T)), "column-product-differs", what);
    poison(z);
    hif::mt::multiply_nt_low(Ac, x.data(), z.data());
    c.expect(!memcmp(y2.data(), z.data(), m * sizeof(T)), "low-column-product-differs", what);
    if (parallel_regions() > r0) c.ev("products-in-parallel");
    switch (r.in(0, 3)) {
      case 0:
        block_products<1>(c, r, A, threads, dyn, what), block_products<2>(c, r, Ac, threads, dyn, what);
        break;
      case 1:
        block_products<2>(c, r, A, threads, dyn, what);
        break;
      case 2:
        block_products<4>(c, r, A, threads, dyn, what);
        break;
      default:
        block_products<9>(c, r, A, threads, dyn, what);
    }
    // the user's own threads share the matrix and the input
    if (r.chance(.4)) {
      std::vector<hif::Array<T>> out(4);
      for (auto &o : out) o.resize(m), poison(o);
      std::vector<int> done(4, 0);
#pragma omp parallel num_threads(4)
      {
        const int me = omp_get_thread_num();
        hif::mt::multiply_nt(A, x, out[me]);
        done[me] = 1;
      }
      for (int i = 0; i < 4; ++i)
        if (done[i]) c.expect(!memcmp(y.data(), out[i].data(), m * sizeof(T)), "shared-product-differs", what);
      c.ev("shared-products");
    }
    c.ev("products-compared");
    hh.pod(threads);
    c.nontrivial(hh.h);
  }
}
static void partition_case(Ctx &c, Rng &r) {
  // the parts are in order, disjoint and cover everything, for every team
  for (int q = 0; q < 200; ++q) {
    const size_t n = r.chance(.5) ? (size_t)r.in(0, 40) : (size_t)r.in(0, 100000);
    const int    t = r.chance(.5) ? (int)r.in(1, 12) : (int)r.in(1, 300);
    size_t       at = 0;
    for (int i = 0; i < t; ++i) {
      const auto p = hif::mt::uniform_partition(n, t, i);
      if (!c.expect(p.first <= p.second && (p.first == at || p.first == p.second), "partition-overlap-or-gap", fmt("n=%zu threads=%d thread=%d [%zu,%zu) at=%zu", n, t, i, p.first, p.second, at)))
        return;
      if (p.first < p.second) at = p.second;
    }
    c.expect(at == n, "partition-incomplete", fmt("n=%zu threads=%d", n, t));
    c.ev("partitions");
  }
}
static void run(Ctx &c, Rng &r, long k) {
  (void)k;
  const int w = (int)r.in(0, 9);
  if (w < 5)
    build_case(c, r);
  else if (w < 9)
    product_case(c, r);
  else
    partition_case(c, r);
#ifdef VF_SHIM
  using namespace vfomp;
  c.ev("regions", seen.regions.exchange(0));
  c.ev("regions-in-parallel", seen.parallel.exchange(0));
  c.ev("smaller-teams", seen.smaller.exchange(0));
  c.ev("barrier-passages", seen.barriers.exchange(0));
  if (cfg.serial) {
    Hash h;
    h.pod(seen.order.exchange(0));
    c.nontrivial(h.h);
    c.ev("chosen-orders");
  }
#endif
}
int main(int argc, char **argv) { return harness_main(argc, argv, 0x05, run); }
