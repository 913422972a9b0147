// ops: operations on built preconditioners judged against independent models.
//   C06 inputs unmodified            C07 determinism / history independence
//   C08 equivalent representations   C09 several right-hand sides
//   C10 iterative refinement         C13 null-space filters
#include <malloc.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>

#include "precref.hpp"
#ifndef VT
#  define VT double
#endif
using namespace vf;
typedef VT               T;
typedef Tr<T>::real      R;
typedef hif::HIF<T, int> H;
static const double      EPS = epsof<T>();
static const uint64_t    SALT = 2;
// the type of vectors/matrices in the other precision
template <class X> struct Other;
template <> struct Other<double> { typedef float type; };
template <> struct Other<float> { typedef double type; };
template <class X> struct Other<std::complex<X>> { typedef std::complex<typename Other<X>::type> type; };
typedef Other<T>::type OT;

struct Case {
  Csr<T>      A;
  hif::Params p;
  size_t      m0 = 0;
};
static bool vary_cond = false;  // also the condition that decides on the rank of the last block
static Case make(Ctx &c, Rng &r, int maxn, int flags = G_ANY, double nodrop = .25) {
  Case k;
  int  n = r.chance(.1) ? (int)r.in(1, 6) : (int)r.in(5, maxn);
  k.A    = gen_square<T>(r, n, flags);
  if (k.A.symm && r.chance(.4)) hermitize(r, k.A, .8);
  bool nd = r.chance(nodrop);
  k.p     = gen_params(r, nd, k.A.symm);
  if (!k.p.is_symm && k.p.pivot != 1 && r.chance(.08)) {
    k.m0 = (size_t)r.in(1, k.A.n);
    k.A  = symm_leading(k.A, (int)k.m0);
  }
  if (nd) k.p.alpha_L = k.p.alpha_U = k.A.n + 1;
  if (k.A.singular && k.p.c_d < .05) {
    k.p.c_d         = 10;
    k.p.rho         = .5;
    k.p.dense_thres = 2000;
  }
  if (vary_cond && r.chance(.5)) k.p.rrqr_cond = r.pick({3., 10., 50., 500., 1e5});
  c.desc = mdesc(k.A) + fmt(" m0=%zu ", k.m0) + pdesc(k.p);
  return k;
}
template <class M>
static void fac(M &h, const Csr<T> &A, const hif::Params &p, size_t m0, bool ccs = false) {
  if (ccs) {
    auto B = mk_ccs(A);
    h.factorize(B, p, m0);
  } else {
    auto B = mk_crs(A);
    h.factorize(B, p, m0);
  }
}
// --------------------------------------------------------- state digests
template <class A>
static void hnum(Hash &h, const A &a) {
  h.pod((uint64_t)a.size());
  for (size_t i = 0; i < a.size(); ++i) {
    long long v = (long long)a[i];
    h.pod(v);
  }
}
template <class Cs>
static void hcs(Hash &h, const Cs &A) {
  h.pod((uint64_t)A.nrows());
  h.pod((uint64_t)A.ncols());
  const size_t nz = A.ind_start().size() ? (size_t)A.nnz() : 0;
  h.pod((uint64_t)nz);
  for (size_t i = 0; i < A.ind_start().size(); ++i) {
    long long v = (long long)A.ind_start()[i];
    h.pod(v);
  }
  for (size_t k = 0; k < nz; ++k) {
    long long j = (long long)A.inds()[k];
    h.pod(j);
    h.pod(A.vals()[k]);
  }
}
template <class M>
static uint64_t digest(const M &h) {
  Hash d;
  d.pod((uint64_t)h.levels());
  for (auto it = h.precs().cbegin(); it != h.precs().cend(); ++it) {
    const auto &b = *it;
    d.pod((uint64_t)b.m);
    d.pod((uint64_t)b.n);
    hcs(d, b.L_B);
    hcs(d, b.U_B);
    if (b.m) d.arr(b.d_B.data(), b.m);
    hcs(d, b.E);
    hcs(d, b.F);
    d.arr(b.s.data(), b.n);
    d.arr(b.t.data(), b.n);
    hnum(d, b.p);
    hnum(d, b.q);
    hnum(d, b.p_inv);
    hnum(d, b.q_inv);
    if (!b.dense_solver.empty()) {
      d.vec(b.dense_solver.mat_backup().array());
      d.pod((uint64_t)b.dense_solver.rank());
    }
    if (!b.symm_dense_solver.empty()) {
      d.vec(b.symm_dense_solver.mat_backup().array());
      d.pod((uint64_t)b.symm_dense_solver.rank());
    }
  }
  if (!h.empty())
    for (int i = 0; i < 6; ++i) d.pod((uint64_t)h.stats(i));
  d.pod((uint64_t)h.nnz());
  d.pod((uint64_t)h.nnz_ef());
  d.pod((uint64_t)h.rank());
  d.pod((uint64_t)h.schur_rank());
  return d.h;
}
template <class A>
static bool bitsame(const A &x, const A &y) {
  return x.size() == y.size() && (x.size() == 0 || !memcmp(x.data(), y.data(), x.size() * sizeof(*x.data())));
}
template <class V = T, class M>
static cvec app(const M &h, const std::vector<V> &v, int what, size_t rk) {
  hif::Array<V> b = arr(v), x(v.size());
  for (size_t i = 0; i < v.size(); ++i) x[i] = V(-3);
  if (what < 2)
    h.solve(b, x, what == 1, rk);
  else
    h.mmultiply(b, x, what == 3, rk);
  return upa(x);
}
template <class M>
static Dense op(const M &h, size_t n, int what, size_t rk) {
  Dense          D(n, n);
  std::vector<T> e(n, T(0));
  for (size_t j = 0; j < n; ++j) {
    e[j]   = T(1);
    cvec x = app(h, e, what, rk);
    e[j]   = T(0);
    for (size_t i = 0; i < n; ++i) D(i, j) = x[i];
  }
  return D;
}
static void ev_shape(Ctx &c, const H &M) {
  c.ev(fmt("levels=%zu", M.levels()));
  if (M.rank() < M.nrows()) c.ev("rank-deficient");
  const auto &b = M.precs().back();
  if (b.m == b.n) c.ev("ends-without-dense");
  if (!b.symm_dense_solver.empty()) c.ev("symmetric-dense-end");
}

// ---------------------------------------------------------------------- C06
// watches regions of memory across calls
struct Watch {
  struct Reg {
    std::string n;
    const void *p;
    size_t      l;
    uint64_t    h;
  };
  std::vector<Reg> v;
  static uint64_t  hash(const void *p, size_t l) {
    Hash h;
    h.bytes(p, l);
    return h.h;
  }
  void add(const std::string &n, const void *p, size_t l) { v.push_back({n, p, l, hash(p, l)}); }
  template <class A>
  void arr(const std::string &n, const A &a) {
    if (a.size()) add(n, a.data(), a.size() * sizeof(*a.data()));
  }
  template <class Cs>
  void cs(const std::string &n, const Cs &A) {
    arr(n + ".ind_start", A.ind_start());
    arr(n + ".inds", A.inds());
    arr(n + ".vals", A.vals());
    add(n + ".object", &A, sizeof A);
  }
  void check(Ctx &c, const char *after) {
    for (auto &r : v) c.expect(hash(r.p, r.l) == r.h, std::string("input-modified:") + r.n, std::string("after ") + after);
  }
};
static void zero_params(hif::Params &dst, const hif::Params &src) {
  memset((void *)&dst, 0, sizeof dst);
  dst = src;
}
template <class Cs, class HH>
static void c06(Ctx &c, Rng &r, const Case &k, Cs &A, HH &M, bool ptr) {
  hif::Params p;
  zero_params(p, k.p);
  Watch w;
  w.cs("matrix", A);
  w.add("params", &p, sizeof p);
  bool threw = false;
  try {
    if (ptr)
      M.template factorize<Cs::ROW_MAJOR>(A.nrows(), A.ind_start().data(), A.inds().data(), A.vals().data(), p, k.m0);
    else
      M.factorize(A, p, k.m0);
  } catch (const std::exception &) {
    threw = true;
  }
  w.check(c, threw ? "failed factorization" : "factorization");
  c.ev(threw ? "failed-factorization" : "factorization");
  if (threw || M.empty()) return;
  const size_t  n = k.A.n;
  hif::Array<T> b = arr(gen_vec<T>(r, (int)n)), x(n), y(n);
  double        betas[2] = {1e-3, 1e3};
  w.arr("rhs", b);
  w.add("betas", betas, sizeof betas);
  const uint64_t dg = digest(M);
  for (int q = 0; q < 6; ++q) {
    std::string nm;
    try {
      switch (r.in(0, 5)) {
        case 0:
          nm = "solve";
          M.solve(b, x, r.chance(.5), (size_t)r.pick({0, 0, 1, 3}));
          break;
        case 1:
          nm = "mmultiply";
          M.mmultiply(b, x, r.chance(.5), (size_t)r.pick({0, 0, 1, 3}));
          break;
        case 2:
          if (A.ind_start()[0]) break;
          nm = "hifir";
          M.hifir(A, b, (size_t)r.in(1, 4), x, r.chance(.5));
          break;
        case 3:
          if (A.ind_start()[0]) break;
          nm = "hifir-bounded";
          M.hifir(A, b, (size_t)r.in(1, 6), betas, x, r.chance(.5));
          break;
        case 4: {
          nm = "solve_mrhs";
          hif::Array<std::array<T, 3>> B(n), X(n);
          for (size_t i = 0; i < n; ++i)
            for (int j = 0; j < 3; ++j) B[i][j] = T(j + 1) * b[i];
          Watch w2;
          w2.arr("block-rhs", B);
          M.solve_mrhs(B, X);
          w2.check(c, "solve_mrhs");
          break;
        }
        case 5: {
          nm = "failing-solve";
          hif::Array<T> bad(n + 1);
          M.solve(bad, x);
          c.fail("size-mismatch-accepted", "");
          break;
        }
      }
    } catch (const std::exception &e) {
      if (nm != "failing-solve") c.fail("unexpected-exception", nm + ": " + e.what());
    }
    if (nm.empty()) continue;
    w.check(c, nm.c_str());
    c.ev(nm);
  }
  c.expect(digest(M) == dg, "levels-modified-by-use", "");
  c.nontrivial(k.A.hash() ^ dg);
}
static void run_c06(Ctx &c, Rng &r) {
  Case k    = make(c, r, c.thorough ? 90 : 50);
  int  base = r.chance(.3), how = (int)r.in(0, 5);
  if (r.chance(.15)) {  // make some factorizations fail
    int w = (int)r.in(0, 3);
    c.desc += fmt(" broken=%d", w);
    if (w == 0 && k.A.nnz()) k.A.val[r.in(0, k.A.nnz() - 1)] = T(std::numeric_limits<R>::quiet_NaN());
    if (w == 1 && k.A.nnz()) k.A.ind[r.in(0, k.A.nnz() - 1)] = k.A.n + 3;
    if (w == 2) k.m0 = k.A.n + 5;
    if (w == 3) {
      k.A.n += 1;
    }
  }
  c.desc += fmt(" base=%d how=%d", base, how);
  const bool bad_index = c.desc.find("broken=1") != std::string::npos || c.desc.find("broken=3") != std::string::npos;
  if (bad_index && how % 2) how--;  // Csr::transpose of the generator needs valid indices
  c.ev(base ? "one-based" : "zero-based");
  const bool sq = k.A.m == k.A.n;
  H          M;
  if (how == 0) {
    auto A = mk_crs(k.A, base);
    c06(c, r, k, A, M, false);
  } else if (how == 1) {
    auto A = mk_ccs(k.A, base);
    c06(c, r, k, A, M, false);
  } else if (how == 2) {
    auto A = mk_crs(k.A, base);
    c06(c, r, k, A, M, sq);
  } else if (how == 3) {
    auto A = mk_ccs(k.A, base);
    c06(c, r, k, A, M, sq);
  } else if (how == 4) {
    auto                A = mk_crs<T, int, int>(k.A, base);
    hif::HIF<T, int, int> M2;
    c06(c, r, k, A, M2, false);
  } else {
    // other precision
    Csr<OT> B;
    B.m = k.A.m, B.n = k.A.n, B.ptr = k.A.ptr, B.ind = k.A.ind;
    for (auto &v : k.A.val) B.val.push_back(down<OT>(up(v)));
    auto  A = mk_ccs(B, base);
    Watch w;
    w.cs("matrix", A);
    hif::Params p;
    zero_params(p, k.p);
    w.add("params", &p, sizeof p);
    try {
      M.factorize(A, p, k.m0);
    } catch (const std::exception &) {
    }
    w.check(c, "factorization of another precision");
  }
}

// ---------------------------------------------------------------------- C07
struct Trace {
  uint64_t                 dg = 0;
  std::vector<cvec>        out;
  std::vector<std::string> nm;
};
struct Script {
  struct Op {
    int    what;
    bool   tr;
    size_t rk;
    int    N;
    std::vector<T> b;
  };
  std::vector<Op> ops;
};
template <class M>
static void exec_op(M &h, const Case &k, const Script::Op &o, Hash &d) {
  const size_t  n = k.A.n;
  hif::Array<T> b = arr(o.b), x(n);
  for (size_t i = 0; i < n; ++i) x[i] = T(9);
  double betas[2] = {1e-4, 1e2};
  if (o.what == 0)
    h.solve(b, x, o.tr, o.rk);
  else if (o.what == 1)
    h.mmultiply(b, x, o.tr, o.rk);
  else if (o.what == 2) {
    auto A = mk_crs(k.A);
    h.hifir(A, b, o.N, x, o.tr);
  } else if (o.what == 3) {
    auto A = mk_crs(k.A);
    auto s = h.hifir(A, b, o.N, betas, x, o.tr);
    d.pod((uint64_t)s.first);
    d.pod(s.second);
  } else {
    hif::Array<std::array<T, 4>> B(n), X(n);
    for (size_t i = 0; i < n; ++i)
      for (int j = 0; j < 4; ++j) B[i][j] = b[i] * T(j - 1);
    h.solve_mrhs(B, X, o.rk);
    d.vec(X);
    return;
  }
  d.vec(x);
}
template <class HH>
static void dirty(Ctx &c, Rng &r, HH &M, int rounds) {
  for (int q = 0; q < rounds; ++q) {
    Case k2 = make(c, r, 60);
    int  w  = (int)r.in(0, 6);
    c.ev(fmt("history-%d", w));
    try {
      if (w == 0) {
        M.clear();
        continue;
      }
      if (w == 1 || w == 2) {  // a failing build
        if (w == 1) {
          k2.A.n += 1;
          auto A = mk_crs(k2.A);
          M.factorize(A, k2.p);
        } else {
          auto A = mk_crs(k2.A);
          if (A.nnz()) A.vals()[A.nnz() - 1] = T(std::numeric_limits<R>::infinity());
          M.factorize(A, k2.p, 0);
        }
        continue;
      }
      fac(M, k2.A, k2.p, k2.m0, r.chance(.5));
      if (w >= 4)
        for (int z = 0; z < 4; ++z) {
          Script::Op o;
          o.what = (int)r.in(0, 4);
          o.tr   = r.chance(.5);
          o.rk   = (size_t)r.in(0, 3);
          o.N    = (int)r.in(1, 4);
          o.b    = gen_vec<T>(r, k2.A.n);
          Hash d;
          exec_op(M, k2, o, d);
        }
      if (w == 6) M.precs().clear();
    } catch (const std::exception &) {
      c.ev("history-failure");
    }
  }
}
// what one process does for a case of C07: build once, operate in some order
static Case c07_case(Ctx &c, Rng &r, Script &s, bool &ccs) {
  Case k  = make(c, r, c.thorough ? 100 : 56);
  int    no = (int)r.in(3, 8);
  for (int i = 0; i < no; ++i) {
    Script::Op o;
    o.what = (int)r.in(0, 4);
    o.tr   = r.chance(.5);
    o.rk   = (size_t)r.pick({0, 0, 1, 2, 1000});
    o.N    = (int)r.in(1, 5);
    o.b    = gen_vec<T>(r, k.A.n);
    s.ops.push_back(o);
  }
  ccs = r.chance(.3);
  return k;
}
static uint64_t c07_trace(Ctx &c, H &M, const Case &k, const Script &s, bool ccs, const std::vector<int> &order, std::vector<uint64_t> &out) {
  out.assign(s.ops.size(), 0);
  try {
    fac(M, k.A, k.p, k.m0, ccs);
  } catch (const std::exception &e) {
    Hash h;
    for (const char *p = e.what(); *p; ++p) h.pod(*p);
    c.ev("build-fails");
    return h.h;
  }
  for (int i : order) {
    Hash d;
    try {
      exec_op(M, k, s.ops[i], d);
    } catch (const std::exception &) {
      d.pod(12345);
    }
    out[i] = d.h;
  }
  return digest(M);
}
// A process that has never used the library: it forks one child per request,
// so that every answer is the very first use of the library in its process.
struct Pristine {
  int to = -1, from = -1;
  Pristine(Ctx &c, uint64_t salt) {
    int a[2], b[2];
    if (pipe(a) || pipe(b)) return;
    const pid_t p = fork();
    if (p < 0) return;
    if (p) {
      close(a[0]);
      close(b[1]);
      to   = a[1];
      from = b[0];
      return;
    }
    close(a[1]);
    close(b[0]);
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    long i;
    while (read(a[0], &i, sizeof i) == (ssize_t)sizeof i) {
      const pid_t q = fork();
      if (!q) {
        alarm(120);
        Ctx                   c2;
        Rng                   r(c.seed, salt, (uint64_t)i);
        Script                s;
        bool                  ccs;
        std::vector<uint64_t> out;
        c2.thorough = c.thorough;
        Case             k = c07_case(c2, r, s, ccs);
        std::vector<int> seq(s.ops.size());
        for (size_t z = 0; z < seq.size(); ++z) seq[z] = (int)z;
        H M;
        uint64_t d = c07_trace(c2, M, k, s, ccs, seq, out);
        out.insert(out.begin(), {(uint64_t)out.size(), d});
        if (write(b[1], out.data(), out.size() * 8) < 0) _exit(1);
        _exit(0);
      }
      int st = 0;
      waitpid(q, &st, 0);
      if (!WIFEXITED(st) || WEXITSTATUS(st)) {
        uint64_t bad[2] = {~(uint64_t)0, (uint64_t)st};
        if (write(b[1], bad, sizeof bad) < 0) break;
      }
    }
    _exit(0);
  }
  bool get(void *p, size_t n) {
    char *q = (char *)p;
    while (n) {
      ssize_t g = read(from, q, n);
      if (g <= 0) return false;
      q += g;
      n -= g;
    }
    return true;
  }
  // 1 answered, 0 not available, -1 died
  int ask(long i, uint64_t &d, std::vector<uint64_t> &out) {
    uint64_t h[2];
    if (to < 0 || write(to, &i, sizeof i) != (ssize_t)sizeof i || !get(h, sizeof h)) return 0;
    if (h[0] == ~(uint64_t)0) return -1;
    d = h[1];
    out.resize(h[0]);
    return get(out.data(), h[0] * 8);
  }
};
static void run_c07(Ctx &c, Rng &r) {
  vary_cond = true;
  static Pristine pristine(c, SALT);
  Script s;
  bool   ccs;
  Case   k = c07_case(c, r, s, ccs);
  const std::string desc = c.desc;
  auto trace = [&](H &M, const std::vector<int> &order, std::vector<uint64_t> &out) { return c07_trace(c, M, k, s, ccs, order, out); };
  std::vector<int> seq(s.ops.size());
  for (size_t i = 0; i < seq.size(); ++i) seq[i] = (int)i;
  std::vector<uint64_t> ref, o2;
  uint64_t              d0;
  mallopt(M_PERTURB, 0);
  {
    H M;
    d0 = trace(M, seq, ref);
    if (!M.empty()) ev_shape(c, M);
  }
  c.nontrivial(d0);
  // 0. the same in a process that has not used the library before
  {
    uint64_t  d;
    const int g = pristine.ask(c.cur, d, o2);
    if (c.expect(g >= 0, "fresh-process-dies") && g) {
      c.expect(d == d0, "levels-depend-on-the-process");
      c.expect(o2 == ref, "results-depend-on-the-process");
      c.ev("judged-fresh-process");
    }
  }
  // 1. same again on other heap contents, a fresh object
  static const int pert[] = {0x5a, 0xff, 0x01, 0x80};
  mallopt(M_PERTURB, pert[r.in(0, 3)]);
  {
    H M;
    uint64_t d = trace(M, seq, o2);
    c.desc     = desc;
    c.expect(d == d0, "levels-depend-on-memory-contents");
    c.expect(o2 == ref, "results-depend-on-memory-contents");
    // refactorize the same: identical
    d = trace(M, seq, o2);
    c.expect(d == d0, "rebuilding-changes-levels");
    c.expect(o2 == ref, "rebuilding-changes-results");
    c.ev("judged-fresh");
  }
  // 2. an object with a history, operations in another order, other live objects
  mallopt(M_PERTURB, pert[r.in(0, 3)]);
  {
    H    M, other;
    Case ko = make(c, r, 50);
    try {
      fac(other, ko.A, ko.p, ko.m0);
    } catch (const std::exception &) {
    }
    dirty(c, r, M, (int)r.in(1, 4));
    r.shuffle(seq);
    c.desc     = desc;
    uint64_t d = trace(M, seq, o2);
    c.expect(d == d0, "levels-depend-on-history");
    c.expect(o2 == ref, "results-depend-on-history");
    uint64_t before = digest(M);
    Script::Op o    = s.ops[0];
    if (!M.empty()) {
      uint64_t od = other.empty() ? 0 : digest(other);
      dirty(c, r, other, 1);
      c.desc = desc;
      (void)od;
      Hash h;
      try {
        exec_op(M, k, o, h);
      } catch (const std::exception &) {
        h.pod(12345);
      }
      c.expect(h.h == ref[0] && digest(M) == before, "results-depend-on-other-object");
    }
    c.ev("judged-history");
  }
  mallopt(M_PERTURB, 0);
  if (c.samples.size() < 3) c.sample(c.desc + fmt(" operations=%zu digest=%llx", s.ops.size(), (unsigned long long)d0));
}

// ---------------------------------------------------------------------- C08
template <class X>
static bool wellposed_bits(const X &) {
  return true;
}
static void run_c08(Ctx &c, Rng &r) {
  const bool nd = r.chance(.3);
  Case       k  = make(c, r, c.thorough ? 80 : 48, nd ? G_NONSING : G_ANY, nd ? 1.0 : 0.1);
  if (k.A.kind.find("stored_zeros") == std::string::npos && r.chance(.0)) return;
  const size_t   n = k.A.n;
  std::vector<T> v = gen_vec<T>(r, (int)n);
  H              M0;
  auto           A0 = mk_crs(k.A);
  M0.factorize(A0, k.p, k.m0);
  ev_shape(c, M0);
  const uint64_t d0 = digest(M0);
  cvec           x0 = app(M0, v, 0, 0), y0 = app(M0, v, 2, 0), z0 = app(M0, v, 1, 0);
  auto           same = [](const cvec &a, const cvec &b) {
    for (size_t i = 0; i < a.size(); ++i)
      if (!(a[i] == b[i]) && !(std::isnan((double)std::abs(a[i])) && std::isnan((double)std::abs(b[i])))) return false;
    return a.size() == b.size();
  };
  auto judge = [&](const char *nm, uint64_t d, const cvec &x, const cvec &y, const cvec &z) {
    c.ev(std::string("form:") + nm);
    c.expect(d == d0, std::string("levels-differ:") + nm);
    c.expect(same(x, x0) && same(y, y0) && same(z, z0), std::string("results-differ:") + nm);
  };
#define JUDGE(nm, M) judge(nm, digest(M), app(M, v, 0, 0), app(M, v, 2, 0), app(M, v, 1, 0))
  // --- the same rows handed over in other ways: bitwise the same preconditioner
  {
    H    M;
    auto A = mk_crs(k.A, 1);
    M.factorize(A, k.p, k.m0);
    JUDGE("crs-one-based", M);
  }
  {
    H M;
    M.factorize(hif::CRS<T, int>(k.A.n, k.A.n, k.A.ptr.data(), k.A.ind.data(), k.A.val.data(), true), k.p, k.m0);
    JUDGE("crs-wrapped", M);
  }
  {
    H M;
    M.template factorize<true>(n, k.A.ptr.data(), k.A.ind.data(), k.A.val.data(), k.p, k.m0);
    JUDGE("crs-pointers", M);
  }
  {
    H                M;
    std::vector<int> p(k.A.ptr.begin(), k.A.ptr.end());
    M.template factorize<true>(n, p.data(), k.A.ind.data(), k.A.val.data(), k.p, k.m0);
    JUDGE("crs-pointers-int-offsets", M);
  }
  if (k.A.nnz()) {
    H    M;
    auto A = mk_crs(k.A, 1);
    M.template factorize<true>(n, A.row_start().data(), A.col_ind().data(), A.vals().data(), k.p, k.m0);
    JUDGE("crs-pointers-one-based", M);
  }
  {
    hif::HIF<T, int, int> M;
    auto                  A = mk_crs<T, int, int>(k.A);
    M.factorize(A, k.p, k.m0);
    JUDGE("crs-int-offsets", M);
  }
  {
    hif::HIF<T, long> M;
    auto              A = mk_crs<T, long>(k.A);
    M.factorize(A, k.p, k.m0);
    JUDGE("crs-long-indices", M);
  }
  // --- by columns
  H    Mc;
  auto Ac = mk_ccs(k.A);
  Mc.factorize(Ac, k.p, k.m0);
  const uint64_t dc = digest(Mc);
  {
    const uint64_t sd = d0;
    const cvec     sx = x0, sy = y0, sz = z0;
    auto           B  = k.A.transpose();
    cvec           xc = app(Mc, v, 0, 0), yc = app(Mc, v, 2, 0), zc = app(Mc, v, 1, 0);
    auto judge2 = [&](const char *nm, uint64_t d, const cvec &x, const cvec &y, const cvec &z) {
      c.ev(std::string("form:") + nm);
      c.expect(d == dc, std::string("levels-differ:") + nm);
      c.expect(same(x, xc) && same(y, yc) && same(z, zc), std::string("results-differ:") + nm);
    };
#define JUDGE2(nm, M) judge2(nm, digest(M), app(M, v, 0, 0), app(M, v, 2, 0), app(M, v, 1, 0))
    {
      H    M;
      auto A = mk_ccs(k.A, 1);
      M.factorize(A, k.p, k.m0);
      JUDGE2("ccs-one-based", M);
    }
    {
      H M;
      M.factorize(hif::CCS<T, int>(k.A.n, k.A.n, B.ptr.data(), B.ind.data(), B.val.data(), true), k.p, k.m0);
      JUDGE2("ccs-wrapped", M);
    }
    {
      H M;
      M.template factorize<false>(n, B.ptr.data(), B.ind.data(), B.val.data(), k.p, k.m0);
      JUDGE2("ccs-pointers", M);
    }
    {
      H                M;
      std::vector<int> p(B.ptr.begin(), B.ptr.end());
      M.template factorize<false>(n, p.data(), B.ind.data(), B.val.data(), k.p, k.m0);
      JUDGE2("ccs-pointers-int-offsets", M);
    }
    {
      H    M;
      hif::CCS<T, int> Aconv(A0);  // converted by the library
      M.factorize(Aconv, k.p, k.m0);
      JUDGE2("ccs-converted", M);
    }
    if (dc == d0)
      c.ev("rows-and-columns-bitwise-equal");
    else
      c.ev("rows-and-columns-differ");
    // both describe the same system: without dropping both invert the same matrix
    bool  ok = true, ok2 = true;
    Dense Dr = dense_M(M0, ok), Dc = dense_M(Mc, ok2);
    if (nd && ok && ok2 && M0.rank() == n && Mc.rank() == n) {
      Dense  a = k.A.dense(), X;
      double kap = invert(a, X) ? (double)(a.fro() * X.fro()) : 1e300;
      double g   = std::max(level_growth(M0), level_growth(Mc));
      double tol = 1e3 * EPS * g;
      if (tol < 1e-3) {
        c.ev("judged-rows-vs-columns");
        c.near((double)((Dr - a).fro() / a.fro()), std::max(tol, 2e4 * EPS) * (k.A.kind.find("badscale") != std::string::npos || k.m0 ? 1e3 : 1), "rows-describe-matrix");
        c.near((double)((Dc - a).fro() / a.fro()), std::max(tol, 2e4 * EPS) * (k.A.kind.find("badscale") != std::string::npos || k.m0 ? 1e3 : 1), "columns-describe-matrix");
      }
      (void)kap;
    }
    c.mx("rows-vs-columns", (double)((Dr - Dc).fro() / (Dr.fro() + 1e-300L)));
  }
  c.nontrivial(d0 ^ dc);
  // --- a matrix given in the other precision is the converted matrix
  {
    Csr<OT> B;
    B.m = k.A.m, B.n = k.A.n, B.ptr = k.A.ptr, B.ind = k.A.ind;
    for (auto &q : k.A.val) B.val.push_back(down<OT>(up(q)));
    H M1, M2;
    auto Bo = mk_crs(B);
    M1.factorize(Bo, k.p, k.m0);
    Csr<T> C = k.A;
    for (size_t i = 0; i < C.val.size(); ++i) C.val[i] = down<T>(up(B.val[i]));
    auto Cc = mk_crs(C);
    M2.factorize(Cc, k.p, k.m0);
    c.expect(digest(M1) == digest(M2), "levels-differ:other-precision");
    c.ev("form:other-precision");
    auto Bb = mk_crs(B, 1);
    M1.factorize(Bb, k.p, k.m0);
    c.expect(digest(M1) == digest(M2), "levels-differ:other-precision-one-based");
    M1.template factorize<true>(n, B.ptr.data(), B.ind.data(), B.val.data(), k.p, k.m0);
    c.expect(digest(M1) == digest(M2), "levels-differ:other-precision-pointers");
  }
  // --- vectors in the other precision see the same operator
  Dense G = op(M0, n, 0, 0), P = op(M0, n, 2, 0);
  if (G.finite() && P.finite()) {
    double eps = std::max(EPS, epsof<OT>()), kap = (double)(G.fro() * P.fro());
    double gr = level_growth(M0), tol = 2e3 * eps * std::max(kap, gr);
    if (tol < 2e-2 && gr < 1e6) {
      std::vector<OT> u(n);
      for (size_t i = 0; i < n; ++i) u[i] = down<OT>(up(v[i]));
      cvec x = upv(u);
      for (int w = 0; w < 4; ++w) {
        Dense &D  = w < 2 ? G : P;
        cvec   a = app(M0, u, w, 0), ref = mv(w % 2 ? D.H() : D, x);
        if (nrminf(a) < 1e30)
          c.near((double)(nrm2(a - ref) / (D.fro() * nrm2(x) + 1e-300L)), tol, fmt("other-precision-vectors-%d", w));
      }
      c.ev("judged-other-precision-vectors");
    }
  }
  if (c.samples.size() < 3) c.sample(c.desc);
}

// ---------------------------------------------------------------------- C09
template <class V, size_t N, class M>
static void mr(Ctx &c, Rng &r, const M &h, const Dense &G, size_t n, size_t rk, double tol, double kap) {
  hif::Array<std::array<V, N>> B(n), X(n);
  std::vector<std::vector<V>>  cols(N);
  for (size_t j = 0; j < N; ++j) {
    cols[j] = gen_vec<V>(r, (int)n, 1);
    if (r.chance(.1)) std::fill(cols[j].begin(), cols[j].end(), V(0));
    if (r.chance(.1))
      for (auto &q : cols[j]) q *= V(1e4);
    for (size_t i = 0; i < n; ++i) B[i][j] = cols[j][i], X[i][j] = V(5);
  }
  h.solve_mrhs(B, X, rk);
  c.ev(fmt("width=%zu", N));
  for (size_t j = 0; j < N; ++j) {
    cvec a(n), x = upv(cols[j]);
    for (size_t i = 0; i < n; ++i) a[i] = up(X[i][j]);
    cvec one = app(h, cols[j], 0, rk);
    if (nrm2(x) == 0) {
      c.expect(nrminf(a) == 0, "zero-column");
      continue;
    }
    c.near((double)(nrm2(a - one) / (G.fro() * nrm2(x))), tol, "block-column-vs-single-vector", fmt("width=%zu col=%zu rk=%zu cond=%g", N, j, rk, kap));
  }
}
static void run_c09(Ctx &c, Rng &r) {
  Case k = make(c, r, c.thorough ? 90 : 50);
  H    M;
  fac(M, k.A, k.p, k.m0, r.chance(.3));
  ev_shape(c, M);
  const size_t n  = k.A.n;
  size_t       ss = M.schur_size(), rk = 0;
  for (int q = 0; q < 4; ++q) {
    if (q && ss && r.chance(.5))
      rk = (size_t)r.in(1, (int64_t)std::max<size_t>(1, M.schur_rank()));
    else
      rk = 0;
    Dense  G = op(M, n, 0, rk), P = op(M, n, 2, rk);
    double kap = (double)(G.fro() * P.fro()), tol = 2e3 * EPS * kap;
    if (!G.finite() || !(tol < 2e-2) || !(G.fro() > 0)) {
      c.ev("skipped-illconditioned");
      return;
    }
    if (M.rank() < n && level_growth(M) > 1e6) {
      c.ev("skipped-noise-amplified");
      return;
    }
    c.ev("judged");
    if (rk) c.ev("explicit-rank");
    switch (r.in(0, 7)) {
      case 0: mr<T, 1>(c, r, M, G, n, rk, tol, kap); break;
      case 1: mr<T, 2>(c, r, M, G, n, rk, tol, kap); break;
      case 2: mr<T, 3>(c, r, M, G, n, rk, tol, kap); break;
      case 3: mr<T, 4>(c, r, M, G, n, rk, tol, kap); break;
      case 4: mr<T, 5>(c, r, M, G, n, rk, tol, kap); break;
      case 5: mr<T, 8>(c, r, M, G, n, rk, tol, kap); break;
      case 6: mr<T, 16>(c, r, M, G, n, rk, tol, kap); break;
      case 7: {
        double t2 = 2e3 * std::max(EPS, epsof<OT>()) * kap;
        if (t2 < 2e-2) {
          c.ev("other-precision");
          mr<OT, 3>(c, r, M, G, n, rk, t2, kap);
        }
        break;
      }
    }
  }
  c.nontrivial(k.A.hash() ^ M.nnz());
  if (c.samples.size() < 3) c.sample(c.desc + fmt(" levels=%zu", M.levels()));
}

// ------------------------------------------------------------------ C10/C13
// user operators and filters observed by the monitors
struct UserFilter : hif::NspFilter {
  mutable long        calls = 0, bad = 0;
  std::vector<double> w;  // unit vector
  explicit UserFilter(const std::vector<double> &u) : w(u) { _type = USER_OR; }
  void user_filter(void *x, const std::size_t n, const char s) const override {
    ++calls;
    if (n != w.size() || s != hif::ValueTypeTrait<T>::signature) {
      ++bad;
      return;
    }
    apply(x, w);
  }
  static void apply(void *p, const std::vector<double> &w) {
    T * x = (T *)p;
    cld s = 0;
    for (size_t i = 0; i < w.size(); ++i) s += (ld)w[i] * up(x[i]);
    for (size_t i = 0; i < w.size(); ++i) x[i] = down<T>(up(x[i]) - s * (ld)w[i]);
  }
};
struct Filt {
  int                 mode = -1;  // -1 none 0 const 1 callback 2 virtual
  size_t              a = 0, b = 0;
  std::vector<double> w;
  long                calls = 0, bad = 0;
  std::shared_ptr<hif::NspFilter> p;
  cvec project(const cvec &x) const {
    cvec y = x;
    if (mode == 0) {
      if (b > a) {
        cld s = 0;
        for (size_t i = a; i < b; ++i) s += x[i];
        s /= (ld)(b - a);
        for (size_t i = a; i < b; ++i) y[i] -= s;
      }
    } else if (mode > 0) {
      cld s = 0;
      for (size_t i = 0; i < w.size(); ++i) s += (ld)w[i] * x[i];
      for (size_t i = 0; i < w.size(); ++i) y[i] -= s * (ld)w[i];
    }
    return y;
  }
  long seen() const { return mode == 2 ? ((UserFilter *)p.get())->calls : calls; }
  long wrong() const { return mode == 2 ? ((UserFilter *)p.get())->bad : bad; }
  void make(Rng &r, size_t n) {
    mode = (int)r.in(0, 3);
    if (mode == 3) mode = 0;
    if (mode == 0) {
      int w = (int)r.in(0, 4);
      a = 0, b = n;
      if (w == 0)
        p = std::make_shared<hif::NspFilter>();
      else if (w == 1) {
        a = (size_t)r.in(0, n);
        p = std::make_shared<hif::NspFilter>(a);
      } else if (w == 2) {
        a = (size_t)r.in(0, n), b = (size_t)r.in(a, n);
        p = std::make_shared<hif::NspFilter>(a, b);
      } else if (w == 3) {
        p = hif::create_nsp_filter();
        a = (size_t)r.in(0, n), b = (size_t)r.in(a, n);
        p->set_nsp_const(a, b);
      } else {
        a = (size_t)r.in(1, n), b = n;  // an end before the start means the full remainder
        p = std::make_shared<hif::NspFilter>(a, a - 1);
      }
    } else {
      w.resize(n);
      double s = 0;
      for (auto &q : w) q = r.uni(-1, 1), s += q * q;
      for (auto &q : w) q /= std::sqrt(s);
      if (mode == 2)
        p = std::make_shared<UserFilter>(w);
      else {
        auto f = [this](void *x, const std::size_t n, const char s) {
          ++calls;
          if (n != w.size() || s != hif::ValueTypeTrait<T>::signature)
            ++bad;
          else
            UserFilter::apply(x, w);
        };
        if (r.chance(.5))
          p = std::make_shared<hif::NspFilter>(hif::NspFilter::user_cb_type(f));
        else {
          p = hif::create_nsp_filter();
          p->set_nsp_callback(f);
        }
      }
    }
  }
};
static bool eqv(ld a, ld b) { return a == b || (std::isnan(a) && std::isnan(b)); }
static void run_c13(Ctx &c, Rng &r) {
  Case k = make(c, r, c.thorough ? 80 : 40);
  H    M;
  fac(M, k.A, k.p, k.m0);
  ev_shape(c, M);
  const size_t n = k.A.n;
  Filt         L, Rr;
  const bool   left = r.chance(.6), right = !left || r.chance(.7);
  auto         v   = gen_vec<T>(r, (int)n);
  const size_t rk  = M.schur_size() > 1 && r.chance(.3) ? (size_t)r.in(1, std::max<int64_t>(1, M.schur_rank())) : 0;
  cvec         raw[4];
  for (int w = 0; w < 4; ++w) raw[w] = app(M, v, w, rk);
  if (right) {
    Rr.make(r, n);
    M.nsp = Rr.p;
  }
  if (left) {
    L.make(r, n);
    M.nsp_tran = L.p;
  }
  c.ev(fmt("right-filter-%d", Rr.mode));
  c.ev(fmt("left-filter-%d", L.mode));
  c.desc += fmt(" right=%d[%zu,%zu) left=%d[%zu,%zu)", Rr.mode, Rr.a, Rr.b, L.mode, L.a, L.b);
  for (int w = 0; w < 4; ++w) {
    long cr = Rr.p ? Rr.seen() : 0, cl = L.p ? L.seen() : 0;
    cvec x = app(M, v, w, rk);
    cvec ref = w == 0 ? Rr.project(raw[0]) : w == 1 ? L.project(raw[1]) : raw[w];
    if (nrminf(raw[w]) < 1e30) {
      c.near((double)nrm2(x - ref), 4 * n * EPS * (double)nrm2(raw[w]) + 1e-300, w < 2 ? "filtered-solve" : "product-with-filter-attached", fmt("what=%d", w));
      c.ev("judged");
    }
    if (Rr.mode > 0) c.expect(Rr.seen() - cr == (w == 0), "filter-call-count", fmt("what=%d calls=%ld", w, Rr.seen() - cr));
    if (L.mode > 0) c.expect(L.seen() - cl == (w == 1), "left-filter-call-count", fmt("what=%d calls=%ld", w, L.seen() - cl));
  }
  c.expect(!(Rr.p && Rr.wrong()) && !(L.p && L.wrong()), "filter-arguments", "callback got a wrong length or type tag");
  // refinement applies the filter in every step: same recurrence with the filtered solve
  {
    auto          A = mk_crs(k.A);
    hif::Array<T> b = arr(v), x(n);
    const bool    tr = r.chance(.4);
    const int     N  = (int)r.in(1, 4);
    const size_t  r2 = rk ? rk : (size_t)-1;
    std::vector<T> xk(n, T(0));
    bool           fin = true;
    for (int s = 0; s < N; ++s) {
      std::vector<T> res(n);
      cvec           ax = tr ? k.A.mulH(upv(xk)) : k.A.mul(upv(xk));
      for (size_t i = 0; i < n; ++i) res[i] = down<T>(up(v[i]) - ax[i]);
      if (N == 1) res = v;
      cvec g = app(M, res, tr, r2);
      if (!(nrminf(g) < 1e8 * (1 + nrminf(upv(v))))) fin = false;
      for (size_t i = 0; i < n; ++i) xk[i] = down<T>(up(xk[i]) + g[i]);
    }
    if (fin) {
      Dense G = op(M, n, tr, r2), a = k.A.dense();
      ld    q = G.fro() * (tr ? a.H() : a).fro();
      ld    tol = EPS * 1e2 * n * std::pow(1 + q, (ld)N) * nrm2(upv(v)) * (G.fro() + 1);
      if (tol < 1e-3 * (nrm2(upv(xk)) + 1e-30L)) {
        M.hifir(A, b, N, x, tr, r2);
        c.near((double)nrm2(upa(x) - upv(xk)), (double)tol, "filtered-refinement");
        c.ev("judged-refinement");
      }
    }
  }
  // several right-hand sides cannot be filtered: must be refused, never silently unfiltered
  if (right) {
    hif::Array<std::array<T, 2>> B(n), X(n);
    for (size_t i = 0; i < n; ++i) B[i][0] = v[i], B[i][1] = -v[i];
    bool threw = false;
    try {
      M.solve_mrhs(B, X, rk);
    } catch (const std::exception &) {
      threw = true;
    }
    if (!threw) {
      cvec a(n);
      for (size_t i = 0; i < n; ++i) a[i] = up(X[i][0]);
      c.near((double)nrm2(a - Rr.project(raw[0])), 1e4 * n * EPS * (double)nrm2(raw[0]) + 1e-300, "block-solve-ignores-filter");
    } else
      c.ev("block-solve-refused");
  }
  // wrong ranges are reported
  if (r.chance(.3)) {
    M.nsp = std::make_shared<hif::NspFilter>(r.chance(.5) ? 0 : n + 1, n + 2);
    bool threw = false;
    try {
      app(M, v, 0, rk);
    } catch (const std::exception &) {
      threw = true;
    }
    c.expect(threw, "filter-range-not-checked");
    c.ev("wrong-range");
  }
  // detaching restores the plain operation bit for bit
  if (r.chance(.5)) {
    M.nsp.reset();
    M.nsp_tran.reset();
  } else {
    M.clear();
    c.expect(!M.nsp && !M.nsp_tran, "filter-survives-clear");
    fac(M, k.A, k.p, k.m0);
  }
  for (int w = 0; w < 4; ++w) {
    cvec x = app(M, v, w, rk);
    bool same = true;
    for (size_t i = 0; i < n; ++i)
      if (!eqv(x[i].real(), raw[w][i].real()) || !eqv(x[i].imag(), raw[w][i].imag())) same = false;
    c.expect(same, "filter-removal");
  }
  c.nontrivial(k.A.hash() ^ (uint64_t)(Rr.mode + 7 * L.mode) ^ (Rr.a << 20) ^ (Rr.b << 30));
  if (c.samples.size() < 3) c.sample(c.desc);
}

template <class M, class V, class F>
static void c10_one(Ctx &c, Rng &r, const M &h, const Case &k, const Csr<V> &Av, F refine_op, const char *form) {
  const size_t n = k.A.n;
  const bool   tr = r.chance(.4);
  size_t       rk = (size_t)r.pick({(int)-1, (int)-1, 0, 1});
  if (rk == 1) rk = h.schur_size() ? (size_t)r.in(1, (int64_t)std::max<size_t>(1, h.schur_size())) : 0;
  const double eps = std::max(EPS, epsof<V>());
  Dense        G   = op(h, n, tr, rk), a = Av.dense();
  if (tr) a = a.H();
  if (!G.finite()) {
    c.ev("skipped-not-finite");
    return;
  }
  Dense     E = Dense::eye(n) - G * a;
  const ld  q = singvals(E).empty() ? 0 : singvals(E)[0], qa = G.fro() * a.fro();
  const ld  noise = 50 * eps * std::max(qa, (ld)level_growth(h));
  if (!(noise < 1e-3)) {
    c.ev("skipped-illconditioned");
    return;
  }
  std::vector<V> b = gen_vec<V>(r, (int)n, 1);
  if (r.chance(.04)) std::fill(b.begin(), b.end(), V(0));
  const int NM = (int)r.in(2, 9);
  // reference recurrence in extended precision with the executed operator G;
  // err[k] bounds the rounding the executed iteration may have accumulated
  std::vector<cvec> xs;
  std::vector<ld>   err, res;
  cvec              x(n, cld(0, 0)), bb = upv(b);
  ld                e  = 0;
  const ld          bn = nrm2(bb);
  for (int s = 1; s <= NM; ++s) {
    cvec ax = mv(a, x), rs(n);
    for (size_t i = 0; i < n; ++i) rs[i] = bb[i] - ax[i];
    cvec g = mv(G, rs);
    e      = q * e + noise * (nrm2(x) + nrm2(g)) + 50 * eps * G.fro() * (nrm2(rs) + a.fro() * nrm2(x)) + noise * e;
    for (size_t i = 0; i < n; ++i) x[i] += g[i];
    xs.push_back(x);
    err.push_back(e);
    ax = mv(a, x);
    cvec r2(n);
    for (size_t i = 0; i < n; ++i) r2[i] = bb[i] - ax[i];
    res.push_back(bn ? nrm2(r2) / bn : 0);
  }
  hif::Array<V> B = arr(b), X(n);
  for (size_t i = 0; i < n; ++i) X[i] = V(123);
  c.ev(std::string("form:") + form);
  if (tr) c.ev("adjoint");
  // fixed number of steps
  {
    int N = (int)r.in(0, NM);
    int K = std::max(N, 1);
    refine_op(h, B, X, N, (const double *)nullptr, tr, rk);
    if (err[K - 1] < .01 * (nrm2(xs[K - 1]) + 1e-30L)) {
      c.near((double)nrm2(upa(X) - xs[K - 1]), (double)err[K - 1] + 1e-300, "fixed-steps", fmt("N=%d tran=%d rk=%ld q=%Lg", N, tr, (long)rk, q));
      c.ev("judged-fixed");
      c.ev(fmt("steps=%d", K));
    }
  }
  // with bounds: choose them around the residuals that will be met
  for (int w = 0; w < 2; ++w) {
    int    N = (int)r.in(1, NM);
    double bt[2];
    auto   near_ = [&]() { return (double)res[r.in(0, NM - 1)] * std::pow(10.0, r.uni(-.5, .5)); };
    bt[0]        = r.chance(.8) ? near_() : 1e-300;
    bt[1]        = r.chance(.6) ? std::max(bt[0] * 1.0001, near_()) : 1e300;
    for (size_t i = 0; i < n; ++i) X[i] = V(123);
    auto got = refine_op(h, B, X, N, bt, tr, rk);
    if (bn == 0) {
      c.expect(nrminf(upa(X)) == 0, "zero-rhs-solution", fmt("N=%d", N));
      if (N > 1) c.expect(got.first == 0 && got.second == 0, "zero-rhs-status", fmt("got (%zu,%d)", (size_t)got.first, got.second));
      c.ev("zero-rhs");
      continue;
    }
    int  K = std::max(N, 1), fl = -1, st = K;
    bool amb = false;
    for (int s = 1; s < K; ++s) {
      ld d = err[s - 1] * a.fro() / bn + 10 * eps * res[s - 1] + 20 * eps * a.fro() * nrm2(xs[s - 1]) / bn;
      for (int z = 0; z < 2; ++z)
        if (std::abs(res[s - 1] - bt[z]) <= d) amb = true;
      if (amb) break;
      if (res[s - 1] <= bt[0]) {
        fl = 0, st = s;
        break;
      }
      if (res[s - 1] > bt[1]) {
        fl = 1, st = s;
        break;
      }
    }
    if (amb) {
      c.ev("ambiguous-bound");
      continue;
    }
    c.ev(fl < 0 ? "status-limit" : fl ? "status-diverged" : "status-converged");
    if (st > 1 && fl >= 0) c.ev("stopped-after-several");
    c.expect((int)got.first == st && ((got.second < 0 && fl < 0) || (got.second > 0 && fl > 0) || (!got.second && !fl)), "bounded-status",
             fmt("got (%zu,%d) expected (%d,%d) N=%d betas=%g,%g", (size_t)got.first, got.second, st, fl, N, bt[0], bt[1]));
    if ((int)got.first == st && err[st - 1] < .01 * (nrm2(xs[st - 1]) + 1e-30L))
      c.near((double)nrm2(upa(X) - xs[st - 1]), (double)err[st - 1] + 1e-300, "bounded-solution", fmt("steps=%d", st));
  }
}
static void run_c10(Ctx &c, Rng &r) {
  Case k = make(c, r, c.thorough ? 70 : 36, r.chance(.6) ? G_NONSING : G_ANY, .1);
  if (r.chance(.15)) {  // wide rows: the threaded product of the OpenMP build
    k.A    = gen_square<T>(r, (int)r.in(24, 40), G_NONSING, 7);
    Coo<T> d(k.A.n);
    for (int i = 0; i < k.A.n; ++i)
      for (int j = 0; j < k.A.n; ++j) d.set(i, j, rval(r, 0) + (i == j ? 6 : 0), Tr<T>::cplx ? rval(r, 0) : 0);
    k.A      = d.csr();
    k.A.kind = "dense";
    k.m0     = 0;
    k.p.is_symm = 0;
    c.desc      = mdesc(k.A) + " " + pdesc(k.p);
    c.ev("wide-rows");
  }
  k.p.threads = (int)r.in(1, 4);
  H M;
  if (r.chance(.4)) {  // an object that served a system of another size before
    Csr<T> P  = gen_square<T>(r, (int)r.in(1, c.thorough ? 90 : 50), G_EASY);
    auto   Pc = mk_crs(P);
    hif::Params q = k.p;
    q.is_symm     = 0;
    M.factorize(Pc, q);
    hif::Array<T> b = arr(gen_vec<T>(r, P.n)), x(P.n);
    const double  bt[2] = {1e-3, 1e3};
    if (r.chance(.5))
      M.hifir(Pc, b, (size_t)r.in(1, 4), x, r.chance(.5));
    else
      M.hifir(Pc, b, (size_t)r.in(1, 4), bt, x, r.chance(.5));
    c.ev(P.n > k.A.n ? "used-with-larger-system" : "used-with-other-system");
  }
  fac(M, k.A, k.p, k.m0, r.chance(.3));
  ev_shape(c, M);
  auto Acrs = mk_crs(k.A);
  auto Accs = mk_ccs(k.A);
  typedef std::pair<size_t, int> St;
  int form = (int)r.in(0, 3);
  auto run = [&](const H &h, const hif::Array<T> &b, hif::Array<T> &x, int N, const double *bt, bool tr, size_t rk) -> St {
    auto go = [&](const auto &A) -> St {
      if (!bt) {
        h.hifir(A, b, N, x, tr, rk);
        return St(0, 0);
      }
      auto s = h.hifir(A, b, N, bt, x, tr, rk);
      return St(s.first, s.second);
    };
    if (form == 0) return go(Acrs);
    if (form == 1) return go(Accs);
    std::function<void(const void *, const size_t, const char, void *, const char, const bool)> f =
        [&](const void *xi, const size_t n, const char si, void *yo, const char so, const bool t) {
          if (n != (size_t)k.A.n || si != so || si != hif::ValueTypeTrait<H::boost_value_type>::signature) c.fail("operator-callback-arguments", "");
          typedef H::boost_value_type BT;
          cvec u(n);
          for (size_t i = 0; i < n; ++i) u[i] = up(((const BT *)xi)[i]);
          (void)u;
          const BT *xb = (const BT *)xi;
          BT *      yb = (BT *)yo;
          cvec      y  = t ? k.A.mulH(u) : k.A.mul(u);
          (void)xb;
          for (size_t i = 0; i < n; ++i) yb[i] = down<BT>(y[i]);
        };
    return go(f);
  };
  if (form == 3) form = 0;
  // with a callback the vectors must have the refinement's own type
  if (form == 2 && !std::is_same<T, H::boost_value_type>::value) form = 1;
  c10_one<H, T>(c, r, M, k, k.A, run, form == 0 ? "rows" : form == 1 ? "columns" : "callback");
  if (r.chance(.3)) {  // vectors and matrix in the other precision
    Csr<OT> B;
    B.m = k.A.m, B.n = k.A.n, B.ptr = k.A.ptr, B.ind = k.A.ind;
    for (auto &v : k.A.val) B.val.push_back(down<OT>(up(v)));
    auto Bc  = mk_crs(B);
    auto run2 = [&](const H &h, const hif::Array<OT> &b, hif::Array<OT> &x, int N, const double *bt, bool tr, size_t rk) -> St {
      if (!bt) {
        h.hifir(Bc, b, N, x, tr, rk);
        return St(0, 0);
      }
      auto s = h.hifir(Bc, b, N, bt, x, tr, rk);
      return St(s.first, s.second);
    };
    c10_one<H, OT>(c, r, M, k, B, run2, "other-precision");
  }
  c.nontrivial(k.A.hash() ^ M.nnz());
  if (c.samples.size() < 3) c.sample(c.desc);
}

static void run(Ctx &c, Rng &r, long i) {
  static const std::string asked = c.prop;
  if (asked == "C04" || asked == "C04M") {  // every kind of workload in turn (C06 compares padding bytes: not under memcheck)
    static const char *all[] = {asked == "C04" ? "C06" : "C09", "C07", "C08", "C09", "C10", "C13", "C07", "C10"};
    c.prop                   = all[(i / 8 + i) % 8];
    c.ev("workload=" + c.prop);
    wild_params() = i % 4 == 1;
  }
  if (c.prop == "C06")
    run_c06(c, r);
  else if (c.prop == "C07")
    run_c07(c, r);
  else if (c.prop == "C08")
    run_c08(c, r);
  else if (c.prop == "C09")
    run_c09(c, r);
  else if (c.prop == "C10")
    run_c10(c, r);
  else
    run_c13(c, r);
}
int main(int argc, char **argv) { return harness_main(argc, argv, SALT, run); }
