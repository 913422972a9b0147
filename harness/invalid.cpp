// invalid: malformed input and misuse between valid operations; every refused
// operation must leave the object empty or as it was, memory and the caller's
// data untouched, and the object usable (C12).
#include <cstdlib>
#include <new>
#ifdef VF_OOM
static long vf_countdown = -1;  // allocations until the one that fails
static long vf_allocs = 0, vf_failed = 0;
static bool vf_armed = false;
static bool vf_refuse() {
  if (!vf_armed) return false;
  ++vf_allocs;
  if (vf_countdown < 0) return false;
  if (vf_countdown-- == 0) {
    ++vf_failed;
    return true;
  }
  return false;
}
void *operator new(std::size_t n) {
  if (vf_refuse()) throw std::bad_alloc();
  void *p = std::malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void *operator new[](std::size_t n) { return operator new(n); }
void *operator new(std::size_t n, const std::nothrow_t &) noexcept {
  if (vf_refuse()) return nullptr;
  return std::malloc(n ? n : 1);
}
void *operator new[](std::size_t n, const std::nothrow_t &t) noexcept { return operator new(n, t); }
void  operator delete(void *p) noexcept { std::free(p); }
void  operator delete[](void *p) noexcept { std::free(p); }
void  operator delete(void *p, std::size_t) noexcept { std::free(p); }
void  operator delete[](void *p, std::size_t) noexcept { std::free(p); }
#endif
#include "hifx.hpp"
#ifndef VT
#  define VT double
#endif
#ifndef IT
#  define IT int
#endif
#ifndef PT
#  define PT std::ptrdiff_t
#endif
using namespace vf;
typedef VT                          T;
typedef hif::HIF<T, IT, PT>         Prec;
typedef hif::CRS<T, IT, PT>         Crs;
typedef hif::CCS<T, IT, PT>         Ccs;

// an array owned by the caller, with guards on both sides
template <class V>
struct Guarded {
  std::vector<V> buf, snap;
  size_t         n;
  static constexpr size_t G = 7;
  explicit Guarded(size_t n_) : buf(n_ + 2 * G), n(n_) {
    for (auto &b : buf) b = V(37);
  }
  Guarded(const std::vector<V> &v) : Guarded(v.size()) { std::copy(v.begin(), v.end(), buf.begin() + G); }
  V *           data() { return buf.data() + G; }
  hif::Array<V> wrap() { return hif::Array<V>(n, data(), true); }
  void          save() { snap = buf; }
  bool          same() const { return !std::memcmp(buf.data(), snap.data(), buf.size() * sizeof(V)); }
  bool          guards() const {
    for (size_t i = 0; i < G; ++i)
      if (std::memcmp(&buf[i], &snap[i], sizeof(V)) || std::memcmp(&buf[n + G + i], &snap[n + G + i], sizeof(V)))
        return false;
    return true;
  }
};

template <class F>
static std::string thrown(F &&f) {  // "" if no exception
  try {
    f();
  } catch (const std::exception &e) {
    const std::string s = e.what();
    return s.empty() ? "(no text)" : s;
  } catch (int v) {
    return fmt("int %d", v);
  }
  return "";
}

struct Malformed {
  std::vector<PT> ptr;
  std::vector<IT> ind;
  std::vector<T>  val;
  int             nr, nc;
  size_t          m0  = 0;
  bool            raw = true;  // can be passed through the plain-array interface
  std::string     what;
};
// the compressed arrays of a valid matrix (the caller decides rows or columns)
static Malformed arrays_of(const Csr<T> &a, int base) {
  Malformed f;
  f.nr = a.m;
  f.nc = a.n;
  for (int i = 0; i <= a.m; ++i) f.ptr.push_back((PT)(a.ptr[i] + base));
  for (ptrdiff_t k = 0; k < a.nnz(); ++k) {
    f.ind.push_back((IT)(a.ind[k] + base));
    f.val.push_back(a.val[k]);
  }
  return f;
}
static Malformed malform(Rng &r, const Csr<T> &a, int base) {
  Malformed f = arrays_of(a, base);
  const int n = a.m;
  for (int tries = 0;; ++tries) {
    int kind = (int)r.in(0, 17);
    if (tries > 30) kind = 13;
    const ptrdiff_t nz = (ptrdiff_t)f.ind.size();
    // a row with at least q entries
    auto row = [&](int q) {
      for (int t = 0; t < 40; ++t) {
        int i = (int)r.in(0, n - 1);
        if (f.ptr[i + 1] - f.ptr[i] >= q) return i;
      }
      return -1;
    };
    switch (kind) {
      case 0: {  // one past the end, as the last entry of some row
        int i = row(1);
        if (i < 0) continue;
        f.ind[f.ptr[i + 1] - 1 - base] = (IT)(n + base);
        f.what                         = "index one past the end";
        return f;
      }
      case 1: {
        int i = row(1);
        if (i < 0) continue;
        f.ind[f.ptr[i + 1] - 1 - base] = r.chance(.5) ? std::numeric_limits<IT>::max() : (IT)(n + base + r.in(1, 1000));
        f.what                         = "index far out of range";
        return f;
      }
      case 2: {
        int i = row(1);
        if (i < 0) continue;
        f.ind[f.ptr[i] - base] = (IT)(base - 1);
        f.what                 = "index just below the base";
        return f;
      }
      case 3: {
        int i = row(1);
        if (i < 0) continue;
        f.ind[f.ptr[i] - base] = r.chance(.5) ? std::numeric_limits<IT>::min() + 1 : (IT)(-r.in(2, 1000));
        f.what                 = "negative index";
        return f;
      }
      case 4: {  // unsorted
        int i = row(2);
        if (i < 0) continue;
        const ptrdiff_t k = f.ptr[i] - base + r.in(0, f.ptr[i + 1] - f.ptr[i] - 2);
        std::swap(f.ind[k], f.ind[k + 1]);
        f.what = "unsorted indices";
        return f;
      }
      case 5: {  // duplicate
        int i = row(2);
        if (i < 0) continue;
        const ptrdiff_t k = f.ptr[i] - base + r.in(0, f.ptr[i + 1] - f.ptr[i] - 2);
        if (r.chance(.5))
          f.ind[k] = f.ind[k + 1];
        else
          f.ind[k + 1] = f.ind[k];
        f.what = "duplicate indices";
        return f;
      }
      case 6: {  // decreasing start array
        if (n < 2) continue;
        int i    = (int)r.in(1, n - 1);
        f.ptr[i] = f.ptr[i + 1] + (PT)r.in(1, 5);
        f.what   = "start array decreases";
        return f;
      }
      case 7: {
        if (n < 2) continue;
        int i    = (int)r.in(1, n - 1);
        f.ptr[i] = (PT)(r.chance(.5) ? -1 : -100000);
        f.what   = "negative start position";
        return f;
      }
      case 8:
        f.ptr[0] = (PT)r.pick({-1.0, 2.0, 3.0, 1000.0});
        if (f.ptr[0] >= 2)
          for (int i = 1; i <= n; ++i) f.ptr[i] = f.ptr[i] - base + f.ptr[0];
        f.raw  = false;
        f.what = "unsupported index base";
        return f;
      case 9:  // total beyond the arrays
        f.ptr[n] += (PT)r.in(1, 9);
        f.raw  = false;
        f.what = "more entries announced than stored";
        return f;
      case 10:
        if (!nz) continue;
        f.ind.resize(nz - (ptrdiff_t)r.in(1, nz));
        f.raw  = false;
        f.what = "index array too short";
        return f;
      case 11:
        if (!nz) continue;
        f.val.resize(nz - (ptrdiff_t)r.in(1, nz));
        f.raw  = false;
        f.what = "value array too short";
        return f;
      case 12:
        f.ptr.resize(r.in(1, n));
        f.raw  = false;
        f.what = "start array too short";
        return f;
      case 13:
        f.m0   = n + (size_t)(r.chance(.5) ? 1 : r.in(1, 100000));
        f.what = "leading block larger than the matrix";
        return f;
      case 14:  // a tall or flat matrix (primary direction kept)
        f.nc   = n + (int)r.in(1, 5);
        f.raw  = false;
        f.what = "more columns than rows";
        return f;
      case 15: {
        if (n < 2) continue;
        // drop the last primary entries
        const int q = (int)r.in(1, n - 1);
        f.nr        = n - q;
        f.ptr.resize(f.nr + 1);
        f.ind.resize(f.ptr[f.nr] - base);
        f.val.resize(f.ptr[f.nr] - base);
        f.raw  = false;
        f.what = "fewer rows than columns";
        return f;
      }
      case 16: {  // inconsistent middle: one position beyond the end
        if (n < 2) continue;
        int i    = (int)r.in(1, n - 1);
        f.ptr[i] = f.ptr[n] + (PT)r.in(1, 1000000);
        f.what   = "start position beyond the end";
        return f;
      }
      default: {  // the last start position steps back
        if (n < 1 || f.ptr[n] - f.ptr[n - 1] < 1 || nz < 2 || f.ptr[n - 1] <= base) continue;
        f.ptr[n] = f.ptr[n - 1] - 1;
        f.what   = "last start position decreases";
        return f;
      }
    }
  }
}
static Csr<T> other_matrix(Rng &r, int n) { return gen_square<T>(r, n, r.chance(.8) ? (G_NONSING | G_EASY) : G_ANY); }

static void dsolve(const hif::QRCP<T> &S, hif::Array<T> &x, size_t rk, bool t) { S.solve(x, rk, t); }
static void dsolve(const hif::SYEIG<T> &S, hif::Array<T> &x, size_t rk, bool) { S.solve(x, rk); }
static void dmultiply(const hif::QRCP<T> &S, hif::Array<T> &x, size_t rk, bool t) { S.multiply(x, rk, t); }
static void dmultiply(const hif::SYEIG<T> &S, hif::Array<T> &x, size_t rk, bool) { S.multiply(x, rk); }
// a user filter class that selects overriding without overriding
struct Unfinished : hif::NspFilter {
  Unfinished() { _type = USER_OR; }
};

struct Model {
  bool                        empty = true;
  std::shared_ptr<Csr<T>>     a;
  hif::Params                 p;
  size_t                      m0 = 0;
  std::shared_ptr<Prec>       ref;  // an independent preconditioner of the same matrix
};

struct World {
  Ctx &c;
  Rng &r;
  std::unique_ptr<Prec> M;
  Model                 m;
  uint64_t              h = 7;
  std::string           log;

  World(Ctx &c_, Rng &r_) : c(c_), r(r_), M(new Prec) {}
  void note(const std::string &s) {
    log += s;
    log += "; ";
    for (char ch : s) h = h * 1099511628211ull ^ (uint64_t)ch;
  }
  // the object equals its model: empty, or indistinguishable from an untouched one
  void judge(const std::string &after) {
    if (m.empty || M->empty()) {
      c.ev("judge-empty");
      c.expect(M->empty(), "not-empty", after + " | " + log);
      c.expect(M->levels() == 0 && M->nnz() == 0 && M->nnz_ef() == 0 && M->rank() == 0 && M->schur_rank() == 0 &&
                   M->schur_size() == 0,
               "empty-not-clean", after + " | " + log);
      return;
    }
    c.ev("judge-valid");
    Prec &F = *m.ref;
    c.expect(M->levels() == F.levels() && M->nnz() == F.nnz() && M->rank() == F.rank() && M->nrows() == F.nrows() &&
                 M->ncols() == F.ncols(),
             "previous-self-differs", after + " | " + log);
    const size_t  n = m.a->m;
    auto          b = arr(gen_vec<T>(r, (int)n));
    hif::Array<T> x(n), y(n);
    const int     w = (int)r.in(0, 3);
    const bool    t = r.chance(.3);
    switch (w) {
      case 0:
        M->solve(b, x, t), F.solve(b, y, t);
        break;
      case 1:
        M->mmultiply(b, x, t), F.mmultiply(b, y, t);
        break;
      case 2: {
        auto A = mk_crs<T, IT, PT>(*m.a);
        M->hifir(A, b, 3, x, t), F.hifir(A, b, 3, y, t);
        break;
      }
      default: {
        hif::Array<std::array<T, 3>> B(n), X(n), Y(n);
        for (size_t i = 0; i < n; ++i)
          for (int k = 0; k < 3; ++k) B[i][k] = b[i] * T(k + 1);
        M->solve_mrhs(B, X), F.solve_mrhs(B, Y);
        for (size_t i = 0; i < n; ++i) x[i] = X[i][1], y[i] = Y[i][1];
        break;
      }
    }
    c.expect(!std::memcmp(x.data(), y.data(), n * sizeof(T)), "result-after-failure",
             fmt("op=%d trans=%d ", w, t) + after + " | " + log);
  }
  void after_failure(const std::string &what, const std::string &msg, bool may_empty) {
    c.ev("refused");
    if (M->empty() && may_empty && !m.empty) {
      m.empty = true;
      m.ref.reset();
    }
    judge("after " + what + " [" + msg.substr(0, 60) + "]");
  }

  void good_build() {
    auto      a = std::make_shared<Csr<T>>(other_matrix(r, (int)r.in(1, c.thorough ? 60 : 30)));
    const int n = a->m;
    hif::Params p = gen_params(r, false, a->symm);
    p.check       = (int)r.in(0, 1);
    const int  base = (int)r.in(0, 1);
    const bool csr  = r.chance(.5);
    note(fmt("build %s n=%d base=%d csr=%d", a->kind.c_str(), n, base, csr));
    auto build = [&](Prec &P) {
      if (csr) {
        auto A = mk_crs<T, IT, PT>(*a, base);
        P.factorize(A, p);
      } else {
        auto A = mk_ccs<T, IT, PT>(*a, base);
        P.factorize(A, p);
      }
    };
    auto ref = std::make_shared<Prec>();
    const std::string e0 = thrown([&] { build(*ref); });
    const std::string e  = thrown([&] { build(*M); });
    c.ev("good-builds");
    if (!e0.empty()) {
      // refused also by a fresh object: an ordinary failure (e.g. LAPACK)
      c.expect(!e.empty(), "refusal-depends-on-history", e0 + " | " + log);
      if (M->empty()) m.empty = true, m.ref.reset();
      judge("after failed build [" + e0.substr(0, 60) + "]");
      c.ev("valid-build-failed");
      return;
    }
    if (!c.expect(e.empty(), "valid-build-refused", e + " | " + log)) {
      m.empty = true;
      return;
    }
    m.empty = false;
    m.a     = a;
    m.p     = p;
    m.ref   = ref;
    judge("after a good build");
  }
  void bad_build() {
    Csr<T>    a = gen_square<T>(r, (int)r.in(1, 20), G_ANY);
    const int n = a.m;
    const int base = (int)r.in(0, 1);
    Malformed f = malform(r, a, base);
    hif::Params p = gen_params(r, false, a.symm);
    p.check = 1;
    const bool csr = r.chance(.5), raw = f.raw && r.chance(.4), shallow = r.chance(.3);
    note(fmt("bad build (%s) n=%d base=%d csr=%d raw=%d", f.what.c_str(), n, base, csr, raw));
    Guarded<PT> ptr(f.ptr);
    Guarded<IT> ind(f.ind);
    Guarded<T>  val(f.val);
    ptr.save(), ind.save(), val.save();
    std::string e;
    if (raw) {
      e = thrown([&] {
        if (csr)
          M->template factorize<true>(n, ptr.data(), ind.data(), val.data(), p, f.m0);
        else
          M->template factorize<false>(n, ptr.data(), ind.data(), val.data(), p, f.m0);
      });
    } else if (csr) {
      Crs A;
      A.resize(f.nr, f.nc);
      if (shallow)
        A.row_start() = ptr.wrap(), A.col_ind() = ind.wrap(), A.vals() = val.wrap();
      else
        A.row_start() = arr(f.ptr), A.col_ind() = arr(f.ind), A.vals() = arr(f.val);
      e = thrown([&] { M->factorize(A, p, f.m0); });
      c.expect(A.nrows() == (size_t)f.nr && A.ncols() == (size_t)f.nc && A.row_start().size() == f.ptr.size() &&
                   A.col_ind().size() == f.ind.size() && A.vals().size() == f.val.size() &&
                   std::equal(f.ptr.begin(), f.ptr.end(), A.row_start().begin()) &&
                   std::equal(f.ind.begin(), f.ind.end(), A.col_ind().begin()),
               "caller-matrix-changed", log);
    } else {
      Ccs A;
      A.resize(f.nc, f.nr);
      if (shallow)
        A.col_start() = ptr.wrap(), A.row_ind() = ind.wrap(), A.vals() = val.wrap();
      else
        A.col_start() = arr(f.ptr), A.row_ind() = arr(f.ind), A.vals() = arr(f.val);
      e = thrown([&] { M->factorize(A, p, f.m0); });
      c.expect(A.nrows() == (size_t)f.nc && A.ncols() == (size_t)f.nr && A.col_start().size() == f.ptr.size() &&
                   A.row_ind().size() == f.ind.size() && A.vals().size() == f.val.size() &&
                   std::equal(f.ptr.begin(), f.ptr.end(), A.col_start().begin()) &&
                   std::equal(f.ind.begin(), f.ind.end(), A.row_ind().begin()),
               "caller-matrix-changed", log);
    }
    c.expect(ptr.same() && ind.same() && val.same(), "caller-arrays-changed", log);
    c.ev("malformed " + f.what);
    if (c.expect(!e.empty(), "malformed-accepted", f.what + " | " + log))
      after_failure(f.what, e, true);
    else if (M->empty())
      m.empty = true;
    else
      M.reset(new Prec), m.empty = true;
  }
  void bad_params() {
    if (m.empty) return good_build();
    Csr<T> a = gen_square<T>(r, (int)r.in(1, 15), G_ANY);
    hif::Params p = gen_params(r, false, a.symm);
    p.reorder = (int)r.pick({-1.0, 4.0, 100.0});
    note("bad reorder");
    auto A = mk_crs<T, IT, PT>(a);
    const std::string e = thrown([&] { M->factorize(A, p); });
    c.ev("bad-params");
    if (e.empty()) {  // the reordering may not have been consulted (empty leading block)
      m.empty = true;
      M->clear();
      return;
    }
    after_failure("bad reorder", e, true);
  }
  // one of every operation, with sizes nx and nb
  void bad_apply() {
    const size_t n = m.empty ? (size_t)r.in(0, 20) : (size_t)m.a->m;
    size_t       nb = n, nx = n, na = n, nac = n;
    int          w = (int)r.in(0, 6);
    const bool   t = r.chance(.4);
    if (!m.empty || r.chance(.2)) {
      for (;;) {
        auto other = [&]() -> size_t {
          const size_t q = r.chance(.5) ? n + (r.chance(.5) ? 1 : (size_t)-1) : (size_t)r.in(0, 2 * (int)n + 3);
          return q > 1000 ? n + 2 : q;
        };
        switch (r.in(0, 3)) {
          case 0:
            nb = other();
            break;
          case 1:
            nx = other();
            break;
          case 2:
            nb = nx = other();
            break;
          default:
            if (w < 4) w = (int)r.in(4, 6);
            na = other();
            if (r.chance(.5))
              nac = other();
            else if (r.chance(.5))
              nac = na;
        }
        if (nb != n || nx != n || na != n || nac != n) break;
      }
    }
    std::vector<T> bv = gen_vec<T>(r, (int)nb);
    const bool zero_b = r.chance(.15);
    if (zero_b) std::fill(bv.begin(), bv.end(), T(0));
    const std::string what = fmt("bad apply op=%d n=%zu nb=%zu nx=%zu A=%zux%zu tran=%d zero=%d empty=%d", w, n, nb, nx,
                                 na, nac, t, zero_b, m.empty);
    note(what);
    Guarded<T> b(bv), x(nx);
    b.save(), x.save();
    auto bw = b.wrap(), xw = x.wrap();
    std::string e;
    const size_t r0 = (size_t)r.pick({0.0, 0.0, 1.0, 1e9});
    switch (w) {
      case 0:
        e = thrown([&] { M->solve(bw, xw, t, r0); });
        break;
      case 1:
        e = thrown([&] { M->mmultiply(bw, xw, t, r0); });
        break;
      case 2:
      case 3: {
        hif::Array<std::array<T, 2>> B(nb), X(nx);
        std::fill(B.begin(), B.end(), std::array<T, 2>{{T(1), T(2)}});
        e = thrown([&] { M->solve_mrhs(B, X, r0); });
        break;
      }
      default: {
        // a matrix for the refinement
        Crs A;
        A.resize(na, nac);
        A.row_start().resize(na + 1);
        size_t nz = 0;
        for (size_t i = 0; i < na; ++i) {
          A.row_start()[i] = (PT)nz;
          if (i < nac) ++nz;
        }
        A.row_start()[na] = (PT)nz;
        A.col_ind().resize(nz), A.vals().resize(nz);
        for (size_t i = 0; i < nz; ++i) A.col_ind()[i] = (IT)i, A.vals()[i] = T(1);
        // a matrix whose size matters only from the second step on
        const bool   bad_mat = na != n || nac != n;
        const size_t N       = bad_mat || r.chance(.7) ? (size_t)r.in(2, 5) : (size_t)r.in(0, 1);
        const double betas[] = {0.0, 1e300};
        if (bad_mat) bv.assign(nb, T(1)), std::copy(bv.begin(), bv.end(), b.data()), b.save();
        if (w == 4)
          e = thrown([&] { M->hifir(A, bw, N, xw, t); });
        else if (w == 5)
          e = thrown([&] { M->hifir(A, bw, N, betas, xw, t); });
        else {
          Ccs A2(A);
          e = thrown([&] { r0 ? M->hifir(A2, bw, N, xw, t, r0) : (void)M->hifir(A2, bw, N, betas, xw, t); });
        }
        // (a vanishing or broken residual may stop the iteration before A is used)
        if (bad_mat && e.empty()) {
          bool finite = true;
          for (size_t i = 0; i < nx; ++i) finite = finite && std::isfinite(std::abs(x.data()[i]));
          if (!finite) e = "not finite";
        }
      }
    }
    c.expect(b.same(), "right-hand-side-changed", what);
    c.expect(x.guards(), "write-outside-the-vector", what);
    c.ev(m.empty ? "apply-on-empty" : "apply-mismatched");
    c.expect(!e.empty(), m.empty ? "empty-accepted" : "mismatch-accepted", what);
    after_failure("a refused application", e, false);
  }
  void bad_query() {
    std::string e;
    note("bad query");
    if (m.empty) {
      e = thrown([&] { M->stats((size_t)r.in(0, 5)); });
      c.expect(!e.empty(), "stats-of-empty", log);
      e = thrown([&] { M->prec((size_t)r.in(0, 3)); });
      c.expect(!e.empty(), "level-of-empty", log);
    } else {
      e = thrown([&] { M->stats((size_t)r.pick({6.0, 7.0, 100.0, 1e9})); });
      c.expect(!e.empty(), "stats-out-of-range", log);
      e = thrown([&] { M->prec(M->levels() + (size_t)r.pick({0.0, 1.0, 1e9})); });
      c.expect(!e.empty(), "level-out-of-range", log);
    }
    c.ev("bad-queries");
    after_failure("a bad query", e, false);
  }
  // a user's operator or filter that fails in the middle
  void failing_user() {
    if (m.empty) return bad_apply();
    const size_t n = m.a->m;
    Guarded<T>   b(gen_vec<T>(r, (int)n)), x(n);
    b.save(), x.save();
    auto bw = b.wrap(), xw = x.wrap();
    std::string e;
    const int                       k = (int)r.in(0, 2);
    std::shared_ptr<hif::NspFilter> f;
    if (k == 2)
      f = std::make_shared<Unfinished>();
    else
      f = std::make_shared<hif::NspFilter>();
    note(fmt("failing user code %d", k));
    if (k == 0)
      f->set_nsp_callback([](void *, const std::size_t, const char) { throw std::runtime_error("user filter"); });
    else if (k == 1)
      f->set_nsp_const((size_t)r.in(n + 1, n + 5), n + 9);  // outside of every vector
    const bool t = r.chance(.4);
    (t ? M->nsp_tran : M->nsp) = f;
    const int w = (int)r.in(0, 2);
    if (w == 0)
      e = thrown([&] { M->solve(bw, xw, t); });
    else {
      auto A = mk_crs<T, IT, PT>(*m.a);
      if (w == 1)
        e = thrown([&] { M->hifir(A, bw, 4, xw, t); });
      else {
        const double betas[] = {0., 1e300};
        e = thrown([&] { M->hifir(A, bw, 4, betas, xw, t); });
        bool any = false;
        for (size_t i = 0; i < n; ++i) any = any || b.data()[i] != T(0);
        if (!any) e = "zero rhs";
      }
    }
    M->nsp.reset();
    M->nsp_tran.reset();
    c.expect(b.same(), "right-hand-side-changed", log);
    c.expect(x.guards(), "write-outside-the-vector", log);
    c.ev("failing-user");
    c.expect(!e.empty(), "user-failure-lost", log);
    after_failure("failing user code", e, false);
  }
  // refusals of the parts: wrapped user arrays, validity checks, products, dense blocks
  void parts() {
    const int k = (int)r.in(0, 4);
    if (k == 0) {  // wrapping user arrays
      Csr<T>    a   = gen_square<T>(r, (int)r.in(1, 16), G_ANY);
      Malformed f   = malform(r, a, 0);
      bool      bad = f.raw && !f.m0;
      if (r.chance(.25) || !bad) f = arrays_of(a, 0), bad = false;
      Guarded<PT> ptr(f.ptr);
      Guarded<IT> ind(f.ind);
      Guarded<T>  val(f.val);
      ptr.save(), ind.save(), val.save();
      const bool        csr = r.chance(.5);
      const std::string e   = thrown([&] {
        if (csr) {
          auto A = hif::wrap_const_crs(f.nr, f.nc, ptr.data(), ind.data(), val.data(), true);
          c.expect(bad || (A.nnz() == f.ind.size() && A.nrows() == (size_t)f.nr && A.ncols() == (size_t)f.nc &&
                             (f.val.empty() || A.vals().data() == val.data())),
                     "wrapped-differs", f.what);
        } else {
          auto A = hif::wrap_const_ccs(f.nc, f.nr, ptr.data(), ind.data(), val.data(), true);
          c.expect(bad || (A.nnz() == f.ind.size() && A.ncols() == (size_t)f.nr && A.nrows() == (size_t)f.nc &&
                             (f.val.empty() || A.vals().data() == val.data())),
                     "wrapped-differs", f.what);
        }
      });
      c.ev(bad ? "wrap-malformed" : "wrap-valid");
      c.expect(e.empty() == !bad, bad ? "wrap-accepted" : "wrap-refused", f.what + " " + e.substr(0, 80));
      c.expect(ptr.same() && ind.same() && val.same(), "caller-arrays-changed", f.what);
    } else if (k == 1) {  // the validity check itself, also of rectangular matrices
      Csr<T>    a   = gen_square<T>(r, (int)r.in(1, 16), G_ANY);
      Malformed f   = malform(r, a, 0);
      bool      bad = !f.m0 && f.nr == f.nc;
      if (r.chance(.25) || !bad) {
        f  = arrays_of(a, 0);
        bad = false;
        if (r.chance(.5)) f.nc += (int)r.in(1, 4);  // wider than needed: valid
        f.what = "valid";
      }
      const bool        csr = r.chance(.5);
      const std::string e   = thrown([&] {
        if (csr) {
          Crs A;
          A.resize(f.nr, f.nc);
          A.row_start() = arr(f.ptr), A.col_ind() = arr(f.ind), A.vals() = arr(f.val);
          A.check_validity();
        } else {
          Ccs A;
          A.resize(f.nc, f.nr);
          A.col_start() = arr(f.ptr), A.row_ind() = arr(f.ind), A.vals() = arr(f.val);
          A.check_validity();
        }
      });
      c.ev(bad ? "check-malformed" : "check-valid");
      c.expect(e.empty() == !bad, bad ? "check-accepted" : "check-refused", f.what + " " + e.substr(0, 80));
    } else if (k == 2 || k == 3) {  // products with vectors that do not fit
      const Csr<T> a  = gen_square<T>(r, (int)r.in(1, 16), G_ANY);
      auto         A  = mk_crs<T, IT, PT>(a);
      auto         Ac = mk_ccs<T, IT, PT>(a);
      const size_t wide = r.chance(.5) ? 0 : (size_t)r.in(1, 4);
      A.resize(A.nrows(), A.ncols() + wide);
      Ac.resize(Ac.nrows(), Ac.ncols());
      const bool   csr = r.chance(.5), t = r.chance(.5);
      const size_t m = A.nrows(), n = csr ? A.ncols() : Ac.ncols();
      size_t       nx = t ? m : n, ny = t ? n : m;
      const int    w = (int)r.in(0, 3);
      auto         off = [&](size_t q) { return r.chance(.5) || !q ? q + (size_t)r.in(1, 3) : q - (size_t)r.in(1, (int)q); };
      switch (r.in(0, 2)) {
        case 0:
          nx = off(nx);
          break;
        case 1:
          ny = off(ny);
          break;
        default:
          nx = off(nx), ny = off(ny);
      }
      Guarded<T> x(gen_vec<T>(r, (int)nx)), y(ny);
      x.save(), y.save();
      auto                         xw = x.wrap(), yw = y.wrap();
      hif::Array<std::array<T, 2>> X(nx), Y(ny);
      std::fill(X.begin(), X.end(), std::array<T, 2>{{T(1), T(2)}});
      std::string e;
      if (w == 0)
        e = thrown([&] { csr ? (t ? A.multiply_t(xw, yw) : A.multiply_nt(xw, yw)) : (t ? Ac.multiply_t(xw, yw) : Ac.multiply_nt(xw, yw)); });
      else if (w == 1)
        e = thrown([&] { csr ? (t ? A.multiply_mrhs_t(X, Y) : A.multiply_mrhs_nt(X, Y)) : (t ? Ac.multiply_mrhs_t(X, Y) : Ac.multiply_mrhs_nt(X, Y)); });
      else if (w == 2)
        e = thrown([&] { csr ? A.multiply(xw, yw, t) : Ac.multiply(xw, yw, t); });
      else if (!t && csr)
        e = thrown([&] { hif::mt::multiply_nt(A, xw, yw); });
      else
        e = thrown([&] { csr ? hif::multiply(A, xw, yw, t) : hif::multiply(Ac, xw, yw, t); });
      c.ev("product-mismatched");
      c.expect(!e.empty(), "product-mismatch-accepted", fmt("m=%zu n=%zu nx=%zu ny=%zu csr=%d t=%d w=%d", m, n, nx, ny, csr, t, w));
      c.expect(x.same() && y.same(), "vector-changed", fmt("w=%d", w));
    } else {  // dense blocks: not factorized, or used with the wrong size
      const size_t n = (size_t)r.in(1, 8);
      const int    w = (int)r.in(0, 1), state = (int)r.in(0, 2);
      size_t       nb = n;
      if (state == 2)
        while (nb == n) nb = (size_t)r.in(0, 12);
      Guarded<T> x(nb), y(nb);
      x.save(), y.save();
      auto        xw = x.wrap(), yw = y.wrap();
      hif::Params p = hif::get_default_params();
      p.verbose     = 0;
      hif::DenseMatrix<T> D(n, n);
      for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j) D(i, j) = T(i == j ? 4 : 1);
      std::string e, e2;
      const bool  t = r.chance(.5);
      const size_t rk = (size_t)r.in(0, 3);
      auto use = [&](auto &S) {
        const std::string e0 = thrown([&] {
          if (state) S.set_matrix(D);
          if (state == 2) S.factorize(p);
        });
        c.expect(e0.empty(), "dense-valid-refused", e0);
        e  = thrown([&] { dsolve(S, xw, rk, t); });
        // (the product of a block that is not factorized is not defined either)
        e2 = thrown([&] { dmultiply(S, yw, rk, t); });
        if (state == 0) c.expect(!thrown([&] { S.factorize(p); }).empty(), "empty-block-factorized", fmt("w=%d", w));
        // afterwards it works
        hif::DenseMatrix<T> D2(D);
        const std::string   e3 = thrown([&] {
          S.set_matrix(D2);
          S.factorize(p);
          hif::Array<T> b(n);
          std::fill(b.begin(), b.end(), T(1));
          dsolve(S, b, 0, t);
          for (size_t i = 0; i < n; ++i)
            c.near(std::abs(b[i] - T(1.0 / (n + 3))), 1e-4, "dense-unusable-after-refusal", fmt("w=%d", w));
        });
        c.expect(e3.empty(), "dense-unusable-after-refusal", e3);
      };
      if (w == 0) {
        hif::QRCP<T> S;
        use(S);
      } else if (w == 1) {
        hif::SYEIG<T> S;
        use(S);
      }
      c.ev("dense-misused");
      if (w < 2) {
        c.expect(!e.empty(), "dense-misuse-accepted", fmt("w=%d state=%d", w, state));
        c.expect(!e2.empty(), "dense-product-misuse-accepted", fmt("w=%d state=%d", w, state));
        c.expect(x.guards() && y.guards(), "write-outside-the-vector", fmt("w=%d", w));
      }
    }
  }
#ifdef VF_OOM
  void oom() {
    // an operation during which one memory request is refused
    const int w = m.empty ? 0 : (int)r.in(0, 4);
    auto      a = w ? m.a : std::make_shared<Csr<T>>(other_matrix(r, (int)r.in(1, 25)));
    const size_t n = a->m;
    hif::Params  p = gen_params(r, false, a->symm);
    p.check        = (int)r.in(0, 1);
    const int base = (int)r.in(0, 1);
    auto      A    = mk_crs<T, IT, PT>(*a, w ? 0 : base);
    Ccs       Ac   = mk_ccs<T, IT, PT>(*a, w ? 0 : base);
    const bool csr = r.chance(.5);
    auto      b    = arr(gen_vec<T>(r, (int)n));
    hif::Array<T>                x(n);
    hif::Array<std::array<T, 2>> B(n), X(n);
    std::fill(B.begin(), B.end(), std::array<T, 2>{{T(1), T(2)}});
    const bool t = r.chance(.5);
    const size_t hist = h;
    (void)hist;
    auto op = [&](Prec &P) {
      switch (w) {
        case 0:
          csr ? P.factorize(A, p) : P.factorize(Ac, p);
          break;
        case 1:
          P.solve(b, x, t);
          break;
        case 2:
          P.mmultiply(b, x, t);
          break;
        case 3:
          P.solve_mrhs(B, X);
          break;
        default:
          P.hifir(A, b, 3, x, t);
      }
    };
    // how many requests does it make (for the object in its current state)?
    std::shared_ptr<Prec> ref = std::make_shared<Prec>();
    long total = 30;
    if (!w) {
      vf_armed = true, vf_allocs = 0, vf_countdown = -1;
      const std::string e0 = thrown([&] { op(*ref); });
      vf_armed = false;
      total    = vf_allocs;
      if (!e0.empty()) return;
    } else if (r.chance(.5)) {
      // a copy that has not been used yet requests its work space
      auto s = std::make_shared<Prec>();
      (void)s;
    }
    const long at = (long)r.in(0, total);
    note(fmt("memory refused op=%d n=%zu at=%ld/%ld %s", w, n, at, total, pdesc(p).c_str()));
    vf_armed = true, vf_countdown = at, vf_failed = 0;
    std::string e;
    try {
      op(*M);
    } catch (const std::exception &ex) {
      vf_armed = false;
      e        = ex.what();
    }
    vf_armed = false;
    c.ev("oom-ops");
    if (vf_failed) c.ev("oom-hit");
    if (vf_failed && e.empty()) c.ev("oom-survived");
    if (!e.empty()) {
      c.ev("oom-reported");
      after_failure("refused memory", e, w == 0);
    } else if (w == 0) {
      m.empty = false, m.a = a, m.p = p, m.ref = ref;
      judge("after a build with refused memory");
    } else
      judge("after an application with refused memory");
  }
#endif
};

static void run(Ctx &c, Rng &r, long) {
  World w(c, r);
  const int steps = (int)r.in(3, c.thorough ? 16 : 10);
  for (int s = 0; s < steps; ++s) {
#ifdef VF_OOM
    switch (r.in(0, 3)) {
      case 0:
        w.good_build();
        break;
      default:
        w.oom();
    }
    c.desc = w.log;
    continue;
#endif
    switch (r.in(0, 11)) {
      case 10:
      case 11:
        w.parts();
        break;
      case 0:
      case 1:
        w.good_build();
        break;
      case 2:
      case 3:
      case 4:
        w.bad_build();
        break;
      case 5:
      case 6:
        w.bad_apply();
        break;
      case 7:
        w.bad_query();
        break;
      case 8:
        if (r.chance(.5))
          w.bad_params();
        else
          w.failing_user();
        break;
      default:
        if (r.chance(.3)) {
          w.note("clear");
          w.M->clear();
          w.m.empty = true;
          w.judge("after clear");
        } else if (r.chance(.5)) {
          w.note("replace");
          w.M.reset(new Prec);
          w.m.empty = true;
        } else
          w.good_build();
    }
    c.desc = w.log;
  }
  c.nontrivial(w.h);
  if (r.chance(.05)) c.sample(w.log.substr(0, 300));
  w.M.reset();  // and it can be destroyed
}
int main(int argc, char **argv) { return harness_main(argc, argv, 0x1A, run); }
