// cont: containers driven by random operation sequences against reference
// models, with counted elements and injected allocation failures (C21).
#include <new>
#include <cstdlib>
static bool vf_fail_nothrow = false;
static long vf_failed_allocs = 0;
void *operator new[](std::size_t n, const std::nothrow_t &) noexcept {
  if (vf_fail_nothrow) {
    ++vf_failed_allocs;
    return nullptr;
  }
  try {
    return ::operator new[](n);
  } catch (...) {
    return nullptr;
  }
}
#include "hifx.hpp"
#ifndef VT
#  define VT double
#endif
using namespace vf;
typedef VT T;

// An element that knows whether it is alive.
struct Tk {
  static long live, bad;
  unsigned    magic;
  int         v;
  Tk() : magic(0xA11Eu), v(-1) { ++live; }
  Tk(int i) : magic(0xA11Eu), v(i) { ++live; }
  Tk(const Tk &o) : magic(0xA11Eu), v(o.v) {
    if (o.magic != 0xA11Eu) ++bad;
    ++live;
  }
  Tk &operator=(const Tk &o) {
    if (magic != 0xA11Eu || o.magic != 0xA11Eu) ++bad;
    v = o.v;
    return *this;
  }
  ~Tk() {
    if (magic != 0xA11Eu) ++bad;
    magic = 0xDEAD;
    --live;
  }
};
long Tk::live = 0, Tk::bad = 0;
// another element type that converts to it
struct Tq {
  int v = -1;
  operator Tk() const { return Tk(v); }
};

// ------------------------------------------------------------------ Array
typedef hif::Array<Tk> Arr;
struct Blk {
  std::vector<int> a;
  Tk *             at = nullptr;  // where the elements live
  bool             ext = false, stolen = false;
};
struct MArr {
  std::shared_ptr<Blk> b;
  size_t               n = 0;
};
#ifdef HIF_DEBUG
static const bool kAsserts = true;
#else
static const bool kAsserts = false;
#endif
static void array_case(Ctx &c, Rng &r) {
  const long live0 = Tk::live;
  Hash       h;
  const bool inject_wanted = r.chance(.15);
  const bool inject = inject_wanted && !kAsserts;  // (assertions report the failed allocation)
  {
    const int                        K = 5;
    std::vector<std::unique_ptr<Arr>> A(K);
    std::vector<MArr>                M(K);
    std::vector<std::unique_ptr<Tk[]>> ext;
    std::vector<std::shared_ptr<Blk>> extb;
    std::vector<Tk *>                stolen;
    std::string                      trace;
    auto fresh = [&](size_t cap, Tk *at) {
      auto b = std::make_shared<Blk>();
      b->a.assign(cap, -1);
      b->at = at;
      return b;
    };
    auto judge = [&](int k, const char *op) {
      const Arr & a = *A[k];
      const MArr &m = M[k];
      if (!c.expect(a.size() == m.n && a.empty() == (m.n == 0) && a.capacity() >= a.size(), std::string("array-size:") + op,
                    fmt("%zu expected %zu | %s", a.size(), m.n, trace.c_str())))
        return false;
      if (m.b) {
        const int want = m.b->ext ? hif::DATA_WRAP : hif::DATA_OWN;
        if (!c.expect(a.data() == m.b->at && a.status() == want, std::string("array-block:") + op, trace)) return false;
      } else if (!c.expect(a.size() == 0 && a.status() == hif::DATA_UNDEF && !a.data(), std::string("array-undefined:") + op, trace))
        return false;
      for (size_t i = 0; i < m.n; ++i)
        if (a[i].v != m.b->a[i] || a[i].magic != 0xA11Eu)
          return c.expect(false, std::string("array-content:") + op, fmt("[%zu]=%d expected %d | %s", i, a[i].v, m.b->a[i], trace.c_str()));
      if (m.n && (a.front().v != m.b->a[0] || a.back().v != m.b->a[m.n - 1] || (size_t)(a.end() - a.begin()) != m.n ||
                  a.cend() - a.cbegin() != a.end() - a.begin()))
        return c.expect(false, std::string("array-ends:") + op, trace);
      return true;
    };
    const int steps = (int)r.in(3, c.thorough ? 60 : 30);
    for (int s = 0; s < steps; ++s) {
      int       k = (int)r.in(0, K - 1), j = (int)r.in(0, K - 1), op = (int)r.in(0, 26);
      size_t    n = (size_t)r.pick({(int)r.in(0, 3), (int)r.in(0, 12), (int)r.in(0, 40)});
      const int v = (int)r.in(0, 999999);
      if (!A[k] && op > 9) op = (int)r.in(0, 9);
      trace += fmt(" %d(%d,%d,%zu)", op, k, j, n);
      h.pod(op * 31 + k);
      const bool fail = inject && r.chance(.2);
      const char *nm  = "?";
      // an operation that has to enlarge array k
      auto grow = [&](size_t want, bool presv) {
        const bool re = want > A[k]->capacity();
        (void)presv;
        return re;
      };
      auto regrown = [&](size_t want, bool re, bool keep) {  // model of enlarging
        if (re) {
          auto b = fresh(A[k]->capacity(), A[k]->data());
          if (keep && M[k].b) std::copy_n(M[k].b->a.begin(), M[k].n, b->a.begin());
          M[k].b = b;
        }
        M[k].n = want;
      };
      switch (op) {
        case 0:
          nm = "default";
          A[k].reset(new Arr());
          M[k] = MArr();
          break;
        case 1:
          nm = "sized";
          vf_fail_nothrow = fail;
          A[k].reset(new Arr(n));
          vf_fail_nothrow = false;
          M[k] = MArr();
          if (!fail) {
            M[k].b = fresh(n, A[k]->data());
            M[k].n = n;
          } else
            c.ev("array-failed-allocation");
          break;
        case 2:
          nm = "filled";
          vf_fail_nothrow = fail;
          A[k].reset(new Arr(n, Tk(v)));
          vf_fail_nothrow = false;
          M[k] = MArr();
          if (!fail) {
            M[k].b = fresh(n, A[k]->data());
            M[k].b->a.assign(n, v);
            M[k].n = n;
          } else
            c.ev("array-failed-allocation");
          break;
        case 3: {
          nm = "copied-data";
          std::vector<Tk> src(n + 1);
          for (size_t i = 0; i < n; ++i) src[i].v = v + (int)i;
          vf_fail_nothrow = fail;
          A[k].reset(new Arr(n, src.data()));
          vf_fail_nothrow = false;
          M[k] = MArr();
          if (!fail) {
            M[k].b = fresh(n, A[k]->data());
            M[k].n = n;
            for (size_t i = 0; i < n; ++i) M[k].b->a[i] = v + (int)i;
          } else
            c.ev("array-failed-allocation");
          break;
        }
        case 4: {
          nm = "wrapped";
          ext.emplace_back(new Tk[n + 1]);
          auto b = fresh(n, ext.back().get());
          b->ext = true;
          for (size_t i = 0; i < n; ++i) b->a[i] = ext.back()[i].v = v + (int)i;
          extb.push_back(b);
          if (r.chance(.5))
            A[k].reset(new Arr(n, ext.back().get(), true));
          else
            A[k].reset(new Arr(hif::wrap_array(n, ext.back().get())));
          M[k].b = b;
          M[k].n = n;
          c.ev("array-wrapped");
          break;
        }
        case 5:
        case 6: {
          const bool clone = op == 6;
          nm = clone ? "cloned" : "shared";
          if (!A[j]) continue;
          std::unique_ptr<Arr> x(clone ? new Arr(*A[j], true) : r.chance(.5) ? new Arr(*A[j]) : new Arr(*A[j], false));
          MArr m = M[j];
          if (clone) {
            m.b = fresh(m.n, x->data());
            if (M[j].b) std::copy_n(M[j].b->a.begin(), m.n, m.b->a.begin());
          } else if (m.b && m.b.use_count() > 2)
            c.ev("array-shared-by-several");
          A[k] = std::move(x);
          M[k] = m;
          break;
        }
        case 7: {
          nm = "moved";
          if (!A[j]) continue;
          std::unique_ptr<Arr> x(new Arr(std::move(*A[j])));
          MArr m = M[j];
          M[j]   = MArr();
          if (!judge(j, "moved-from")) break;
          A[k] = std::move(x);
          M[k] = m;
          c.ev("array-moved");
          break;
        }
        case 8: {
          nm = "converted";
          hif::Array<Tq> q(n);
          for (size_t i = 0; i < n; ++i) q[i].v = v + (int)i;
          vf_fail_nothrow = fail;
          A[k].reset(new Arr(q));
          vf_fail_nothrow = false;
          M[k] = MArr();
          if (!fail) {
            M[k].b = fresh(n, A[k]->data());
            M[k].n = n;
            for (size_t i = 0; i < n; ++i) M[k].b->a[i] = v + (int)i;
          } else
            c.ev("array-failed-allocation");
          break;
        }
        case 9:
          nm = "destroyed";
          A[k].reset();
          M[k] = MArr();
          break;
        case 10:
          nm = "assigned";
          if (!A[j]) continue;
          *A[k] = *A[j];
          M[k]  = MArr(M[j]);
          if (k == j) c.ev("array-self-assigned");
          break;
        case 11:
          nm = "move-assigned";
          if (!A[j]) continue;
          *A[k] = std::move(*A[j]);
          if (k != j) {
            M[k] = M[j];
            M[j] = MArr();
            judge(j, "moved-from");
          }
          break;
        case 12:
          nm = "swapped";
          if (!A[j]) continue;
          A[k]->swap(*A[j]);
          std::swap(M[k], M[j]);
          judge(j, "swapped-other");
          break;
        case 13:
        case 14:
        case 15: {
          const bool keep = op != 15;
          nm = keep ? "resize" : "resize-dropping";
          if (kAsserts && M[k].b && M[k].b->ext) continue;  // (not allowed on wrapped data)
          if (M[k].b && M[k].b->ext) n = r.in(0, (int64_t)A[k]->capacity());
          const bool re = grow(n, keep);
          vf_fail_nothrow = fail && re;
          keep ? (r.chance(.5) ? A[k]->resize(n) : A[k]->resize(n, true)) : A[k]->resize(n, false);
          const bool failed = vf_fail_nothrow;
          vf_fail_nothrow = false;
          if (failed) {
            M[k] = MArr();
            c.ev("array-failed-resize");
          } else
            regrown(n, re, keep);
          if (re) c.ev("array-enlarged");
          break;
        }
        case 16: {
          nm = "reserve";
          if (kAsserts && M[k].b && M[k].b->ext) continue;  // (not allowed on wrapped data)
          if (M[k].b && M[k].b->ext) n = r.in(0, (int64_t)A[k]->capacity());
          const bool   re = grow(n, true);
          const size_t old = M[k].n;
          vf_fail_nothrow = fail && re;
          A[k]->reserve(n);
          const bool failed = vf_fail_nothrow;
          vf_fail_nothrow = false;
          if (failed)
            M[k] = MArr();
          else {
            regrown(old, re, true);
            c.expect(A[k]->capacity() >= n, "array-reserve-capacity");
          }
          break;
        }
        case 17: {
          nm = "push_back";
          if (kAsserts && M[k].b && M[k].b->ext) continue;  // (not allowed on wrapped data)
          if (M[k].b && M[k].b->ext && A[k]->capacity() <= M[k].n) continue;
          const bool re = grow(M[k].n + 1, true);
          A[k]->push_back(Tk(v));
          regrown(M[k].n + 1, re, true);
          M[k].b->a[M[k].n - 1] = v;
          break;
        }
        case 18:
        case 19: {
          nm = op == 18 ? "push_back-range" : "push_back_n";
          if (kAsserts && M[k].b && M[k].b->ext) continue;  // (not allowed on wrapped data)
          if (M[k].b && M[k].b->ext) n = std::min<size_t>(n, A[k]->capacity() - M[k].n);
          std::vector<Tk> src(n);
          for (size_t i = 0; i < n; ++i) src[i].v = v + (int)i;
          const size_t old = M[k].n;
          const bool   re = grow(old + n, true);
          if (op == 18)
            A[k]->push_back(src.begin(), src.end());
          else
            A[k]->push_back_n(src.begin(), n);
          regrown(old + n, re, true);
          for (size_t i = 0; i < n; ++i) M[k].b->a[old + i] = v + (int)i;
          break;
        }
        case 20:
        case 21:
        case 22:
          nm = "written";
          if (!M[k].n) continue;
          n = r.in(0, M[k].n - 1);
          switch ((int)r.in(0, 4)) {
            case 0: A[k]->at(n).v = v; break;
            case 1: A[k]->data()[n].v = v; break;
            case 2: (A[k]->begin() + n)->v = v; break;
            default: (*A[k])[n].v = v;
          }
          M[k].b->a[n] = v;
          break;
        case 23: {
          nm = "at-checked";
          bool t = false;
          try {
            const Arr &ca = *A[k];
            (void)(r.chance(.5) ? ca.at(M[k].n + n).v : A[k]->at(M[k].n + n).v);
          } catch (const std::exception &) {
            t = true;
          }
          c.expect(t, "array-at-out-of-range");
          break;
        }
        case 24: {  // take the block away
          nm = "stolen";
          if (r.chance(.6)) continue;
          Tk *   d;
          size_t sz, cp;
          const bool own = M[k].b && !M[k].b->ext;
          if (own && M[k].b->stolen) continue;
          const size_t cap0 = A[k]->capacity();
          hif::steal_array_ownership(*A[k], d, sz, cp);
          if (own) {
            c.expect(d == M[k].b->at && sz == M[k].n && cp == cap0, "array-stolen-data");
            M[k].b->stolen = true;
            stolen.push_back(d);
            M[k] = MArr();
            c.ev("array-stolen");
          } else
            c.expect(!d && !sz && !cp, "array-stolen-nothing");
          break;
        }
        case 25:
          nm = "written-wrapped";
          if (extb.empty()) continue;
          j = (int)r.in(0, extb.size() - 1);
          if (extb[j]->a.empty()) continue;
          n                 = r.in(0, extb[j]->a.size() - 1);
          extb[j]->a[n]     = v;
          extb[j]->at[n].v  = v;
          break;
        default:
          nm = "self";
          if (r.chance(.5)) {
            A[k]->swap(*A[k]);
          } else {
            Arr &x = *A[k];
            *A[k]  = x;
          }
      }
      bool ok = true;
      for (int q = 0; q < K && ok; ++q)
        if (A[q]) ok = judge(q, nm);
      c.ev("array-steps");
      if (!ok) {  // leave nothing behind that may be released twice
        for (auto &a : A) a.release();
        for (auto &e : ext) e.release();
        Tk::live = live0;
        Tk::bad  = 0;
        return;
      }
    }
    for (auto k : r.perm(K)) A[k].reset();
    for (auto &b : extb)
      for (size_t i = 0; i < b->a.size(); ++i)
        if (b->at[i].v != b->a[i] || b->at[i].magic != 0xA11Eu) {
          c.expect(false, "array-wrapped-data-damaged", trace);
          break;
        }
    for (auto p : stolen) delete[] p;
  }
  c.expect(Tk::live == live0, "array-releases", fmt("%ld elements left", Tk::live - live0));
  c.expect(Tk::bad == 0, "array-dead-elements", fmt("%ld", Tk::bad));
  Tk::live = live0;
  Tk::bad  = 0;
  c.ev("array-cases");
  c.nontrivial(h.h);
}

// ---------------------------------------------------------- DenseMatrix
typedef hif::DenseMatrix<T> DM;
struct DBlk {
  std::vector<T> a;
  bool           ext = false;
};
struct MDen {
  std::shared_ptr<DBlk> b;
  size_t                m = 0, n = 0;
};
template <class X>
struct Cheap {
  typedef double type;
};
template <>
struct Cheap<double> {
  typedef float type;
};
template <class X>
struct Cheap<std::complex<X>> {
  typedef std::complex<typename Cheap<X>::type> type;
};
static T rv(Rng &r) { return Tr<T>::mk((double)r.in(-99, 99), (double)r.in(-99, 99)); }
static void dense_case(Ctx &c, Rng &r) {
  const int K = 4;
  std::vector<DM>   A(K);
  std::vector<MDen> M(K);
  std::vector<std::unique_ptr<std::vector<T>>> ext;
  std::string trace;
  Hash        h;
  auto judge = [&](int k, const char *op) {
    const DM &  a = A[k];
    const MDen &m = M[k];
    if (!c.expect(a.nrows() == m.m && a.ncols() == m.n && a.size() == m.m * m.n && a.is_squared() == (m.m == m.n) &&
                      a.empty() == (m.m * m.n == 0),
                  std::string("dense-shape:") + op, fmt("%zux%zu (%zu) expected %zux%zu |%s", a.nrows(), a.ncols(), a.size(), m.m, m.n, trace.c_str())))
      return false;
    bool ok = true;
    for (size_t j = 0; j < m.n; ++j) {
      size_t i = 0;
      for (auto it = a.col_cbegin(j); it != a.col_cend(j); ++it, ++i) ok = ok && i < m.m && *it == m.b->a[i + j * m.m];
      ok = ok && i == m.m;
      for (i = 0; i < m.m; ++i) ok = ok && a(i, j) == m.b->a[i + j * m.m] && a[i + j * m.m] == a(i, j);
    }
    for (size_t i = 0; i < m.m && m.n; ++i) {
      size_t j = 0;
      for (auto it = a.row_cbegin(i); it != a.row_cend(i); ++it, ++j) ok = ok && j < m.n && *it == m.b->a[i + j * m.m];
      ok = ok && j == m.n;
      for (j = 0; j < m.n; ++j) ok = ok && a.row_begin(i)[j] == m.b->a[i + j * m.m];
    }
    return c.expect(ok, std::string("dense-content:") + op, trace);
  };
  auto fresh = [&](int k, size_t cap) {
    M[k].b = std::make_shared<DBlk>();
    M[k].b->a.assign(cap, T(0));
  };
  auto adopt = [&](int k) {  // the block is new and may be uninitialised: fill it
    for (size_t q = 0; q < M[k].m * M[k].n; ++q) A[k][q] = M[k].b->a[q] = rv(r);
  };
  const int steps = (int)r.in(3, 25);
  for (int s = 0; s < steps; ++s) {
    const int k = (int)r.in(0, K - 1), j = (int)r.in(0, K - 1), op = (int)r.in(0, 15);
    size_t    m = (size_t)r.in(0, 7), n = (size_t)r.in(0, 7);
    trace += fmt(" %d(%d,%d,%zux%zu)", op, k, j, m, n);
    h.pod(op * 31 + k);
    const char *nm = "?";
    switch (op) {
      case 0:
        nm   = "sized";
        if (!n && r.chance(.5))
          A[k] = DM(m);
        else
          A[k] = DM(m, n);
        M[k].m = m;
        M[k].n = n ? n : m;
        fresh(k, M[k].m * M[k].n);
        adopt(k);
        break;
      case 1: {
        nm        = "filled";
        const T v = rv(r);
        A[k]      = DM(m, n, v);
        M[k].m    = m;
        M[k].n    = n;
        fresh(k, m * n);
        M[k].b->a.assign(m * n, v);
        break;
      }
      case 2:
      case 3: {
        nm = op == 2 ? "copied-data" : "wrapped";
        ext.emplace_back(new std::vector<T>(m * n + 1));
        for (auto &v : *ext.back()) v = rv(r);
        A[k]   = DM(m, n, ext.back()->data(), op == 3);
        M[k].m = m;
        M[k].n = n;
        fresh(k, m * n);
        std::copy_n(ext.back()->begin(), m * n, M[k].b->a.begin());
        M[k].b->ext = op == 3;
        c.expect(A[k].status() == (op == 3 ? hif::DATA_WRAP : hif::DATA_OWN), "dense-status");
        if (op == 3) c.expect(A[k].data() == ext.back()->data(), "dense-wrap-address");
        break;
      }
      case 4: {
        nm = "shared";
        DM x(A[j]);
        A[k] = x;
        M[k] = MDen(M[j]);
        break;
      }
      case 5: {
        nm = "cloned";
        DM   x(A[j], true);
        MDen y = M[j];
        if (y.b) {
          auto b = std::make_shared<DBlk>(*y.b);
          b->ext = false;
          b->a.resize(y.m * y.n);
          y.b = b;
        } else
          y.b = std::make_shared<DBlk>();
        A[k] = std::move(x);
        M[k] = y;
        break;
      }
      case 6: {
        nm = "moved";
        if (k == j) continue;
        A[k] = std::move(A[j]);
        M[k] = M[j];
        A[j] = DM();
        M[j] = MDen();
        break;
      }
      case 7: {
        nm = "converted";
        typedef typename Cheap<T>::type F;
        hif::DenseMatrix<F> q(m, n, F(0));
        for (size_t i = 0; i < q.size(); ++i) q[i] = Tr<F>::mk((double)r.in(-99, 99), (double)r.in(-99, 99));
        A[k]   = DM(q);
        M[k].m = m;
        M[k].n = n;
        fresh(k, m * n);
        for (size_t i = 0; i < m * n; ++i) M[k].b->a[i] = T(q[i]);
        break;
      }
      case 8:
      case 9: {
        nm = "resize";
        if (M[k].b && M[k].b->ext && (kAsserts || m * n > A[k].array().capacity())) continue;
        const bool   re = m * n > A[k].array().capacity();
        const size_t old = M[k].m * M[k].n;
        A[k].resize(m, n);
        M[k].m = m;
        M[k].n = n;
        if (re) {  // the leading entries are kept, the others are not initialised
          auto o = M[k].b;
          fresh(k, A[k].array().capacity());
          if (o) std::copy_n(o->a.begin(), old, M[k].b->a.begin());
          for (size_t q = old; q < m * n; ++q) A[k][q] = M[k].b->a[q] = rv(r);
        } else if (m * n > old)
          for (size_t q = old; q < m * n; ++q) A[k][q] = M[k].b->a[q] = rv(r);
        c.ev(re ? "dense-enlarged" : "dense-reshaped");
        break;
      }
      case 10:
      case 11: {
        nm = op == 10 ? "copy_sparse-rows" : "copy_sparse-columns";
        Coo<T> S(0);
        m = (size_t)r.in(0, 6);
        n = (size_t)r.in(0, 6);
        if (M[k].b && M[k].b->ext && (kAsserts || m * n > A[k].array().capacity())) continue;
        std::vector<std::vector<T>>    D(m, std::vector<T>(n, T(0)));
        std::vector<std::vector<char>> P(m, std::vector<char>(n, 0));
        Csr<T> a;
        a.m = (int)m;
        a.n = (int)n;
        a.ptr.assign(1, 0);
        for (size_t i = 0; i < m; ++i) {
          for (size_t q = 0; q < n; ++q)
            if (r.chance(.4)) {
              D[i][q] = rv(r);
              a.ind.push_back((int)q);
              a.val.push_back(D[i][q]);
            }
          a.ptr.push_back(a.ind.size());
        }
        const bool re = m * n > A[k].array().capacity();
        if (r.chance(.3) && !re) {
          A[k] = op == 10 ? DM::from_sparse(mk_crs(a)) : DM::from_sparse(mk_ccs(a));
          fresh(k, A[k].array().capacity());
        } else {
          op == 10 ? A[k].copy_sparse(mk_crs(a)) : A[k].copy_sparse(mk_ccs(a));
          if (re || !M[k].b) fresh(k, A[k].array().capacity());
        }
        M[k].m = m;
        M[k].n = n;
        for (size_t i = 0; i < m; ++i)
          for (size_t q = 0; q < n; ++q) M[k].b->a[i + q * m] = D[i][q];
        c.ev("dense-from-sparse");
        break;
      }
      case 12:
        nm   = "default";
        A[k] = DM();
        M[k] = MDen();
        break;
      default: {
        nm = "written";
        if (!(M[k].m * M[k].n)) continue;
        const size_t i = r.in(0, M[k].m - 1), q = r.in(0, M[k].n - 1);
        const T      v = rv(r);
        switch (op) {
          case 13: A[k](i, q) = v; break;
          case 14: A[k].row_begin(i)[q] = v; break;
          default: A[k].col_begin(q)[i] = v;
        }
        M[k].b->a[i + q * M[k].m] = v;
      }
    }
    c.ev("dense-steps");
    for (int q = 0; q < K; ++q)
      if (!judge(q, nm)) return;
  }
  c.ev("dense-cases");
  c.nontrivial(h.h);
}

// ----------------------------------------------------------- permutations
template <class I>
static void perm_case(Ctx &c, Rng &r) {
  typedef hif::BiPermMatrix<I> P;
  const int      n = (int)r.in(0, 12);
  P              p;
  std::vector<int> m = r.perm(n);
  auto judge = [&](const P &q, const std::vector<int> &w, const char *op) {
    bool ok = q.size() == w.size() && q.inv().size() == w.size() && q().size() == w.size(), eye = true;
    for (size_t i = 0; ok && i < w.size(); ++i) {
      ok  = (int)q[i] == w[i] && (int)q()[i] == w[i] && (int)q.inv(w[i]) == (int)i && (int)q.inv()[w[i]] == (int)i;
      eye = eye && w[i] == (int)i;
    }
    c.expect(ok, std::string("permutation:") + op);
    c.expect(q.is_eye() == eye, std::string("permutation-is-identity:") + op);
    if (eye && n > 1) c.ev("permutation-identity");
    return ok;
  };
  if (r.chance(.3)) {
    hif::Array<I> a(n);
    for (int i = 0; i < n; ++i) a[i] = (I)m[i];
    const bool clone = r.chance(.5);
    p                = r.chance(.5) ? P(a, clone) : P(hif::PermMatrix<I>(a, clone), clone);
    if (n) c.expect((p().data() == a.data()) == !clone, "permutation-clone");
    p.build_inv();
  } else if (r.chance(.5)) {
    p.resize(n);
    for (int i = 0; i < n; ++i) p[i] = (I)m[i];
    p.build_inv();
  } else {
    p = P(n);
    p.make_eye();
    for (int i = 0; i < n; ++i) m[i] = i;
  }
  if (!judge(p, m, "built")) return;
  for (int s = 0, e = (int)r.in(0, 20); s < e && n; ++s) {
    const int   i = (int)r.in(0, n - 1), j = (int)r.in(0, n - 1);
    const char *op = "?";
    switch ((int)r.in(0, 6)) {
      case 0:
      case 1:
        op = "interchange";
        p.interchange(i, j);
        std::swap(m[i], m[j]);
        break;
      case 2:
      case 3: {
        op = "interchange_inv";
        p.interchange_inv(i, j);
        for (auto &v : m) v = v == i ? j : v == j ? i : v;
        break;
      }
      case 4: {
        op = "copy";
        const bool clone = r.chance(.5);
        P          q(p, clone);
        auto       w = m;
        q.interchange(i, j);
        std::swap(w[i], w[j]);
        judge(q, w, "copied");
        if (!clone) m = w;  // shared
        if (r.chance(.3)) p = q, m = w;
        break;
      }
      case 5: {
        op = "move";
        P q(std::move(p));
        c.expect(p.size() == 0, "permutation-moved-from");
        p = std::move(q);
        break;
      }
      default:
        op = "identity";
        if (r.chance(.2)) {
          p.make_eye();
          for (int q = 0; q < n; ++q) m[q] = q;
        }
    }
    c.ev("permutation-steps");
    if (!judge(p, m, op)) return;
  }
  hif::PermMatrix<I> q(n);
  q.make_eye();
  c.expect(q.is_eye() && q.size() == (size_t)n, "permutation-plain-identity");
  if (n > 1) {
    q.interchange(0, n - 1);
    c.expect(!q.is_eye() && (int)q[0] == n - 1 && (int)q[n - 1] == 0, "permutation-plain-interchange");
  }
  c.ev("permutation-cases");
}

// ---------------------------------------------------------- sparse vector
template <class I>
static void sparse_case(Ctx &c, Rng &r) {
  typedef hif::SparseVector<T, I> S;
  size_t                          dn = (size_t)r.in(1, 20), sn = r.chance(.5) ? 0 : (size_t)r.in(1, 30);
  S                               s;
  if (r.chance(.5))
    s = S(dn, sn);
  else
    s.resize(dn, sn);
  size_t             cap = sn ? sn : dn;
  std::vector<T>     val(dn, T(0));
  std::vector<long>  tag(dn, -1);
  std::vector<char>  del(cap, 0);
  std::vector<int>   ind;
  long               step = 0;
  std::string        trace;
  Hash               h;
  auto judge = [&](const char *op) {
    bool ok = s.size() == ind.size() && s.empty() == ind.empty() && s.vals().size() == dn && s.inds().size() == cap;
    for (size_t i = 0; ok && i < ind.size(); ++i) ok = (int)s.idx(i) == ind[i] && (int)s.inds()[i] == ind[i] && s.val(i) == val[ind[i]];
    for (size_t i = 0; ok && i < dn; ++i) ok = s[i] == val[i] && s.vals()[i] == val[i];
    if (!c.expect(ok, std::string("sparse-vector:") + op, trace)) return false;
    // reductions over the listed entries
    ld     n1 = 0, n2 = 0, mx = 0;
    for (int i : ind) {
      const ld a = std::abs(up(val[i]));
      n1 += a;
      n2 += a * a;
      mx = std::max(mx, a);
    }
    const double tol = 64 * epsof<T>();
    c.near((double)std::abs((ld)s.norm1() - n1), tol * (double)n1, "sparse-vector-norm1");
    c.near((double)std::abs((ld)s.norm2_sq() - n2), tol * (double)n2, "sparse-vector-norm2_sq");
    c.near((double)std::abs(up(s.norm2()) - cld(std::sqrt(n2))), tol * (double)std::sqrt(n2), "sparse-vector-norm2");
    c.near((double)std::abs((ld)s.max_mag() - mx), tol * (double)mx, "sparse-vector-max");
    const size_t none = std::numeric_limits<size_t>::max();
    size_t       k    = s.imax_mag();
    c.expect(ind.empty() ? k == none : k < dn && std::count(ind.begin(), ind.end(), (int)k) && std::abs(up(val[k])) >= mx * (1 - (ld)tol),
             "sparse-vector-imax");
    const int cut = (int)r.in(0, dn);
    auto      in  = [&](const I i) { return (int)i < cut; };
    ld        mc  = -1;
    for (int i : ind)
      if (i < cut) mc = std::max(mc, std::abs(up(val[i])));
    k = s.imax_mag(in);
    c.expect(mc < 0 ? k == none : (int)k < cut && std::count(ind.begin(), ind.end(), (int)k) && std::abs(up(val[k])) >= mc * (1 - (ld)tol),
             "sparse-vector-imax-within");
    k = s.find_if(in);
    int first = -1;
    for (int i : ind)
      if (i < cut) {
        first = i;
        break;
      }
    c.expect(first < 0 ? k == none : (int)k == first, "sparse-vector-find");
    return true;
  };
  for (int q = 0, e = (int)r.in(3, 40); q < e; ++q) {
    const char *op = "?";
    const int   o = (int)r.in(0, 12), i = (int)r.in(0, dn - 1);
    trace += fmt(" %d(%d)", o, i);
    h.pod(o * 37 + i);
    switch (o) {
      case 0:
      case 1:
      case 2:
      case 3: {
        op = "push_back";
        if (ind.size() >= cap) continue;
        const bool got = s.push_back((I)i, (size_t)step), want = tag[i] != step;
        c.expect(got == want, "sparse-vector-new-index", trace);
        if (want) {
          ind.push_back(i);
          tag[i] = step;
        } else
          c.ev("sparse-duplicate");
        break;
      }
      case 4: {
        op     = "value";
        val[i] = s[i] = rv(r);
        break;
      }
      case 5: {
        op = "reset";
        s.reset_counter();
        std::fill(del.begin(), del.end(), 0);
        for (size_t z = 0; z < 1; ++z) ind.clear();
        ++step;
        break;
      }
      case 6: {
        op = "sort";
        if (r.chance(.5)) {
          s.sort_indices();
          std::sort(ind.begin(), ind.end());
        } else {
          s.sort_indices([](const I a, const I b) { return a > b; });
          std::sort(ind.begin(), ind.end(), std::greater<int>());
        }
        break;
      }
      case 7: {
        op        = "scale";
        const T a = Tr<T>::mk(2, 0);
        std::set<int> once(ind.begin(), ind.end());
        if (once.size() != ind.size()) continue;
        s.scale(a);
        for (int z : ind) val[z] *= a;
        break;
      }
      case 8: {
        op = "compress";
        for (size_t z = 0; z < ind.size(); ++z)
          if (r.chance(.4)) {
            s.mark_delete(z);
            del[z] = 1;
          }
        s.compress_indices();
        std::vector<int> keep;
        for (size_t z = 0; z < ind.size(); ++z)
          if (!del[z]) keep.push_back(ind[z]);
        if (keep.size() != ind.size()) c.ev("sparse-compressed");
        ind = keep;
        std::fill(del.begin(), del.end(), 0);
        break;
      }
      case 9: {
        op = "restore";
        s.restore_cur_state();
        for (int z : ind) tag[z] = -1;
        // the indices are now unknown: listing them again is allowed
        s.reset_counter();
        ind.clear();
        break;
      }
      case 10: {
        op = "next-step";
        s.reset_counter();
        ind.clear();
        ++step;
        break;
      }
      case 11: {
        op = "resize";
        if (r.chance(.6)) continue;
        s.reset_counter();
        ind.clear();
        dn  = (size_t)r.in(1, 25);
        sn  = r.chance(.5) ? 0 : (size_t)r.in(1, 30);
        cap = sn ? sn : dn;
        s.resize(dn, sn);
        val.resize(dn, T(0));
        tag.assign(dn, -1);
        del.assign(cap, 0);
        break;
      }
      default: {
        op = "move";
        S t(std::move(s));
        s = std::move(t);
      }
    }
    c.ev("sparse-steps");
    if (!judge(op)) return;
  }
  c.ev("sparse-cases");
  c.nontrivial(h.h);
}

// ------------------------------------------------- augmented linked lists
template <class Aug, bool ROW>
struct AugOps;
template <class Aug>
struct AugOps<Aug, true> {
  static void   begin(Aug &a) { a.begin_assemble_rows(); }
  static void   end(Aug &a) { a.end_assemble_rows(); }
  static void   empty(Aug &a, size_t i) { a.push_back_empty_row(i); }
  template <class It, class V>
  static void push(Aug &a, size_t i, It f, It l, const V &v) { a.push_back_row(i, f, l, v); }
  template <class It, class V>
  static void push2(Aug &a, size_t i, It f, It l, const V &v, It f2, It l2, const V &v2) { a.push_back_row(i, f, l, v, f2, l2, v2); }
  static void   swap(Aug &a, size_t i, size_t k) { a.interchange_cols(i, k); }
  static void   defer(Aug &a, size_t i, size_t k) { a.defer_col(i, k); }
  static size_t count(const Aug &a, size_t i) { return a.nnz_in_col(i); }
  static Aug    make(size_t np, size_t ns, size_t nnz) { return Aug(np, ns, nnz); }
};
template <class Aug>
struct AugOps<Aug, false> {
  static void   begin(Aug &a) { a.begin_assemble_cols(); }
  static void   end(Aug &a) { a.end_assemble_cols(); }
  static void   empty(Aug &a, size_t i) { a.push_back_empty_col(i); }
  template <class It, class V>
  static void push(Aug &a, size_t i, It f, It l, const V &v) { a.push_back_col(i, f, l, v); }
  template <class It, class V>
  static void push2(Aug &a, size_t i, It f, It l, const V &v, It f2, It l2, const V &v2) { a.push_back_col(i, f, l, v, f2, l2, v2); }
  static void   swap(Aug &a, size_t i, size_t k) { a.interchange_rows(i, k); }
  static void   defer(Aug &a, size_t i, size_t k) { a.defer_row(i, k); }
  static size_t count(const Aug &a, size_t i) { return a.nnz_in_row(i); }
  static Aug    make(size_t np, size_t ns, size_t nnz) { return Aug(ns, np, nnz); }
};
template <class Cs>
static void aug_case(Ctx &c, Rng &r) {
  static const bool ROW = Cs::ROW_MAJOR;
  typedef typename std::conditional<ROW, hif::AugCRS<typename std::conditional<ROW, Cs, typename Cs::other_type>::type>,
                                    hif::AugCCS<typename std::conditional<ROW, typename Cs::other_type, Cs>::type>>::type Aug;
  typedef AugOps<Aug, ROW>      O;
  typedef typename Cs::index_type I;
  // primary lines hold the entries, secondary lines are the linked lists
  const size_t np = (size_t)r.in(0, 9);
  size_t       ns = (size_t)r.in(1, 9), used = r.chance(.5) ? ns : (size_t)r.in(1, ns);
  typedef std::vector<std::map<size_t, T>> Model;
  Model  m;
  Aug    a;
  Hash   h;
  std::string trace = ROW ? "rows" : "columns";
  const int how  = (int)r.in(0, 3);
  bool      open = false;
  auto judge = [&](const Aug &x, const Model &w, const char *op) {
    bool ok = x.ind_start().size() == w.size() + 1 && (open || x.primary_size() == w.size()) && x.nnz() == [&] { size_t t = 0; for (auto &l : w) t += l.size(); return t; }();
    for (size_t i = 0; ok && i < w.size(); ++i) {
      const auto ip = x.ind_start();
      ok = (size_t)(ip[i + 1] - ip[i]) == w[i].size();
      size_t k = ip[i];
      for (auto it = w[i].begin(); ok && it != w[i].end(); ++it, ++k) ok = (size_t)x.inds()[k] == it->first && x.vals()[k] == it->second;
    }
    if (!c.expect(ok, std::string("augmented-lines:") + op, trace)) return false;
    for (size_t j = 0; ok && j < ns; ++j) {
      size_t cnt = 0;
      auto   id  = x.start_aug_id(j);
      long   last = -1;
      decltype(id) lastid = id;
      while (!Aug::is_nil(id) && cnt <= w.size()) {
        const long i = (long)x.primary_idx(id);
        ok = ok && i > last && i < (long)w.size() && w[i].count(j) && x.val_from_aug_id(id) == w[i].at(j);
        if (!ok) break;
        last   = i;
        lastid = id;
        ++cnt;
        id = x.next_aug_id(id);
      }
      size_t want = 0;
      for (auto &l : w) want += l.count(j);
      ok = ok && cnt == want && O::count(x, j) == want && x.nnz_in_secondary(j) == want;
      ok = ok && (want == 0 ? Aug::is_nil(x.secondary_end()[j]) : (size_t)x.secondary_end()[j] == (size_t)lastid);
    }
    return c.expect(ok, std::string("augmented-lists:") + op, trace);
  };
  auto line = [&](size_t ncol) {
    std::map<size_t, T> l;
    const double d = r.pick({0.0, .2, .5, 1.0});
    for (size_t j = 0; j < ncol; ++j)
      if (r.chance(d)) l[j] = rv(r);
    return l;
  };
  auto push = [&](const std::map<size_t, T> &l) {
    const size_t   i = m.size();
    std::vector<I> id;
    std::vector<T> dv(ns, T(0)), dv2(ns, T(0));
    for (auto &e : l) {
      id.push_back((I)e.first);
      dv[e.first] = e.second;
    }
    if (id.empty() && r.chance(.5))
      O::empty(a, i);
    else if (r.chance(.5)) {
      const size_t cut = id.empty() ? 0 : r.in(0, id.size());
      for (size_t k = cut; k < id.size(); ++k) std::swap(dv[id[k]], dv2[id[k]]);
      O::push2(a, i, id.begin(), id.begin() + cut, dv, id.begin() + cut, id.end(), dv2);
    } else
      O::push(a, i, id.begin(), id.end(), dv);
    m.push_back(l);
  };
  if (how == 0) {
    a    = O::make(np, ns, r.chance(.5) ? 0 : r.in(1, 40));
    open = true;
    O::begin(a);
    c.ev("augmented-assembled");
  } else {
    Csr<T> A;  // as rows of the primary direction
    A.m = (int)np;
    A.n = (int)ns;
    A.ptr.assign(1, 0);
    for (size_t i = 0; i < np; ++i) {
      auto l = line(used);
      for (auto &e : l) {
        A.ind.push_back((int)e.first);
        A.val.push_back(e.second);
      }
      A.ptr.push_back(A.ind.size());
      m.push_back(l);
    }
    Cs S;
    S.resize(ROW ? np : ns, ROW ? ns : np);
    S.ind_start().resize(np + 1);
    S.inds().reserve(1);  // (a matrix without entries still owns its arrays)
    S.vals().reserve(1);
    S.inds().resize(A.ind.size());
    S.vals().resize(A.ind.size());
    for (size_t i = 0; i <= np; ++i) S.ind_start()[i] = A.ptr[i];
    for (size_t k = 0; k < A.ind.size(); ++k) {
      S.inds()[k] = A.ind[k];
      S.vals()[k] = A.val[k];
    }
    if (how == 1 || (how == 3 && A.ind.empty()))  // (the conversion leaves no arrays then)
      a.build_aug(S, true);
    else if (how == 2)
      a.build_aug(std::move(S));
    else
      a.build_aug(typename Cs::other_type(S));
    c.ev(fmt("augmented-built-%d", how));
  }
  if (!judge(a, m, "built")) return;
  for (int s = 0, e = (int)r.in(2, 30); s < e; ++s) {
    const char * op = "?";
    const size_t i = r.in(0, ns - 1), k = r.in(0, ns - 1);
    const int    o = (int)r.in(0, 8);
    trace += fmt(" %d(%zu,%zu)", o, i, k);
    h.pod(o * 41 + i * 7 + k);
    switch (o) {
      case 0:
      case 1:
        op = "push";
        if (!open || m.size() >= np) continue;
        push(line(used));
        break;
      case 2:
      case 3:
      case 4:
        op = "interchange";
        r.chance(.5) ? O::swap(a, i, k) : a.interchange_entries(i, k);
        if (i != k)
          for (auto &l : m) {
            const bool hi = l.count(i), hk = l.count(k);
            const T    vi = hi ? l[i] : T(0), vk = hk ? l[k] : T(0);
            l.erase(i);
            l.erase(k);
            if (hi) l[k] = vi;
            if (hk) l[i] = vk;
          }
        c.ev("augmented-interchanges");
        break;
      case 5: {
        op = "defer";  // the destination lies beyond every used line
        if (used >= ns) continue;
        size_t hi = 0;
        for (auto &l : m)
          if (!l.empty()) hi = std::max(hi, l.rbegin()->first + 1);
        const size_t to = std::max(hi, used), from = r.in(0, used - 1);
        if (to >= ns || from >= to) continue;
        r.chance(.5) ? O::defer(a, from, to) : a.defer_entry(from, to);
        for (auto &l : m)
          if (l.count(from)) {
            l[to] = l[from];
            l.erase(from);
          }
        c.ev("augmented-deferrals");
        break;
      }
      case 6: {
        op = "clone";
        Aug   b(a, true);
        Model w = m;
        if (ns > 1) {
          O::swap(b, 0, ns - 1);
          for (auto &l : w) {
            const bool h0 = l.count(0), h1 = l.count(ns - 1);
            const T    v0 = h0 ? l[0] : T(0), v1 = h1 ? l[ns - 1] : T(0);
            l.erase(0);
            l.erase(ns - 1);
            if (h0) l[ns - 1] = v0;
            if (h1) l[0] = v1;
          }
        }
        if (!judge(b, w, "cloned")) return;
        if (r.chance(.5)) {
          a = std::move(b);
          m = w;
        }
        break;
      }
      case 7: {
        op = "copy";
        Aug b(a), d;
        d = b;
        if (!judge(d, m, "copied")) return;
        break;
      }
      default:
        op = "finish";
        if (open && (m.size() == np || r.chance(.2))) {
          O::end(a);  // fewer lines than asked for shrinks the matrix
          if (m.size() < np) c.ev("augmented-shrunk");
          open = false;
        } else if (!open && how == 0 && r.chance(.3)) {  // assemble again
          m.clear();
          O::begin(a);
          open = true;
          c.ev("augmented-reassembled");
        }
    }
    c.ev("augmented-steps");
    if (!judge(a, m, op)) return;
  }
  c.ev("augmented-cases");
  c.nontrivial(h.h);
}

static void run(Ctx &c, Rng &r, long) {
  c.desc = Tr<T>::name();
  const double u = r.uni();
  if (u < .35)
    array_case(c, r);
  else if (u < .5)
    dense_case(c, r);
  else if (u < .6)
    r.chance(.5) ? perm_case<int>(c, r) : perm_case<long>(c, r);
  else if (u < .75)
    r.chance(.5) ? sparse_case<int>(c, r) : sparse_case<long>(c, r);
  else if (r.chance(.5))
    r.chance(.5) ? aug_case<hif::CRS<T, int>>(c, r) : aug_case<hif::CRS<T, int, long>>(c, r);
  else
    r.chance(.5) ? aug_case<hif::CCS<T, int>>(c, r) : aug_case<hif::CCS<T, int, long>>(c, r);
  if (c.samples.size() < 3) c.sample(c.desc);
}
int main(int argc, char **argv) { return harness_main(argc, argv, 21, run); }
