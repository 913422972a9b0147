// Common runtime for all harnesses: deterministic RNG, case loop, monitors'
// reporting protocol (events, failures, samples, distinct-case hashes).
#pragma once
#include <fcntl.h>
#include <unistd.h>

#include <algorithm>
#include <cmath>
#include <complex>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

namespace vf {

// ---------------------------------------------------------------- RNG
struct Rng {
  uint64_t s[2];
  static uint64_t splitmix(uint64_t &x) {
    uint64_t z = (x += 0x9E3779B97F4A7C15ull);
    z          = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z          = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  explicit Rng(uint64_t a, uint64_t b = 0, uint64_t c = 0) {
    uint64_t x = a * 0x9E3779B97F4A7C15ull ^ (b + 0x51ed27) * 0xD6E8FEB86659FD93ull ^
                 (c + 77) * 0xCA5A826395121157ull;
    s[0] = splitmix(x);
    s[1] = splitmix(x);
  }
  uint64_t u64() {
    uint64_t a = s[0], b = s[1];
    uint64_t r = a + b;
    b ^= a;
    s[0] = ((a << 24) | (a >> 40)) ^ b ^ (b << 16);
    s[1] = (b << 37) | (b >> 27);
    return r;
  }
  double   uni() { return (u64() >> 11) * (1.0 / 9007199254740992.0); }
  double   uni(double a, double b) { return a + (b - a) * uni(); }
  int64_t  in(int64_t a, int64_t b) {  // inclusive
    return a + (int64_t)(u64() % (uint64_t)(b - a + 1));
  }
  bool chance(double p) { return uni() < p; }
  template <class T>
  const T &pick(const std::vector<T> &v) {
    return v[in(0, (int64_t)v.size() - 1)];
  }
  template <class T>
  T pick(std::initializer_list<T> v) {
    return *(v.begin() + in(0, (int64_t)v.size() - 1));
  }
  template <class T>
  void shuffle(std::vector<T> &v) {
    for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[in(0, i - 1)]);
  }
  std::vector<int> perm(int n) {
    std::vector<int> p(n);
    for (int i = 0; i < n; ++i) p[i] = i;
    shuffle(p);
    return p;
  }
};

// ---------------------------------------------------------------- hashing
struct Hash {
  uint64_t h = 1469598103934665603ull;
  void     bytes(const void *p, size_t n) {
    const unsigned char *c = (const unsigned char *)p;
    for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ull;
  }
  template <class T>
  void pod(const T &v) {
    bytes(&v, sizeof v);
  }
  template <class T>
  void arr(const T *p, size_t n) {
    pod(n);
    if (n) bytes(p, n * sizeof(T));
  }
  template <class A>
  void vec(const A &a) {
    pod((uint64_t)a.size());
    if (a.size()) bytes(a.data(), a.size() * sizeof(*a.data()));
  }
};

// ---------------------------------------------------------------- reporting
inline std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char *f, ...) {
  char    b[2048];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  return b;
}
inline std::string jesc(const std::string &s) {
  std::string o;
  for (char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if ((unsigned char)c < 0x20)
      o += fmt("\\u%04x", (unsigned char)c);
    else if ((unsigned char)c >= 0x7f)
      o += fmt("\\u%04x", (unsigned char)c);
    else
      o += c;
  }
  return o;
}

struct Ctx {
  uint64_t                        seed   = 1;
  long                            ncases = 0, only = -1, start = 0;
  int                             shard = 0, nshards = 1;
  bool                            thorough = false, verbose = false;
  std::string                     out, progress, prop;
  std::map<std::string, long>     counters;
  std::map<std::string, double>   maxima;
  std::map<std::string, long>     fail_count;
  std::vector<std::string>        fail_json;
  std::vector<std::string>        samples;
  std::set<uint64_t>              hashes;
  long                            cur = -1, evals = 0;
  std::string                     desc;  // description of the current case
  int                             pfd = -1;

  void ev(const std::string &k, long n = 1) { counters[k] += n; }
  void mx(const std::string &k, double v) {
    auto it = maxima.find(k);
    if (it == maxima.end())
      maxima[k] = v;
    else if (v > it->second)
      it->second = v;
  }
  void fail(const std::string &sig, const std::string &detail) {
    long &c = fail_count[sig];
    ++c;
    if (c <= 3 || verbose)
      fail_json.push_back(fmt("{\"sig\":\"%s\",\"case\":%ld,", jesc(sig).c_str(), cur) +
                          "\"detail\":\"" + jesc(detail) + "\",\"desc\":\"" + jesc(desc) + "\"}");
    if (verbose) fprintf(stderr, "FAIL case=%ld sig=%s %s | %s\n", cur, sig.c_str(), detail.c_str(), desc.c_str());
  }
  // returns true on success
  bool expect(bool ok, const std::string &sig, const std::string &detail = "") {
    ++evals;
    if (!ok) fail(sig, detail);
    return ok;
  }
  bool near(double err, double tol, const std::string &sig, const std::string &detail = "") {
    ++evals;
    mx("err/tol:" + sig, tol > 0 ? err / tol : (err > 0 ? 1e300 : 0.0));
    if (!(err <= tol)) {
      fail(sig, fmt("err=%.6g tol=%.6g ", err, tol) + detail);
      return false;
    }
    return true;
  }
  void nontrivial(uint64_t h) { hashes.insert(h); }
  void sample(const std::string &s) {
    if (samples.size() < 3) samples.push_back(s);
  }
  void dump() {
    if (out.empty()) return;
    FILE *f = fopen(out.c_str(), "w");
    if (!f) return;
    fprintf(f, "{\"evals\":%ld,\"counters\":{", evals);
    bool first = true;
    for (auto &c : counters) {
      fprintf(f, "%s\"%s\":%ld", first ? "" : ",", jesc(c.first).c_str(), c.second);
      first = false;
    }
    fprintf(f, "},\"maxima\":{");
    first = true;
    for (auto &c : maxima) {
      double v = c.second;
      if (!(v < 1e300)) v = 1e300;
      fprintf(f, "%s\"%s\":%.6g", first ? "" : ",", jesc(c.first).c_str(), v);
      first = false;
    }
    fprintf(f, "},\"fail_count\":{");
    first = true;
    for (auto &c : fail_count) {
      fprintf(f, "%s\"%s\":%ld", first ? "" : ",", jesc(c.first).c_str(), c.second);
      first = false;
    }
    fprintf(f, "},\"fails\":[");
    for (size_t i = 0; i < fail_json.size(); ++i) fprintf(f, "%s%s", i ? "," : "", fail_json[i].c_str());
    fprintf(f, "],\"samples\":[");
    for (size_t i = 0; i < samples.size(); ++i) fprintf(f, "%s\"%s\"", i ? "," : "", jesc(samples[i]).c_str());
    fprintf(f, "],\"hashes\":[");
    first = true;
    for (auto h : hashes) {
      fprintf(f, "%s\"%llx\"", first ? "" : ",", (unsigned long long)h);
      first = false;
    }
    fprintf(f, "]}\n");
    fclose(f);
  }
  void set_progress(long i) {
    if (pfd >= 0) {
      char b[32];
      int  l = snprintf(b, sizeof b, "%-20ld\n", i);
      if (pwrite(pfd, b, l, 0) < 0) {
      }
    }
  }
};

inline int harness_main(int argc, char **argv, uint64_t salt, void (*run)(Ctx &, Rng &, long)) {
  Ctx c;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto        v = [&]() -> const char * { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--seed")
      c.seed = strtoull(v(), 0, 10);
    else if (a == "--cases")
      c.ncases = atol(v());
    else if (a == "--case")
      c.only = atol(v());
    else if (a == "--start")
      c.start = atol(v());
    else if (a == "--shard")
      c.shard = atoi(v());
    else if (a == "--nshards")
      c.nshards = atoi(v());
    else if (a == "--tier")
      c.thorough = !strcmp(v(), "thorough");
    else if (a == "--prop")
      c.prop = v();
    else if (a == "--out")
      c.out = v();
    else if (a == "--progress")
      c.progress = v();
    else if (a == "-v")
      c.verbose = true;
  }
  if (!c.progress.empty()) c.pfd = open(c.progress.c_str(), O_RDWR | O_CREAT, 0644);
  auto one = [&](long i) {
    c.cur = i;
    c.desc.clear();
    c.set_progress(i);
    Rng r(c.seed, salt, (uint64_t)i);
    try {
      run(c, r, i);
    } catch (const std::exception &e) {
      c.fail(std::string("unexpected-exception"), e.what());
    }
    c.ev("cases");
    if (c.counters["cases"] % 50 == 0) c.dump();
  };
  if (c.only >= 0)
    one(c.only);
  else
    for (long i = c.start; i < c.ncases; ++i)
      if ((int)(i % c.nshards) == c.shard) one(i);
  c.set_progress(-1);
  c.dump();
  if (c.verbose) {
    for (auto &k : c.counters) fprintf(stderr, "  %-40s %ld\n", k.first.c_str(), k.second);
    for (auto &k : c.maxima) fprintf(stderr, "  max %-36s %.4g\n", k.first.c_str(), k.second);
    for (auto &k : c.fail_count) fprintf(stderr, "  FAILS %-36s %ld\n", k.first.c_str(), k.second);
    fprintf(stderr, "evals=%ld distinct=%zu\n", c.evals, c.hashes.size());
  }
  return 0;
}

// ------------------------------------------------------- scalar helpers
typedef long double              ld;
typedef std::complex<long double> cld;

template <class T>
struct Tr {
  typedef T                real;
  static const bool        cplx = false;
  static cld               up(const T &v) { return cld((ld)v, 0); }
  static T                 mk(double a, double) { return (T)a; }
  static const char *      name() { return sizeof(T) == 4 ? "float" : sizeof(T) == 8 ? "double" : "ldouble"; }
};
template <class R>
struct Tr<std::complex<R>> {
  typedef R                real;
  static const bool        cplx = true;
  static cld               up(const std::complex<R> &v) { return cld(v.real(), v.imag()); }
  static std::complex<R>   mk(double a, double b) { return std::complex<R>((R)a, (R)b); }
  static const char *      name() { return sizeof(R) == 4 ? "cfloat" : "cdouble"; }
};
template <class T>
double epsof() {
  return (double)std::numeric_limits<typename Tr<T>::real>::epsilon();
}
template <class T>
cld up(const T &v) {
  return Tr<T>::up(v);
}
template <class T>
T down(const cld &v) {
  return Tr<T>::mk((double)v.real(), (double)v.imag());
}
template <class T>
bool finite_(const T &v) {
  cld u = up(v);
  return std::isfinite((double)u.real()) && std::isfinite((double)u.imag());
}

typedef std::vector<cld> cvec;
// Dense reference matrix in extended precision, row-major
struct Dense {
  size_t m = 0, n = 0;
  cvec   a;
  Dense() {}
  Dense(size_t m_, size_t n_) : m(m_), n(n_), a(m_ * n_, cld(0, 0)) {}
  cld &      operator()(size_t i, size_t j) { return a[i * n + j]; }
  const cld &operator()(size_t i, size_t j) const { return a[i * n + j]; }
  static Dense eye(size_t n) {
    Dense d(n, n);
    for (size_t i = 0; i < n; ++i) d(i, i) = 1;
    return d;
  }
  Dense H() const {
    Dense r(n, m);
    for (size_t i = 0; i < m; ++i)
      for (size_t j = 0; j < n; ++j) r(j, i) = std::conj((*this)(i, j));
    return r;
  }
  Dense T() const {
    Dense r(n, m);
    for (size_t i = 0; i < m; ++i)
      for (size_t j = 0; j < n; ++j) r(j, i) = (*this)(i, j);
    return r;
  }
  ld maxabs() const {
    ld r = 0;
    for (auto &v : a) r = std::max(r, std::abs(v));
    return r;
  }
  ld fro() const {
    ld r = 0;
    for (auto &v : a) r += std::norm(v);
    return std::sqrt(r);
  }
  bool finite() const {
    for (auto &v : a)
      if (!std::isfinite((double)v.real()) || !std::isfinite((double)v.imag())) return false;
    return true;
  }
};
inline Dense operator*(const Dense &A, const Dense &B) {
  Dense C(A.m, B.n);
  for (size_t i = 0; i < A.m; ++i)
    for (size_t k = 0; k < A.n; ++k) {
      const cld v = A(i, k);
      if (v == cld(0, 0)) continue;
      for (size_t j = 0; j < B.n; ++j) C(i, j) += v * B(k, j);
    }
  return C;
}
inline Dense operator-(const Dense &A, const Dense &B) {
  Dense C(A.m, A.n);
  for (size_t i = 0; i < A.a.size(); ++i) C.a[i] = A.a[i] - B.a[i];
  return C;
}
inline Dense operator+(const Dense &A, const Dense &B) {
  Dense C(A.m, A.n);
  for (size_t i = 0; i < A.a.size(); ++i) C.a[i] = A.a[i] + B.a[i];
  return C;
}
inline cvec mv(const Dense &A, const cvec &x) {
  cvec y(A.m, cld(0, 0));
  for (size_t i = 0; i < A.m; ++i) {
    cld t = 0;
    for (size_t j = 0; j < A.n; ++j) t += A(i, j) * x[j];
    y[i] = t;
  }
  return y;
}
inline ld nrm2(const cvec &x) {
  ld r = 0;
  for (auto &v : x) r += std::norm(v);
  return std::sqrt(r);
}
inline ld nrminf(const cvec &x) {
  ld r = 0;
  for (auto &v : x) {
    ld t = std::abs(v);
    if (std::isnan(t)) return t;
    if (t > r) r = t;
  }
  return r;
}
inline cvec operator-(const cvec &a, const cvec &b) {
  cvec r(a.size());
  for (size_t i = 0; i < a.size(); ++i) r[i] = a[i] - b[i];
  return r;
}
inline cld dotc(const cvec &a, const cvec &b) {  // conj(a).b
  cld r = 0;
  for (size_t i = 0; i < a.size(); ++i) r += std::conj(a[i]) * b[i];
  return r;
}
// LU with partial pivoting; returns false if exactly singular. inverse out.
inline bool invert(const Dense &A, Dense &X) {
  size_t n = A.m;
  Dense  L = A;
  X        = Dense::eye(n);
  for (size_t k = 0; k < n; ++k) {
    size_t p = k;
    for (size_t i = k + 1; i < n; ++i)
      if (std::abs(L(i, k)) > std::abs(L(p, k))) p = i;
    if (L(p, k) == cld(0, 0)) return false;
    if (p != k)
      for (size_t j = 0; j < n; ++j) {
        std::swap(L(p, j), L(k, j));
        std::swap(X(p, j), X(k, j));
      }
    const cld d = cld(1) / L(k, k);
    for (size_t j = 0; j < n; ++j) {
      L(k, j) *= d;
      X(k, j) *= d;
    }
    for (size_t i = 0; i < n; ++i)
      if (i != k) {
        const cld f = L(i, k);
        if (f == cld(0, 0)) continue;
        for (size_t j = 0; j < n; ++j) {
          L(i, j) -= f * L(k, j);
          X(i, j) -= f * X(k, j);
        }
      }
  }
  return true;
}
inline ld cond_fro(const Dense &A) {
  Dense X;
  if (!A.m) return 1;
  if (!invert(A, X)) return std::numeric_limits<double>::infinity();
  return A.fro() * X.fro();
}
// one-sided Jacobi singular values (small matrices)
inline std::vector<ld> singvals(Dense A) {
  if (A.m < A.n) A = A.H();
  size_t m = A.m, n = A.n;
  for (int sweep = 0; sweep < 60; ++sweep) {
    bool rot = false;
    for (size_t p = 0; p + 1 < n; ++p)
      for (size_t q = p + 1; q < n; ++q) {
        ld  al = 0, be = 0;
        cld ga = 0;
        for (size_t i = 0; i < m; ++i) {
          al += std::norm(A(i, p));
          be += std::norm(A(i, q));
          ga += std::conj(A(i, p)) * A(i, q);
        }
        ld g = std::abs(ga);
        if (g <= 1e-18L * std::sqrt(al * be) || g == 0) continue;
        rot      = true;
        cld ph   = ga / g;
        ld  zeta = (be - al) / (2 * g);
        ld  t    = (zeta >= 0 ? 1 : -1) / (std::fabs(zeta) + std::sqrt(1 + zeta * zeta));
        ld  c = 1 / std::sqrt(1 + t * t), s = c * t;
        for (size_t i = 0; i < m; ++i) {
          cld x = A(i, p), y = A(i, q) * std::conj(ph);
          A(i, p) = c * x - s * y;
          A(i, q) = s * x + c * y;
        }
      }
    if (!rot) break;
  }
  std::vector<ld> sv(n);
  for (size_t j = 0; j < n; ++j) {
    ld r = 0;
    for (size_t i = 0; i < m; ++i) r += std::norm(A(i, j));
    sv[j] = std::sqrt(r);
  }
  std::sort(sv.rbegin(), sv.rend());
  return sv;
}

}  // namespace vf
