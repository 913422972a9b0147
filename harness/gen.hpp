// Matrix / parameter / vector generators (independent of the code under test).
#pragma once
#include "common.hpp"

namespace vf {

template <class T>
struct Csr {  // also used as CSC by interpreting rows as columns
  int                    m = 0, n = 0;
  std::vector<ptrdiff_t> ptr;
  std::vector<int>       ind;
  std::vector<T>         val;
  std::string            kind;
  bool                   symm = false, spd = false, singular = false, hard = false;
  ptrdiff_t              nnz() const { return ptr.empty() ? 0 : ptr.back(); }
  Dense                  dense() const {
    Dense d(m, n);
    for (int i = 0; i < m; ++i)
      for (ptrdiff_t k = ptr[i]; k < ptr[i + 1]; ++k) d(i, ind[k]) += up(val[k]);
    return d;
  }
  Csr transpose() const {
    Csr b;
    b.m = n;
    b.n = m;
    b.kind = kind;
    b.symm = symm;
    b.spd  = spd;
    b.singular = singular;
    b.ptr.assign(n + 1, 0);
    b.ind.resize(ind.size());
    b.val.resize(val.size());
    for (int c : ind) ++b.ptr[c + 1];
    for (int i = 0; i < n; ++i) b.ptr[i + 1] += b.ptr[i];
    std::vector<ptrdiff_t> pos(b.ptr.begin(), b.ptr.end() - 1);
    for (int i = 0; i < m; ++i)
      for (ptrdiff_t k = ptr[i]; k < ptr[i + 1]; ++k) {
        ptrdiff_t q = pos[ind[k]]++;
        b.ind[q]    = i;
        b.val[q]    = val[k];
      }
    return b;
  }
  cvec mul(const cvec &x) const {
    cvec y(m, cld(0, 0));
    for (int i = 0; i < m; ++i) {
      cld t = 0;
      for (ptrdiff_t k = ptr[i]; k < ptr[i + 1]; ++k) t += up(val[k]) * x[ind[k]];
      y[i] = t;
    }
    return y;
  }
  cvec mulH(const cvec &x) const {
    cvec y(n, cld(0, 0));
    for (int i = 0; i < m; ++i)
      for (ptrdiff_t k = ptr[i]; k < ptr[i + 1]; ++k) y[ind[k]] += std::conj(up(val[k])) * x[i];
    return y;
  }
  uint64_t hash() const {
    Hash h;
    h.pod(m);
    h.pod(n);
    h.vec(ptr);
    h.vec(ind);
    h.vec(val);
    return h.h;
  }
};

// copy of a with the leading k x k block made symmetric (the rest untouched)
template <class T>
Csr<T> symm_leading(const Csr<T> &a, int k) {
  std::vector<std::map<int, T>> r(a.m);
  for (int i = 0; i < a.m; ++i)
    for (ptrdiff_t q = a.ptr[i]; q < a.ptr[i + 1]; ++q)
      if (i >= k || a.ind[q] >= k || a.ind[q] >= i) {
        r[i][a.ind[q]] = a.val[q];
        if (i < k && a.ind[q] < k) r[a.ind[q]][i] = a.val[q];
      }
  Csr<T> b = a;
  b.ptr.assign(1, 0);
  b.ind.clear();
  b.val.clear();
  for (int i = 0; i < a.m; ++i) {
    for (auto &e : r[i]) {
      b.ind.push_back(e.first);
      b.val.push_back(e.second);
    }
    b.ptr.push_back((ptrdiff_t)b.ind.size());
  }
  b.kind += "+m0";
  b.symm = b.spd = false;
  return b;
}
// Hermitian perturbation of a real symmetric pattern: off-diagonal entries get
// imaginary parts of opposite sign on both sides of the diagonal
template <class T>
void hermitize(Rng &r, Csr<T> &a, double scale) {
  if (!Tr<T>::cplx) return;
  std::map<std::pair<int, int>, double> im;
  for (int i = 0; i < a.m; ++i)
    for (ptrdiff_t q = a.ptr[i]; q < a.ptr[i + 1]; ++q)
      if (a.ind[q] > i) im[std::make_pair(i, a.ind[q])] = scale * r.uni(-1, 1) * std::abs(up(a.val[q]));
  for (int i = 0; i < a.m; ++i)
    for (ptrdiff_t q = a.ptr[i]; q < a.ptr[i + 1]; ++q) {
      int j = a.ind[q];
      if (j == i) continue;
      double b = i < j ? im[std::make_pair(i, j)] : -im[std::make_pair(j, i)];
      a.val[q] = Tr<T>::mk((double)up(a.val[q]).real(), b);
    }
  a.kind += "+herm";
}

// map-based assembler
template <class T>
struct Coo {
  int                                   m, n;
  std::vector<std::map<int, std::pair<double, double>>> r;
  explicit Coo(int n_) : m(n_), n(n_), r(n_) {}
  Coo(int m_, int n_) : m(m_), n(n_), r(m_) {}
  void set(int i, int j, double a, double b = 0) { r[i][j] = std::make_pair(a, b); }
  void add(int i, int j, double a, double b = 0) {
    auto &e = r[i][j];
    e.first += a;
    e.second += b;
  }
  bool   has(int i, int j) const { return r[i].count(j) > 0; }
  double re(int i, int j) const {
    auto it = r[i].find(j);
    return it == r[i].end() ? 0 : it->second.first;
  }
  double im(int i, int j) const {
    auto it = r[i].find(j);
    return it == r[i].end() ? 0 : it->second.second;
  }
  Csr<T> csr() const {
    Csr<T> a;
    a.m = m;
    a.n = n;
    a.ptr.assign(1, 0);
    for (int i = 0; i < m; ++i) {
      for (auto &e : r[i]) {
        a.ind.push_back(e.first);
        a.val.push_back(Tr<T>::mk(e.second.first, e.second.second));
      }
      a.ptr.push_back((ptrdiff_t)a.ind.size());
    }
    return a;
  }
};

inline double rval(Rng &r, int style) {
  double v;
  switch (style) {
    case 0:
      v = r.uni(-1, 1);
      break;
    case 1:
      v = (double)r.in(-4, 4);
      if (v == 0) v = 1;
      break;
    case 2:
      v = std::pow(10.0, r.uni(-2, 2)) * (r.chance(.5) ? 1 : -1);
      break;
    default:
      v = r.uni(0.25, 1) * (r.chance(.5) ? 1 : -1);
  }
  if (v == 0) v = 0.5;
  return v;
}

enum GenFlags { G_ANY = 0, G_NONSING = 1, G_SYMM = 2, G_EASY = 4 };

// Generates a square matrix of size about n.  flags restrict the families.
template <class T>
Csr<T> gen_square(Rng &r, int n, int flags = G_ANY, int force = -1) {
  const bool cx = Tr<T>::cplx;
  if (n < 1) n = 1;
  std::vector<int> kinds;
  if (flags & G_SYMM)
    kinds = {4, 4, 8, 8, 12, 13, 14};
  else if (flags & G_EASY)
    kinds = {0, 2, 4, 6};
  else
    kinds = {0, 0, 1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 10, 11, 12, 13, 14, 15};
  if (!(flags & (G_NONSING | G_EASY))) {
    kinds.push_back(9);
    kinds.push_back(16);
  }
  int kind  = force >= 0 ? force : r.pick(kinds);
  int style = (int)r.in(0, 3);
  auto iv   = [&]() { return cx ? rval(r, style) : 0.0; };
  std::string name;
  Coo<T>      c(n);
  bool        symm = false, spd = false, singular = false, hard = false;
  switch (kind) {
    case 0: {  // diagonally dominant random
      name     = "diagdom";
      double d = r.uni(1, 6) / n;
      for (int i = 0; i < n; ++i) {
        double s = 0;
        for (int j = 0; j < n; ++j)
          if (i != j && r.chance(d)) {
            double a = rval(r, style), b = iv();
            c.set(i, j, a, b);
            s += std::hypot(a, b);
          }
        c.set(i, i, (s + r.uni(.5, 2)) * (r.chance(.8) ? 1 : -1), cx ? r.uni(-.5, .5) : 0);
      }
      break;
    }
    case 1: {  // random sparse, transversal guaranteed by a random permutation
      name     = "transversal";
      double d = r.uni(.5, 5) / n;
      auto   p = r.perm(n);
      for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j)
          if (r.chance(d)) c.set(i, j, rval(r, style) * .5, iv() * .5);
      for (int i = 0; i < n; ++i) c.set(i, p[i], r.uni(2, 6) * (r.chance(.5) ? 1 : -1), cx ? r.uni(-2, 2) : 0);
      break;
    }
    case 2: {  // 2-D convection diffusion, 5-point
      name   = "convdiff";
      int nx = std::max(1, (int)std::lround(std::sqrt((double)n))), ny = std::max(1, n / nx);
      n      = nx * ny;
      c      = Coo<T>(n);
      double bx = r.uni(-.9, .9) * (r.chance(.2) ? 3 : 1), by = r.uni(-.9, .9), sh = r.uni(0, 1);
      for (int y = 0; y < ny; ++y)
        for (int x = 0; x < nx; ++x) {
          int i = y * nx + x;
          c.set(i, i, 4 + sh, cx ? r.uni(-.5, .5) : 0);
          if (x) c.set(i, i - 1, -1 - bx, cx ? .1 : 0);
          if (x + 1 < nx) c.set(i, i + 1, -1 + bx);
          if (y) c.set(i, i - nx, -1 - by);
          if (y + 1 < ny) c.set(i, i + nx, -1 + by, cx ? -.1 : 0);
        }
      break;
    }
    case 3: {  // nonsymmetric saddle point
      name  = "saddle";
      int b = std::max(0, n / 4), a = n - b;
      for (int i = 0; i < a; ++i) {
        c.set(i, i, r.uni(2, 4), cx ? r.uni(-1, 1) : 0);
        for (int k = 0; k < 2; ++k) {
          int j = (int)r.in(0, a - 1);
          if (j != i) c.set(i, j, rval(r, 0) * .4, cx ? rval(r, 0) * .3 : 0);
        }
      }
      for (int i = 0; i < b; ++i) {
        c.set(a + i, i, r.uni(1, 2));
        c.set(i, a + i, r.uni(1, 2) * (r.chance(.5) ? 1 : -1), cx ? r.uni(-1, 1) : 0);
        int j = (int)r.in(0, a - 1);
        c.set(a + i, j, c.re(a + i, j) + rval(r, 0) * .3);
        j = (int)r.in(0, a - 1);
        c.set(j, a + i, c.re(j, a + i) + rval(r, 0) * .3, c.im(j, a + i));
      }
      break;
    }
    case 4: {  // SPD graph laplacian + shift
      name     = "spd";
      symm     = true;
      spd      = true;
      double d = r.uni(1, 4) / n;
      std::vector<double> s(n, 0);
      for (int i = 0; i < n; ++i)
        for (int j = i + 1; j < n; ++j)
          if (r.chance(d)) {
            double w = r.uni(.1, 2) * (r.chance(.9) ? -1 : 1);
            c.set(i, j, w);
            c.set(j, i, w);
            s[i] += std::fabs(w);
            s[j] += std::fabs(w);
          }
      double sh = std::pow(10.0, r.uni(-2, 0));
      for (int i = 0; i < n; ++i) c.set(i, i, s[i] + sh);
      break;
    }
    case 5: {  // badly scaled
      name     = "badscale";
      double d = r.uni(1, 4) / n;
      int    e = sizeof(typename Tr<T>::real) == 4 ? 3 : 6;
      std::vector<double> rs(n), cs(n);
      for (int i = 0; i < n; ++i) rs[i] = std::pow(10.0, r.uni(-e, e)), cs[i] = std::pow(10.0, r.uni(-e, e));
      for (int i = 0; i < n; ++i) {
        double s = 0;
        for (int j = 0; j < n; ++j)
          if (i != j && r.chance(d)) {
            double a = rval(r, 0), b = cx ? rval(r, 0) : 0;
            c.set(i, j, a * rs[i] * cs[j], b * rs[i] * cs[j]);
            s += std::hypot(a, b);
          }
        c.set(i, i, (s + 1) * rs[i] * cs[i]);
      }
      break;
    }
    case 6: {  // tridiagonal / arrow / diagonal / triangular
      int w = (int)r.in(0, 4);
      name  = w == 0 ? "tridiag" : w == 1 ? "arrow" : w == 2 ? "diag" : w == 3 ? "lowtri" : "uptri";
      for (int i = 0; i < n; ++i) {
        c.set(i, i, r.uni(2, 4) * (r.chance(.7) ? 1 : -1), cx ? r.uni(-1, 1) : 0);
        if (w == 0) {
          if (i) c.set(i, i - 1, r.uni(-1, 1), iv() * .1);
          if (i + 1 < n) c.set(i, i + 1, r.uni(-1, 1));
        } else if (w == 1) {
          if (i + 1 < n) {
            c.set(i, n - 1, r.uni(-1, 1), cx ? r.uni(-1, 1) : 0);
            c.set(n - 1, i, r.uni(-1, 1));
          } else
            c.set(i, i, 2.0 * n + 1);
        } else if (w == 3) {
          for (int k = 0; k < 3 && i; ++k) c.set(i, (int)r.in(0, i - 1), r.uni(-1, 1), cx ? r.uni(-1, 1) : 0);
        } else if (w == 4) {
          for (int k = 0; k < 3 && i + 1 < n; ++k) c.set(i, (int)r.in(i + 1, n - 1), r.uni(-1, 1), cx ? r.uni(-1, 1) : 0);
        }
      }
      break;
    }
    case 7: {  // small dense block + diagonal
      name  = "denseblk";
      int k = std::min(n, (int)r.in(1, 24));
      for (int i = 0; i < n; ++i) c.set(i, i, r.uni(1, 3));
      for (int i = 0; i < k; ++i)
        for (int j = 0; j < k; ++j) c.set(i, j, rval(r, 0) + (i == j ? 3 : 0), cx ? rval(r, 0) : 0);
      break;
    }
    case 8: {  // symmetric indefinite saddle
      name  = "symm_saddle";
      symm  = true;
      int b = std::max(0, n / 4), a = n - b;
      for (int i = 0; i < a; ++i) c.set(i, i, r.uni(2, 4));
      for (int i = 0; i < a; ++i) {
        int j = (int)r.in(0, a - 1);
        if (j != i) {
          double v = rval(r, 0) * .5;
          c.set(i, j, v);
          c.set(j, i, v);
        }
      }
      for (int i = 0; i < b; ++i) {
        double v = r.uni(1, 2);
        c.set(a + i, i, v);
        c.set(i, a + i, v);
        int j = (int)r.in(0, a - 1);
        if (j != i) {
          v = rval(r, 0) * .4;
          c.set(a + i, j, v);
          c.set(j, a + i, v);
        }
      }
      break;
    }
    case 9: {  // singular: Neumann laplacian (symmetric) or nonsymmetric with zero row sum
      singular = true;
      bool sy  = r.chance(.5);
      name     = sy ? "neumann" : "markov";
      symm     = sy;
      for (int i = 0; i < n; ++i) {
        // ring connectivity guarantees a single null vector
        int j = (i + 1) % n;
        if (n > 1 && j != i) {
          double w = (double)r.in(1, 4), w2 = sy ? w : (double)r.in(1, 4);
          if (!(n == 2 && i == 1)) {
            c.add(i, j, -w);
            c.add(i, i, w);
            c.add(j, i, -w2);
            c.add(j, j, w2);
          }
        }
        if (r.chance(.6) && n > 2) {
          int k = (int)r.in(0, n - 1);
          if (k != i) {
            double w = (double)r.in(1, 4), w2 = sy ? w : (double)r.in(1, 4);
            c.add(i, k, -w);
            c.add(i, i, w);
            c.add(k, i, -w2);
            c.add(k, k, w2);
          }
        }
      }
      if (n == 1) c.set(0, 0, 0);
      break;
    }
    case 10: {  // block diagonal with permuted blocks (structural zeros on the diagonal)
      name = "permblocks";
      for (int i = 0; i < n;) {
        int b = std::min(n - i, (int)r.in(1, 5));
        auto p = r.perm(b);
        for (int k = 0; k < b; ++k) c.set(i + k, i + p[k], r.uni(1, 3) * (r.chance(.5) ? 1 : -1), iv() * .1);
        for (int k = 0; k < b; ++k) {
          int q = (int)r.in(0, b - 1);
          if (!c.has(i + k, i + q)) c.set(i + k, i + q, r.uni(-.4, .4));
        }
        i += b;
      }
      for (int k = 0; k < n / 2; ++k) {
        int i = (int)r.in(0, n - 1), j = (int)r.in(0, n - 1);
        if (!c.has(i, j)) c.set(i, j, r.uni(-.1, .1));
      }
      break;
    }
    case 11: {  // random with tiny diagonal entries: forces deferrals
      name     = "tinydiag";
      hard     = true;
      double d = r.uni(1, 4) / n;
      auto   p = r.perm(n);
      for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j)
          if (r.chance(d)) c.set(i, j, rval(r, 0), cx ? rval(r, 0) : 0);
      for (int i = 0; i < n; ++i) c.set(i, p[i], c.re(i, p[i]) + 3, c.im(i, p[i]));
      for (int i = 0; i < n; ++i)
        if (r.chance(.4) && p[i] != i) c.set(i, i, std::pow(10.0, r.uni(-8, -3)));
      break;
    }
    case 12: {  // symmetric with zero diagonal in part, graph permuted pairs
      name = "symm_pairs";
      symm = true;
      for (int i = 0; i + 1 < n; i += 2) {
        double v = r.uni(1, 3);
        c.set(i, i + 1, v);
        c.set(i + 1, i, v);
        if (r.chance(.5)) c.set(i, i, r.uni(-1, 1));
      }
      if (n % 2) c.set(n - 1, n - 1, 2);
      for (int k = 0; k < n; ++k) {
        int i = (int)r.in(0, n - 1), j = (int)r.in(0, n - 1);
        if (i != j && !c.has(i, j)) {
          double v = r.uni(-.3, .3);
          c.set(i, j, v);
          c.set(j, i, v);
        }
      }
      break;
    }
    case 13: {  // 2-D Poisson (SPD)
      name   = "poisson2d";
      symm   = true;
      spd    = true;
      int nx = std::max(1, (int)std::lround(std::sqrt((double)n))), ny = std::max(1, n / nx);
      n      = nx * ny;
      c      = Coo<T>(n);
      for (int y = 0; y < ny; ++y)
        for (int x = 0; x < nx; ++x) {
          int i = y * nx + x;
          c.set(i, i, 4);
          if (x) c.set(i, i - 1, -1);
          if (x + 1 < nx) c.set(i, i + 1, -1);
          if (y) c.set(i, i - nx, -1);
          if (y + 1 < ny) c.set(i, i + nx, -1);
        }
      break;
    }
    case 14: {  // indefinite shifted laplacian (symmetric)
      name   = "helmholtz";
      symm   = true;
      hard   = true;
      int nx = std::max(1, (int)std::lround(std::sqrt((double)n))), ny = std::max(1, n / nx);
      n      = nx * ny;
      c      = Coo<T>(n);
      double sh = r.uni(.3, 3.3);
      for (int y = 0; y < ny; ++y)
        for (int x = 0; x < nx; ++x) {
          int i = y * nx + x;
          c.set(i, i, 4 - sh);
          if (x) c.set(i, i - 1, -1);
          if (x + 1 < nx) c.set(i, i + 1, -1);
          if (y) c.set(i, i - nx, -1);
          if (y + 1 < ny) c.set(i, i + nx, -1);
        }
      break;
    }
    case 15: {  // explicit stored zeros and very uneven rows
      name = "stored_zeros";
      for (int i = 0; i < n; ++i) c.set(i, i, r.uni(1, 3), cx ? r.uni(-1, 1) : 0);
      for (int k = 0; k < 3 * n; ++k) {
        int i = (int)(n * std::pow(r.uni(), 3)), j = (int)r.in(0, n - 1);
        if (i != j) c.set(i, j, r.chance(.3) ? 0 : r.uni(-.5, .5));
      }
      break;
    }
    case 16: {  // rank deficient by duplicated rows (exact copies)
      name     = "duprows";
      singular = true;
      double d = 3.0 / n;
      for (int i = 0; i < n; ++i) {
        for (int j = 0; j < n; ++j)
          if (r.chance(d)) c.set(i, j, (double)r.in(1, 4) * (r.chance(.5) ? 1 : -1));
        c.set(i, i, 6);
      }
      int k = std::max(1, n / 10);
      for (int q = 0; q < k && n > 1; ++q) {
        int a = (int)r.in(0, n - 1), b = (int)r.in(0, n - 1);
        if (a != b) c.r[a] = c.r[b];
      }
      break;
    }
  }
  if (!symm && kind != 2 && r.chance(.15)) {  // random symmetric renumbering keeps structure
    auto   p = r.perm(n);
    Coo<T> b(n);
    for (int i = 0; i < n; ++i)
      for (auto &e : c.r[i]) b.r[p[i]][p[e.first]] = e.second;
    c = b;
    name += "+perm";
  }
  if (symm && cx && (flags & G_SYMM) == 0) symm = true;
  Csr<T> a   = c.csr();
  a.kind     = name;
  a.symm     = symm;
  a.spd      = spd;
  a.singular = singular;
  a.hard     = hard;
  return a;
}

template <class T>
std::vector<T> gen_vec(Rng &r, int n, int style = -1) {
  std::vector<T> v(n);
  if (style < 0) style = (int)r.in(0, 3);
  for (int i = 0; i < n; ++i) {
    double a, b;
    switch (style) {
      case 0:
        a = 1;
        b = 0;
        break;
      case 1:
        a = r.uni(-1, 1);
        b = r.uni(-1, 1);
        break;
      case 2:
        a = r.chance(.2) ? r.uni(-10, 10) : 0;
        b = 0;
        break;
      default:
        a = std::pow(10.0, r.uni(-3, 3)) * (r.chance(.5) ? 1 : -1);
        b = r.uni(-1, 1);
    }
    v[i] = Tr<T>::mk(a, b);
  }
  return v;
}
template <class T>
cvec upv(const std::vector<T> &v) {
  cvec r(v.size());
  for (size_t i = 0; i < v.size(); ++i) r[i] = up(v[i]);
  return r;
}
}  // namespace vf
