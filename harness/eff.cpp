// C24: how well the preconditioner works on the systems the package targets.
// Independent generators (finite differences), an own flexible GMRES, the
// package's refinement, and the stored sizes are observed; the verdict compares
// them with generous per-family limits (several times what is ever observed).
#include "hifx.hpp"
using namespace vf;
typedef VT                                                                                          T;
typedef Tr<T>::real                                                                                 R;
typedef std::conditional<Tr<T>::cplx, std::complex<double>, double>::type                           W;  // wide
typedef hif::HIF<T, int>                                                                            Hif;
static const bool CX = Tr<T>::cplx;
static const bool F32 = sizeof(R) == 4;

struct Trip {
  int n = 0;
  std::vector<std::map<int, W>> row;
  explicit Trip(int n_) : n(n_), row(n_) {}
  void add(int i, int j, W v) { row[i][j] += v; }
};
static W mk(double a, double b) {
  std::complex<double> z(a, b);
  return Tr<W>::mk(z.real(), z.imag());
}

struct Sys {
  std::string    fam;
  Csr<T>         a;
  std::vector<W> b;
  bool           singular = false;
};

// ---------------------------------------------------------------- families
static Trip convdiff(Rng &r, int d, int nx, int ny, int nz, bool aniso, std::string &nm) {
  Trip         t(nx * ny * nz);
  const int    kind = (int)r.in(0, 3);
  const double eps  = aniso ? 1.0 : std::pow(10.0, r.uni(-3, 0));
  double       dx = 1, dy = 1, dz = 1, vx = 0, vy = 0, vz = 0;
  if (aniso) {
    double e = std::pow(10.0, r.uni(-6, -1));
    int    w = (int)r.in(0, d - 1);
    (w == 0 ? dx : w == 1 ? dy : dz) = e;
    if (d == 3 && r.chance(.5)) (w == 0 ? dy : w == 1 ? dz : dx) = std::pow(10.0, r.uni(-3, 0));
  } else {
    vx = r.uni(-1, 1), vy = r.uni(-1, 1), vz = d == 3 ? r.uni(-1, 1) : 0;
  }
  nm            = fmt("%s%dd eps=%.2g dx=%.2g dy=%.2g v=(%.2g,%.2g) flow=%d", aniso ? "aniso" : "convdiff", d, eps, dx, dy, vx, vy, kind);
  const double h = 1.0 / (nx + 1);
  for (int k = 0; k < nz; ++k)
    for (int j = 0; j < ny; ++j)
      for (int i = 0; i < nx; ++i) {
        const int me = (k * ny + j) * nx + i;
        double    x = (i + 1) * h - .5, y = (j + 1) * h - .5, ux = vx, uy = vy, uz = vz;
        if (!aniso && kind >= 2) ux = vx * y * 4, uy = -vx * x * 4;  // rotating flow
        const double f[3] = {ux, uy, uz}, dd[3] = {dx, dy, dz};
        const int    q[3] = {i, j, k}, lim[3] = {nx, ny, nz}, st[3] = {1, nx, nx * ny};
        double       diag = 0;
        for (int a = 0; a < d; ++a) {
          const double c = eps * dd[a] / (h * h), u = f[a] / h;
          const double lo = -c - std::max(u, 0.0), hi = -c - std::max(-u, 0.0);  // upwind
          diag -= lo + hi;
          if (q[a] > 0) t.add(me, me - st[a], mk(lo, 0));
          if (q[a] + 1 < lim[a]) t.add(me, me + st[a], mk(hi, 0));
        }
        t.add(me, me, mk(diag, 0));
      }
  return t;
}
static Trip helmholtz(Rng &r, int d, int nx, int ny, int nz, std::string &nm) {
  Trip         t(nx * ny * nz);
  const double kh = r.uni(.2, .7), damp = CX ? r.pick({0.0, .05, .3}) : 0.0;
  const bool   rad = CX && r.chance(.7);
  nm               = fmt("helmholtz%dd kh=%.2g damp=%.2g radiating=%d", d, kh, damp, rad);
  for (int k = 0; k < nz; ++k)
    for (int j = 0; j < ny; ++j)
      for (int i = 0; i < nx; ++i) {
        const int    me = (k * ny + j) * nx + i;
        const int    q[3] = {i, j, k}, lim[3] = {nx, ny, nz}, st[3] = {1, nx, nx * ny};
        std::complex<double> diag(2.0 * d - kh * kh, -damp * kh * kh);
        for (int a = 0; a < d; ++a) {
          if (q[a] > 0)
            t.add(me, me - st[a], mk(-1, 0));
          else if (rad)
            diag -= std::complex<double>(1, 0) / (std::complex<double>(1, -kh));
          if (q[a] + 1 < lim[a])
            t.add(me, me + st[a], mk(-1, 0));
          else if (rad)
            diag -= std::complex<double>(1, 0) / (std::complex<double>(1, -kh));
        }
        t.add(me, me, mk(diag.real(), diag.imag()));
      }
  return t;
}
// Stokes/Oseen on a staggered grid; the pressure is fixed unless singular
static Trip stokes(Rng &r, int nx, int ny, bool singular, std::string &nm) {
  const int    nu = (nx - 1) * ny, nv = nx * (ny - 1), np = nx * ny - (singular ? 0 : 1), n = nu + nv + np;
  const double visc = std::pow(10.0, r.uni(-2, 0)), wx = r.chance(.5) ? r.uni(-1, 1) : 0, wy = wx != 0 ? r.uni(-1, 1) : 0;
  nm = fmt("%s visc=%.2g wind=(%.2g,%.2g)", singular ? "stokes-singular" : "stokes", visc, wx, wy);
  Trip t(n);
  const double h = 1.0 / nx;
  auto U = [&](int i, int j) { return i >= 1 && i < nx && j >= 0 && j < ny ? j * (nx - 1) + i - 1 : -1; };
  auto V = [&](int i, int j) { return i >= 0 && i < nx && j >= 1 && j < ny ? nu + (j - 1) * nx + i : -1; };
  auto P = [&](int i, int j) { int k = j * nx + i; return k < np ? nu + nv + k : -1; };
  auto st = [&](int me, int l, int rr, int b, int tt, bool wx_wall, bool wy_wall) {
    const double c = visc / (h * h), ux = wx / h, uy = wy / h;
    double       co[4] = {-c - std::max(ux, 0.0), -c - std::max(-ux, 0.0), -c - std::max(uy, 0.0), -c - std::max(-uy, 0.0)};
    int          nb[4] = {l, rr, b, tt};
    double       diag  = 0;
    for (int a = 0; a < 4; ++a) {
      diag -= co[a];
      if (nb[a] >= 0) t.add(me, nb[a], mk(co[a], 0));
    }
    if (wx_wall) diag += c;
    if (wy_wall) diag += c;
    t.add(me, me, mk(diag, 0));
  };
  for (int j = 0; j < ny; ++j)
    for (int i = 1; i < nx; ++i) {
      int me = U(i, j);
      st(me, U(i - 1, j), U(i + 1, j), U(i, j - 1), U(i, j + 1), false, j == 0 || j == ny - 1);
      int a = P(i, j), b = P(i - 1, j);
      if (a >= 0) t.add(me, a, mk(1 / h, 0)), t.add(a, me, mk(1 / h, 0));
      if (b >= 0) t.add(me, b, mk(-1 / h, 0)), t.add(b, me, mk(-1 / h, 0));
    }
  for (int j = 1; j < ny; ++j)
    for (int i = 0; i < nx; ++i) {
      int me = V(i, j);
      st(me, V(i - 1, j), V(i + 1, j), V(i, j - 1), V(i, j + 1), i == 0 || i == nx - 1, false);
      int a = P(i, j), b = P(i, j - 1);
      if (a >= 0) t.add(me, a, mk(1 / h, 0)), t.add(a, me, mk(1 / h, 0));
      if (b >= 0) t.add(me, b, mk(-1 / h, 0)), t.add(b, me, mk(-1 / h, 0));
    }
  return t;
}
// [A B'; B 0] with a grid operator and a sparse full-rank constraint block
static Trip constrained(Rng &r, int nx, int ny, std::string &nm) {
  const int n1 = nx * ny, n2 = std::max(1, (int)(n1 * r.uni(.05, .3)));
  Trip      t(n1 + n2);
  const double sh = r.pick({0.0, .1, 1.0});
  nm             = fmt("constrained shift=%.2g part=%.2g", sh, (double)n2 / n1);
  for (int j = 0; j < ny; ++j)
    for (int i = 0; i < nx; ++i) {
      int me = j * nx + i;
      t.add(me, me, mk(4 + sh, 0));
      if (i) t.add(me, me - 1, mk(-1, 0));
      if (i + 1 < nx) t.add(me, me + 1, mk(-1, 0));
      if (j) t.add(me, me - nx, mk(-1, 0));
      if (j + 1 < ny) t.add(me, me + nx, mk(-1, 0));
    }
  for (int k = 0; k < n2; ++k) {  // each constraint owns one unknown: full rank
    int own = (int)((long)k * n1 / n2);
    t.add(n1 + k, own, mk(1, 0)), t.add(own, n1 + k, mk(1, 0));
    for (int q = 0; q < 2; ++q) {
      int o = own + 1 + (int)r.in(0, std::max(1, n1 / n2 - 2));
      if (o < n1 && o < (int)((long)(k + 1) * n1 / n2)) {
        double v = r.uni(-1, 1);
        t.add(n1 + k, o, mk(v, 0)), t.add(o, n1 + k, mk(v, 0));
      }
    }
  }
  return t;
}
// pure Neumann diffusion / conservative transport: constant (left) null space
static Trip neumann(Rng &r, int nx, int ny, std::string &nm) {
  Trip         t(nx * ny);
  const bool   jump = r.chance(.5), per = r.chance(.3);
  const double v = r.chance(.5) ? r.uni(0, 1) : 0;
  nm             = fmt("neumann jump=%d periodic=%d v=%.2g", jump, per, v);
  std::vector<double> kap(nx * ny, 1);
  if (jump)
    for (int j = 0; j < ny; ++j)
      for (int i = 0; i < nx; ++i) kap[j * nx + i] = ((i * 4 / nx) + (j * 4 / ny)) % 2 ? 100 : 1;
  auto link = [&](int a, int b, double u) {
    const double c = 2 * kap[a] * kap[b] / (kap[a] + kap[b]);
    // flux a -> b: c (xa - xb) + max(u,0) xa - max(-u,0) xb, leaves a, enters b
    t.add(a, a, mk(c + std::max(u, 0.0), 0)), t.add(a, b, mk(-c - std::max(-u, 0.0), 0));
    t.add(b, b, mk(c + std::max(-u, 0.0), 0)), t.add(b, a, mk(-c - std::max(u, 0.0), 0));
  };
  for (int j = 0; j < ny; ++j)
    for (int i = 0; i < nx; ++i) {
      if (i + 1 < nx) link(j * nx + i, j * nx + i + 1, v);
      else if (per && nx > 2) link(j * nx + i, j * nx, v);
      if (j + 1 < ny) link(j * nx + i, (j + 1) * nx + i, v);
    }
  return t;
}

static const char *FAM[] = {"convdiff2d", "convdiff3d", "helmholtz2d", "helmholtz3d", "stokes", "stokes-singular",
                            "constrained", "aniso2d", "aniso3d", "neumann"};
enum { NFAM = 10 };

static Sys make(Rng &r, int fam, double scale) {
  Sys         s;
  std::string nm;
  int         nx = (int)(scale * r.uni(.6, 1.4)), ny = (int)(scale * r.uni(.6, 1.4));
  nx = std::max(nx, 5), ny = std::max(ny, 5);
  int  n3 = std::max(4, (int)std::cbrt((double)nx * ny));
  Trip t(0);
  switch (fam) {
    case 0: t = convdiff(r, 2, nx, ny, 1, false, nm); break;
    case 1: t = convdiff(r, 3, n3, n3, n3, false, nm); break;
    case 2: t = helmholtz(r, 2, nx, ny, 1, nm); break;
    case 3: t = helmholtz(r, 3, n3, n3, n3, nm); break;
    case 4: t = stokes(r, std::max(4, nx * 2 / 3), std::max(4, ny * 2 / 3), false, nm); break;
    case 5: t = stokes(r, std::max(4, nx * 2 / 3), std::max(4, ny * 2 / 3), true, nm); s.singular = true; break;
    case 6: t = constrained(r, nx, ny, nm); break;
    case 7: t = convdiff(r, 2, nx, ny, 1, true, nm); break;
    case 8: t = convdiff(r, 3, n3, n3, n3, true, nm); break;
    default: t = neumann(r, nx, ny, nm); s.singular = true;
  }
  // another numbering of the unknowns, other units, (complex types) phases
  const int        n = t.n;
  std::vector<int> pm(n);
  for (int i = 0; i < n; ++i) pm[i] = i;
  const int numbering = (int)r.in(0, 2);
  if (numbering == 2)
    for (int i = n - 1; i > 0; --i) std::swap(pm[i], pm[r.in(0, i)]);
  else if (numbering == 1)
    std::reverse(pm.begin(), pm.end());
  const double unit = r.chance(.3) ? std::pow(10.0, r.uni(-4, 4)) : 1.0;
  const bool   phases = CX && r.chance(.5);
  s.a.m = s.a.n = n;
  s.a.ptr.assign(n + 1, 0);
  std::vector<int> inv(n);
  for (int i = 0; i < n; ++i) inv[pm[i]] = i;
  for (int k = 0; k < n; ++k) {
    const int        i = inv[k];
    std::map<int, W> row;
    const double     ph = phases ? 6.28 * ((i * 7919L) % 1000) / 1000.0 : 0;
    const W          f  = mk(unit * std::cos(ph), unit * std::sin(ph));
    for (auto &e : t.row[i]) row[pm[e.first]] = e.second * f;
    for (auto &e : row) {
      s.a.ind.push_back(e.first);
      s.a.val.push_back(T(e.second));
    }
    s.a.ptr[k + 1] = (ptrdiff_t)s.a.ind.size();
  }
  // consistent right-hand side of a known, smooth or rough solution
  std::vector<W> x(n);
  const bool     rough = r.chance(.5);
  for (int i = 0; i < n; ++i) x[i] = rough ? mk(r.uni(-1, 1), r.uni(-1, 1)) : mk(1 + std::sin(.01 * i), std::cos(.02 * i));
  s.b.assign(n, W(0));
  for (int i = 0; i < n; ++i)
    for (ptrdiff_t k = s.a.ptr[i]; k < s.a.ptr[i + 1]; ++k) s.b[i] += W(s.a.val[k]) * x[s.a.ind[k]];
  s.fam    = FAM[fam];
  s.a.kind = nm + fmt(" n=%d numbering=%d unit=%.1g", n, numbering, unit);
  return s;
}

// ---------------------------------------------------------------- solver
static double nrm(const std::vector<W> &v) {
  double s = 0;
  for (auto &e : v) s += std::norm(std::complex<double>(e));
  return std::sqrt(s);
}
static W dotc(const std::vector<W> &a, const std::vector<W> &b) {
  W s(0);
  for (size_t i = 0; i < a.size(); ++i) s += hif::conjugate(a[i]) * b[i];
  return s;
}
static void mulA(const Csr<T> &a, const std::vector<W> &x, std::vector<W> &y) {
  for (int i = 0; i < a.m; ++i) {
    W s(0);
    for (ptrdiff_t k = a.ptr[i]; k < a.ptr[i + 1]; ++k) s += W(a.val[k]) * x[a.ind[k]];
    y[i] = s;
  }
}
static void precond(const Hif &M, const std::vector<W> &v, std::vector<W> &z) {
  const size_t  n = v.size();
  hif::Array<T> b(n), x(n);
  const double  s = nrm(v);
  for (size_t i = 0; i < n; ++i) b[i] = T(v[i] / (s > 0 ? s : 1));
  M.solve(b, x);
  for (size_t i = 0; i < n; ++i) z[i] = W(x[i]) * (s > 0 ? s : 1);
}
// flexible GMRES(30); returns iterations needed for rtol (or maxit+1)
static int fgmres(const Hif &M, const Sys &s, double rtol, int maxit, double &res) {
  const int                   n = s.a.n, m = 30;
  std::vector<W>              x(n, W(0)), r(n), w(n);
  const double                nb = nrm(s.b);
  std::vector<std::vector<W>> V(m + 1, std::vector<W>(n)), Z(m, std::vector<W>(n));
  int                         it = 0;
  while (true) {
    mulA(s.a, x, w);
    for (int i = 0; i < n; ++i) r[i] = s.b[i] - w[i];
    double beta = nrm(r);
    res         = beta / nb;
    if (!(res == res)) return maxit + 1;
    if (res <= rtol) return it;
    if (it >= maxit) return maxit + 1;
    for (int i = 0; i < n; ++i) V[0][i] = r[i] / beta;
    std::vector<std::vector<W>> H(m, std::vector<W>(m + 1, W(0)));
    std::vector<W>              g(m + 1, W(0)), sn(m);
    std::vector<double>         cs(m);
    g[0]  = beta;
    int j = 0;
    for (; j < m && it < maxit; ++j) {
      precond(M, V[j], Z[j]);
      ++it;
      mulA(s.a, Z[j], w);
      for (int rep = 0; rep < 2; ++rep)
        for (int i = 0; i <= j; ++i) {
          W h = dotc(V[i], w);
          H[j][i] += h;
          for (int k = 0; k < n; ++k) w[k] -= h * V[i][k];
        }
      double hn = nrm(w);
      if (!(hn == hn)) return maxit + 1;
      H[j][j + 1] = hn;
      if (hn > 0)
        for (int k = 0; k < n; ++k) V[j + 1][k] = w[k] / hn;
      for (int i = 0; i < j; ++i) {
        W t             = cs[i] * H[j][i] + sn[i] * H[j][i + 1];
        H[j][i + 1]     = -hif::conjugate(sn[i]) * H[j][i] + cs[i] * H[j][i + 1];
        H[j][i]         = t;
      }
      const double a = std::abs(H[j][j]), rr = std::sqrt(a * a + hn * hn);
      if (rr == 0) {
        break;
      }
      if (a == 0)
        cs[j] = 0, sn[j] = W(1);
      else
        cs[j] = a / rr, sn[j] = (H[j][j] / a) * (hn / rr);
      H[j][j]     = a == 0 ? W(hn) : H[j][j] / a * rr;
      H[j][j + 1] = 0;
      g[j + 1]    = -hif::conjugate(sn[j]) * g[j];
      g[j]        = cs[j] * g[j];
      if (std::abs(g[j + 1]) <= .5 * rtol * nb) {
        ++j;
        break;
      }
    }
    if (j == 0) return maxit + 1;
    std::vector<W> y(j);
    for (int i = j - 1; i >= 0; --i) {
      W t = g[i];
      for (int k = i + 1; k < j; ++k) t -= H[k][i] * y[k];
      y[i] = t / H[i][i];
    }
    for (int i = 0; i < j; ++i)
      for (int k = 0; k < n; ++k) x[k] += y[i] * Z[i][k];
  }
}

enum { DEFAULT = 0, TIGHT, SMALL, SMALL_TIGHT, DEEP, NVAR };
static const char *VARN[] = {"default", "tightened", "small-dense", "small-dense-tightened", "many-levels"};
static hif::Params params(int v) {
  hif::Params p = hif::get_default_params();
  p.verbose     = hif::VERBOSE_NONE;
  p.threads     = 1;
  if (v == TIGHT || v == SMALL_TIGHT) {
    p.tau_L = p.tau_U = 1e-6;
    p.alpha_L = p.alpha_U = 20;
  }
  if (v == SMALL || v == SMALL_TIGHT) p.dense_thres = 60, p.c_d = 1;
  if (v == DEEP) p.dense_thres = 1, p.c_d = .01, p.rho = 1e12;
  return p;
}
struct Lim {
  double its, mean, rate, fill, dense, refine;
};
#include "eff_limits.hpp"

static void run(Ctx &c, Rng &r, long ci) {
  const int    fam   = (int)(ci % NFAM);
  const int    BATCH = 5;
  double       sum[NVAR] = {0}, sumr[NVAR] = {0};
  int          cnt[NVAR] = {0};
  std::string  all;
  for (int q = 0; q < BATCH; ++q) {
    const double scale = c.thorough && r.chance(.15) ? r.uni(60, 100) : r.pick({10.0, 14.0, 20.0, 26.0, 32.0});
    Sys          s     = make(r, fam, scale);
    c.desc             = s.a.kind;
    c.nontrivial(s.a.hash());
    auto A      = mk_crs(s.a);
    int  itb[NVAR] = {0};
    for (int v = 0; v < NVAR; ++v) {
      if (v == SMALL_TIGHT && s.a.n > 3000) continue;
      Hif M;
      M.factorize(A, params(v));
      double     res;
      const double rtol = !s.singular ? 1e-10 : F32 ? 1e-4 : 1e-8;
      const int    its  = fgmres(M, s, rtol, 150, res);
      const double rate = -std::log10(std::max(res, 1e-16)) / std::max(its, 1);  // digits gained per step
      size_t dn = 0, sp = 0;  // the dense block, the stored sparse entries
      for (auto &l : M.precs()) {
        sp += l.m + l.L_B.nnz() + l.U_B.nnz() + l.E.nnz() + l.F.nnz();
        if (l.is_last_level()) dn = l.n - l.m;
      }
      const double fill = (double)sp / s.a.nnz(), dpart = (double)dn / s.a.n;
      itb[v]            = its;
      sum[v] += its, sumr[v] += rate, ++cnt[v];
      // the package's own refinement
      hif::Array<T> b(s.a.n), x(s.a.n);
      const double  nb = nrm(s.b);
      for (int i = 0; i < s.a.n; ++i) b[i] = T(s.b[i] / nb);
      M.hifir(A, b, 16, x);
      std::vector<W> xx(s.a.n), y(s.a.n);
      for (int i = 0; i < s.a.n; ++i) xx[i] = W(x[i]);
      mulA(s.a, xx, y);
      for (int i = 0; i < s.a.n; ++i) y[i] -= s.b[i] / nb;
      const double rr = nrm(y);
      if (getenv("VF_STAT"))
        printf("STAT %s %d %d its %d fill %.3f dense %.3f ref %.3g rate %.3g lv %zu | %s\n", s.fam.c_str(), v, s.a.n, its, fill, dpart, rr, rate, M.levels(), s.a.kind.c_str());
      c.ev(fmt("system:%s:%s", s.fam.c_str(), VARN[v]));
      c.ev(fmt("levels=%zu", M.levels()));
      c.ev("gmres-steps", its);
      c.mx(fmt("gmres-steps:%s:%s", s.fam.c_str(), VARN[v]), its);
      c.mx(fmt("fill:%s:%s", s.fam.c_str(), VARN[v]), fill);
      c.mx(fmt("dense-part:%s:%s", s.fam.c_str(), VARN[v]), dpart);
      c.mx(fmt("refinement-residual:%s:%s", s.fam.c_str(), VARN[v]), rr);
      const Lim L = LIMITS[F32][fam][v];
      c.expect(its <= L.its, fmt("gmres-converges:%s", VARN[v]), fmt("%s its=%d limit=%g res=%g", s.fam.c_str(), its, L.its, res));
      c.expect(fill <= L.fill, fmt("fill-is-small:%s", VARN[v]), fmt("%s fill=%g limit=%g", s.fam.c_str(), fill, L.fill));
      c.expect(dpart <= L.dense, fmt("dense-block-is-small:%s", VARN[v]), fmt("%s dense part=%g limit=%g", s.fam.c_str(), dpart, L.dense));
      if (L.refine > 0) {
        c.ev("judged-refinement");
        c.expect(rr <= L.refine, fmt("refinement-converges:%s", VARN[v]), fmt("%s residual=%g limit=%g", s.fam.c_str(), rr, L.refine));
      }
    }
    c.expect(itb[TIGHT] <= itb[DEFAULT] + 2, "tightening-keeps-working", fmt("%s default=%d tightened=%d", s.fam.c_str(), itb[DEFAULT], itb[TIGHT]));
    c.ev("judged-tightening");
  }
  for (int v = 0; v < NVAR; ++v)
    if (cnt[v] == BATCH) {
      if (getenv("VF_STAT")) printf("MEAN %s %d %g %g\n", FAM[fam], v, sum[v] / BATCH, sumr[v] / BATCH);
      c.ev("judged-mean");
      c.mx(fmt("mean-steps:%s:%s", FAM[fam], VARN[v]), sum[v] / BATCH);
      c.mx(fmt("lost-digits:%s:%s", FAM[fam], VARN[v]), 16 - sumr[v] / BATCH);
      c.expect(sumr[v] / BATCH >= LIMITS[F32][fam][v].rate, fmt("gmres-gain-per-step:%s", VARN[v]), fmt("%s digits=%g limit=%g", FAM[fam], sumr[v] / BATCH, LIMITS[F32][fam][v].rate));
      c.expect(sum[v] / BATCH <= LIMITS[F32][fam][v].mean, fmt("gmres-mean:%s", VARN[v]), fmt("%s mean=%g limit=%g", FAM[fam], sum[v] / BATCH, LIMITS[F32][fam][v].mean));
    }
}
int main(int argc, char **argv) { return harness_main(argc, argv, 24, run); }
