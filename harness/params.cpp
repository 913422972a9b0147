// params: control parameters as seen through every way of setting, printing
// and defaulting them (C20).
#include <cstring>
#include <iomanip>
#include <iostream>
static thread_local long vf_info_lines = 0;
#define HIF_STDOUT(__m) (++vf_info_lines, (void)(__m))
#include "capi.hpp"
#ifndef VT
#  define VT double
#endif
using namespace vf;
typedef VT T;

// The documented parameters in their documented order.
struct Field {
  const char *   name;
  double hif::Params::*d;
  int hif::Params::*   i;
  double               def;
  int                  lhf;  // position in the C vector, or -1
};
static const Field F[] = {
    {"tau_L", &hif::Params::tau_L, nullptr, 1e-4, LHF_DROPTOL_L},
    {"tau_U", &hif::Params::tau_U, nullptr, 1e-4, LHF_DROPTOL_U},
    {"kappa_d", &hif::Params::kappa_d, nullptr, 3, LHF_COND_D},
    {"kappa", &hif::Params::kappa, nullptr, 3, LHF_COND},
    {"alpha_L", &hif::Params::alpha_L, nullptr, 10, LHF_ALPHA_L},
    {"alpha_U", &hif::Params::alpha_U, nullptr, 10, LHF_ALPHA_U},
    {"rho", &hif::Params::rho, nullptr, .5, -1},
    {"c_d", &hif::Params::c_d, nullptr, 10, -1},
    {"c_h", &hif::Params::c_h, nullptr, 2, -1},
    {"N", nullptr, &hif::Params::N, -1, -1},
    {"verbose", nullptr, &hif::Params::verbose, 1, LHF_VERBOSE},
    {"rf_par", nullptr, &hif::Params::rf_par, 1, -1},
    {"reorder", nullptr, &hif::Params::reorder, 2, LHF_REORDER},
    {"spd", nullptr, &hif::Params::spd, 0, -1},
    {"check", nullptr, &hif::Params::check, 1, -1},
    {"pre_scale", nullptr, &hif::Params::pre_scale, 0, -1},
    {"symm_pre_lvls", nullptr, &hif::Params::symm_pre_lvls, -2, LHF_SYMMPRELVLS},
    {"threads", nullptr, &hif::Params::threads, 0, LHF_THREADS},
    {"mumps_blr", nullptr, &hif::Params::mumps_blr, 1, -1},
    {"fat_schur_1st", nullptr, &hif::Params::fat_schur_1st, 0, -1},
    {"rrqr_cond", &hif::Params::rrqr_cond, nullptr, 0, LHF_RRQR_COND},
    {"pivot", nullptr, &hif::Params::pivot, 2, LHF_PIVOT},
    {"gamma", &hif::Params::gamma, nullptr, 1, -1},
    {"beta", &hif::Params::beta, nullptr, 1e3, LHF_BETA},
    {"is_symm", nullptr, &hif::Params::is_symm, 0, LHF_ISSYMM},
    {"no_pre", nullptr, &hif::Params::no_pre, 0, LHF_NOPRE},
    {"nzp_thres", &hif::Params::nzp_thres, nullptr, .65, LHF_NZP_THRES},
    {"dense_thres", nullptr, &hif::Params::dense_thres, 2000, LHF_DENSE_THRES},
};
static const int NF = sizeof(F) / sizeof(F[0]);
static double    get(const hif::Params &p, int k) { return F[k].d ? p.*F[k].d : (double)(p.*F[k].i); }
static void      put(hif::Params &p, int k, double v) {
  if (F[k].d)
    p.*F[k].d = v;
  else
    p.*F[k].i = (int)v;
}
static bool same(const hif::Params &a, const hif::Params &b, int &bad) {
  for (bad = 0; bad < NF; ++bad) {
    const double x = get(a, bad), y = get(b, bad);
    if (memcmp(&x, &y, sizeof x)) return false;
  }
  return true;
}
static double rnd_value(Rng &r, int k) {
  if (!F[k].d) return (double)r.pick({(int)r.in(-3, 5), (int)r.in(-100000, 100000), 2147483647, (int)-2147483647 - 1, 0, 1});
  switch ((int)r.in(0, 5)) {
    case 0: return r.uni(-2, 2);
    case 1: return std::pow(10.0, r.uni(-300, 300)) * (r.chance(.5) ? 1 : -1);
    case 2: return 0;
    case 3: return (double)r.in(-20, 20);
    case 4: return std::pow(10.0, r.uni(-12, 3));
    default: return 1.0 / 3;
  }
}
static hif::Params rnd_any(Rng &r) {
  hif::Params p = hif::get_default_params();
  for (int k = 0; k < NF; ++k)
    if (r.chance(.8)) put(p, k, rnd_value(r, k));
  return p;
}

static void defaults(Ctx &c) {
  const hif::Params  all[] = {hif::get_default_params(), hif::get_default_options(), hif::DEFAULT_PARAMS,
                             ::hif_get_default_options(), ::hif_get_default_params()};
  for (auto &p : all)
    for (int k = 0; k < NF; ++k)
      c.expect(get(p, k) == F[k].def, std::string("default:") + F[k].name, fmt("%.17g documented %.17g", get(p, k), F[k].def));
  std::vector<double> v(LHF_NUMBER_PARAMS + 4, -12345.5);
  c.expect(lhfSetDefaultParams(v.data()) == LHF_SUCCESS, "c-default-status");
  int  filled = 0;
  for (int k = 0; k < NF; ++k)
    if (F[k].lhf >= 0) {
      ++filled;
      c.expect(v[F[k].lhf] == F[k].def, std::string("c-default:") + F[k].name, fmt("%.17g documented %.17g", v[F[k].lhf], F[k].def));
    }
  c.expect(filled == LHF_NUMBER_PARAMS, "c-default-missing", fmt("%d of %d", filled, (int)LHF_NUMBER_PARAMS));
  for (int k = 0; k < 4; ++k) c.expect(v[LHF_NUMBER_PARAMS + k] == -12345.5, "c-default-overrun");
  c.ev("defaults");
}

static void by_name(Ctx &c, Rng &r) {
  hif::Params p = r.chance(.5) ? rnd_any(r) : hif::get_default_params(), m = p;
  const int   steps = (int)r.in(1, 40);
  Hash        h;
  for (int s = 0; s < steps; ++s) {
    const int   k = (int)r.in(0, NF - 1);
    std::string name = F[k].name;
    bool        known = true;
    if (r.chance(.25)) {  // not a parameter
      switch ((int)r.in(0, 5)) {
        case 0: name += r.pick({"_", " ", "x", "L"}); break;
        case 1: name = " " + name; break;
        case 2: name = name.substr(0, name.size() - 1); break;
        case 3: name[0] ^= 0x20; break;
        case 4: name = ""; break;
        default: name.assign(1 + r.in(0, 300), (char)r.in(1, 255));
      }
      known = false;
      for (int q = 0; q < NF; ++q) known = known || name == F[q].name;
      if (known) continue;
    }
    bool   failed;
    double v = rnd_value(r, k);
    const bool alias = r.chance(.5);
    int    ty = (int)r.in(0, 4);
    if (F[k].i && ty == 0 && !(std::fabs(v) < 2e9)) ty = 2;
    switch (ty) {
      case 0: {  // a number with fractional part into an integer field keeps its integer part
        if (F[k].i) v += .25 * (v < 0 ? -1 : 1);
        failed = alias ? hif::set_param_attr(name, v, p) : hif::set_option_attr(name, v, p);
        break;
      }
      case 1: {
        v = (double)(float)r.uni(-100, 100);
        failed = alias ? hif::set_param_attr(name, (float)v, p) : hif::set_option_attr(name, (float)v, p);
        break;
      }
      case 2: {
        v = (double)r.in(-100000, 100000);
        failed = alias ? hif::set_param_attr(name, (int)v, p) : hif::set_option_attr(name, (int)v, p);
        break;
      }
      case 3: {
        v = (double)r.in(-1000000, 1000000);
        failed = alias ? hif::set_param_attr(name, (long)v, p) : hif::set_option_attr(name, (long)v, p);
        break;
      }
      default:
        v = r.in(0, 1);
        failed = alias ? hif::set_param_attr(name, v != 0, p) : hif::set_option_attr(name, v != 0, p);
    }
    c.expect(failed == !known, known ? "known-name-rejected" : "unknown-name-accepted", name);
    if (known) put(m, k, v);
    int bad;
    const bool eq = same(p, m, bad);
    c.expect(eq, known ? std::string("set-by-name:") + F[k].name : "unknown-name-alters",
             bad < NF ? fmt("%s=%.17g expected %.17g", F[bad].name, get(p, bad), get(m, bad)) : "");
    c.ev(known ? "named" : "unknown-name");
    h.pod(v);
    h.bytes(name.data(), name.size());
  }
  c.nontrivial(h.h);
}

static std::string text_of(double v, bool integer, Rng &r) {
  std::ostringstream o;
  if (integer)
    o << (int)v;
  else {
    o << std::setprecision(17);
    if (r.chance(.2)) o << std::scientific;
    o << v;
  }
  return o.str();
}
static void text_io(Ctx &c, Rng &r) {
  const hif::Params src = rnd_any(r);
  hif::Params       p = r.chance(.5) ? rnd_any(r) : hif::get_default_params();
  const hif::Params before = p;
  const bool        broken = r.chance(.5);
  const int         at = broken ? (int)r.in(0, NF - 1) : NF;
  std::string       s;
  auto              sep = [&]() { return r.pick({std::string(" "), std::string("\n"), std::string("\t"), std::string(" \n\n  "), std::string("\r\n")}); };
  std::string       junk;
  for (int k = 0; k < NF; ++k) {
    if (k == at) {
      junk = r.pick({std::string(""), std::string("abc"), std::string("-"), std::string("#"), std::string("yes"), std::string("tau_L"),
                     std::string("?1.0")});
      s += junk;
      if (junk.empty()) break;  // truncated
      s += sep();
      continue;
    }
    s += text_of(get(src, k), F[k].i != nullptr, r);
    s += k + 1 < NF || r.chance(.5) ? sep() : "";
  }
  std::istringstream in(s);
  in >> p;
  if (!broken) {
    int bad;
    c.expect(!in.fail(), "text-read-fails");
    const bool eq = same(p, src, bad);
    c.expect(eq, bad < NF ? std::string("text-read:") + F[bad].name : "text-read",
             bad < NF ? fmt("%.17g written %.17g", get(p, bad), get(src, bad)) : "");
    c.ev("text-round-trip");
    if (r.chance(.3)) {  // two sets in one stream
      std::istringstream in2(s + " " + s);
      hif::Params        q1 = before, q2 = before;
      in2 >> q1 >> q2;
      c.expect(!in2.fail() && same(q1, src, bad) && same(q2, src, bad), "text-read-sequence");
    }
  } else {
    c.expect(in.fail(), "text-unreadable-accepted", fmt("field %s text '%s'", F[at].name, junk.c_str()));
    for (int k = 0; k < NF; ++k)
      if (k != at)
        c.expect(get(p, k) == get(k < at ? src : before, k), k < at ? "text-unreadable-loses-earlier" : "text-unreadable-alters-later",
                 fmt("%s=%.17g after failure at %s", F[k].name, get(p, k), F[at].name));
    c.ev("text-broken");
  }
  Hash h;
  h.bytes(s.data(), s.size());
  c.nontrivial(h.h);
}

static void printing(Ctx &c, Rng &r) {
  hif::Params p = rnd_any(r);
  if (r.chance(.7)) {
    p.reorder = (int)r.in(-1, 5);
    p.pivot   = (int)r.in(0, 2);
    p.verbose = (int)r.in(0, 127);
    p.check   = (int)r.in(0, 2);
  } else {
    p.verbose = (int)r.in(0, 127);
    p.pivot   = (int)r.in(0, 2);
  }
  const std::string s = hif::opt_repr(p);
  // one line per parameter: name, blanks, value
  std::map<std::string, std::string> lines;
  std::istringstream                 in(s);
  std::string                        l;
  int                                n = 0;
  while (std::getline(in, l)) {
    ++n;
    auto e = l.find(' ');
    auto b = l.find_first_not_of(' ', e);
    c.expect(e != std::string::npos, "print-line", l);
    lines[l.substr(0, e)] = b == std::string::npos ? "" : l.substr(b);
  }
  for (int k = 0; k < NF; ++k) {
    const std::string nm = F[k].name;
    if (nm == "mumps_blr") continue;  // deprecated
    if (!c.expect(lines.count(nm) == 1, "print-missing", nm)) continue;
    std::string want;
    if (nm == "reorder")
      want = p.reorder == 0 ? "Off" : p.reorder == 1 ? "Auto" : p.reorder == 2 ? "AMD" : p.reorder == 3 ? "RCM" : "Null";
    else if (nm == "pivot")
      want = p.pivot == 0 ? "off" : p.pivot == 1 ? "on" : "auto";
    else if (nm == "check")
      want = p.check ? "yes" : "no";
    else if (nm == "verbose")
      want = hif::get_verbose(p);
    else
      want = F[k].d ? std::to_string(get(p, k)) : std::to_string((int)get(p, k));
    c.expect(lines[nm] == want, "print-value:" + nm, lines[nm] + " expected " + want);
  }
  c.expect(hif::get_reorder_name(p) == lines["reorder"], "print-reorder-name");
  c.expect(std::string(::hif_get_reorder_name(nullptr)) == "Null", "print-reorder-null");
  // every enabled message level is named, no other is
  const std::string v = "," + hif::get_verbose(p) + ",";
  if (p.verbose == 0) c.expect(v == ",none,", "verbose-none", v);
  const struct {
    int         f;
    const char *n;
  } V[] = {{hif::VERBOSE_WARN, ",warning,"}, {hif::VERBOSE_INFO, ",info,"},         {hif::VERBOSE_PRE, ",pre,"},
           {hif::VERBOSE_FAC, ",fac,"},      {hif::VERBOSE_PRE_TIME, ",pre_time,"}, {hif::VERBOSE_MEM, ",mem,"}};
  for (auto &q : V)
    c.expect((v.find(q.n) != std::string::npos) == ((p.verbose & q.f) != 0), std::string("verbose-name:") + q.n, fmt("%d printed %s", p.verbose, v.c_str()));
  // enabling and disabling message levels
  hif::Params q = p;
  const int   flag = r.pick({0, -1, 1, 2, 4, 8, 16, 32, 64, 3, 96});
  hif::enable_verbose(flag, q);
  hif::Params w = p;
  w.verbose     = flag > 0 ? p.verbose | flag : 0;
  int bad;
  c.expect(same(q, w, bad), "enable-verbose");
  q = p;
  ::hif_enable_verbose(flag, &q);
  c.expect(same(q, w, bad), "enable-verbose-c");
  ::hif_enable_verbose(flag, nullptr);
  c.ev("printed");
  Hash h;
  h.bytes(s.data(), s.size());
  c.nontrivial(h.h);
}

// hash of everything a preconditioner does to a probe vector
typedef hif::HIF<T, LhfInt, LhfIndPtr> H;
struct Out {
  bool           failed = false;
  std::vector<T> x, y;
  size_t         st[9];
  long           lines = 0;
  bool operator==(const Out &o) const {
    return failed == o.failed && (failed || (x.size() == o.x.size() && !memcmp(x.data(), o.x.data(), x.size() * sizeof(T)) &&
                                             !memcmp(y.data(), o.y.data(), y.size() * sizeof(T)) && !memcmp(st, o.st, sizeof st)));
  }
};
static Out run_cpp(const Csr<T> &A, const hif::Params &p, const std::vector<T> &b) {
  Out o;
  H   m;
  const long l0 = vf_info_lines;
  try {
    m.factorize(mk_crs<T, LhfInt, LhfIndPtr>(A), p);
    o.lines = vf_info_lines - l0;
    auto          bb = arr(b);
    hif::Array<T> x(b.size(), T(0)), y(b.size(), T(0));
    m.solve(bb, x);
    m.mmultiply(bb, y);
    o.x.assign(x.begin(), x.end());
    o.y.assign(y.begin(), y.end());
    const size_t s[9] = {m.nnz(), m.stats(0), m.stats(1), m.stats(4), m.stats(5), m.levels(), m.rank(), m.schur_rank(), m.schur_size()};
    memcpy(o.st, s, sizeof s);
  } catch (const std::exception &) {
    o.failed = true;
    o.lines  = vf_info_lines - l0;
  }
  return o;
}
static Out run_c(const Csr<T> &A, const std::vector<double> *p, const std::vector<T> &b, int how) {
  typedef Lhf<T> L;
  Out            o;
  std::vector<LhfIndPtr> ip(A.ptr.begin(), A.ptr.end());
  std::vector<LhfInt>    ii(A.ind.begin(), A.ind.end());
  auto                   M = L::create_matrix(1, A.n, ip.data(), ii.data(), A.val.data());
  const double *         pp = p ? p->data() : nullptr;
  const long             l0 = vf_info_lines;
  L::Hif                 h;
  if (how == 0) {
    h = L::create(M, nullptr, pp);
    o.failed = !h;
  } else {
    h = L::create(nullptr, nullptr, nullptr);
    o.failed = (how == 1 ? L::setup(h, nullptr, M, pp) : L::refactorize(h, M, pp)) != LHF_SUCCESS;
  }
  o.lines = vf_info_lines - l0;
  if (!o.failed) {
    o.x.assign(b.size(), T(0));
    o.y.assign(b.size(), T(0));
    o.failed = L::solve(h, b.data(), o.x.data()) != LHF_SUCCESS ||
               L::apply(h, LHF_M, b.data(), 1, nullptr, LHF_DEFAULT_RANK, o.y.data(), nullptr) != LHF_SUCCESS ||
               L::stats(h, o.st) != LHF_SUCCESS;
  }
  if (h) L::destroy(h);
  L::destroy_matrix(M);
  return o;
}
// A parameter vector position means the field of the same name.
static void vectors(Ctx &c, Rng &r) {
  const int      n = (int)r.in(4, c.thorough ? 60 : 36);
  Csr<T>         A = gen_square<T>(r, n, r.chance(.3) ? G_SYMM : G_ANY);
  std::vector<T> b = gen_vec<T>(r, A.n, 1);
  hif::Params    p = hif::get_default_params();
  hif::Params    g = gen_params(r, false, true);
  g.verbose = (int)r.pick({0, 2, 4, 8, 66});
  if (r.chance(.2)) g.reorder = (int)r.pick({-1, 4, 9});  // must be rejected in both
  for (int k = 0; k < NF; ++k)
    if (F[k].lhf >= 0) put(p, k, get(g, k));
  p.verbose |= 0;
  c.desc = mdesc(A) + " " + pdesc(p);
  auto      v = lhf_params(p);
  const int how = (int)r.in(0, 2);
  const Out x = run_cpp(A, p, b), y = run_c(A, &v, b, how);
  c.expect(x == y, "vector-vs-fields", fmt("failed %d/%d", x.failed, y.failed));
  c.expect(x.lines == y.lines, "vector-vs-fields-messages", fmt("%ld/%ld", x.lines, y.lines));
  if (x.failed) c.ev("both-rejected");
  // did each position matter?
  for (int t = 0; t < 4; ++t) {
    int k;
    do k = (int)r.in(0, NF - 1);
    while (F[k].lhf < 0);
    const std::string nm = F[k].name;
    hif::Params       q = p;
    double            nv;
    if (nm == "verbose") nv = p.verbose ? 0 : 6;
    else if (nm == "reorder") nv = (p.reorder + 1) % 4;
    else if (nm == "symm_pre_lvls") nv = p.symm_pre_lvls ? 0 : 3;
    else if (nm == "threads") nv = 2;
    else if (nm == "pivot") nv = (p.pivot + 1) % 3;
    else if (nm == "is_symm" || nm == "no_pre") nv = !get(p, k);
    else if (nm == "dense_thres") nv = p.dense_thres == 1 ? 2000 : 1;
    else if (nm == "rrqr_cond") nv = r.pick({2.0, 10.0, 1e3});
    else if (nm == "nzp_thres") nv = p.nzp_thres > .5 ? 0 : 1;
    else if (nm == "beta") nv = p.beta > 100 ? 1.5 : 1e6;
    else nv = get(p, k) * r.pick({.1, .3, 3.0, 30.0}) + .37;
    put(q, k, nv);
    auto w = v;
    w[F[k].lhf] = nv;
    const Out xq = run_cpp(A, q, b), yq = run_c(A, &w, b, how);
    c.expect(xq == yq, "vector-position:" + nm, fmt("%.17g -> %.17g", get(p, k), nv));
    c.expect(xq.lines == yq.lines, "vector-position-messages:" + nm);
    if (!(xq == x) || xq.lines != x.lines) c.ev("position-matters:" + nm);
  }
  if (r.chance(.3)) {  // no vector: the defaults
    const Out d = run_cpp(A, hif::DEFAULT_PARAMS, b), e = run_c(A, nullptr, b, how);
    c.expect(d == e, "no-vector-means-defaults");
    std::vector<double> dv(LHF_NUMBER_PARAMS);
    lhfSetDefaultParams(dv.data());
    c.expect(d == run_c(A, &dv, b, how), "default-vector-means-defaults");
    c.ev("no-vector");
  }
  // the convenience setters change exactly their positions
  std::vector<double> u(LHF_NUMBER_PARAMS + 2);
  for (auto &z : u) z = r.uni(-5, 5);
  for (int k = 0; k < 3; ++k) {
    auto         a = u, w = u;
    const double val = r.uni(0, 9);
    LhfStatus    st;
    if (k == 0) {
      st = lhfSetDroptol(val, a.data());
      w[LHF_DROPTOL_L] = w[LHF_DROPTOL_U] = val;
    } else if (k == 1) {
      st = lhfSetAlpha(val, a.data());
      w[LHF_ALPHA_L] = w[LHF_ALPHA_U] = val;
    } else {
      st = lhfSetKappa(val, a.data());
      w[LHF_COND] = w[LHF_COND_D] = val;
    }
    c.expect(st == LHF_SUCCESS && a == w, fmt("c-setter-%d", k));
  }
  c.nontrivial(A.hash() ^ (uint64_t)(x.st[0] * 1315423911u));
  c.ev("vectors");
}

// Out-of-range values mean the documented default.
static void fallback(Ctx &c, Rng &r) {
  const int      n = (int)r.in(6, c.thorough ? 70 : 40);
  Csr<T>         A = gen_square<T>(r, n, r.chance(.3) ? G_SYMM : G_ANY);
  std::vector<T> b = gen_vec<T>(r, A.n, 1);
  hif::Params    p = gen_params(r, false, true);
  p.verbose        = 0;
  p.rho            = 1e12;
  p.c_d            = .01;
  p.kappa = p.kappa_d = r.pick({1.2, 2.0, 3.0});
  c.desc           = mdesc(A) + " " + pdesc(p);
  const double e2_3 = std::pow((double)std::numeric_limits<typename Tr<T>::real>::epsilon(), -2.0 / 3);
  auto judge = [&](const char *nm, hif::Params a, hif::Params d, hif::Params other) {
    const Out x = run_cpp(A, a, b), y = run_cpp(A, d, b), z = run_cpp(A, other, b);
    c.expect(x == y, std::string("fallback:") + nm);
    if (!(z == x)) c.ev(std::string("fallback-matters:") + nm);
  };
  hif::Params a = p, d = p, o = p;
  switch ((int)r.in(0, 4)) {
    case 0:
      a.dense_thres = (int)r.pick({0, -1, -2147483647 - 1, (int)r.in(-5000, 0)});
      d.dense_thres = 2000;
      o.dense_thres = 1;
      judge("dense_thres", a, d, o);
      break;
    case 1:
      a.rrqr_cond = r.pick({0.0, -1.0, -1e300, -1e-300});
      d.rrqr_cond = 0;
      o.rrqr_cond = 2;
      judge("rrqr_cond", a, d, o);
      // and the default is the documented eps^(-2/3), up to its own rounding
      {
        hif::Params lo = p, hi = p;
        lo.rrqr_cond = e2_3 * .98;
        hi.rrqr_cond = e2_3 * 1.02;
        const Out x = run_cpp(A, d, b), l = run_cpp(A, lo, b), h = run_cpp(A, hi, b);
        if (l == h) {
          c.expect(x == l, "fallback:rrqr_cond-value");
          c.ev("rrqr-default-value");
        }
      }
      break;
    case 2:
      a.beta = r.pick({-1.0, -1e-300, -1e10, -std::numeric_limits<double>::infinity()});
      d.beta = 1e3;
      o.beta = 1.5;
      judge("beta", a, d, o);
      break;
    case 3:
      a.threads = (int)r.pick({0, -1, -100});
      d.threads = 1;
      o.threads = 3;
      judge("threads", a, d, o);
      break;
    default:
      a.c_d = d.c_d = o.c_d = r.pick({1.0, 2.0, 4.0});
      a.dense_thres = d.dense_thres = o.dense_thres = 1;
      a.N = (int)r.pick({-1, -2, -1000000});
      d.N = A.n;
      o.N = 1;
      judge("N", a, d, o);
  }
#ifdef _OPENMP
  {  // non-positive thread counts inherit the environment, then the runtime
    const int  k = (int)r.in(1, 9), e1 = (int)r.in(1, 9), e2 = (int)r.in(1, 9);
    const bool h1 = r.chance(.5), h2 = r.chance(.5);
    h1 ? setenv("HIF_NUM_THREADS", fmt("%d", e1).c_str(), 1) : unsetenv("HIF_NUM_THREADS");
    h2 ? setenv("OMP_NUM_THREADS", fmt("%d", e2).c_str(), 1) : unsetenv("OMP_NUM_THREADS");
    const int want = h1 ? e1 : h2 ? e2 : omp_get_max_threads();
    const int got = hif::mt::get_nthreads((int)r.pick({0, -1, -7})), again = hif::mt::get_nthreads();
    c.expect(got == want && again == want, "fallback:threads-environment", fmt("%d/%d expected %d", got, again, want));
    c.expect(hif::mt::get_nthreads(k) == k && hif::mt::get_nthreads() == k, "threads-explicit");
    unsetenv("HIF_NUM_THREADS");
    unsetenv("OMP_NUM_THREADS");
    c.ev("thread-environments");
  }
#endif
  // an invalid reordering scheme is rejected, nothing else
  hif::Params inv = p;
  inv.reorder     = (int)r.pick({-1, 4, 5, 1000, -1000000});
  if (!p.no_pre) {
    const Out x = run_cpp(A, inv, b);
    c.expect(x.failed, "invalid-reorder-accepted", fmt("%d", inv.reorder));
    c.ev("invalid-reorder");
  }
  c.nontrivial(A.hash() ^ (uint64_t)p.kappa * 77);
  c.ev("fallbacks");
}

static void run(Ctx &c, Rng &r, long i) {
  static bool warm = false;
  if (!warm) {  // the banner is printed by the first verbose factorization of a process
    warm          = true;
    hif::Params p = hif::get_default_params();
    p.verbose     = 127;
    Csr<T> A      = gen_square<T>(r, 5, G_EASY);
    run_cpp(A, p, gen_vec<T>(r, A.n, 1));
  }
  if (i < 8) defaults(c);
  const double u = r.uni();
  if (u < .15)
    by_name(c, r);
  else if (u < .3)
    text_io(c, r);
  else if (u < .4)
    printing(c, r);
  else if (u < .75)
    vectors(c, r);
  else
    fallback(c, r);
  if (c.samples.size() < 3 && !c.desc.empty()) c.sample(c.desc);
}
int main(int argc, char **argv) { return harness_main(argc, argv, 20, run); }
