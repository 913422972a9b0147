// io: Matrix Market files written, read, damaged and read again, against an
// independent reading of the same bytes (C15).
#include "capi.hpp"

#include <dirent.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>

#include <fstream>
#include <set>
#ifndef VT
#  define VT double
#endif
using namespace vf;
typedef VT                        T;
typedef Tr<T>::real               R;
static const bool                 CX = Tr<T>::cplx;

static std::string scratch() {
  static const std::string &d = *new std::string([] {
    char  b[64];
    char *p = nullptr;
    for (const char *base : {"/dev/shm", "/tmp"}) {
      snprintf(b, sizeof b, "%s/vfio.XXXXXX", base);
      if ((p = mkdtemp(b))) break;
    }
    if (!p) {
      fprintf(stderr, "no scratch directory\n");
      exit(3);
    }
    return std::string(p);
  }());
  return d;
}
static std::string fpath() {
  static const std::string &p = *new std::string(scratch() + "/f.mm");
  return p;
}
struct Cleaner {
  ~Cleaner() {
    unlink(fpath().c_str());
    rmdir(scratch().c_str());
  }
} cleaner;
static int open_files() {
  int  k = 0;
  DIR *d = opendir("/proc/self/fd");
  if (!d) return -1;
  while (readdir(d)) ++k;
  closedir(d);
  return k;
}
static void put(const std::string &s) {
  FILE *f = fopen(fpath().c_str(), "wb");
  if (!f) {
    fprintf(stderr, "cannot write\n");
    exit(3);
  }
  fwrite(s.data(), 1, s.size(), f);
  fclose(f);
}
static std::string get() {
  std::ifstream     f(fpath(), std::ios::binary);
  std::stringstream ss;
  ss << f.rdbuf();
  return ss.str();
}

// ------------------------------------------------------- reference reading
enum Kind { ERROR, EXACT, ANY };  // ANY: only safety is asked for
struct Ref {
  Kind        kind = ERROR;
  const char *why  = "";
  bool        header = false, sparse = true, cplx = false;  // header: the first line is fine
  bool        sizes = false;                                // so are the sizes
  int         type = 0;
  long long   m = 0, n = 0, nz = 0;
  struct E {
    long long i, j;
    double    re, im;
  };
  std::vector<E> e;  // both triangles
  bool           dup = false;
};
static bool is_int(const std::string &t) {
  size_t k = (t[0] == '+' || t[0] == '-');
  if (k == t.size() || t.size() > 18) return false;
  for (; k < t.size(); ++k)
    if (!isdigit((unsigned char)t[k])) return false;
  return true;
}
static bool is_num(const std::string &t) {
  size_t k = (t[0] == '+' || t[0] == '-');
  std::string u;
  for (size_t q = k; q < t.size(); ++q) u += (char)tolower((unsigned char)t[q]);
  if (u == "inf" || u == "nan") return true;
  size_t d = 0;
  while (k < t.size() && isdigit((unsigned char)t[k])) ++k, ++d;
  if (k < t.size() && t[k] == '.') ++k;
  while (k < t.size() && isdigit((unsigned char)t[k])) ++k, ++d;
  if (!d) return false;
  if (k < t.size() && (t[k] == 'e' || t[k] == 'E')) {
    ++k;
    if (k < t.size() && (t[k] == '+' || t[k] == '-')) ++k;
    size_t x = 0;
    while (k < t.size() && isdigit((unsigned char)t[k])) ++k, ++x;
    if (!x) return false;
  }
  return k == t.size();
}
static std::vector<std::string> words(const std::string &l) {
  std::vector<std::string> w;
  std::string              c;
  for (char ch : l) {
    if (isspace((unsigned char)ch)) {
      if (c.size()) w.push_back(c);
      c.clear();
    } else
      c += ch;
  }
  if (c.size()) w.push_back(c);
  return w;
}
static std::string lower(std::string s) {
  for (auto &c : s) c = (char)tolower((unsigned char)c);
  return s;
}
static Ref parse(const std::string &s, long long idx_max) {
  Ref  f;
  auto no = [&](const char *w) {
    f.kind = ERROR;
    f.why  = w;
    return f;
  };
  auto any = [&](const char *w) {
    f.kind = ANY;
    f.why  = w;
    return f;
  };
  if (s.find('\0') != std::string::npos) return any("zero byte");
  if (s.empty()) return no("empty file");
  size_t      p = s.find('\n');
  std::string line = s.substr(0, p);
  if (line.size() > 1000) return any("long first line");
  auto w = words(line);
  if (w.size() < 5) return no("short first line");
  for (auto &x : w)
    if (x.size() > 64) return any("long word");
  if (w[0] != "%%MatrixMarket") return no("banner");
  if (lower(w[1]) != "matrix") return no("object");
  if (lower(w[2]) == "coordinate")
    f.sparse = true;
  else if (lower(w[2]) == "array")
    f.sparse = false;
  else
    return no("format");
  if (lower(w[3]) == "real")
    f.cplx = false;
  else if (lower(w[3]) == "complex")
    f.cplx = true;
  else
    return no("field");
  const std::string t = lower(w[4]);
  f.type = t == "general" ? 0 : t == "symmetric" ? 1 : t == "hermitian" ? 2 : t == "skew-symmetric" ? 3 : -1;
  if (f.type < 0) return no("symmetry");
  f.header = true;
  for (;;) {
    if (p == std::string::npos || p + 1 >= s.size()) return no("no sizes");
    size_t q = s.find('\n', p + 1);
    line     = s.substr(p + 1, q == std::string::npos ? q : q - p - 1);
    p        = q;
    if (line.size() && line[0] == '%') continue;
    w = words(line);
    if (w.empty()) continue;
    break;
  }
  if (line.size() > 1000) return any("long line of sizes");
  const size_t nsz = f.sparse ? 3 : 2;
  for (size_t k = 0; k < nsz; ++k) {
    if (k >= w.size()) return no("missing size");
    const std::string &x = w[k];
    if (is_int(x)) {
      const long long v = atoll(x.c_str());
      if (v < 0) return no("negative size");
      if (v > (1ll << 52)) return no("huge size");
      (k == 0 ? f.m : k == 1 ? f.n : f.nz) = v;
    } else if (isdigit((unsigned char)x[0]) || ((x[0] == '+' || x[0] == '-') && x.size() > 1 && isdigit((unsigned char)x[1]))) {
      bool digits = true;
      for (size_t q = 1; q < x.size(); ++q) digits = digits && isdigit((unsigned char)x[q]);
      return digits ? no("huge size") : any("odd size");
    } else
      return no("size is no number");
  }
  if (w.size() > nsz) return any("more than the sizes");
  f.sizes = true;
  if (f.m > 1000000 || f.n > 1000000 || f.nz > 1000000) {
    // nothing the tests write has that many; may also exceed the index type
    if (!f.sparse && f.m <= 1000000) {
    } else if (f.m > idx_max || f.n > idx_max)
      return no("sizes exceed the index type");
  }
  if (f.sparse && f.type && f.m != f.n) return no("one triangle of a rectangle");
  if (!f.sparse && f.m && !f.n) return no("no column");
  std::vector<std::string> tok = p == std::string::npos ? std::vector<std::string>() : words(s.substr(p + 1));
  size_t                   k   = 0;
  // 0 fine, 1 error, 2 anything
  auto chk = [&](bool num) {
    if (k >= tok.size()) return 1;
    const std::string &x = tok[k];
    if (num ? is_num(x) : is_int(x)) return 0;
    const char c = x[0];
    if (isdigit((unsigned char)c) || c == '+' || c == '-' || (num && (c == '.' || strchr("iInN", c)))) return 2;
    return 1;
  };
  std::set<std::pair<long long, long long>> seen;
  const long long                           cnt = f.sparse ? f.nz : f.m;
  for (long long q = 0; q < cnt; ++q) {
    Ref::E e = {q + 1, 1, 0, 0};
    if (f.sparse)
      for (int d = 0; d < 2; ++d) {
        const int g = chk(false);
        if (g == 1) return no("no index");
        if (g == 2) return any("odd index");
        (d ? e.j : e.i) = atoll(tok[k++].c_str());
      }
    for (int d = 0; d < (f.cplx ? 2 : 1); ++d) {
      const int g = chk(true);
      if (g == 1) return no("no value");
      if (g == 2) return any("odd value");
      (d ? e.im : e.re) = strtod(tok[k++].c_str(), nullptr);
    }
    if (f.sparse && (e.i < 1 || e.j < 1 || e.i > f.m || e.j > f.n)) return no("index out of range");
    --e.i;
    --e.j;
    f.dup = !seen.insert({e.i, e.j}).second || f.dup;
    f.e.push_back(e);
    if (f.sparse && f.type && e.i != e.j) {
      std::swap(e.i, e.j);
      f.dup = !seen.insert({e.i, e.j}).second || f.dup;
      if (f.type == 2) e.im = -e.im;
      if (f.type == 3) {
        e.re = -e.re;
        e.im = -e.im;
      }
      f.e.push_back(e);
    }
  }
  f.kind = EXACT;
  return f;
}

// --------------------------------------------------------------- generation
static std::string num(Rng &r, double &back) {
  double v = 0;
  switch ((int)r.in(0, 7)) {
    case 0: v = (double)r.in(-99, 99); break;
    case 1: v = 0; break;
    case 2: v = std::ldexp(r.uni(-1, 1), (int)r.in(-1060, 1020)); break;
    case 3: v = std::ldexp(r.uni(-1, 1), (int)r.in(-140, 120)); break;
    default: v = r.uni(-10, 10);
  }
  std::string s;
  switch ((int)r.in(0, 7)) {
    case 0: s = fmt("%.17g", v); break;
    case 1: s = fmt("%.16e", v); break;
    case 2: s = fmt("%.3f", std::fabs(v) < 1e15 ? v : 1.5); break;
    case 3: s = fmt("%.2E", v); break;
    case 4: s = fmt("%+.6g", v); break;
    case 5: s = fmt("%ld", (long)r.in(-500, 500)); break;
    case 6: s = r.pick({".5", "-.25", "3.", "+7", "-0", "0.", "1e3", "1E+03", "00012", "-1.5e-03"}); break;
    default: s = fmt("%.10g", v);
  }
  back = strtod(s.c_str(), nullptr);
  return s;
}
static std::string mixcase(Rng &r, std::string s) {
  const int k = (int)r.in(0, 3);
  for (size_t i = 0; i < s.size(); ++i)
    if (k == 1 || (k == 2 && r.chance(.5)) || (k == 3 && i == 0)) s[i] = (char)toupper((unsigned char)s[i]);
  return s;
}
static std::string gap(Rng &r) { return r.chance(.7) ? " " : r.pick({"  ", "\t", " \t ", "     "}); }
static std::string gen_file(Rng &r, bool sparse, bool cplx, int type, bool square, bool plain) {
  std::string nl = !plain && r.chance(.1) ? "\r\n" : "\n", s;
  static const char *TY[] = {"general", "symmetric", "hermitian", "skew-symmetric"};
  s = "%%MatrixMarket" + gap(r) + mixcase(r, "matrix") + gap(r) + mixcase(r, sparse ? "coordinate" : "array") + gap(r) +
      mixcase(r, cplx ? "complex" : "real") + gap(r) + mixcase(r, TY[type]) + nl;
  auto filler = [&](double pc, double pb) {
    for (int k = 0; k < 4; ++k) {
      if (r.chance(pc)) {
        s += "%";
        const size_t len = r.chance(.06) ? r.in(1000, 3000) : r.in(0, 60);
        for (size_t q = 0; q < len; ++q) s += "0123456789 3 4 5%abc-"[r.in(0, 20)];
        s += nl;
      }
      if (r.chance(pb)) s += r.pick({"", " ", "\t", "    "}) + nl;
    }
  };
  if (!plain || r.chance(.3)) filler(.3, .08);
  const int m = r.chance(.04) ? 0 : (int)r.in(1, 12), n = square || type ? m : r.chance(.04) ? 0 : (int)r.in(1, 12);
  std::vector<std::pair<int, int>> at;
  if (sparse) {
    const double d = r.pick({0.0, .1, .3, .3, .6, 1.0});
    const bool   diag = type && r.chance(.25);  // only a diagonal
    for (int i = 0; i < m; ++i)
      for (int j = 0; j < n; ++j) {
        if (type && j > i) continue;
        if (diag && i != j) continue;
        if (type == 3 && i == j && r.chance(.8)) continue;
        if (r.chance(d)) at.push_back({i, j});
      }
    if (type)  // the other triangle is as good
      for (auto &q : at)
        if (r.chance(.2)) std::swap(q.first, q.second);
    if (r.chance(.7)) r.shuffle(at);
  }
  s += (r.chance(.3) ? " " : "") + fmt("%d", m) + gap(r) + fmt("%d", n);
  if (sparse) s += gap(r) + fmt("%zu", at.size());
  s += (r.chance(.1) ? "  " : "") + nl;
  auto val = [&] {
    double b;
    s += num(r, b);
    if (cplx) s += gap(r) + num(r, b);
  };
  if (sparse)
    for (auto &q : at) {
      if (r.chance(.2)) s += gap(r);
      s += fmt("%d", q.first + 1) + gap(r) + fmt("%d", q.second + 1) + gap(r);
      val();
      if (r.chance(.1)) s += " ";
      s += nl;
      if (!plain && r.chance(.03)) s += nl;
    }
  else
    for (int q = 0; q < m * std::max(n, 1); ++q) {
      val();
      s += nl;
    }
  if (r.chance(.1))
    while (s.size() && isspace((unsigned char)s.back())) s.pop_back();
  return s;
}
static std::string damage(Rng &r, const std::string &s0) {
  std::string s = s0;
  for (int k = (int)r.in(1, r.chance(.7) ? 1 : 3); k > 0 && s.size(); --k) {
    // tokens after the first line
    std::vector<std::pair<size_t, size_t>> tk;
    const size_t                           h = s.find('\n');
    if (h != std::string::npos)
      for (size_t i = h + 1; i < s.size();) {
        if (s[i] == '%') {
          i = s.find('\n', i);
          if (i == std::string::npos) break;
          continue;
        }
        if (isspace((unsigned char)s[i])) {
          ++i;
          continue;
        }
        size_t j = i;
        while (j < s.size() && !isspace((unsigned char)s[j])) ++j;
        tk.push_back({i, j});
        i = j;
      }
    const size_t at = r.in(0, s.size() - 1);
    const int    o  = (int)r.in(0, 14);
    switch (o) {
      case 0:
      case 1: s.resize(at); break;
      case 2: s[at] = "0123456789 \n\t-+.eExX%azZ#,;"[r.in(0, 27)]; break;
      case 3: s[at] = (char)r.in(1, 255); break;
      case 4: s.insert(at, 1, " \n.-+ea%,"[r.in(0, 8)]); break;
      case 5: s.erase(at, r.in(1, 6)); break;
      case 6:
        if (tk.size()) {
          auto t = r.pick(tk);
          s.erase(t.first, t.second - t.first);
        }
        break;
      case 7:
      case 8:
        if (tk.size()) {  // out of range, negative, huge or no number at all
          auto t = tk[r.in(0, r.chance(.5) ? std::min<int64_t>(2, tk.size() - 1) : (int64_t)tk.size() - 1)];
          s.replace(t.first, t.second - t.first,
                    r.pick({"0", "-1", "-3", "13", "99999", "4294967297", "2147483648", "99999999999999999999999", "9223372036854775807",
                            "-2147483648", "abc", "x", "nan", "1e5", "--3", "18446744073709551617"}));
        }
        break;
      case 9: {  // one of the words of the first line
        const size_t e = std::min(h, s.size());
        std::vector<std::pair<size_t, size_t>> w;
        for (size_t i = 0; i < e;) {
          if (isspace((unsigned char)s[i])) {
            ++i;
            continue;
          }
          size_t j = i;
          while (j < e && !isspace((unsigned char)s[j])) ++j;
          w.push_back({i, j});
          i = j;
        }
        if (w.size()) {
          auto t = r.pick(w);
          const std::string by = r.pick({"", "integer", "pattern", "vector", "dense", "real", "complex", "array", "coordinate",
                                         "symmetric", "hermitian", "skew-symmetric", "skewsymmetric", "matrixx", "%MatrixMarket"});
          s.replace(t.first, t.second - t.first, by);
        }
        break;
      }
      case 10: s.insert(at, std::string(r.in(60, 3000), "a7 %"[r.in(0, 3)])); break;  // overlong
      case 11: s.insert(h == std::string::npos ? 0 : h / 2, std::string(r.in(60, 2000), 'q')); break;
      case 12: {  // lose a line
        size_t b = s.find('\n', at), e = b == std::string::npos ? b : s.find('\n', b + 1);
        if (e != std::string::npos) s.erase(b, e - b);
        break;
      }
      case 13: {  // a line twice
        size_t b = s.find('\n', at), e = b == std::string::npos ? b : s.find('\n', b + 1);
        if (e != std::string::npos) s.insert(e, s.substr(b, e - b));
        break;
      }
      default: s[at] = '\0';
    }
  }
  return s;
}

// ----------------------------------------------------------------- judging
static bool same(double a, R b) {
  const R x = (R)a;
  return (x == b && std::signbit(x) == std::signbit(b)) || (x != x && b != b);
}
template <class U>
static bool same_v(const Ref::E &e, const U &v, typename std::enable_if<std::is_floating_point<U>::value>::type * = 0) {
  return same(e.re, v);
}
template <class U>
static bool same_v(const Ref::E &e, const U &v, typename std::enable_if<!std::is_floating_point<U>::value>::type * = 0) {
  return same(e.re, v.real()) && same(e.im, v.imag());
}
// compressed arrays against the reference
template <class P, class I>
static std::string cmp(const Ref &f, bool rows, const P *ip, const I *ind, const T *val) {
  const long long                          np = rows ? f.m : f.n;
  std::map<std::pair<long long, long long>, const Ref::E *> at;
  for (auto &e : f.e) at[{rows ? e.i : e.j, rows ? e.j : e.i}] = &e;
  if (ip[0] != 0 || (long long)ip[np] != (long long)f.e.size()) return "number of entries";
  for (long long i = 0; i < np; ++i) {
    if (ip[i + 1] < ip[i]) return "pointers";
    for (auto k = ip[i]; k < ip[i + 1]; ++k) {
      if (k > ip[i] && ind[k] <= ind[k - 1] && !f.dup) return "order";
      auto it = at.find({i, (long long)ind[k]});
      if (it == at.end()) return "pattern";
      if (!f.dup && !same_v(*it->second, val[k])) return fmt("value at %lld,%lld", (long long)it->second->i, (long long)it->second->j);
    }
  }
  return "";
}
template <class F>
static int attempt(F &&f, std::string &msg) {  // 0 fine, 1 reported, 2 another exception
  try {
    f();
    return 0;
  } catch (const std::exception &e) {
    msg = e.what();
    return 1;
  } catch (...) {
    return 2;
  }
}
static std::string show(const std::string &s) {
  std::string o;
  for (char c : s.substr(0, 300)) o += c == '\n' ? std::string("/") : c >= 32 && c < 127 ? std::string(1, c) : fmt("<%02x>", (unsigned char)c);
  return o;
}
template <class Cs>
static void read_cs(Ctx &c, const Ref &f0, const std::string &txt, const char *nm) {
  Ref f = f0;
  if (f.kind != ANY && f.header && !f.sparse) f.kind = ERROR, f.why = "dense";
  if (f.kind != ANY && f.header && f.cplx != CX) f.kind = ERROR, f.why = "type";
  if (f.kind == ANY && f.header && f.cplx != CX) f.kind = ERROR, f.why = "type";
  Cs          A;
  std::string msg;
  const int   fd = open_files();
  const int   st = attempt([&] { A.read_mm(fpath().c_str()); }, msg);
  c.expect(open_files() == fd, std::string("file-left-open:") + nm, show(txt));
  c.expect(st != 2, std::string("foreign-exception:") + nm, show(txt));
  if (f.kind == ERROR) {
    c.expect(st != 0, std::string("accepted:") + nm + ":" + f.why, show(txt));
    c.expect(st == 0 || !msg.empty(), "error-without-message");
    c.ev(std::string("rejected:") + f.why);
    return;
  }
  if (f.kind == ANY) {
    c.ev(std::string("unspecified:") + f.why);
    return;
  }
  if (!c.expect(st == 0, std::string("rejected-valid:") + nm, msg + " " + show(txt))) return;
  c.ev("read-exactly");
  if (f.dup) c.ev("read-duplicates");
  bool ok = c.expect((long long)A.nrows() == f.m && (long long)A.ncols() == f.n, std::string("read-shape:") + nm, show(txt));
  ok      = ok && c.expect(A.ind_start().size() == (size_t)(Cs::ROW_MAJOR ? f.m : f.n) + 1 && A.inds().size() == f.e.size() && A.vals().size() == f.e.size(),
                           std::string("read-sizes:") + nm, fmt("%zu expected %zu ", (size_t)A.inds().size(), f.e.size()) + show(txt));
  if (ok) {
    const std::string d = cmp(f, Cs::ROW_MAJOR, A.ind_start().data(), A.inds().data(), A.vals().data());
    c.expect(d.empty(), std::string("read-content:") + nm, d + " " + show(txt));
  }
}
static void read_coo(Ctx &c, const Ref &f0, const std::string &txt) {
  Ref f = f0;
  if (f.header && (!f.sparse || f.cplx != CX)) return;
  hif::Array<long long> I, J;
  hif::Array<T>         V;
  size_t                m = 77, n = 77;
  std::string           msg;
  const int             st = attempt([&] { hif::read_mm_sparse(fpath().c_str(), m, n, I, J, V); }, msg);
  if (f.kind == EXACT && c.expect(st == 0, "rejected-valid:coordinates", msg + show(txt))) {
    bool ok = (long long)m == f.m && (long long)n == f.n && I.size() == f.e.size() && J.size() == f.e.size() && V.size() == f.e.size();
    for (size_t k = 0; ok && k < f.e.size(); ++k) ok = I[k] == f.e[k].i && J[k] == f.e[k].j && same_v(f.e[k], V[k]);
    c.expect(ok, "read-content:coordinates", fmt("%zu/%zu ", (size_t)I.size(), f.e.size()) + show(txt));
  } else if (f.kind == ERROR && strcmp(f.why, "sizes exceed the index type"))
    c.expect(st == 1, std::string("accepted:coordinates:") + f.why, show(txt));
}
static void read_vec(Ctx &c, const Ref &f0, const std::string &txt) {
  Ref f = f0;
  if (f.header && f.sparse) f.kind = ERROR, f.why = "sparse";
  if (f.header && f.cplx != CX) f.kind = ERROR, f.why = "type";
  hif::Array<T> v;
  std::string   msg;
  const int     fd = open_files();
  const int     st = attempt([&] { v.read_mm(fpath().c_str()); }, msg);
  c.expect(open_files() == fd, "file-left-open:vector", show(txt));
  c.expect(st != 2, "foreign-exception:vector", show(txt));
  if (f.kind == ERROR)
    c.expect(st != 0, std::string("accepted:vector:") + f.why, show(txt)), c.ev(std::string("vector-rejected:") + f.why);
  else if (f.kind == EXACT && c.expect(st == 0, "rejected-valid:vector", msg + show(txt))) {
    bool ok = (long long)v.size() == f.m;
    for (long long k = 0; ok && k < f.m; ++k) ok = same_v(f.e[k], v[k]);
    c.expect(ok, "read-content:vector", show(txt));
    c.ev("vector-read-exactly");
  }
}
static void read_c(Ctx &c, Rng &r, const Ref &f, const std::string &txt) {
  typedef Lhf<T> L;
  const int      fd = open_files();
  int            isp = 7, ire = 7;
  size_t         m = 7, n = 7, nz = 7;
  while (lhfGetErrorMsg()) {
  }
  LhfStatus   st;
  std::string msg;
  int         at = attempt([&] { st = lhfQueryMmFile(fpath().c_str(), &isp, &ire, &m, &n, &nz); }, msg);
  if (!c.expect(at == 0, "exception-out-of-c:query", show(txt))) return;
  c.expect(open_files() == fd, "file-left-open:query", show(txt));
  c.expect(st == LHF_SUCCESS || (st == LHF_HIFIR_ERROR && lhfGetErrorMsg()), "query-status", show(txt));
  // it has to read the entries only if one triangle is stored
  if (f.kind == ERROR && (!f.sizes || (f.sparse && f.type)) && strcmp(f.why, "sizes exceed the index type"))
    c.expect(st != LHF_SUCCESS, std::string("accepted:query:") + f.why, show(txt));
  if (f.kind == EXACT) {
    if (!c.expect(st == LHF_SUCCESS, "rejected-valid:query", show(txt))) return;
    c.expect(isp == (int)f.sparse && ire == (int)!f.cplx && (long long)m == f.m && (long long)n == (f.sparse ? f.n : 0) &&
                 nz == (f.sparse ? f.e.size() : 0),
             "query-content", fmt("%d %d %zu %zu %zu ", isp, ire, m, n, nz) + show(txt));
    c.ev("queried");
  }
  const bool fits = f.header && f.cplx == CX;
  if (!f.header || f.sparse) {
    const int rm = (int)r.in(0, 1);
    const bool exact = f.kind == EXACT && fits;
    const bool square = f.m == f.n;
    // arrays of exactly the size that is needed, guarded
    const size_t sz = f.sizes && f.m < 100 ? (size_t)f.m : 4;
    const size_t other = r.chance(.15) ? sz + r.in(1, 3) : sz;
    const size_t cap = exact ? f.e.size() : 4000;
    if (other == 0 || sz > 100) return;
    const LhfIndPtr PG = 1234567;
    std::vector<LhfIndPtr> ip(other + 1 + 4, PG);
    std::vector<LhfInt>    ind(cap + 4, 7654321);
    std::vector<T>         val(cap + 4, T((R)4.25));
    auto  h = L::create_matrix(rm, other, ip.data(), ind.data(), val.data());
    while (lhfGetErrorMsg()) {
    }
    at = attempt([&] { st = L::read_sparse(fpath().c_str(), h); }, msg);
    if (!c.expect(at == 0, "exception-out-of-c:read-sparse", show(txt))) return;
    c.expect(open_files() == fd, "file-left-open:c-sparse", show(txt));
    bool guard = true;
    for (int k = 0; k < 4; ++k) guard = guard && ip[other + 1 + k] == PG;
    if (exact)
      for (int k = 0; k < 4; ++k) guard = guard && ind[cap + k] == 7654321 && val[cap + k] == T((R)4.25);
    c.expect(guard, "c-sparse-guard", show(txt));
    if (exact && square && (long long)other == f.m) {
      if (c.expect(st == LHF_SUCCESS, "rejected-valid:c-sparse", show(txt))) {
        const std::string d = cmp(f, rm, ip.data(), ind.data(), val.data());
        c.expect(d.empty(), "read-content:c-sparse", d + " " + show(txt));
        c.expect((long long)L::matrix_size(h) == f.m && L::matrix_nnz(h) == f.e.size(), "c-sparse-sizes");
        c.ev("c-read-exactly");
      }
    } else if (exact) {
      c.expect(st == LHF_MISMATCHED_SIZES, "c-sparse-mismatch", fmt("%d ", (int)st) + show(txt));
      bool un = true;
      for (auto v : ip) un = un && v == PG;
      c.expect(un, "c-sparse-mismatch-wrote");
      c.ev("c-mismatched");
    } else if (f.kind == ERROR || (f.header && !fits)) {
      c.expect(st == LHF_HIFIR_ERROR, std::string("accepted:c-sparse:") + f.why, fmt("%d ", (int)st) + show(txt));
      c.expect(lhfGetErrorMsg() != nullptr, "c-message");
      bool un = true;
      for (auto v : ip) un = un && v == PG;
      c.expect(un, "c-sparse-error-wrote");
      c.ev("c-rejected");
    }
    L::destroy_matrix(h);
    if (r.chance(.1)) {
      c.expect(L::read_sparse(fpath().c_str(), nullptr) == LHF_NULL_OBJ, "c-sparse-null");
      auto e = L::create_matrix(rm, 0, nullptr, nullptr, nullptr);
      st     = L::read_sparse(fpath().c_str(), e);
      c.expect(st != LHF_SUCCESS, "c-sparse-empty-handle");
      L::destroy_matrix(e);
    }
  }
  if (!f.header || !f.sparse) {
    const size_t sz = f.sizes && f.m < 1000 ? (size_t)f.m : 4, other = r.chance(.15) ? sz + 1 : sz;
    std::vector<T> v(other + 4, T((R)4.25));
    while (lhfGetErrorMsg()) {
    }
    at = attempt([&] { st = L::read_vector(fpath().c_str(), other, v.data()); }, msg);
    if (!c.expect(at == 0, "exception-out-of-c:read-vector", show(txt))) return;
    c.expect(open_files() == fd, "file-left-open:c-vector", show(txt));
    for (int k = 0; k < 4; ++k) c.expect(v[other + k] == T((R)4.25), "c-vector-guard");
    if (f.kind == EXACT && fits) {
      if ((long long)other == f.m) {
        bool ok = st == LHF_SUCCESS;
        for (long long k = 0; ok && k < f.m; ++k) ok = same_v(f.e[k], v[k]);
        c.expect(ok, "read-content:c-vector", show(txt));
        c.ev("c-vector-read");
      } else
        c.expect(st == LHF_MISMATCHED_SIZES, "c-vector-mismatch");
    } else if (f.kind == ERROR || (f.header && !fits)) {
      c.expect(st == LHF_HIFIR_ERROR, std::string("accepted:c-vector:") + f.why, show(txt));
      c.expect(lhfGetErrorMsg() != nullptr, "c-message");
    }
  }
}
static void read_all(Ctx &c, Rng &r, const std::string &txt) {
  put(txt);
  const Ref f = parse(txt, std::numeric_limits<int>::max());
  c.desc      = std::string(Tr<T>::name()) + " " + show(txt);
  read_cs<hif::CRS<T, int>>(c, f, txt, "rows");
  read_cs<hif::CCS<T, int>>(c, f, txt, "columns");
  if (r.chance(.3)) read_cs<hif::CRS<T, int, int>>(c, f, txt, "rows-32");
  read_coo(c, f, txt);
  read_vec(c, f, txt);
  read_c(c, r, f, txt);
  c.ev(std::string("text-") + (f.kind == EXACT ? "exact" : f.kind == ERROR ? "error" : "any"));
  if (f.kind == EXACT) c.ev(fmt("valid-type-%d", f.type));
  if (f.kind == EXACT && f.type && f.e.size() && (long long)f.e.size() == f.nz) c.ev("only-a-diagonal");
  Hash h;
  h.bytes(txt.data(), txt.size());
  if (f.kind != ANY) c.nontrivial(h.h);
}

// ------------------------------------------------------------- round trips
static T any_value(Rng &r) {
  auto one = [&]() -> double {
    switch ((int)r.in(0, 6)) {
      case 0: return (double)(R)std::ldexp(r.uni(-1, 1), (int)r.in(sizeof(R) == 4 ? -148 : -1070, sizeof(R) == 4 ? 127 : 1023));
      case 1: return (double)std::numeric_limits<R>::max() * (r.chance(.5) ? -1 : 1);
      case 2: return (double)std::numeric_limits<R>::denorm_min();
      case 3: return r.chance(.5) ? 0.0 : -0.0;
      case 4: return (double)r.in(-5, 5);
      case 5: return (double)(R)(1 + r.in(0, 3) * (double)std::numeric_limits<R>::epsilon());
      default: return (double)(R)r.uni(-1, 1);
    }
  };
  const double a = one();
  return Tr<T>::mk(a, one());
}
template <class Cs>
static void round_cs(Ctx &c, Rng &r, const char *nm) {
  Cs           A;
  const size_t m = r.chance(.05) ? 0 : r.in(1, 15), n = r.chance(.05) ? 0 : r.in(1, 15), np = Cs::ROW_MAJOR ? m : n, ns = Cs::ROW_MAJOR ? n : m;
  std::vector<long> ind;
  std::vector<T>    val;
  A.resize(m, n);
  A.ind_start().resize(np + 1);
  A.ind_start()[0] = 0;
  const double d   = r.pick({0.0, .2, .6, 1.0});
  for (size_t i = 0; i < np; ++i) {
    for (size_t j = 0; j < ns; ++j)
      if (r.chance(d)) {
        ind.push_back(j);
        val.push_back(any_value(r));
      }
    A.ind_start()[i + 1] = ind.size();
  }
  A.inds().resize(ind.size());
  A.vals().resize(ind.size());
  std::copy(ind.begin(), ind.end(), A.inds().begin());
  std::copy(val.begin(), val.end(), A.vals().begin());
  const Cs  keep(A, true);
  const int fd = open_files();
  A.write_mm(fpath().c_str());
  const std::string txt = get();
  auto              bits = [&](const T &x, const T &y) {
    const cld a = up(x), b = up(y);
    return a == b && std::signbit(a.real()) == std::signbit(b.real()) && std::signbit(a.imag()) == std::signbit(b.imag());
  };
  auto eq = [&](const Cs &B) {
    bool ok = B.nrows() == m && B.ncols() == n && B.inds().size() == ind.size() && B.vals().size() == ind.size() && B.ind_start().size() == np + 1;
    for (size_t i = 0; ok && i <= np; ++i) ok = B.ind_start()[i] == keep.ind_start()[i];
    for (size_t k = 0; ok && k < ind.size(); ++k) ok = (long)B.inds()[k] == ind[k] && bits(B.vals()[k], val[k]);
    return ok;
  };
  c.expect(eq(A), std::string("write-changed:") + nm);
  Cs B;
  if (r.chance(.4)) B = Cs(keep, true);  // read over something
  B.read_mm(fpath().c_str());
  c.expect(eq(B), std::string("round-trip:") + nm, show(txt));
  c.expect(eq(Cs::from_mm(fpath().c_str())), std::string("round-trip-from:") + nm, show(txt));
  typename Cs::other_type O;
  O.read_mm(fpath().c_str());
  c.expect(eq(Cs(O)) || ind.empty(), std::string("round-trip-other:") + nm, show(txt));
  // the written file is also what another reader makes of it
  const Ref f = parse(txt, std::numeric_limits<int>::max());
  if (c.expect(f.kind == EXACT && f.cplx == CX && f.sparse && f.type == 0 && f.m == (long long)m && f.n == (long long)n, std::string("written-form:") + nm,
               std::string(f.why) + show(txt))) {
    const std::string q = cmp(f, Cs::ROW_MAJOR, keep.ind_start().data(), keep.inds().data(), keep.vals().data());
    c.expect(q.empty(), std::string("written-content:") + nm, q + show(txt));
  }
  c.expect(open_files() == fd, std::string("file-left-open:round:") + nm);
  c.ev("round-trips");
  Hash h;
  h.bytes(txt.data(), txt.size());
  c.nontrivial(h.h);
}
static void round_vec(Ctx &c, Rng &r) {
  const size_t  n = r.chance(.05) ? 0 : r.in(1, 40);
  hif::Array<T> v(n), w;
  for (auto &x : v) x = any_value(r);
  v.write_mm(fpath().c_str());
  const std::string txt = get();
  if (r.chance(.4)) w.resize(r.in(1, 60));
  w.read_mm(fpath().c_str());
  bool ok = w.size() == n;
  for (size_t k = 0; ok && k < n; ++k) {
    const cld a = up(v[k]), b = up(w[k]);
    ok = a == b && std::signbit(a.real()) == std::signbit(b.real()) && std::signbit(a.imag()) == std::signbit(b.imag());
  }
  c.expect(ok, "round-trip:vector", show(txt));
  const auto x = hif::Array<T>::from_mm(fpath().c_str());
  c.expect(x.size() == n, "round-trip:vector-from");
  const Ref f = parse(txt, 1 << 30);
  ok          = f.kind == EXACT && !f.sparse && f.cplx == CX && f.m == (long long)n && f.n == 1;
  for (size_t k = 0; ok && k < n; ++k) ok = same_v(f.e[k], v[k]);
  c.expect(ok, "written-content:vector", show(txt));
  c.ev("vector-round-trips");
}
static void missing(Ctx &c, Rng &r) {
  const std::string d = r.chance(.5) ? scratch() : scratch() + "/nothing/here.mm";
  hif::CRS<T, int>  A;
  hif::Array<T>     v(3, T(1));
  std::string       m;
  const int         fd = open_files();
  c.expect(attempt([&] { A.read_mm(d.c_str()); }, m) == 1, "missing-file:rows");
  c.expect(attempt([&] { v.read_mm(d.c_str()); }, m) == 1, "missing-file:vector");
  c.expect(attempt([&] { v.write_mm(d.c_str()); }, m) == 1, "unwritable:vector");
  A.resize(3, 3);
  A.row_start().resize(4);
  std::fill(A.row_start().begin(), A.row_start().end(), 0);
  c.expect(attempt([&] { A.write_mm(d.c_str()); }, m) == 1, "unwritable:rows");
  int    a, b;
  size_t x, y, z;
  c.expect(lhfQueryMmFile(d.c_str(), &a, &b, &x, &y, &z) != LHF_SUCCESS, "missing-file:query");
  T u[3];
  c.expect(Lhf<T>::read_vector(d.c_str(), 3, u) == LHF_HIFIR_ERROR, "missing-file:c-vector");
  c.expect(open_files() == fd, "file-left-open:missing");
  c.ev("missing-files");
}

static void run(Ctx &c, Rng &r, long) {
  c.desc = Tr<T>::name();
  alarm(120);  // (a reader that never ends is killed and reported)
  const double u = r.uni();
  if (u < .02)
    missing(c, r);
  else if (u < .22) {
    switch ((int)r.in(0, 3)) {
      case 0: round_cs<hif::CRS<T, int>>(c, r, "rows"); break;
      case 1: round_cs<hif::CCS<T, int>>(c, r, "columns"); break;
      case 2: r.chance(.5) ? round_cs<hif::CRS<T, long, long>>(c, r, "rows-64") : round_cs<hif::CCS<T, int, int>>(c, r, "columns-32"); break;
      default: round_vec(c, r);
    }
  } else {
    const bool sparse = r.chance(.75), cplx = r.chance(.9) ? CX : !CX;
    const int  type = sparse ? (int)r.pick({0, 0, 1, 1, 2, 3}) : 0;
    std::string s = gen_file(r, sparse, cplx, type, r.chance(.7), r.chance(.3));
    if (u < .55) {
      // undamaged files must be understood by the reference, too
      const Ref f = parse(s, std::numeric_limits<int>::max());
      c.expect(f.kind == EXACT || (!sparse && f.m && !f.n), "harness-generated-invalid", std::string(f.why) + show(s));
    } else
      s = damage(r, s);
    read_all(c, r, s);
    if (c.samples.size() < 3) c.sample(c.desc);
  }
  alarm(0);
}
int main(int argc, char **argv) {
#ifndef __SANITIZE_ADDRESS__
  // a size that is not believed must not take the memory of the machine
  struct rlimit rl = {3ul << 30, 3ul << 30};
  setrlimit(RLIMIT_AS, &rl);
#endif
  return harness_main(argc, argv, 15, run);
}
