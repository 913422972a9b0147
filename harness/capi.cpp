// capi: random histories of C calls next to the C++ calls they stand for (C14).
static long vf_warned = 0;
#define HIF_STDERR(m) ((void)(m), ++vf_warned)
#include "capi.hpp"
using namespace vf;

static_assert(sizeof(LhfInt) * 8 == LIBHIFIR_INT_SIZE && sizeof(LhfIndPtr) * 8 == LIBHIF_INDPTR_SIZE, "integer sizes");

template <class T> struct Wide { typedef T type; };
template <> struct Wide<float> { typedef double type; };
template <> struct Wide<std::complex<float>> { typedef std::complex<double> type; };

// arrays that the user owns
template <class T>
struct Data {
  Csr<T>                 A;
  bool                   rm = true, broken = false;
  size_t                 n = 0;
  std::vector<LhfIndPtr> ip;
  std::vector<LhfInt>    ind;
  std::vector<T>         val;
  uint64_t               sum = 0;
  uint64_t hash() const {
    Hash h;
    for (auto v : ip) h.pod(v);
    for (auto v : ind) h.pod(v);
    h.bytes(val.data(), val.size() * sizeof(T));
    return h.h;
  }
  void set(const Csr<T> &A0, bool rows) {
    A  = A0;
    rm = rows;
    n  = A.n;
    const Csr<T> B = rm ? A : A.transpose();
    ip.assign(B.ptr.begin(), B.ptr.end());
    ind.assign(B.ind.begin(), B.ind.end());
    val = B.val;
    ind.push_back(-77);  // (also keeps the pointers from being null)
    val.push_back(T(77));
    sum = hash();
  }
};
typedef hif::Array<double> DArr;

template <class T>
struct Machine {
  typedef typename Wide<T>::type               W;
  typedef Lhf<T>                               L;
  typedef Lhf<W>                               LW;
  typedef hif::HIF<T, LhfInt, LhfIndPtr>       H;
  typedef hif::CRS<T, LhfInt, LhfIndPtr>       Crs_;
  typedef hif::CCS<T, LhfInt, LhfIndPtr>       Ccs_;
  typedef hif::CRS<W, LhfInt, LhfIndPtr>       CrsW;
  typedef hif::CCS<W, LhfInt, LhfIndPtr>       CcsW;
  static const bool                            MIX = LhfMix<T>::have;
  struct MSlot {
    typename L::Mat h = nullptr;
    int             d = -1;  // -1: no arrays
    bool            rm = false;
  };
  struct WSlot {
    typename LW::Mat h = nullptr;
    int              d = -1;
    bool             rm = false;
  };
  struct HSlot {
    typename L::Hif    h = nullptr;
    std::unique_ptr<H> m;
    int                A = -1, W = -1;  // slots of matrices
  };
  std::vector<Data<T>> data;
  std::vector<Data<W>> wdata;
  MSlot                mat[4];
  WSlot                wmat[2];
  HSlot                hf[3];
  Ctx &                c;
  Rng &                r;
  size_t               nmax = 0;
  std::string          log;
  Hash                 hist;
  Machine(Ctx &c, Rng &r) : c(c), r(r) {}
  ~Machine() {
    for (auto &q : hf)
      if (q.h) L::destroy(q.h);
    for (auto &q : mat)
      if (q.h) L::destroy_matrix(q.h);
    for (auto &q : wmat)
      if (q.h) LW::destroy_matrix(q.h);
  }
  void say(const std::string &s) {
    log += s + ";";
    if (log.size() > 700) log = log.substr(log.size() - 600);
    c.desc = std::string(Tr<T>::name()) + " ..." + log;
  }
  // status of a C call against what the C++ call did
  template <class FC, class FX>
  LhfStatus both(const char *what, FC &&fc, FX &&fx) {
    LhfStatus   st = LHF_SUCCESS;
    std::string thrown;
    bool        threw = false;
    try {
      fx();
    } catch (const std::exception &e) {
      threw  = true;
      thrown = e.what();
    }
    while (lhfGetErrorMsg()) {
    }
    try {
      st = fc();
    } catch (...) {
      c.fail(std::string("exception-out-of-c:") + what, thrown);
      return LHF_HIFIR_ERROR;
    }
    c.expect(st == (threw ? LHF_HIFIR_ERROR : LHF_SUCCESS), std::string("status:") + what, fmt("%d ", (int)st) + thrown);
    message(what, st, threw ? &thrown : nullptr);
    return st;
  }
  void message(const char *what, LhfStatus st, const std::string *thrown) {
    const char *m = lhfGetErrorMsg();
    if (st == LHF_HIFIR_ERROR) {
      if (c.expect(m && *m, std::string("no-message:") + what) && thrown) {
        // (where it was raised may be told differently)
        const std::string a = m, t = thrown->size() > 16 ? thrown->substr(thrown->size() - 16) : *thrown;
        c.expect(a.size() >= t.size() && a.compare(a.size() - t.size(), t.size(), t) == 0, std::string("message:") + what, a + " / " + *thrown);
      }
      c.ev("internal-errors");
    } else
      c.expect(!m, std::string("message-without-error:") + what, m ? m : "");
  }
  LhfStatus plain(const char *what, LhfStatus want, LhfStatus got) {
    c.expect(got == want, std::string("status:") + what, fmt("%d expected %d", (int)got, (int)want));
    c.ev(fmt("status-%d", (int)want));
    if (want != LHF_HIFIR_ERROR) c.expect(!lhfGetErrorMsg(), std::string("message-without-error:") + what);
    return got;
  }
  int free_slot() {
    for (int i = 0; i < 4; ++i)
      if (!mat[i].h) return i;
    return -1;
  }
  // ---------------------------------------------------------- C++ side
  template <class M>
  void build(M &m, const Data<T> *d, bool rm, const hif::Params *p) {
    // the handle decides how the arrays are to be read
    if (rm) {
      Crs_ A(d->n, d->n);
      copy(A.row_start(), A.col_ind(), A.vals(), *d);
      p ? m.factorize(A, *p) : m.factorize(A);
    } else {
      Ccs_ A(d->n, d->n);
      copy(A.col_start(), A.row_ind(), A.vals(), *d);
      p ? m.factorize(A, *p) : m.factorize(A);
    }
  }
  template <class P, class I, class V, class D>
  static void copy(P &p, I &i, V &v, const D &d) {
    p.resize(d.ip.size());
    i.resize(d.ind.size() - 1);
    v.resize(d.val.size() - 1);
    std::copy(d.ip.begin(), d.ip.end(), p.begin());
    std::copy(d.ind.begin(), d.ind.end() - 1, i.begin());
    std::copy(d.val.begin(), d.val.end() - 1, v.begin());
  }
  // ------------------------------------------------------------- checks
  void check_matrix(int i) {
    const MSlot &q = mat[i];
    const size_t n = q.h && q.d >= 0 ? data[q.d].n : 0, z = q.h && q.d >= 0 ? (size_t)(data[q.d].ip[n] - data[q.d].ip[0]) : 0;
    c.expect(L::matrix_size(q.h) == n, "matrix-size", fmt("%zu expected %zu", L::matrix_size(q.h), n));
    c.expect(L::matrix_nnz(q.h) == z, "matrix-nnz", fmt("%zu expected %zu", L::matrix_nnz(q.h), z));
  }
  void check_hif(int i) {
    const HSlot &q = hf[i];
    size_t       s[9], w[9] = {0, 0, 0, 0, 0, 0, 0, 0, 0};
    for (auto &v : s) v = 991;
    if (q.h && !q.m->empty()) {
      const H &     m    = *q.m;
      const size_t  e[9] = {m.nnz(), m.stats(0), m.stats(1), m.stats(4), m.stats(5), m.levels(), m.rank(), m.schur_rank(), m.schur_size()};
      std::copy(e, e + 9, w);
      c.ev("stats-compared");
    }
    c.expect(L::stats(q.h, s) == LHF_SUCCESS, "status:stats");
    for (int k = 0; k < 9; ++k)
      c.expect(s[k] == w[k], fmt("stats-%d", k), fmt("%zu expected %zu", s[k], w[k]));
    const bool e = !q.h;
    c.expect(L::nnz(q.h) == (e ? 0 : q.m->nnz()), "nnz");
    c.expect(L::levels(q.h) == (e ? 0 : q.m->levels()), "levels");
    c.expect(L::schur_size(q.h) == (e ? 0 : q.m->schur_size()), "schur-size");
    c.expect(L::schur_rank(q.h) == (e ? 0 : q.m->schur_rank()), "schur-rank");
  }
  void check_data() {
    for (auto &d : data) c.expect(d.hash() == d.sum, "matrix-arrays-changed");
    for (auto &d : wdata) c.expect(d.hash() == d.sum, "matrix-arrays-changed:wide");
  }
  // ----------------------------------------------------------------- steps
  void setup_data() {
    const int na = (int)r.in(1, 40), nb = r.chance(.6) ? (int)r.in(1, 24) : na;
    nmax         = std::max(na, nb);
    data.resize((size_t)r.in(3, 5));
    for (auto &d : data) {
      const int n  = r.chance(.7) ? na : nb;
      auto      A  = gen_square<T>(r, n, r.chance(.3) ? G_SYMM : G_ANY);
      d.set(A, r.chance(.5));
      if (r.chance(.1) && d.ind.size() > 1) {  // an index that does not exist
        d.broken                              = true;
        d.ind[r.in(0, (long)d.ind.size() - 2)] = r.chance(.5) ? n + (int)r.in(0, 3) : -1;
        d.sum                                 = d.hash();
        c.ev("broken-matrix");
      }
    }
    if (MIX) {
      wdata.resize(2);
      for (auto &w : wdata) {
        const Data<T> &d = data[r.in(0, (long)data.size() - 1)];
        Csr<W>         A;
        A.m = A.n = d.A.n;
        A.ptr     = d.A.ptr;
        A.ind     = d.A.ind;
        for (auto &v : d.A.val) {
          const cld u = Tr<T>::up(v);
          A.val.push_back(Tr<W>::mk((double)u.real() * (1 + 1e-9 * r.uni(-1, 1)), (double)u.imag() * (1 + 1e-9 * r.uni(-1, 1))));
        }
        w.set(A, r.chance(.5));
      }
    }
  }
  void create_matrix() {
    const int i = free_slot();
    if (i < 0) return;
    const bool empty = r.chance(.08);
    const int  d     = (int)r.in(0, (long)data.size() - 1);
    Data<T> &  D     = data[d];
    mat[i].rm        = empty ? r.chance(.5) : D.rm;
    mat[i].d         = empty ? -1 : d;
    if (!empty)
      mat[i].h = L::create_matrix(D.rm ? (int)r.pick({1, 2, -1}) : 0, D.n, D.ip.data(), D.ind.data(), D.val.data());
    else {
      const int w = (int)r.in(0, 4);  // one of them missing is enough
      mat[i].h    = L::create_matrix(mat[i].rm, w == 0 ? 0 : D.n, w == 1 || w == 4 ? nullptr : D.ip.data(), w == 2 || w == 4 ? nullptr : D.ind.data(),
                                  w == 3 || w == 4 ? nullptr : D.val.data());
    }
    say(fmt("A%d=%s%d", i, empty ? "empty" : D.broken ? "broken" : "", (int)D.n));
    c.expect(mat[i].h, "matrix-not-created");
    check_matrix(i);
  }
  // (an operator that is in use by preconditioners may be replaced)
  void wrap() {
    const int i = (int)r.in(0, 3), d = (int)r.in(0, (long)data.size() - 1);
    Data<T> & D = data[d];
    if (!mat[i].h) {
      plain("wrap-null", LHF_NULL_OBJ, L::wrap(nullptr, D.n, D.ip.data(), D.ind.data(), D.val.data()));
      return;
    }
    if (r.chance(.25)) {
      const int w = (int)r.in(0, 3);
      plain("wrap-incomplete", LHF_NULL_OBJ,
            L::wrap(mat[i].h, w == 0 ? 0 : D.n, w == 1 ? nullptr : D.ip.data(), w == 2 ? nullptr : D.ind.data(), w == 3 ? nullptr : D.val.data()));
      check_matrix(i);  // unchanged
      return;
    }
    // arrays are only usable if they fit the orientation the handle was created with (else they hold the transpose: also fine)
    plain("wrap", LHF_SUCCESS, L::wrap(mat[i].h, D.n, D.ip.data(), D.ind.data(), D.val.data()));
    mat[i].d = d;
    say(fmt("A%d:=%d", i, (int)D.n));
    check_matrix(i);
    c.ev("wrapped");
  }
  void destroy_matrix() {
    const int i = (int)r.in(0, 3);
    if (!mat[i].h) {
      plain("destroy-null-matrix", LHF_SUCCESS, L::destroy_matrix(nullptr));
      return;
    }
    for (auto &q : hf)
      if (q.h && q.A == i) {
        plain("update-none", LHF_SUCCESS, L::update(q.h, nullptr));
        q.A = -1;
      }
    plain("destroy-matrix", LHF_SUCCESS, L::destroy_matrix(mat[i].h));
    say(fmt("~A%d", i));
    mat[i] = MSlot();
    c.ev("destroyed-matrices");
  }
  int pick_mat(double none) {
    if (r.chance(none)) return -1;
    int i = (int)r.in(0, 3);
    for (int z = 0; z < 4 && !mat[i].h && r.chance(.9); ++z) i = (i + 1) % 4;
    return mat[i].h ? i : -1;
  }
  const Data<T> *dt(int i) { return i >= 0 && mat[i].d >= 0 ? &data[mat[i].d] : nullptr; }
  std::vector<double> params(hif::Params &p) {
    p = gen_params(r, r.chance(.3), false);
    if (r.chance(.06)) p.reorder = (int)r.pick({4, -1, 17});  // refused
    // what the vector cannot express keeps its default
    const hif::Params d = hif::get_default_params();
    hif::Params       q = d;
    q.tau_L = p.tau_L, q.tau_U = p.tau_U, q.kappa_d = p.kappa_d, q.kappa = p.kappa, q.alpha_L = p.alpha_L, q.alpha_U = p.alpha_U;
    q.verbose = 0, q.reorder = p.reorder, q.symm_pre_lvls = p.symm_pre_lvls, q.threads = 1, q.rrqr_cond = p.rrqr_cond, q.pivot = p.pivot;
    q.beta = p.beta, q.is_symm = p.is_symm, q.no_pre = p.no_pre, q.nzp_thres = p.nzp_thres, q.dense_thres = p.dense_thres;
    p = q;
    return lhf_params(p);
  }
  bool symm_ok(const Data<T> *d) { return d && d->A.symm; }
  void create(int k) {
    HSlot &q = hf[k];
    const int a = pick_mat(.3), s = pick_mat(.5);
    hif::Params         p;
    std::vector<double> v = params(p);
    const bool          def = r.chance(.2);
    const int           f = s >= 0 ? s : a;
    q.m.reset(new H());
    q.A = q.W = -1;
    bool threw = false;
    std::string what;
    if (dt(f)) {
      try {
        build(*q.m, dt(f), mat[f].rm, def ? nullptr : &p);
      } catch (const std::exception &e) {
        threw = true;
        what  = e.what();
      }
    }
    while (lhfGetErrorMsg()) {
    }
    try {
      q.h = L::create(a >= 0 ? mat[a].h : nullptr, s >= 0 ? mat[s].h : nullptr, def ? nullptr : v.data());
    } catch (...) {
      c.fail("exception-out-of-c:create", what);
      q.h = nullptr;
    }
    say(fmt("M%d=(%d,%d)%s", k, a, s, threw ? "!" : ""));
    c.expect((q.h == nullptr) == threw, "create", what);
    message("create", threw ? LHF_HIFIR_ERROR : LHF_SUCCESS, threw ? &what : nullptr);
    if (q.h && dt(f)) q.A = a >= 0 ? a : s;
    if (!q.h) q.m.reset();
    c.ev(threw ? "create-failed" : !dt(f) ? "created-empty" : "created");
    check_hif(k);
  }
  void setup(int k, bool re) {
    HSlot &     q = hf[k];
    const int   a = re ? -1 : pick_mat(.3), s = pick_mat(re ? .1 : .5), f = s >= 0 ? s : a;
    hif::Params p;
    auto        v   = params(p);
    const bool  def = r.chance(.2);
    auto        ha = a >= 0 ? mat[a].h : nullptr, hs = s >= 0 ? mat[s].h : nullptr;
    const double *pv = def ? nullptr : v.data();
    if (!q.h || !dt(f)) {
      plain("setup-nothing", LHF_NULL_OBJ, re ? L::refactorize(q.h, hs, pv) : L::setup(q.h, ha, hs, pv));
      check_hif(k);
      return;
    }
    const LhfStatus st = both(re ? "refactorize" : "setup", [&] { return re ? L::refactorize(q.h, hs, pv) : L::setup(q.h, ha, hs, pv); },
                              [&] { build(*q.m, dt(f), mat[f].rm, def ? nullptr : &p); });
    say(fmt("M%d:%s(%d,%d)%s", k, re ? "re" : "", a, s, st ? "!" : ""));
    if (!re && st == LHF_SUCCESS) {
      q.A = a >= 0 ? a : s;
      q.W = -1;
    }
    if (st) c.ev(q.m->empty() ? "failed-left-empty" : "failed-kept");
    c.ev(re ? "refactorized" : "set-up");
    check_hif(k);
  }
  void update(int k) {
    HSlot &   q = hf[k];
    const int a = pick_mat(.2);
    auto      ha = a >= 0 ? mat[a].h : nullptr;
    const size_t n = a >= 0 && dt(a) ? dt(a)->n : 0;
    const LhfStatus want = !q.h ? LHF_NULL_OBJ : a >= 0 && !q.m->empty() && n != q.m->nrows() ? LHF_MISMATCHED_SIZES : LHF_SUCCESS;
    plain("update", want, L::update(q.h, ha));
    if (want == LHF_SUCCESS) q.A = a;
    say(fmt("M%d.A=%d(%d)", k, a, (int)want));
    c.ev("updated");
  }
  template <class V, class FA, class FS, class FX>
  void apply_any(const char *what, int k, int As, size_t An, bool have_ir, FA &&fa, FS &&fs, FX &&fir) {
    HSlot &              q  = hf[k];
    const size_t         n  = q.h ? q.m->nrows() : nmax, sz = std::max(n, nmax);
    std::vector<V>       b  = gen_vec<V>(r, (int)sz), x(sz + 2, Tr<V>::mk(3.25, 0)), x0, y;
    const std::vector<V> b0 = b;
    x0                      = x;
    const auto op   = (LhfOperationType)r.in(0, 3);
    const int  nirs = !strcmp(what, "mixed") && As >= 0 && r.chance(.6) ? (int)r.in(2, 5) : (int)r.pick({0, 1, 1, -1, 2, 3, 5});
    const bool bt   = r.chance(.5), sp = r.chance(.7);
    const double betas[2] = {r.pick({0.0, 1e-14, 1e-3}), r.pick({1.5, 1e10, 0.5})};
    const int  rank = (int)r.pick({(int)LHF_DEFAULT_RANK, (int)LHF_DEFAULT_RANK, -1, 0, 1, 3, 1000});
    int        ir[2] = {-55, -66}, ir0[2] = {-55, -66};
    const bool mul = op == LHF_M || op == LHF_MH, tr = op == LHF_SH || op == LHF_MH, refine = !mul && nirs > 1;
    const bool easy = r.chance(.25);
    LhfStatus  st;
    auto       call = [&] { return easy ? fs(q.h, b.data(), x.data()) : fa(q.h, op, b.data(), nirs, bt ? betas : nullptr, rank, x.data(), sp ? ir : nullptr); };
    const bool ref2 = refine && !easy;
    if (!q.h || (ref2 && As < 0) || (ref2 && n != An) || (ref2 && !An)) {
      st = plain(what, !q.h || As < 0 || n == An ? LHF_NULL_OBJ : LHF_MISMATCHED_SIZES, call());
      c.expect(!memcmp(x.data(), x0.data(), x.size() * sizeof(V)), std::string("refused-but-wrote:") + what);
      c.expect(ir[0] == -55 && ir[1] == -66, std::string("refused-but-wrote-status:") + what);
      c.ev("refused");
      return;
    }
    y = x0;
    st = both(what, call, [&] {
      hif::Array<V> bb(n), yy(n);
      std::copy(b0.begin(), b0.begin() + n, bb.begin());
      std::copy(x0.begin(), x0.begin() + n, yy.begin());
      const H &m = *q.m;
      if (easy)
        m.solve(bb, yy);
      else if (mul)
        rank == LHF_DEFAULT_RANK ? m.mmultiply(bb, yy, tr) : m.mmultiply(bb, yy, tr, (size_t)rank);
      else if (!refine)
        rank == LHF_DEFAULT_RANK ? m.solve(bb, yy, tr) : m.solve(bb, yy, tr, (size_t)rank);
      else
        fir(m, bb, (size_t)nirs, bt ? betas : nullptr, yy, tr, rank, ir0);
      std::copy(yy.begin(), yy.end(), y.begin());
    });
    say(fmt("%s M%d op%d nirs%d%s rk%d(%d)", easy ? "solve" : what, k, (int)op, nirs, bt ? "b" : "", rank, (int)st));
    if (st == LHF_SUCCESS) {
      size_t d = 0;
      while (d < y.size() && !memcmp(&x[d], &y[d], sizeof(V))) ++d;
      c.expect(d == y.size(), fmt("result:%s:%s", what, easy ? "solve" : mul ? "multiply" : refine ? "refine" : "apply"), fmt("at %zu of %zu", d, n));
      if (!ref2 || !bt || !sp) ir0[0] = -55, ir0[1] = -66;
      c.expect(ir[0] == ir0[0] && ir[1] == ir0[1], fmt("refinement-status:%s", what), fmt("%d %d expected %d %d", ir[0], ir[1], ir0[0], ir0[1]));
      c.ev(fmt("compared-%s-%s", what, easy ? "solve" : mul ? "multiply" : refine ? (bt ? "refine-bounds" : "refine") : "apply"));
      if (rank != LHF_DEFAULT_RANK && !easy) c.ev("compared-rank");
      hist.bytes(x.data(), n * sizeof(V));
    }
    c.expect(!memcmp(b.data(), b0.data(), b.size() * sizeof(V)), std::string("right-hand-side-changed:") + what);
    c.expect(!memcmp(&x[sz], &x0[sz], 2 * sizeof(V)), std::string("overrun:") + what);
    (void)have_ir;
  }
  template <class Cr, class Cc, class D, class V>
  void refine(const H &m, const D &d, bool rm, const hif::Array<V> &b, size_t N, const double *betas, hif::Array<V> &x, bool tr, int rank, int *ir) {
    auto go = [&](const auto &A) {
      if (!betas)
        rank == LHF_DEFAULT_RANK ? m.hifir(A, b, N, x, tr) : m.hifir(A, b, N, x, tr, (size_t)rank);
      else {
        auto s = rank == LHF_DEFAULT_RANK ? m.hifir(A, b, N, betas, x, tr) : m.hifir(A, b, N, betas, x, tr, (size_t)rank);
        ir[0]  = (int)s.first;
        ir[1]  = s.second;
      }
    };
    if (rm) {
      Cr A(d.n, d.n);
      copy(A.row_start(), A.col_ind(), A.vals(), d);
      go(A);
    } else {
      Cc A(d.n, d.n);
      copy(A.col_start(), A.row_ind(), A.vals(), d);
      go(A);
    }
  }
  void apply(int k) {
    HSlot &   q = hf[k];
    const int a = q.A;
    const Data<T> *d = dt(a);
    if (d && d->broken) {  // only ever used by validated operations
      if (q.h) L::update(q.h, nullptr);
      q.A = -1;
      return;
    }
    apply_any<T>("apply", k, a, d ? d->n : 0, true,
                 [&](typename L::Hif h, LhfOperationType op, const T *b, int ni, const double *bt, int rk, T *x, int *s) { return L::apply(h, op, b, ni, bt, rk, x, s); },
                 [&](typename L::Hif h, const T *b, T *x) { return L::solve(h, b, x); },
                 [&](const H &m, const hif::Array<T> &b, size_t N, const double *bt, hif::Array<T> &x, bool tr, int rank, int *ir) {
                   refine<Crs_, Ccs_>(m, *d, mat[a].rm, b, N, bt, x, tr, rank, ir);
                 });
  }
  void destroy(int k) {
    plain("destroy", LHF_SUCCESS, L::destroy(hf[k].h));
    hf[k] = HSlot();
    say(fmt("~M%d", k));
  }
  template <bool B>
  typename std::enable_if<!B>::type mixed(int) {}
  template <bool B>
  typename std::enable_if<B>::type mixed(int k) {
    typedef LhfMix<T> X;
    HSlot &           q = hf[k];
    const int         i = (int)r.in(0, 1);
    const int what = !wmat[i].h && r.chance(.6) ? 0 : q.h && q.W < 0 && r.chance(.6) ? 1 : (int)r.in(0, 9);
    switch (what) {
      case 0:
        if (!wmat[i].h) {
          int d = (int)r.in(0, 1);
          if (q.h && wdata[d].n != q.m->nrows()) d = 1 - d;
          const bool e = r.chance(.1);
          auto &     D = wdata[d];
          wmat[i].h    = e ? LW::create_matrix(1, 0, nullptr, nullptr, nullptr) : LW::create_matrix(D.rm, D.n, D.ip.data(), D.ind.data(), D.val.data());
          wmat[i].rm   = e ? true : D.rm;
          wmat[i].d    = e ? -1 : d;
        } else if (r.chance(.3)) {
          for (auto &z : hf)
            if (z.h && z.W == i) {
              plain("mixed-update-none", LHF_SUCCESS, X::update(z.h, nullptr));
              z.W = -1;
            }
          LW::destroy_matrix(wmat[i].h);
          wmat[i] = WSlot();
        }
        break;
      case 1: {
        const bool      none = r.chance(.1) || !wmat[i].h;
        const size_t    n    = none || wmat[i].d < 0 ? 0 : wdata[wmat[i].d].n;
        const LhfStatus want = !q.h ? LHF_NULL_OBJ : !none && !q.m->empty() && n != q.m->nrows() ? LHF_MISMATCHED_SIZES : LHF_SUCCESS;
        plain("mixed-update", want, X::update(q.h, none ? nullptr : wmat[i].h));
        if (want == LHF_SUCCESS) q.W = none ? -1 : i;
        c.ev("mixed-updated");
        break;
      }
      default: {
        const int      a = q.W;
        const Data<W> *d = a >= 0 && wmat[a].d >= 0 ? &wdata[wmat[a].d] : nullptr;
        apply_any<W>("mixed", k, a, d ? d->n : 0, true,
                     [&](typename L::Hif h, LhfOperationType op, const W *b, int ni, const double *bt, int rk, W *x, int *s) { return X::apply(h, op, b, ni, bt, rk, x, s); },
                     [&](typename L::Hif h, const W *b, W *x) { return X::solve(h, b, x); },
                     [&](const H &m, const hif::Array<W> &b, size_t N, const double *bt, hif::Array<W> &x, bool tr, int rank, int *ir) {
                       refine<CrsW, CcsW>(m, *d, wmat[a].rm, b, N, bt, x, tr, rank, ir);
                     });
      }
    }
  }
  void misc() {
    switch ((int)r.in(0, 3)) {
      case 0: {
        double v[LHF_NUMBER_PARAMS + 1], w[LHF_NUMBER_PARAMS + 1];
        for (auto &x : v) x = r.uni(-9, 9);
        if (r.chance(.3)) {
          v[LHF_NUMBER_PARAMS] = 42;
          c.expect(lhfSetDefaultParams(v) == LHF_SUCCESS, "status:defaults");
          const auto d = lhf_params(hif::get_default_params());
          for (int k = 0; k < LHF_NUMBER_PARAMS; ++k) c.expect(v[k] == d[k], fmt("default-parameter-%d", k));
          c.expect(v[LHF_NUMBER_PARAMS] == 42, "defaults-overrun");
        }
        memcpy(w, v, sizeof v);
        const double z = r.uni(0, 5);
        const int    o = (int)r.in(0, 2);
        c.expect((o == 0 ? lhfSetDroptol(z, v) : o == 1 ? lhfSetAlpha(z, v) : lhfSetKappa(z, v)) == LHF_SUCCESS, "status:set");
        w[o == 0 ? LHF_DROPTOL_L : o == 1 ? LHF_ALPHA_L : LHF_COND]   = z;
        w[o == 0 ? LHF_DROPTOL_U : o == 1 ? LHF_ALPHA_U : LHF_COND_D] = z;
        c.expect(!memcmp(v, w, sizeof v), fmt("set-%d", o));
        c.ev("parameters-set");
        break;
      }
      case 1: {
        int v[4] = {-1, -1, -1, -1};
        lhfGetVersions(v);
        c.expect(v[0] == HIF_GLOBAL_VERSION && v[1] == HIF_MAJOR_VERSION && v[2] == HIF_MINOR_VERSION && v[3] == -1, "versions");
        c.expect((int)LHF_VERBOSE_NULL == hif::VERBOSE_NONE && (int)LHF_VERBOSE_WARN == hif::VERBOSE_WARN && (int)LHF_VERBOSE_INFO == hif::VERBOSE_INFO &&
                     (int)LHF_VERBOSE_PRE == hif::VERBOSE_PRE && (int)LHF_VERBOSE_FAC == hif::VERBOSE_FAC &&
                     (int)LHF_VERBOSE_PRE_TIME == hif::VERBOSE_PRE_TIME && (int)LHF_VERBOSE_MEM == hif::VERBOSE_MEM,
                 "verbose-levels");
        c.expect((int)LHF_REORDER_OFF == hif::REORDER_OFF && (int)LHF_REORDER_AUTO == hif::REORDER_AUTO && (int)LHF_REORDER_AMD == hif::REORDER_AMD &&
                     (int)LHF_REORDER_RCM == hif::REORDER_RCM,
                 "reorder-options");
        c.expect((int)LHF_PIVOTING_OFF == hif::PIVOTING_OFF && (int)LHF_PIVOTING_ON == hif::PIVOTING_ON && (int)LHF_PIVOTING_AUTO == hif::PIVOTING_AUTO, "pivoting-options");
        break;
      }
      case 2: {
        const bool on = r.chance(.5);
        const long w0 = vf_warned;
        on ? lhfEnableWarning() : lhfDisableWarning();
        hif_warning("a warning %d", 1);
        c.expect((vf_warned != w0) == on, "warning-switch");
        lhfEnableWarning();
        c.ev("warning-switched");
        break;
      }
      default: check_data();
    }
  }
  void go() {
    setup_data();
    for (int z = (int)r.in(0, 4); z > 0; --z) create_matrix();
    const int steps = (int)r.in(8, 40);
    for (int s = 0; s < steps; ++s) {
      const int k = (int)r.in(0, 2);
      if (!hf[k].h && r.chance(.7)) {
        create(k);
        continue;
      }
      if (hf[k].h && hf[k].m->empty() && r.chance(.5)) {
        setup(k, r.chance(.3));
        continue;
      }
      switch ((int)r.in(0, MIX ? 21 : 17)) {
        case 0:
        case 1:
        case 2: create_matrix(); break;
        case 3: wrap(); break;
        case 4:
          if (r.chance(.5)) destroy_matrix();
          break;
        case 5:
        case 6:
          if (!hf[k].h) create(k);
          break;
        case 7:
        case 8: setup(k, false); break;
        case 9: setup(k, true); break;
        case 10: update(k); break;
        case 11:
          if (r.chance(.3)) destroy(k);
          break;
        case 12: misc(); break;
        case 13: check_hif(k); break;
        case 14:
        case 15:
        case 16:
        case 17: apply(k); break;
        default: mixed<MIX>(k);
      }
      c.ev("steps");
    }
    check_data();
    for (int k = 0; k < 3; ++k) check_hif(k);
  }
};
template <class T>
static void one(Ctx &c, Rng &r) {
  Machine<T> m(c, r);
  m.go();
  c.nontrivial(m.hist.h);
  if (c.samples.size() < 3) c.sample(c.desc);
}
static void run(Ctx &c, Rng &r, long) {
  switch ((int)r.in(0, 3)) {
    case 0: one<double>(c, r); break;
    case 1: one<float>(c, r); break;
    case 2: one<std::complex<double>>(c, r); break;
    default: one<std::complex<float>>(c, r);
  }
}
int main(int argc, char **argv) { return harness_main(argc, argv, 14, run); }
