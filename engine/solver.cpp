#include "solver.h"
#include <gmpxx.h>
#include <map>
#include <memory>
#include <z3.h>
#include <algorithm>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstring>
#include <fcntl.h>
#include <list>
#include <poll.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

namespace sx {
SolverStats stats;
double feasTimeout = 3, assertTimeout = 60;
std::string smtDumpDir, scratchDir = "/tmp";
double nowSec() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

// ---- Z3 translation -----------------------------------------------------------------------
static Z3_context C;
static std::unordered_map<E, Z3_ast> tmemo;
static std::map<std::string, Z3_func_decl> ufd;
static void errh(Z3_context c, Z3_error_code e) {
  fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
  abort();
}
static Z3_context ctx() {
  if (!C) {
    Z3_config cfg = Z3_mk_config();
    Z3_set_param_value(cfg, "model", "true");
    C = Z3_mk_context(cfg);  // old-style memory management: asts live as long as the context
    Z3_set_error_handler(C, errh);
  }
  return C;
}
static Z3_sort fpSort(unsigned w) {
  if (realMode) return Z3_mk_real_sort(ctx());
  return w == 32 ? Z3_mk_fpa_sort_32(ctx()) : Z3_mk_fpa_sort_64(ctx());
}
static Z3_sort sortOf(E e) { return e->isFP() ? fpSort(e->width) : Z3_mk_bv_sort(ctx(), e->width); }
static Z3_ast bool2bv(Z3_ast b) {
  return Z3_mk_ite(C, b, Z3_mk_unsigned_int64(C, 1, Z3_mk_bv_sort(C, 1)), Z3_mk_unsigned_int64(C, 0, Z3_mk_bv_sort(C, 1)));
}
// width-1 expressions are translated to Bool; tBV converts on demand
static Z3_ast tr(E e);
static bool isBoolSorted(E e) { return e->sort == BV && e->width == 1; }
static Z3_ast asBV(E e) {
  Z3_ast a = tr(e);
  return isBoolSorted(e) ? bool2bv(a) : a;
}
static Z3_ast bv2bool(Z3_ast a) { return Z3_mk_eq(C, a, Z3_mk_unsigned_int64(C, 1, Z3_mk_bv_sort(C, 1))); }
static Z3_ast rmAst(unsigned m) {
  switch (m) {
  case RM_NE: return Z3_mk_fpa_rne(C);
  case RM_NA: return Z3_mk_fpa_rna(C);
  case RM_UP: return Z3_mk_fpa_rtp(C);
  case RM_DN: return Z3_mk_fpa_rtn(C);
  default: return Z3_mk_fpa_rtz(C);
  }
}
static Z3_ast realConst(E e) {
  APFloat f = toAPF(e);
  if (!f.isFinite()) {
    fprintf(stderr, "non-finite constant in real mode\n");
    abort();
  }
  // exact: mantissa * 2^k
  int ex;
  double d = e->width == 64 ? f.convertToDouble() : (double)f.convertToFloat();
  double m = std::frexp(d, &ex);
  long long mi = (long long)std::ldexp(m, 53);
  int k = ex - 53;
  while (mi && (mi & 1) == 0 && k < 0) mi >>= 1, k++;
  if (mi == 0) k = 0;
  std::string s;
  auto pow2 = [](int n) {
    APInt v(2200, 1);
    v = v.shl(n);
    llvm::SmallVector<char, 64> b;
    v.toString(b, 10, false);
    return std::string(b.begin(), b.end());
  };
  if (k >= 0) {
    APInt v(2200, (uint64_t)mi, true);
    v = v.shl(k);
    llvm::SmallVector<char, 64> b;
    v.toString(b, 10, true);
    s = std::string(b.begin(), b.end());
  } else
    s = std::to_string(mi) + "/" + pow2(-k);
  return Z3_mk_numeral(C, s.c_str(), Z3_mk_real_sort(C));
}
static Z3_ast build(E e) {
  auto K = [&](unsigned i) { return tr(e->kid[i]); };
  auto V = [&](unsigned i) { return asBV(e->kid[i]); };
  Z3_ast rne = realMode ? nullptr : Z3_mk_fpa_rne(ctx());
  bool b1 = isBoolSorted(e);
  auto fin = [&](Z3_ast a) { return b1 ? bv2bool(a) : a; };
  switch (e->op) {
  case CONST:
    if (e->isFP()) {
      if (realMode) return realConst(e);
      return Z3_mk_fpa_to_fp_bv(C, Z3_mk_unsigned_int64(C, e->cw, Z3_mk_bv_sort(C, e->width)), fpSort(e->width));
    }
    if (b1) return e->cw ? Z3_mk_true(C) : Z3_mk_false(C);
    if (e->big) {
      llvm::SmallVector<char, 64> b;
      e->big->toString(b, 10, false);
      std::string s(b.begin(), b.end());
      return Z3_mk_numeral(C, s.c_str(), Z3_mk_bv_sort(C, e->width));
    }
    return Z3_mk_unsigned_int64(C, e->cw, Z3_mk_bv_sort(C, e->width));
  case VAR: {
    Z3_symbol s = Z3_mk_string_symbol(C, names[e->aux].c_str());
    if (b1) return Z3_mk_const(C, s, Z3_mk_bool_sort(C));
    return Z3_mk_const(C, s, sortOf(e));
  }
  case ADD: return fin(Z3_mk_bvadd(C, V(0), V(1)));
  case MUL:
    if (e->kid[0]->isConst() && !b1 && e->kid[0]->ap().isAllOnes()) return Z3_mk_bvneg(C, V(1));
    return fin(Z3_mk_bvmul(C, V(0), V(1)));
  case UDIV: return fin(Z3_mk_bvudiv(C, V(0), V(1)));
  case SDIV: return fin(Z3_mk_bvsdiv(C, V(0), V(1)));
  case UREM: return fin(Z3_mk_bvurem(C, V(0), V(1)));
  case SREM: return fin(Z3_mk_bvsrem(C, V(0), V(1)));
  case AND:
    if (b1) { Z3_ast a[2] = {K(0), K(1)}; return Z3_mk_and(C, 2, a); }
    return Z3_mk_bvand(C, K(0), K(1));
  case OR:
    if (b1) { Z3_ast a[2] = {K(0), K(1)}; return Z3_mk_or(C, 2, a); }
    return Z3_mk_bvor(C, K(0), K(1));
  case XOR: return b1 ? Z3_mk_xor(C, K(0), K(1)) : Z3_mk_bvxor(C, K(0), K(1));
  case NOT: return b1 ? Z3_mk_not(C, K(0)) : Z3_mk_bvnot(C, K(0));
  case SHL: return fin(Z3_mk_bvshl(C, V(0), V(1)));
  case LSHR: return fin(Z3_mk_bvlshr(C, V(0), V(1)));
  case ASHR: return fin(Z3_mk_bvashr(C, V(0), V(1)));
  case CONCAT: {
    Z3_ast a = V(0);
    for (unsigned i = 1; i < e->nk; i++) a = Z3_mk_concat(C, a, V(i));
    return a;
  }
  case EXTRACT: return fin(Z3_mk_extract(C, e->aux + e->width - 1, e->aux, V(0)));
  case SEXT: return Z3_mk_sign_ext(C, e->width - e->kid[0]->width, V(0));
  case ITE: return Z3_mk_ite(C, K(0), K(1), K(2));
  case EQ: return Z3_mk_eq(C, K(0), K(1));
  case ULT: return Z3_mk_bvult(C, V(0), V(1));
  case ULE: return Z3_mk_bvule(C, V(0), V(1));
  case SLT: return Z3_mk_bvslt(C, V(0), V(1));
  case SLE: return Z3_mk_bvsle(C, V(0), V(1));
  case UF: {
    std::string n = names[e->aux] + "/" + std::to_string(e->nk);
    auto it = ufd.find(n);
    if (it == ufd.end()) {
      std::vector<Z3_sort> d;
      for (unsigned i = 0; i < e->nk; i++)
        d.push_back(isBoolSorted(e->kid[i]) ? Z3_mk_bool_sort(C) : sortOf(e->kid[i]));
      it = ufd.emplace(n, Z3_mk_func_decl(C, Z3_mk_string_symbol(C, n.c_str()), d.size(), d.data(), sortOf(e))).first;
    }
    std::vector<Z3_ast> a;
    for (unsigned i = 0; i < e->nk; i++) a.push_back(K(i));
    return Z3_mk_app(C, it->second, a.size(), a.data());
  }
  default: break;
  }
  if (realMode) {
    Z3_ast zero = Z3_mk_numeral(C, "0", Z3_mk_real_sort(C));
    switch (e->op) {
    case FADD: { Z3_ast a[2] = {K(0), K(1)}; return Z3_mk_add(C, 2, a); }
    case FSUB: { Z3_ast a[2] = {K(0), K(1)}; return Z3_mk_sub(C, 2, a); }
    case FMUL: { Z3_ast a[2] = {K(0), K(1)}; return Z3_mk_mul(C, 2, a); }
    case FDIV: return Z3_mk_div(C, K(0), K(1));
    case FNEG: return Z3_mk_unary_minus(C, K(0));
    case FABS: return Z3_mk_ite(C, Z3_mk_lt(C, K(0), zero), Z3_mk_unary_minus(C, K(0)), K(0));
    case FMIN: return Z3_mk_ite(C, Z3_mk_lt(C, K(0), K(1)), K(0), K(1));
    case FMAX: return Z3_mk_ite(C, Z3_mk_gt(C, K(0), K(1)), K(0), K(1));
    case FEQ: return Z3_mk_eq(C, K(0), K(1));
    case FLT: return Z3_mk_lt(C, K(0), K(1));
    case FLE: return Z3_mk_le(C, K(0), K(1));
    case FISNAN: return Z3_mk_false(C);
    case FPCAST: return K(0);
    case UITOF: return Z3_mk_int2real(C, Z3_mk_bv2int(C, V(0), false));
    case SITOF: return Z3_mk_int2real(C, Z3_mk_bv2int(C, V(0), true));
    case FTOSI: case FTOUI: {
      Z3_ast x = K(0);
      Z3_ast t = Z3_mk_ite(C, Z3_mk_ge(C, x, zero), Z3_mk_real2int(C, x),
                           Z3_mk_unary_minus(C, Z3_mk_real2int(C, Z3_mk_unary_minus(C, x))));
      return Z3_mk_int2bv(C, e->width, t);
    }
    case FROUND: {
      Z3_ast x = K(0);
      if (e->aux == RM_DN) return Z3_mk_int2real(C, Z3_mk_real2int(C, x));
      if (e->aux == RM_UP) return Z3_mk_unary_minus(C, Z3_mk_int2real(C, Z3_mk_real2int(C, Z3_mk_unary_minus(C, x))));
      if (e->aux == RM_NA || e->aux == RM_NE) {
        Z3_ast half = Z3_mk_numeral(C, "1/2", Z3_mk_real_sort(C));
        Z3_ast p[2] = {x, half};
        Z3_ast q[2] = {Z3_mk_unary_minus(C, x), half};
        return Z3_mk_ite(C, Z3_mk_ge(C, x, zero), Z3_mk_int2real(C, Z3_mk_real2int(C, Z3_mk_add(C, 2, p))),
                         Z3_mk_unary_minus(C, Z3_mk_int2real(C, Z3_mk_real2int(C, Z3_mk_add(C, 2, q)))));
      }
      return Z3_mk_ite(C, Z3_mk_ge(C, x, zero), Z3_mk_int2real(C, Z3_mk_real2int(C, x)),
                       Z3_mk_unary_minus(C, Z3_mk_int2real(C, Z3_mk_real2int(C, Z3_mk_unary_minus(C, x)))));
    }
    default:
      fprintf(stderr, "unsupported in real mode: %s\n", str(e).c_str());
      abort();
    }
  }
  switch (e->op) {
  case FADD: return Z3_mk_fpa_add(C, rne, K(0), K(1));
  case FSUB: return Z3_mk_fpa_sub(C, rne, K(0), K(1));
  case FMUL: return Z3_mk_fpa_mul(C, rne, K(0), K(1));
  case FDIV: return Z3_mk_fpa_div(C, rne, K(0), K(1));
  case FREM: return Z3_mk_fpa_rem(C, K(0), K(1));
  case FNEG: return Z3_mk_fpa_neg(C, K(0));
  case FABS: return Z3_mk_fpa_abs(C, K(0));
  case FSQRT: return Z3_mk_fpa_sqrt(C, rne, K(0));
  case FROUND: return Z3_mk_fpa_round_to_integral(C, rmAst(e->aux), K(0));
  case FMIN: return Z3_mk_fpa_min(C, K(0), K(1));
  case FMAX: return Z3_mk_fpa_max(C, K(0), K(1));
  case FEQ: return Z3_mk_fpa_eq(C, K(0), K(1));
  case FLT: return Z3_mk_fpa_lt(C, K(0), K(1));
  case FLE: return Z3_mk_fpa_leq(C, K(0), K(1));
  case FISNAN: return Z3_mk_fpa_is_nan(C, K(0));
  case FTOUI: return Z3_mk_fpa_to_ubv(C, rmAst(RM_Z), K(0), e->width);
  case FTOSI: return Z3_mk_fpa_to_sbv(C, rmAst(RM_Z), K(0), e->width);
  case UITOF: return Z3_mk_fpa_to_fp_unsigned(C, rne, V(0), fpSort(e->width));
  case SITOF: return Z3_mk_fpa_to_fp_signed(C, rne, V(0), fpSort(e->width));
  case FPCAST: return Z3_mk_fpa_to_fp_float(C, rne, K(0), fpSort(e->width));
  case FROMBV: return Z3_mk_fpa_to_fp_bv(C, V(0), fpSort(e->width));
  case TOBV: return Z3_mk_fpa_to_ieee_bv(C, K(0));
  default: fprintf(stderr, "untranslatable op %d\n", e->op); abort();
  }
}
// Affine normal form of a real-mode expression: constant + sum of coefficient * leaf.
struct Lin {
  mpq_class c = 0;
  std::map<uint32_t, std::pair<E, mpq_class>> t;
};
static std::unordered_map<E, std::shared_ptr<Lin>> linMemo;
static mpq_class exactConst(E e) {
  double d = e->width == 64 ? toAPF(e).convertToDouble() : (double)toAPF(e).convertToFloat();
  if (!std::isfinite(d)) {
    fprintf(stderr, "non-finite constant in real mode\n");
    abort();
  }
  return mpq_class(d);
}
static bool linOp(E e) {
  switch (e->op) {
  case FADD: case FSUB: case FNEG: case FPCAST: return true;
  case FMUL: return e->kid[0]->isConst() || e->kid[1]->isConst();
  case FDIV: return e->kid[1]->isConst() && !toAPF(e->kid[1]).isZero();
  default: return false;
  }
}
static const Lin &linOf(E root) {
  std::vector<E> st{root};
  while (!st.empty()) {
    E e = st.back();
    if (linMemo.count(e)) { st.pop_back(); continue; }
    auto l = std::make_shared<Lin>();
    if (e->isConst()) l->c = exactConst(e);
    else if (!linOp(e)) l->t[e->id] = {e, 1};
    else {
      bool ready = true;
      for (unsigned i = 0; i < e->nk; i++)
        if (!linMemo.count(e->kid[i])) { st.push_back(e->kid[i]); ready = false; }
      if (!ready) continue;
      auto scale = [&](const Lin &a, const mpq_class &k) {
        if (k == 0) return;
        l->c += a.c * k;
        for (auto &x : a.t) {
          auto &y = l->t[x.first];
          y.first = x.second.first;
          y.second += x.second.second * k;
          if (y.second == 0) l->t.erase(x.first);
        }
      };
      const Lin &a = *linMemo[e->kid[0]];
      switch (e->op) {
      case FADD: scale(a, 1); scale(*linMemo[e->kid[1]], 1); break;
      case FSUB: scale(a, 1); scale(*linMemo[e->kid[1]], -1); break;
      case FNEG: scale(a, -1); break;
      case FPCAST: scale(a, 1); break;
      case FMUL:
        if (e->kid[0]->isConst()) scale(*linMemo[e->kid[1]], a.c);
        else scale(a, linMemo[e->kid[1]]->c);
        break;
      case FDIV: scale(a, 1 / linMemo[e->kid[1]]->c); break;
      default: break;
      }
    }
    // coefficients finer than 2^-128 are rounded (far below the double rounding that real mode ignores)
    auto trim = [](mpq_class &q) {
      if (mpz_sizeinbase(q.get_den_mpz_t(), 2) <= 129) return;
      mpz_class n = (q.get_num() << 128) / q.get_den();
      q = mpq_class(n, mpz_class(1) << 128);
      q.canonicalize();
    };
    trim(l->c);
    for (auto it = l->t.begin(); it != l->t.end();) {
      trim(it->second.second);
      it = it->second.second == 0 ? l->t.erase(it) : std::next(it);
    }
    st.pop_back();
    linMemo[e] = l;
  }
  return *linMemo[root];
}
static Z3_ast buildLin(E e) {
  auto num = [&](const mpq_class &q) { return Z3_mk_numeral(C, q.get_str().c_str(), Z3_mk_real_sort(C)); };
  Lin l = linOf(e);
  std::vector<Z3_ast> a;
  for (auto &x : l.t) {
    Z3_ast m[2] = {num(x.second.second), tr(x.second.first)};
    a.push_back(x.second.second == 1 ? m[1] : Z3_mk_mul(C, 2, m));
  }
  if (l.c != 0 || a.empty()) a.push_back(num(l.c));
  return a.size() == 1 ? a[0] : Z3_mk_add(C, a.size(), a.data());
}
static Z3_ast tr(E root) {
  ctx();
  auto it = tmemo.find(root);
  if (it != tmemo.end()) return it->second;
  std::vector<E> st{root};
  while (!st.empty()) {
    E e = st.back();
    if (tmemo.count(e)) { st.pop_back(); continue; }
    if (linearMode && realMode && linOp(e)) {
      Z3_ast a = buildLin(e);
      tmemo[e] = a;
      st.pop_back();
      continue;
    }
    bool ready = true;
    for (unsigned i = 0; i < e->nk; i++)
      if (!tmemo.count(e->kid[i])) { st.push_back(e->kid[i]); ready = false; }
    if (!ready) continue;
    st.pop_back();
    tmemo[e] = build(e);
  }
  return tmemo[root];
}

// ---- models -------------------------------------------------------------------------------
static std::list<Model> models;  // most recent first
void addModel(const Model &m) {
  models.push_front(m);
  if (models.size() > 24) models.pop_back();
}
bool satisfiesCached(const std::vector<E> &pc, E q, Model *out) {
  for (auto it = models.begin(); it != models.end(); ++it) {
    Evaluator ev(*it);
    bool good = true;
    if (q) good = ev.eval(q).isOne();
    for (size_t i = pc.size(); good && i-- > 0;) good = ev.eval(pc[i]).isOne();
    if (good && ev.ok) {
      if (out) *out = *it;
      if (it != models.begin()) models.splice(models.begin(), models, it);
      stats.modelHits++;
      return true;
    }
  }
  return false;
}

static bool parseNumeral(Z3_ast v, unsigned w, APInt &out) {
  Z3_string s = Z3_get_numeral_string(C, v);
  std::string t = s;
  if (t.empty()) return false;
  out = APInt(std::max(w + 1, (unsigned)(t.size() * 4 + 4)), t, 10).trunc(w);
  return true;
}
static double ratToDouble(const std::string &t) {
  auto p = t.find('/');
  if (p == std::string::npos) return strtod(t.c_str(), nullptr);
  return strtold(t.substr(0, p).c_str(), nullptr) / strtold(t.substr(p + 1).c_str(), nullptr);
}
static void extractModel(Z3_model zm, const std::vector<E> &vars, Model &m) {
  for (E v : vars) {
    Z3_ast r;
    if (!Z3_model_eval(C, zm, tr(v), true, &r)) continue;
    APInt val(v->width, 0);
    if (v->width == 1 && v->sort == BV) {
      val = APInt(1, Z3_get_bool_value(C, r) == Z3_L_TRUE);
    } else if (v->isFP()) {
      if (realMode) {
        double d = ratToDouble(Z3_get_numeral_decimal_string(C, r, 25));
        std::string dec = Z3_get_numeral_decimal_string(C, r, 25);
        if (!dec.empty() && dec.back() == '?') dec.pop_back();
        d = strtod(dec.c_str(), nullptr);
        if (v->width == 64)
          val = APFloat(d).bitcastToAPInt();
        else
          val = APFloat((float)d).bitcastToAPInt();
      } else {
        Z3_ast b = Z3_mk_fpa_to_ieee_bv(C, r);
        Z3_ast b2;
        if (Z3_model_eval(C, zm, b, true, &b2)) parseNumeral(b2, v->width, val);
      }
    } else
      parseNumeral(r, v->width, val);
    m.v[v] = val;
  }
}
static std::vector<E> varsOf(const std::vector<E> &cs) {
  std::vector<E> v;
  for (E c : cs) collectVars(c, v);
  std::sort(v.begin(), v.end(), [](E a, E b) { return a->id < b->id; });
  v.erase(std::unique(v.begin(), v.end()), v.end());
  return v;
}

// ---- external portfolio -------------------------------------------------------------------
std::string toSmt2(const std::vector<E> &cs) {
  Z3_solver s = Z3_mk_simple_solver(ctx());
  Z3_solver_inc_ref(C, s);
  for (E c : cs) Z3_solver_assert(C, s, tr(c));
  std::string t = Z3_solver_to_string(C, s);
  Z3_solver_dec_ref(C, s);
  return t;
}
static std::string quoteSym(const std::string &n) {
  for (char ch : n)
    if (!(isalnum((unsigned char)ch) || strchr("_.!-", ch))) return "|" + n + "|";
  return n;
}
struct Ext {
  pid_t pid;
  int fd;
  std::string out, name;
  bool done = false;
};
static Ext spawn(const std::vector<std::string> &argv) {
  int p[2];
  if (pipe(p)) abort();
  pid_t c = fork();
  if (c == 0) {
    setpgid(0, 0);
    dup2(p[1], 1);
    int nul = open("/dev/null", O_RDWR);
    dup2(nul, 2);
    dup2(nul, 0);
    close(p[0]);
    close(p[1]);
    std::vector<char *> a;
    for (auto &s : argv) a.push_back((char *)s.c_str());
    a.push_back(nullptr);
    execvp(a[0], a.data());
    _exit(127);
  }
  close(p[1]);
  fcntl(p[0], F_SETFL, O_NONBLOCK);
  return Ext{c, p[0], "", argv[0], false};
}
static bool parseValues(const std::string &out, const std::vector<E> &vars, Model &m) {
  // ((name value) ...)
  std::map<std::string, E> byName;
  for (E v : vars) byName[names[v->aux]] = v;
  size_t i = 0;
  auto skip = [&] { while (i < out.size() && isspace((unsigned char)out[i])) i++; };
  std::function<std::string()> term = [&]() -> std::string {
    skip();
    if (i >= out.size()) return "";
    if (out[i] == '(') {
      std::string r = "(";
      i++;
      while (true) {
        skip();
        if (i >= out.size()) return r;
        if (out[i] == ')') { i++; return r + ")"; }
        r += (r.size() > 1 ? " " : "") + term();
      }
    }
    if (out[i] == '|') {
      size_t j = out.find('|', i + 1);
      std::string r = out.substr(i, j - i + 1);
      i = j + 1;
      return r;
    }
    size_t j = i;
    while (j < out.size() && !isspace((unsigned char)out[j]) && out[j] != '(' && out[j] != ')') j++;
    std::string r = out.substr(i, j - i);
    i = j;
    return r;
  };
  size_t p = out.find("((");
  if (p == std::string::npos) return vars.empty();
  i = p + 1;
  unsigned got = 0;
  while (true) {
    skip();
    if (i >= out.size() || out[i] != '(') break;
    i++;
    std::string n = term(), v = term();
    skip();
    if (i < out.size() && out[i] == ')') i++;
    if (n.size() > 1 && n[0] == '|') n = n.substr(1, n.size() - 2);
    auto it = byName.find(n);
    if (it == byName.end()) continue;
    unsigned w = it->second->width;
    APInt val(w, 0);
    if (v == "true") val = APInt(w, 1);
    else if (v == "false") val = APInt(w, 0);
    else if (v.rfind("#b", 0) == 0) val = APInt(std::max<unsigned>(w, v.size()), v.substr(2), 2).trunc(w);
    else if (v.rfind("#x", 0) == 0) val = APInt(std::max<unsigned>(w, v.size() * 4), v.substr(2), 16).trunc(w);
    else if (v.rfind("(_ bv", 0) == 0) {
      std::string d = v.substr(5, v.find(' ', 5) - 5);
      val = APInt(std::max<unsigned>(w + 1, d.size() * 4 + 4), d, 10).trunc(w);
    } else
      return false;
    m.v[it->second] = val;
    got++;
  }
  return got == byName.size();
}
static Sat runExternal(const std::vector<E> &cs, double timeout, Model *model) {
  static int serial = 0;
  std::vector<E> vars = varsOf(cs);
  bool fp = false, uf = false;
  for (E c : cs) fp |= c->hasFP, uf |= c->hasUF;
  std::string smt = toSmt2(cs);
  std::string gv;
  for (E v : vars) gv += " " + quoteSym(names[v->aux]);
  std::string logic = realMode ? "ALL" : fp ? (uf ? "QF_UFBVFP" : "QF_BVFP") : (uf ? "QF_UFBV" : "QF_BV");
  if (logic == "QF_UFBVFP") logic = "ALL";
  std::string base = scratchDir + "/sx" + std::to_string(getpid()) + "_" + std::to_string(serial++);
  auto wr = [&](const std::string &n, bool lg) {
    FILE *f = fopen(n.c_str(), "w");
    fprintf(f, "(set-option :produce-models true)\n");
    if (lg) fprintf(f, "(set-logic %s)\n", logic.c_str());
    fprintf(f, "%s\n(check-sat)\n", smt.c_str());
    if (!vars.empty()) fprintf(f, "(get-value (%s))\n", gv.c_str());
    fclose(f);
  };
  wr(base + ".smt2", true);
  wr(base + "n.smt2", false);
  std::string t = std::to_string((int)timeout + 1);
  std::vector<Ext> ex;
  ex.push_back(spawn({"cvc5", "--tlimit=" + t + "000", "-q", base + ".smt2"}));
  if (!fp && !realMode) ex.push_back(spawn({"cvc5", "--tlimit=" + t + "000", "-q", "--solve-bv-as-int=sum", base + ".smt2"}));
  ex.push_back(spawn({"z3-new", "-T:" + t, base + "n.smt2"}));
  ex.push_back(spawn({"z3", "-T:" + t, base + "n.smt2"}));
  double t0 = nowSec();
  Sat res = Sat::UNKNOWN;
  stats.external++;
  while (res == Sat::UNKNOWN && nowSec() - t0 < timeout + 2) {
    bool live = false;
    std::vector<pollfd> pf;
    for (auto &e : ex)
      if (!e.done) { pf.push_back({e.fd, POLLIN, 0}); live = true; }
    if (!live) break;
    poll(pf.data(), pf.size(), 200);
    for (auto &e : ex) {
      if (e.done) continue;
      char buf[65536];
      ssize_t n;
      while ((n = read(e.fd, buf, sizeof buf)) > 0) e.out.append(buf, n);
      if (n == 0) {
        e.done = true;
        if (e.out.rfind("unsat", 0) == 0) { res = Sat::UNSAT; }
        else if (e.out.rfind("sat", 0) == 0 && e.out.find("(error") == std::string::npos) {
          Model m;
          if (parseValues(e.out.substr(3), vars, m)) {
            res = Sat::SAT;
            if (model) *model = m;
          } else
            fprintf(stderr, "note: cannot parse model of %s\n", e.name.c_str());
        }
        if (res != Sat::UNKNOWN) break;
      }
    }
  }
  for (auto &e : ex) {
    kill(-e.pid, SIGKILL);
    kill(e.pid, SIGKILL);
    waitpid(e.pid, nullptr, 0);
    close(e.fd);
  }
  unlink((base + ".smt2").c_str());
  unlink((base + "n.smt2").c_str());
  stats.extTime += nowSec() - t0;
  return res;
}

// ---- queries ------------------------------------------------------------------------------
static std::map<std::vector<uint32_t>, Sat> qcache;
static void flattenAnd(E e, std::vector<E> &out) {
  if (e->op == AND && e->width == 1) {
    flattenAnd(e->kid[0], out);
    flattenAnd(e->kid[1], out);
  } else
    out.push_back(e);
}
// Conjuncts that are sums modulo two are replaced by their reduced echelon form (an equivalent
// system): SAT solvers are hopeless on wide parity constraints such as checksums.
static bool paritySystem(std::vector<E> &cs) {
  std::vector<E> rest;
  std::vector<std::pair<std::vector<E>, bool>> rows;
  size_t wide = 0;
  for (E c : cs) {
    bool rhs = true;
    E x = c;
    while (x->op == NOT && x->width == 1) rhs = !rhs, x = x->kid[0];
    std::vector<E> v;
    while (x->op == XOR && x->width == 1) {
      E k = x->kid[1];
      while (k->op == NOT) rhs = !rhs, k = k->kid[0];
      v.push_back(k);
      x = x->kid[0];
    }
    if (v.empty()) { rest.push_back(c); continue; }
    while (x->op == NOT) rhs = !rhs, x = x->kid[0];
    v.push_back(x);
    bool plain = true;
    for (E k : v)
      if (k->isConst() || k->op == XOR) plain = false;
    if (!plain) { rest.push_back(c); continue; }
    std::sort(v.begin(), v.end(), [](E p, E q) { return p->id < q->id; });
    std::vector<E> z;
    for (E e : v)
      if (!z.empty() && z.back() == e) z.pop_back();
      else z.push_back(e);
    wide += z.size() > 2;
    rows.push_back({z, rhs});
  }
  if (wide < 4) return true;
  auto add = [](std::pair<std::vector<E>, bool> &a, const std::pair<std::vector<E>, bool> &b) {
    std::vector<E> z;
    std::set_symmetric_difference(a.first.begin(), a.first.end(), b.first.begin(), b.first.end(), std::back_inserter(z), [](E p, E q) { return p->id < q->id; });
    a.first = z;
    a.second = a.second != b.second;
  };
  std::vector<std::pair<std::vector<E>, bool>> done;
  for (auto &r : rows) {
    for (auto &d : done)
      if (std::binary_search(r.first.begin(), r.first.end(), d.first[0], [](E p, E q) { return p->id < q->id; })) add(r, d);
    if (r.first.empty()) {
      if (r.second) return false;
      continue;
    }
    for (auto &d : done)
      if (std::binary_search(d.first.begin(), d.first.end(), r.first[0], [](E p, E q) { return p->id < q->id; })) add(d, r);
    done.push_back(r);
  }
  cs = rest;
  for (auto &d : done) {
    E x = d.first[0];
    for (size_t i = 1; i < d.first.size(); i++) x = mkXor(x, d.first[i]);
    cs.push_back(d.second ? x : mkNot(x));
  }
  return true;
}
Sat checkSat(const std::vector<E> &cs0, double timeout, Model *model, bool portfolio) {
  std::vector<E> cs;
  for (E c : cs0) flattenAnd(c, cs);
  if (!paritySystem(cs)) return Sat::UNSAT;
  std::sort(cs.begin(), cs.end(), [](E a, E b) { return a->id < b->id; });
  cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
  std::vector<E> k;
  bool fp = false, uf = false;
  for (E c : cs) {
    if (c->isFalse()) return Sat::UNSAT;
    if (c->isTrue()) continue;
    fp |= c->hasFP;
    uf |= c->hasUF;
    k.push_back(c);
  }
  if (k.empty()) {
    if (model) model->v.clear();
    return Sat::SAT;
  }
  std::vector<uint32_t> key;
  for (E c : k) key.push_back(c->id);
  if (!model) {
    auto it = qcache.find(key);
    if (it != qcache.end()) { stats.cacheHits++; return it->second; }
  } else {
    auto it = qcache.find(key);
    if (it != qcache.end() && it->second == Sat::UNSAT) { stats.cacheHits++; return Sat::UNSAT; }
  }
  double t0 = nowSec();
  stats.calls++;
  ctx();
  if (!smtDumpDir.empty()) {
    static int n = 0;
    FILE *f = fopen((smtDumpDir + "/q" + std::to_string(n++) + ".smt2").c_str(), "w");
    fprintf(f, "%s(check-sat)\n", toSmt2(k).c_str());
    fclose(f);
  }
  const char *logic = realMode ? nullptr : fp ? "QF_BVFP" : "QF_BV";
  if (uf) logic = nullptr;
  Z3_solver s = logic ? Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, logic)) : Z3_mk_solver(C);
  Z3_solver_inc_ref(C, s);
  Z3_params p = Z3_mk_params(C);
  Z3_params_inc_ref(C, p);
  double inproc = portfolio ? std::min(timeout, 4.0) : timeout;
  Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), (unsigned)(inproc * 1000));
  Z3_solver_set_params(C, s, p);
  for (E c : k) Z3_solver_assert(C, s, tr(c));
  Z3_lbool r = Z3_solver_check(C, s);
  Sat res = r == Z3_L_TRUE ? Sat::SAT : r == Z3_L_FALSE ? Sat::UNSAT : Sat::UNKNOWN;
  Model mm;
  if (res == Sat::SAT) {
    Z3_model zm = Z3_solver_get_model(C, s);
    if (zm) {
      Z3_model_inc_ref(C, zm);
      extractModel(zm, varsOf(k), mm);
      Z3_model_dec_ref(C, zm);
    }
  }
  Z3_params_dec_ref(C, p);
  Z3_solver_dec_ref(C, s);
  if (res == Sat::UNKNOWN && portfolio) res = runExternal(k, timeout, &mm);
  double dt = nowSec() - t0;
  if (getenv("SX_SLOW") && dt > atof(getenv("SX_SLOW"))) {
    fprintf(stderr, "slow query %.2fs res=%d n=%zu", dt, (int)res, k.size());
    for (E c : k) fprintf(stderr, "\n    %s", str(c, 8).c_str());
    fprintf(stderr, "\n");
  }
  stats.time += dt;
  stats.maxTime = std::max(stats.maxTime, dt);
  if (res == Sat::SAT) {
    stats.sat++;
    if (!realMode) {
      Evaluator ev(mm);
      bool good = true;
      for (E c : k) good = good && ev.eval(c).isOne();
      if (good || !ev.ok)
        addModel(mm);
      else if (!uf)
        fprintf(stderr, "warning: model does not satisfy the query under the evaluator\n");
    }
    if (model) *model = mm;
  } else if (res == Sat::UNSAT)
    stats.unsat++;
  else
    stats.unknown++;
  if (res != Sat::UNKNOWN) qcache[key] = res;
  return res;
}
std::vector<E> sliceFor(const std::vector<E> &pc, E q) {
  std::vector<E> qv;
  collectVars(q, qv);
  std::unordered_set<E> vars(qv.begin(), qv.end());
  std::vector<char> in(pc.size(), 0);
  static std::unordered_map<E, std::vector<E>> vcache;
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < pc.size(); i++) {
      if (in[i]) continue;
      auto it = vcache.find(pc[i]);
      if (it == vcache.end()) {
        std::vector<E> v;
        collectVars(pc[i], v);
        it = vcache.emplace(pc[i], v).first;
      }
      bool hit = false;
      for (E v : it->second)
        if (vars.count(v)) { hit = true; break; }
      if (!hit) continue;
      in[i] = 1;
      ch = true;
      for (E v : it->second) vars.insert(v);
    }
  }
  std::vector<E> r;
  for (size_t i = 0; i < pc.size(); i++)
    if (in[i]) r.push_back(pc[i]);
  return r;
}
Sat checkSliced(const std::vector<E> &pc, E q, double timeout, Model *model, bool portfolio) {
  if (q->isFalse()) return Sat::UNSAT;
  std::vector<E> sl = sliceFor(pc, q);
  sl.push_back(q);
  return checkSat(sl, timeout, model, portfolio);
}
Sat feasible(const std::vector<E> &pc, E q, Model *m) {
  if (q->isTrue()) return Sat::SAT;
  if (q->isFalse()) return Sat::UNSAT;
  std::vector<E> sl = sliceFor(pc, q);
  if (!realMode && satisfiesCached(sl, q, m)) return Sat::SAT;
  sl.push_back(q);
  return checkSat(sl, feasTimeout, m, false);
}
}  // namespace sx
