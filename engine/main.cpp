// rsym: symbolic execution of rustc's LLVM IR with z3.
#include "ll.h"
#include <z3.h>
#include <cstdarg>
#include <chrono>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <atomic>
#include <fstream>
#include <sstream>

static int curShard = -1;
[[noreturn]] void die(const char* fmt, ...) { va_list a; va_start(a, fmt); fprintf(stderr, "rsym: shard %d: ", curShard); vfprintf(stderr, fmt, a); fprintf(stderr, "\n"); va_end(a); exit(70); }
static double now() { using namespace std::chrono; return duration<double>(steady_clock::now().time_since_epoch()).count(); }

// ---------------- memory ----------------
const int PB = 8, PS = 1 << PB, LB = 8, LS = 1 << LB; // 256-byte pages, 256 pages per leaf table
const u64 STACK_BASE = 0x4000000, STACK_SIZE = 0x1800000, HEAP_BASE = 0x6000000, ADDR_MAX = 0x40000000;
struct Page { int rc; Expr** s; u8 d[PS]; };
struct Tab { int rc; Page* p[LS]; };
static u64 pagesLive = 0;
static Page* newPage() { Page* p = (Page*)calloc(1, sizeof(Page)); p->rc = 1; pagesLive++; return p; }
static void unrefPage(Page* p) { if (--p->rc == 0) { free(p->s); free(p); pagesLive--; } }
static void unrefTab(Tab* t) { if (--t->rc == 0) { for (auto* p : t->p) if (p) unrefPage(p); free(t); } }
struct Mem {
  std::vector<Tab*> l1;
  Mem() {}
  Mem(const Mem& o) : l1(o.l1) { for (auto* t : l1) if (t) t->rc++; }
  Mem& operator=(const Mem&) = delete;
  ~Mem() { for (auto* t : l1) if (t) unrefTab(t); }
  Page* rd(u64 a) const { u64 i = a >> (PB + LB); if (i >= l1.size() || !l1[i]) return 0; return l1[i]->p[(a >> PB) & (LS - 1)]; }
  Page* wr(u64 a) {
    u64 i = a >> (PB + LB); if (i >= l1.size()) l1.resize(i + 1, 0);
    Tab*& t = l1[i]; if (!t) { t = (Tab*)calloc(1, sizeof(Tab)); t->rc = 1; }
    else if (t->rc > 1) { Tab* n = (Tab*)malloc(sizeof(Tab)); memcpy(n, t, sizeof(Tab)); n->rc = 1; for (auto* p : n->p) if (p) p->rc++; t->rc--; t = n; }
    Page*& p = t->p[(a >> PB) & (LS - 1)];
    if (!p) p = newPage();
    else if (p->rc > 1) { Page* n = newPage(); memcpy(n->d, p->d, PS); if (p->s) { n->s = (Expr**)malloc(PS * sizeof(Expr*)); memcpy(n->s, p->s, PS * sizeof(Expr*)); } p->rc--; p = n; }
    return p;
  }
};
// ---------------- state ----------------
struct PC { Expr* e; PC* prev; };
struct Dom { u64 d[4]; bool ent; short fixed; };
struct Frame { Func* f; int pc; u32 base; u64 sp; int call; Func* caller; };
struct RngKey { std::vector<u64> k; int pos; };
struct State {
  Mem mem; std::vector<Val> regs; std::vector<Frame> fr; PC* pc = 0; std::vector<Dom> dom; std::vector<Expr*> multi; Model model; u32 mep = 0;
  u64 sp, hp; u64 steps = 0; int npos = 0; std::vector<int> posVar; // position -> var
  std::vector<RngKey> rng; std::vector<Val> rngTrace; std::vector<Val> obs; std::vector<std::pair<u64,int>> live; u32 depth = 0; u64 id = 0;
  u64 choices = 0;
};
struct Stats { u64 paths = 0, assumed = 0, instr = 0, forks = 0, zq = 0, zsat = 0, zunsat = 0, zunk = 0, domv = 0, xchk = 0, checks = 0, checkq = 0, recheck = 0, viol = 0, hangs = 0, traps = 0, maxdepth = 0, choices = 0; double zt = 0; } S;
static std::map<std::string, u64> reachCount; static std::map<std::string, u64> checkCount; static std::map<std::string, u64> trapMsgs;

// ---------------- z3 ----------------
static Z3_context Z; static Z3_solver zs;
static Z3_ast zref(Z3_ast a) { Z3_inc_ref(Z, a); return a; }
static Z3_sort bvs(int w) { static Z3_sort c[129]; if (!c[w]) { c[w] = Z3_mk_bv_sort(Z, w); Z3_inc_ref(Z, Z3_sort_to_ast(Z, c[w])); } return c[w]; }
static Z3_ast znum(u64 v, int w) { static std::map<std::pair<u64, int>, Z3_ast> c; auto& r = c[{v, w}]; if (!r) r = zref(Z3_mk_unsigned_int64(Z, v, bvs(w))); return r; }
static Z3_ast toZ(Expr* e);
static Z3_ast toB(Expr* e) {
  if (e->zb) return (Z3_ast)e->zb; Z3_ast r;
  switch (e->op) {
    case E_CONST: r = e->c ? Z3_mk_true(Z) : Z3_mk_false(Z); break;
    case E_EQ: r = e->k[0]->w == 1 ? Z3_mk_iff(Z, toB(e->k[0]), toB(e->k[1])) : Z3_mk_eq(Z, toZ(e->k[0]), toZ(e->k[1])); break;
    case E_ULT: r = Z3_mk_bvult(Z, toZ(e->k[0]), toZ(e->k[1])); break; case E_ULE: r = Z3_mk_bvule(Z, toZ(e->k[0]), toZ(e->k[1])); break;
    case E_SLT: r = Z3_mk_bvslt(Z, toZ(e->k[0]), toZ(e->k[1])); break; case E_SLE: r = Z3_mk_bvsle(Z, toZ(e->k[0]), toZ(e->k[1])); break;
    case E_AND: { Z3_ast a[2] = {toB(e->k[0]), toB(e->k[1])}; r = Z3_mk_and(Z, 2, a); break; }
    case E_OR: { Z3_ast a[2] = {toB(e->k[0]), toB(e->k[1])}; r = Z3_mk_or(Z, 2, a); break; }
    case E_XOR: if (e->k[1]->op == E_CONST) r = Z3_mk_not(Z, toB(e->k[0])); else r = Z3_mk_xor(Z, toB(e->k[0]), toB(e->k[1])); break;
    case E_ITE: r = Z3_mk_ite(Z, toB(e->k[0]), toB(e->k[1]), toB(e->k[2])); break;
    default: r = Z3_mk_eq(Z, toZ(e), znum(1, 1));
  }
  e->zb = zref(r); return r;
}
static Z3_ast toZ(Expr* e) {
  if (e->z) return (Z3_ast)e->z; Z3_ast r;
  auto A = [&](int i) { return toZ(e->k[i]); };
  if (e->w == 1 && e->op >= E_AND && e->op != E_EXTRACT && e->op != E_SHL && e->op != E_LSHR && e->op != E_ASHR && e->op != E_ZEXT && e->op != E_SEXT && e->op != E_CONCAT)
    r = Z3_mk_ite(Z, toB(e), znum(1, 1), znum(0, 1));
  else switch (e->op) {
    case E_CONST: if (e->w <= 64) r = znum((u64)e->c, e->w); else r = Z3_mk_concat(Z, znum((u64)(e->c >> 64), e->w - 64), znum((u64)e->c, 64)); break;
    case E_VAR: { char b[32]; snprintf(b, 32, "v%d", (int)e->c); r = Z3_mk_const(Z, Z3_mk_string_symbol(Z, b), bvs(e->w)); break; }
    case E_ADD: r = Z3_mk_bvadd(Z, A(0), A(1)); break; case E_SUB: r = Z3_mk_bvsub(Z, A(0), A(1)); break; case E_MUL: r = Z3_mk_bvmul(Z, A(0), A(1)); break;
    case E_UDIV: r = Z3_mk_bvudiv(Z, A(0), A(1)); break; case E_SDIV: r = Z3_mk_bvsdiv(Z, A(0), A(1)); break; case E_UREM: r = Z3_mk_bvurem(Z, A(0), A(1)); break; case E_SREM: r = Z3_mk_bvsrem(Z, A(0), A(1)); break;
    case E_AND: r = Z3_mk_bvand(Z, A(0), A(1)); break; case E_OR: r = Z3_mk_bvor(Z, A(0), A(1)); break; case E_XOR: r = Z3_mk_bvxor(Z, A(0), A(1)); break;
    case E_SHL: r = Z3_mk_bvshl(Z, A(0), A(1)); break; case E_LSHR: r = Z3_mk_bvlshr(Z, A(0), A(1)); break; case E_ASHR: r = Z3_mk_bvashr(Z, A(0), A(1)); break;
    case E_ITE: r = Z3_mk_ite(Z, toB(e->k[0]), A(1), A(2)); break;
    case E_ZEXT: r = Z3_mk_zero_ext(Z, e->w - e->k[0]->w, A(0)); break; case E_SEXT: r = Z3_mk_sign_ext(Z, e->w - e->k[0]->w, A(0)); break;
    case E_EXTRACT: r = Z3_mk_extract(Z, (unsigned)e->c + e->w - 1, (unsigned)e->c, A(0)); break;
    case E_CONCAT: r = Z3_mk_concat(Z, A(0), A(1)); break;
    default: die("toZ op %d", e->op);
  }
  e->z = zref(r); return r;
}
static void zerr(Z3_context c, Z3_error_code e) { die("z3 error: %s", Z3_get_error_msg(c, e)); }
// The solver's own time limit does not reach all of its loops: a query that goes on far beyond it ends the worker (the case counts as not decided).
#include <signal.h>
#include <sys/time.h>
static void overdue(int) { _exit(7); }
static void watch(double s) { struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = (long)s; setitimer(ITIMER_REAL, &t, 0); }
static int zTimeoutMs = 30000;
static void zinit() {
  signal(SIGALRM, overdue);
  Z3_config cfg = Z3_mk_config(); Z = Z3_mk_context_rc(cfg); Z3_del_config(cfg); Z3_set_error_handler(Z, zerr);
  zs = Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z, zs);
  Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p); Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), zTimeoutMs); Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "random_seed"), 7); Z3_solver_set_params(Z, zs, p); Z3_params_dec_ref(Z, p);
}
static FILE* dumpSmt = 0; static u64 dumpCount = 0, dumpMax = 0;
// Is the conjunction satisfiable?  1 sat (values of `vars` written to m), 0 unsat, -1 unknown
static int zsolve(const std::vector<Expr*>& es, const std::vector<int>& vars, Model* m) {
  double t = now(); S.zq++; Z3_solver_push(Z, zs); for (auto* e : es) Z3_solver_assert(Z, zs, toB(e));
  if (dumpSmt && dumpCount < dumpMax) { dumpCount++; fprintf(dumpSmt, "(reset)\n(set-logic QF_BV)\n%s(check-sat)\n", Z3_solver_to_string(Z, zs)); }
  watch(zTimeoutMs / 1000 + 15); Z3_lbool r = Z3_solver_check(Z, zs); watch(0); int res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
  if (dumpSmt && dumpCount <= dumpMax) fprintf(dumpSmt, "(echo \"expect %s\")\n", res == 1 ? "sat" : res == 0 ? "unsat" : "unknown");
  if (res == 1 && m) { Z3_model zm = Z3_solver_get_model(Z, zs); Z3_model_inc_ref(Z, zm);
    for (int v : vars) { Z3_ast out; Expr* ve = mkVar(v, varWidth[v]); Z3_model_eval(Z, zm, toZ(ve), true, &out); u64 x = 0; Z3_inc_ref(Z, out); if (!Z3_get_numeral_uint64(Z, out, (uint64_t*)&x)) die("model value"); Z3_dec_ref(Z, out); if ((int)m->size() <= v) m->resize(v + 1); (*m)[v] = x; }
    Z3_model_dec_ref(Z, zm); }
  Z3_solver_pop(Z, zs, 1); S.zt += now() - t; if (res == 1) S.zsat++; else if (res == 0) S.zunsat++; else S.zunk++;
  return res;
}
static void varsOf(Expr* e, std::vector<int>& out) { if (e->sup >= 0) out.push_back(e->sup); else if (e->sup == -2) out.insert(out.end(), e->vars->begin(), e->vars->end()); }
struct VKeyH { size_t operator()(const std::vector<u32>& v) const { u64 h = 1469598103934665603ull; for (u32 x : v) { h ^= x; h *= 1099511628211ull; } return h; } };
struct QRes { int r; std::vector<std::pair<int, u64>> m; };
static std::unordered_map<std::vector<u32>, QRes, VKeyH> qcache;
// satisfiability of path condition + cond, sliced to the constraints connected to cond
static int query(State& st, Expr* cond, Model* m) {
  static std::vector<char> in; static std::vector<int> work; in.assign(varWidth.size(), 0); work.clear(); std::vector<int> vs; varsOf(cond, vs); for (int v : vs) if (!in[v]) { in[v] = 1; work.push_back(v); }
  // closure over multi-variable constraints
  bool ch = true; std::vector<char> used(st.multi.size(), 0);
  while (ch) { ch = false; for (size_t i = 0; i < st.multi.size(); i++) if (!used[i]) { bool hit = false; for (int v : *st.multi[i]->vars) if (in[v]) { hit = true; break; } if (hit) { used[i] = 1; ch = true; for (int v : *st.multi[i]->vars) if (!in[v]) { in[v] = 1; work.push_back(v); } } } }
  std::vector<Expr*> es; es.push_back(cond); std::vector<u32> key;
  for (PC* p = st.pc; p; p = p->prev) { bool hit = false; if (p->e->sup >= 0) hit = in[p->e->sup]; else if (p->e->sup == -2) hit = in[(*p->e->vars)[0]]; if (hit) es.push_back(p->e); }
  for (auto* e : es) key.push_back(e->id); std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
  auto it = qcache.find(key);
  if (it != qcache.end()) { if (it->second.r == 1 && m) for (auto& x : it->second.m) { if ((int)m->size() <= x.first) m->resize(x.first + 1); (*m)[x.first] = x.second; } return it->second.r; }
  Model tmp; int r = zsolve(es, work, &tmp); QRes q; q.r = r; if (r == 1) { for (int v : work) q.m.push_back({v, tmp[v]}); if (m) for (auto& x : q.m) { if ((int)m->size() <= x.first) m->resize(x.first + 1); (*m)[x.first] = x.second; } }
  if (qcache.size() > 400000) qcache.clear(); qcache[key] = q; return r;
}
static u64 xcheckEvery = 0;
// ---------------- path conditions ----------------
static int getVar(State& st, int w) {
  static std::map<std::pair<int, int>, int> tab; auto k = std::make_pair(st.npos, w); auto it = tab.find(k); int v;
  if (it == tab.end()) { v = (int)varWidth.size(); varWidth.push_back(w); tab[k] = v; } else v = it->second;
  st.npos++; st.posVar.push_back(v);
  if ((int)st.dom.size() <= v) { size_t o = st.dom.size(); st.dom.resize(v + 1); for (size_t i = o; i < st.dom.size(); i++) { auto& d = st.dom[i]; int ww = varWidth[i]; d.ent = ww > 8; d.fixed = -1; for (int q = 0; q < 4; q++) d.d[q] = ww == 8 ? ~0ull : 0; if (ww < 8) d.d[0] = ww >= 6 ? (ww==6?~0ull:0) : ((1ull << (1 << ww)) - 1); if (ww == 7) d.d[0] = d.d[1] = ~0ull; } }
  if ((int)st.model.size() <= v) st.model.resize(v + 1, 0);
  st.mep = freshEpoch();
  return v;
}
static u64 evalS(State& st, Expr* e) { curEpoch = st.mep; return (u64)evalExpr(e, st.model); }
static void addC(State& st, Expr* e) {
  if (e->op == E_CONST) { if (!e->c) die("adding false"); return; }
  if (e->op == E_AND && e->w == 1) { addC(st, e->k[0]); addC(st, e->k[1]); return; }
  st.pc = new PC{e, st.pc};
  if (e->sup >= 0) { int v = e->sup; if (varWidth[v] <= 8) { const u64* d = domOf(e); auto& D = st.dom[v]; int n = 0, last = 0; for (int i = 0; i < 4; i++) { D.d[i] &= d[i]; n += __builtin_popcountll(D.d[i]); if (D.d[i]) last = i * 64 + 63 - __builtin_clzll(D.d[i]); } if (n == 1) D.fixed = last; if (n == 0) die("empty domain"); } else { st.dom[v].ent = true; } }
  else { for (int v : *e->vars) st.dom[v].ent = true; st.multi.push_back(e); }
}
// What the recorded constraints already say about e: 1 true, 0 false, -1 unknown
static int known(State& st, Expr* e, int depth = 0) {
  if (e->op == E_CONST) return e->c ? 1 : 0;
  if (e->sup >= 0) { if (varWidth[e->sup] > 8) return -1; const u64* d = domOf(e); auto& D = st.dom[e->sup]; bool t = false, f = false; for (int i = 0; i < 4; i++) { if (D.d[i] & d[i]) t = true; if (D.d[i] & ~d[i]) f = true; } return t && f ? -1 : t; }
  Expr* ne = mkNot(e); for (auto* c : st.multi) { if (c == e) return 1; if (c == ne) return 0; }
  if (depth > 24 || e->w != 1) return -1;
  if (e->op == E_XOR && e->k[1]->op == E_CONST) { int r = known(st, e->k[0], depth + 1); return r < 0 ? r : e->k[1]->c ? 1 - r : r; }
  if (e->op == E_AND) { int a = known(st, e->k[0], depth + 1); if (a == 0) return 0; int b = known(st, e->k[1], depth + 1); if (b == 0) return 0; return a == 1 && b == 1 ? 1 : -1; }
  if (e->op == E_OR) { int a = known(st, e->k[0], depth + 1); if (a == 1) return 1; int b = known(st, e->k[1], depth + 1); if (b == 1) return 1; return a == 0 && b == 0 ? 0 : -1; }
  return -1;
}
// Can cond be true / be false?  mT/mF receive models. Returns bitmask 1=true possible, 2=false possible, 4=unknown occurred
static int feasible(State& st, Expr* cond, Model& other) {
  bool cur = evalS(st, cond); Expr* oc = cur ? mkNot(cond) : cond; int curBit = cur ? 1 : 2, othBit = 3 - curBit;
  if (oc->sup >= 0 && varWidth[oc->sup] <= 8) {
    int v = oc->sup; const u64* d = domOf(oc); auto& D = st.dom[v]; int pick = -1; for (int i = 0; i < 4; i++) { u64 x = D.d[i] & d[i]; if (x) { pick = i * 64 + __builtin_ctzll(x); break; } }
    S.domv++;
    if (xcheckEvery && S.domv % xcheckEvery == 0) { S.xchk++; int r = query(st, oc, 0); if (pick < 0 && r == 1) die("domain/z3 disagreement: domain says infeasible: %s", show(oc).c_str()); if (pick >= 0 && !D.ent && r == 0) die("domain/z3 disagreement: domain says feasible: %s", show(oc).c_str()); }
    if (pick < 0) return curBit;
    if (!D.ent) { other = st.model; other[v] = pick; return 3; }
  }
  if (known(st, oc) == 0) { S.domv++; if (xcheckEvery && S.domv % xcheckEvery == 0) { S.xchk++; if (query(st, oc, 0) == 1) die("recorded constraints/z3 disagreement: %s", show(oc).c_str()); } return curBit; }
  // try flipping single bytes of the current model first
  {
    std::vector<int> vs; varsOf(oc, vs);
    if (vs.size() <= 4) for (int v : vs) if (varWidth[v] <= 8) {
      Model m = st.model; auto& D = st.dom[v]; int tried = 0;
      // candidate values: the other variables' current values, then a few domain values
      auto tryv = [&](u64 x) -> bool { if (x > 255 || !(D.d[x >> 6] >> (x & 63) & 1)) return false; m[v] = x; curEpoch = freshEpoch(); if (!evalExpr(oc, m)) return false; for (auto* c : st.multi) { bool has = false; for (int q : *c->vars) if (q == v) has = true; if (has && !evalExpr(c, m)) return false; }
        for (PC* p = st.pc; p; p = p->prev) if (p->e->sup == v && !evalExpr(p->e, m)) return false; return true; };
      for (int q : vs) if (q != v && tryv(st.model[q])) { other = m; return 3; }
      for (int i = 0; i < 256 && tried < 6; i++) if (D.d[i >> 6] >> (i & 63) & 1) { tried++; if (tryv(i)) { other = m; return 3; } }
    }
  }
  other = st.model; int r = query(st, oc, &other);
  if (r == 1) return 3; if (r == 0) return curBit; return curBit | 4 | (othBit & 0);
}
// ---------------- output ----------------
static FILE* out; static std::string jesc(const std::string& s) { std::string r; char b[8]; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c >= 127) { snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
static u64 maxSteps = 40000000, maxPaths = ~0ull, sampleEvery = 1, sampleMax = 40, violMax = 3; static double deadline = 1e18; static u64 samplesOut = 0; static std::map<std::string, int> violByMsg;
static void emitCase(State& st, const Model& m, const char* kind, const std::string& msg) {
  u32 ep = freshEpoch(); fprintf(out, "{\"kind\":\"%s\",\"shard\":%d,\"msg\":\"%s\",\"in\":[", kind, curShard, jesc(msg).c_str());
  for (size_t i = 0; i < st.posVar.size(); i++) fprintf(out, "%s%llu", i ? "," : "", (unsigned long long)((size_t)st.posVar[i] < m.size() ? m[st.posVar[i]] & (u64)maskw(varWidth[st.posVar[i]]) : 0));
  fprintf(out, "],\"rng\":["); for (size_t i = 0; i < st.rngTrace.size(); i++) { curEpoch = ep; u64 x = st.rngTrace[i].e ? (u64)evalExpr(st.rngTrace[i].e, m) : st.rngTrace[i].c; fprintf(out, "%s%llu", i ? "," : "", (unsigned long long)x); }
  fprintf(out, "],\"obs\":["); for (size_t i = 0; i < st.obs.size(); i++) { curEpoch = ep; u64 x = st.obs[i].e ? (u64)evalExpr(st.obs[i].e, m) : st.obs[i].c; fprintf(out, "%s%llu", i ? "," : "", (unsigned long long)x); }
  fprintf(out, "],\"steps\":%llu}\n", (unsigned long long)st.steps); fflush(out);
}
static void violation(State& st, const Model& m, const char* kind, const std::string& msg) { S.viol++; if (violByMsg[std::string(kind) + msg]++ < (int)violMax) emitCase(st, m, kind, msg); }

// ---------------- executor ----------------
static std::vector<State*> work;
static inline Expr* toE(const Val& v, int w) { return v.e ? v.e : mkConst(v.c, w); }
static inline Val fromE(Expr* e) { if (e->op == E_CONST && e->w <= 64) return {(u64)e->c, 0}; return {0, e}; }
enum RS { RS_OK, RS_END };
struct Exec {
  State* st; Func* f; Val* regs;
  inline const Val& V(int i) { return i >= 0 ? regs[i] : f->consts[~i]; }
  void sync() { auto& fr = st->fr.back(); f = fr.f; regs = st->regs.data() + fr.base; }
  State* clone() { S.forks++; State* n = new State(*st); n->id = S.forks; n->depth++; return n; }
  std::string readStr(u64 p, u64 n) { std::string s; for (u64 i = 0; i < n && i < 400; i++) { Page* pg = st->mem.rd(p + i); s += pg ? (char)pg->d[(p + i) & (PS - 1)] : '?'; } return s; }
  // resolve a 1-bit value to a concrete truth value; forks the other side (re-executing the current op)
  // returns -1 if the state must be dropped
  int truth(Expr* c) {
    Model o; int r = feasible(*st, c, o);
    if (r & 4) { S.zunk++; trapMsgs["solver unknown"]++; S.traps++; }
    bool cur = evalS(*st, c);
    if ((r & 3) == 3) { State* n = clone(); addC(*n, cur ? mkNot(c) : c); n->model = o; n->mep = freshEpoch(); work.push_back(n); addC(*st, cur ? c : mkNot(c)); return cur; }
    return cur;
  }
  // concrete value of an expression, forking over all feasible values (the siblings re-execute the current op)
  u64 concr(const Val& v, int w) {
    if (!v.e) return v.c; Expr* e = v.e; if (e->op == E_CONST) return (u64)e->c;
    u64 x = evalS(*st, e); Expr* c = mkCmp(E_EQ, e, mkConst(x, w)); if (c->op == E_CONST) return x;
    Model o; int r = feasible(*st, c, o); if (r & 4) { S.traps++; trapMsgs["solver unknown"]++; }
    if ((r & 3) == 3) { State* n = clone(); addC(*n, mkNot(c)); n->model = o; n->mep = freshEpoch(); work.push_back(n); addC(*st, c); }
    return x;
  }
  // a one-byte condition that the byte's remaining values already settle
  Expr* byDomain(Expr* e) {
    if (e->op == E_CONST || e->sup < 0 || varWidth[e->sup] > 8) return e;
    const u64* d = domOf(e); auto& D = st->dom[e->sup]; bool t = false, f = false; for (int i = 0; i < 4; i++) { if (D.d[i] & d[i]) t = true; if (D.d[i] & ~d[i]) f = true; }
    return t && f ? e : mkConst(t, 1);
  }
  // ---- memory ----
  bool okAddr(u64 a, u64 n) { return a >= globalBase && a + n <= ADDR_MAX && n < ADDR_MAX; }
  Val ldByte(u64 a) { Page* p = st->mem.rd(a); if (!p) return {0, 0}; if (p->s) { Expr* e = p->s[a & (PS - 1)]; if (e) { if (e->sup >= 0) { auto& D = st->dom[e->sup]; if (D.fixed >= 0 && varWidth[e->sup] <= 8) { u64 x = evalS(*st, e); return {x, 0}; } } return {0, e}; } } return {p->d[a & (PS - 1)], 0}; }
  Val ld(u64 a, int w) {
    int n = (w + 7) / 8; u64 o = a & (PS - 1);
    if (o + n <= PS && w <= 64) { Page* p = st->mem.rd(a); if (!p) return {0, 0}; bool sym = false; if (p->s) for (int i = 0; i < n; i++) if (p->s[o + i]) { sym = true; break; }
      if (!sym) { u64 x = 0; memcpy(&x, p->d + o, n); if (w < 64) x &= (1ull << w) - 1; return {x, 0}; } }
    Val b[16]; bool sym = false; for (int i = 0; i < n; i++) { b[i] = ldByte(a + i); if (b[i].e) sym = true; }
    if (!sym && w <= 64) { u64 x = 0; for (int i = 0; i < n; i++) x |= b[i].c << (8 * i); if (w < 64) x &= (1ull << w) - 1; return {x, 0}; }
    Expr* e = toE(b[0], 8); for (int i = 1; i < n; i++) e = mkConcat(toE(b[i], 8), e);
    if (n * 8 > w) e = mkExtract(e, 0, w);
    if (e->op == E_CONST && w <= 64) return {(u64)e->c, 0}; return {0, e};
  }
  void stByte(u64 a, const Val& v) { Page* p = st->mem.wr(a); u64 o = a & (PS - 1); if (v.e && v.e->op != E_CONST) { if (!p->s) p->s = (Expr**)calloc(PS, sizeof(Expr*)); p->s[o] = v.e; } else { p->d[o] = v.e ? (u8)v.e->c : (u8)v.c; if (p->s) p->s[o] = 0; } }
  void stv(u64 a, const Val& v, int w) {
    int n = (w + 7) / 8; u64 o = a & (PS - 1);
    if (!v.e) { if (o + n <= PS) { Page* p = st->mem.wr(a); memcpy(p->d + o, &v.c, n); if (p->s) for (int i = 0; i < n; i++) p->s[o + i] = 0; } else for (int i = 0; i < n; i++) stByte(a + i, {(v.c >> (8 * i)) & 255, 0}); return; }
    Expr* e = v.e; if (e->w < n * 8) e = mkZext(e, n * 8);
    for (int i = 0; i < n; i++) stByte(a + i, {0, mkExtract(e, 8 * i, 8)});
  }
  void copyMem(u64 d, u64 s, u64 n) {
    if (!n || d == s) return; 
    // page-wise chunks; overlap handled by direction
    if (d < s || d >= s + n) { u64 i = 0; while (i < n) { u64 so = (s + i) & (PS - 1), dq = (d + i) & (PS - 1); u64 k = std::min({n - i, PS - so, PS - dq}); chunk(d + i, s + i, k); i += k; } }
    else { u64 i = n; while (i > 0) { u64 so = (s + i - 1) & (PS - 1), dq = (d + i - 1) & (PS - 1); u64 k = std::min({i, so + 1, dq + 1}); chunk(d + i - k, s + i - k, k); i -= k; } }
  }
  void chunk(u64 d, u64 s, u64 k) { Page* q = st->mem.wr(d); Page* p = st->mem.rd(s); u64 so = s & (PS - 1), dq = d & (PS - 1);
    if (!p) { memset(q->d + dq, 0, k); if (q->s) memset(q->s + dq, 0, k * sizeof(Expr*)); return; }
    memmove(q->d + dq, p->d + so, k); if (p->s) { bool any = false; for (u64 i = 0; i < k; i++) if (p->s[so + i]) any = true; if (any && !q->s) q->s = (Expr**)calloc(PS, sizeof(Expr*)); if (q->s) memmove(q->s + dq, p->s + so, k * sizeof(Expr*)); } else if (q->s) memset(q->s + dq, 0, k * sizeof(Expr*)); }
  // address of a load: concrete, or expanded over a small symbolic index
  bool symLoad(Expr* ae, const LoadInfo& li, int dst) {
    if (ae->sup < 0 || varWidth[ae->sup] > 8 || li.lv.size() != 1) return false;
    int v = ae->sup; auto& D = st->dom[v]; static Model m; m = st->model; std::map<u64, std::vector<int>> byAddr; u32 save = curEpoch;
    for (int x = 0; x < (1 << varWidth[v]); x++) if (D.d[x >> 6] >> (x & 63) & 1) { m[v] = x; curEpoch = freshEpoch(); byAddr[(u64)evalExpr(ae, m)].push_back(x); }
    curEpoch = save; int w = li.lv[0].w; std::vector<std::pair<Val, std::vector<int>>> groups; std::map<std::pair<u64, Expr*>, int> gi;
    for (auto& pr : byAddr) { if (!okAddr(pr.first, (w + 7) / 8)) return false; Val x = ld(pr.first, w); auto k = std::make_pair(x.c, x.e); auto it = gi.find(k); if (it == gi.end()) { gi[k] = (int)groups.size(); groups.push_back({x, pr.second}); } else { auto& g = groups[it->second].second; g.insert(g.end(), pr.second.begin(), pr.second.end()); } }
    size_t big = 0; for (size_t i = 1; i < groups.size(); i++) if (groups[i].second.size() > groups[big].second.size()) big = i;
    Expr* r = toE(groups[big].first, w); Expr* ve = mkVar(v, varWidth[v]);
    for (size_t i = 0; i < groups.size(); i++) if (i != big) { auto& g = groups[i].second; std::sort(g.begin(), g.end()); Expr* c = mkConst(0, 1);
      for (size_t a = 0; a < g.size();) { size_t b = a; while (b + 1 < g.size() && g[b + 1] == g[b] + 1) b++; Expr* t = a == b ? mkCmp(E_EQ, ve, mkConst(g[a], varWidth[v])) : mkBin(E_AND, mkCmp(E_ULE, mkConst(g[a], varWidth[v]), ve), mkCmp(E_ULE, ve, mkConst(g[b], varWidth[v]))); c = mkBin(E_OR, c, t); a = b + 1; }
      r = mkIte(c, toE(groups[i].first, w), r); }
    regs[dst] = fromE(r); return true;
  }
  RS end(const char* kind) { (void)kind; return RS_END; }
  RS badmem(u64 a, const char* what) { char b[400]; snprintf(b, 400, "invalid memory access (%s) at %llx in %s", what, (unsigned long long)a, f->name.c_str()); return trapEnd(b); }
  // something the executor cannot model: the path is undecided; its inputs so far are handed to the native replay
  RS trapEnd(const std::string& m) { S.traps++; if (trapMsgs[m + " in " + f->name]++ < 2) emitCase(*st, st->model, "trap", m); return RS_END; }
  RS panicEnd(const std::string& m) { violation(*st, st->model, "panic", m); return RS_END; }
  Val mkv(Expr* e) { return fromE(e); }
  RS intr(const Op& o);
  RS builtin(Func* g, const CallInfo& ci);
  RS doCall(const Op& o);
  void jump(int edge) { Edge& e = f->edges[edge]; auto& fr = st->fr.back(); if (!e.mv.empty()) { size_t n = e.mv.size(); if (n == 1) regs[e.mv[0].first] = V(e.mv[0].second); else { static std::vector<Val> tmp; tmp.resize(n); for (size_t i = 0; i < n; i++) tmp[i] = V(e.mv[i].second); for (size_t i = 0; i < n; i++) regs[e.mv[i].first] = tmp[i]; } } fr.pc = e.target; }
  RS run(State* s0);
  void push(Func* g, const std::vector<int>& args, int callIdx) {
    decodeFunc(g); g->execs++; u32 base = st->fr.empty() ? 0 : st->fr.back().base + st->fr.back().f->nregs; Frame fr; fr.f = g; fr.pc = 0; fr.base = base; fr.sp = st->sp; fr.call = callIdx; fr.caller = f;
    if (st->regs.size() < base + g->nregs) { st->regs.resize(base + g->nregs + 64); if (!st->fr.empty()) regs = st->regs.data() + st->fr.back().base; }
    Val* nr = st->regs.data() + base; for (size_t i = 0; i < args.size() && (int)i < g->nparams; i++) nr[i] = V(args[i]);
    st->fr.push_back(fr); sync();
  }
};
static const int W64 = 64;
static Val binop(int opc, const Val& a, const Val& b, int w) {
  static const int EO[] = {0, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_AND, E_OR, E_XOR, E_SHL, E_LSHR, E_ASHR};
  return fromE(mkBin(EO[opc], toE(a, w), toE(b, w)));
}
static Expr* cmpE(int opc, Expr* a, Expr* b) {
  switch (opc) { case O_EQ: return mkCmp(E_EQ, a, b); case O_NE: return mkNot(mkCmp(E_EQ, a, b)); case O_ULT: return mkCmp(E_ULT, a, b); case O_ULE: return mkCmp(E_ULE, a, b); case O_UGT: return mkCmp(E_ULT, b, a); case O_UGE: return mkCmp(E_ULE, b, a);
    case O_SLT: return mkCmp(E_SLT, a, b); case O_SLE: return mkCmp(E_SLE, a, b); case O_SGT: return mkCmp(E_SLT, b, a); case O_SGE: return mkCmp(E_SLE, b, a); } die("cmpE");
}
RS Exec::intr(const Op& o) {
  int w = o.w; u64 mk = w >= 64 ? ~0ull : (1ull << w) - 1;
  switch (o.imm) {
    case I_MEMCPY: case I_MEMMOVE: case I_MEMSET: {
      u64 n = concr(V(o.c), 64); if (!n) return RS_OK; u64 d = concr(V(o.a), 64); if (!okAddr(d, n)) return badmem(d, "memcpy dst");
      if (o.imm == I_MEMSET) { Val v = V(o.b); for (u64 i = 0; i < n; i++) stByte(d + i, v); return RS_OK; }
      u64 s = concr(V(o.b), 64); if (!okAddr(s, n)) return badmem(s, "memcpy src"); copyMem(d, s, n); return RS_OK; }
    case I_TLS: regs[o.dst] = V(o.a); return RS_OK;
    case I_ISCONST: regs[o.dst] = {0, 0}; return RS_OK;
    case I_TRAP: return panicEnd("llvm.trap (abort)");
    case I_PTRMASK: regs[o.dst] = binop(O_AND, V(o.a), V(o.b), 64); return RS_OK;
  }
  if (o.imm >= I_RED_AND && o.imm <= I_RED_UMIN) { int n = f->ints[o.x]; Expr* r = toE(V(f->ints[o.x + 1]), w); for (int i = 1; i < n; i++) { Expr* y = toE(V(f->ints[o.x + 1 + i]), w); switch (o.imm) { case I_RED_AND: r = mkBin(E_AND, r, y); break; case I_RED_OR: r = mkBin(E_OR, r, y); break; case I_RED_ADD: r = mkBin(E_ADD, r, y); break; case I_RED_UMAX: r = mkIte(mkCmp(E_ULT, r, y), y, r); break; case I_RED_UMIN: r = mkIte(mkCmp(E_ULT, r, y), r, y); break; } } regs[o.dst] = fromE(r); return RS_OK; }
  Val a = V(o.a), b = V(o.b);
  if (!a.e && w <= 64) switch (o.imm) { // unary concrete
    case I_CTTZ: regs[o.dst] = {a.c ? (u64)__builtin_ctzll(a.c) : (u64)w, 0}; return RS_OK;
    case I_CTLZ: regs[o.dst] = {a.c ? (u64)(__builtin_clzll(a.c) - (64 - w)) : (u64)w, 0}; return RS_OK;
    case I_CTPOP: regs[o.dst] = {(u64)__builtin_popcountll(a.c), 0}; return RS_OK;
    case I_BSWAP: regs[o.dst] = {__builtin_bswap64(a.c) >> (64 - w), 0}; return RS_OK;
    case I_BITREV: { u64 r = 0; for (int i = 0; i < w; i++) if (a.c >> i & 1) r |= 1ull << (w - 1 - i); regs[o.dst] = {r, 0}; return RS_OK; }
    case I_ABS: { i64 x = (i64)sgn(a.c, w); regs[o.dst] = {(u64)(x < 0 ? -x : x) & mk, 0}; return RS_OK; }
  }
  Expr *x = toE(a, w), *K0 = mkConst(0, w);
  switch (o.imm) {
    case I_CTTZ: { Expr* r = mkConst(w, w); for (int i = w - 1; i >= 0; i--) r = mkIte(mkExtract(x, i, 1), mkConst(i, w), r); regs[o.dst] = fromE(r); return RS_OK; }
    case I_CTLZ: { Expr* r = mkConst(w, w); for (int i = 0; i < w; i++) r = mkIte(mkExtract(x, i, 1), mkConst(w - 1 - i, w), r); regs[o.dst] = fromE(r); return RS_OK; }
    case I_CTPOP: { Expr* r = K0; for (int i = 0; i < w; i++) r = mkBin(E_ADD, r, mkZext(mkExtract(x, i, 1), w)); regs[o.dst] = fromE(r); return RS_OK; }
    case I_BSWAP: { Expr* r = mkExtract(x, 0, 8); for (int i = 1; i < w / 8; i++) r = mkConcat(r, mkExtract(x, 8 * i, 8)); regs[o.dst] = fromE(r); return RS_OK; }
    case I_BITREV: { Expr* r = mkExtract(x, 0, 1); for (int i = 1; i < w; i++) r = mkConcat(r, mkExtract(x, i, 1)); regs[o.dst] = fromE(r); return RS_OK; }
    case I_ABS: regs[o.dst] = fromE(mkIte(mkCmp(E_SLT, x, K0), mkBin(E_SUB, K0, x), x)); return RS_OK;
  }
  if (!a.e && !b.e && w <= 64) { u64 p = a.c, q = b.c; i64 sp = (i64)sgn(p, w), sq = (i64)sgn(q, w);
    switch (o.imm) {
      case I_UMAX: regs[o.dst] = {std::max(p, q), 0}; return RS_OK; case I_UMIN: regs[o.dst] = {std::min(p, q), 0}; return RS_OK;
      case I_SMAX: regs[o.dst] = {sp > sq ? p : q, 0}; return RS_OK; case I_SMIN: regs[o.dst] = {sp < sq ? p : q, 0}; return RS_OK;
      case I_USUBSAT: regs[o.dst] = {p > q ? p - q : 0, 0}; return RS_OK;
      case I_UADDSAT: { u128 s = (u128)p + q; regs[o.dst] = {s > mk ? mk : (u64)s, 0}; return RS_OK; }
      case I_UADDO: { u128 s = (u128)p + q; regs[o.dst] = {(u64)s & mk, 0}; regs[o.dst + 1] = {s > mk, 0}; return RS_OK; }
      case I_USUBO: regs[o.dst] = {(p - q) & mk, 0}; regs[o.dst + 1] = {p < q, 0}; return RS_OK;
      case I_UMULO: { u128 s = (u128)p * q; regs[o.dst] = {(u64)s & mk, 0}; regs[o.dst + 1] = {s > mk, 0}; return RS_OK; }
      case I_SADDO: { i128 s = (i128)sp + sq; regs[o.dst] = {(u64)s & mk, 0}; regs[o.dst + 1] = {s != (i128)sgn((u128)s & mk, w), 0}; return RS_OK; }
      case I_SSUBO: { i128 s = (i128)sp - sq; regs[o.dst] = {(u64)s & mk, 0}; regs[o.dst + 1] = {s != (i128)sgn((u128)s & mk, w), 0}; return RS_OK; }
      case I_SMULO: { i128 s = (i128)sp * sq; regs[o.dst] = {(u64)s & mk, 0}; regs[o.dst + 1] = {s != (i128)sgn((u128)s & mk, w), 0}; return RS_OK; }
      case I_UCMP: { i64 r = p < q ? -1 : p > q; regs[o.dst] = {(u64)r & (u64)maskw(o.x), 0}; return RS_OK; }
      case I_SCMP: { i64 r = sp < sq ? -1 : sp > sq; regs[o.dst] = {(u64)r & (u64)maskw(o.x), 0}; return RS_OK; }
    } }
  Expr* y = toE(b, w);
  switch (o.imm) {
    case I_UMAX: regs[o.dst] = fromE(mkIte(mkCmp(E_ULT, x, y), y, x)); return RS_OK; case I_UMIN: regs[o.dst] = fromE(mkIte(mkCmp(E_ULT, x, y), x, y)); return RS_OK;
    case I_SMAX: regs[o.dst] = fromE(mkIte(mkCmp(E_SLT, x, y), y, x)); return RS_OK; case I_SMIN: regs[o.dst] = fromE(mkIte(mkCmp(E_SLT, x, y), x, y)); return RS_OK;
    case I_USUBSAT: regs[o.dst] = fromE(mkIte(mkCmp(E_ULT, x, y), K0, mkBin(E_SUB, x, y))); return RS_OK;
    case I_UADDSAT: { Expr* s = mkBin(E_ADD, x, y); regs[o.dst] = fromE(mkIte(mkCmp(E_ULT, s, x), mkConst(maskw(w), w), s)); return RS_OK; }
    case I_UADDO: { Expr* s = mkBin(E_ADD, x, y); regs[o.dst] = fromE(s); regs[o.dst + 1] = fromE(mkCmp(E_ULT, s, x)); return RS_OK; }
    case I_USUBO: regs[o.dst] = fromE(mkBin(E_SUB, x, y)); regs[o.dst + 1] = fromE(mkCmp(E_ULT, x, y)); return RS_OK;
    case I_UMULO: { if (w > 64) return trapEnd("umulo wide"); Expr* s = mkBin(E_MUL, mkZext(x, 2 * w), mkZext(y, 2 * w)); regs[o.dst] = fromE(mkExtract(s, 0, w)); regs[o.dst + 1] = fromE(mkNot(mkCmp(E_EQ, mkExtract(s, w, w), K0))); return RS_OK; }
    case I_SADDO: case I_SSUBO: case I_SMULO: { if (w > 64) return trapEnd("saddo wide"); int ww = o.imm == I_SMULO ? 2 * w : w + 1; Expr* s = mkBin(o.imm == I_SADDO ? E_ADD : o.imm == I_SSUBO ? E_SUB : E_MUL, mkSext(x, ww), mkSext(y, ww)); Expr* lo = mkExtract(s, 0, w); regs[o.dst] = fromE(lo); regs[o.dst + 1] = fromE(mkNot(mkCmp(E_EQ, mkSext(lo, ww), s))); return RS_OK; }
    case I_UCMP: case I_SCMP: { int q = o.imm == I_UCMP ? E_ULT : E_SLT; regs[o.dst] = fromE(mkIte(mkCmp(q, x, y), mkConst(maskw(o.x), o.x), mkIte(mkCmp(q, y, x), mkConst(1, o.x), mkConst(0, o.x)))); return RS_OK; }
    case I_FSHL: case I_FSHR: { Val c = V(o.c); u64 n = concr(c, w) % w; if (2 * w > 128) return trapEnd("fsh wide"); Expr* cat = mkConcat(x, y); if (o.imm == I_FSHL) regs[o.dst] = fromE(n ? mkExtract(cat, w - (int)n, w) : x); else regs[o.dst] = fromE(mkExtract(cat, (int)n, w)); return RS_OK; }
  }
  return trapEnd("intrinsic " + std::to_string(o.imm));
}
enum B { B_NO = 1, B_U8, B_U32, B_U64, B_CHOICE, B_SHARD, B_ASSUME, B_CHECK, B_OBS, B_REACH, B_RNG, B_ALLOC, B_DEALLOC, B_ISSYM, B_PANIC, B_ABORT, B_BCMP, B_STRLEN, B_OKRES, B_RET0, B_PANICEXP, B_TRACE, B_MALLOC, B_TIER, B_SIPW, B_SIPSTR, B_SIPFIN, B_GETRANDOM };
static int tier = 0;
static int classify(Func* g) {
  const std::string& n = g->name;
  static const std::map<std::string, int> M = {{"rsym_u8", B_U8}, {"rsym_u32", B_U32}, {"rsym_u64", B_U64}, {"rsym_choice", B_CHOICE}, {"rsym_shard", B_SHARD}, {"rsym_assume", B_ASSUME}, {"rsym_check", B_CHECK}, {"rsym_observe", B_OBS}, {"rsym_reach", B_REACH}, {"rsym_rng", B_RNG}, {"rsym_alloc", B_ALLOC}, {"rsym_dealloc", B_DEALLOC}, {"rsym_is_sym", B_ISSYM}, {"rsym_trace", B_TRACE}, {"rsym_tier", B_TIER}, {"rsym_show", B_RET0},
    {"abort", B_ABORT}, {"bcmp", B_BCMP}, {"memcmp", B_BCMP}, {"strlen", B_STRLEN}, {"__cxa_thread_atexit_impl", B_RET0}, {"malloc", B_MALLOC}, {"free", B_RET0}, {"getrandom", B_GETRANDOM}};
  auto it = M.find(n); if (it != M.end()) return it->second;
  if (!g->decl) return B_NO;
  auto has = [&](const char* s) { return n.find(s) != std::string::npos; };
  if (has("panicking9panic_fmt") || has("panic_nounwind_fmt") || has("rust_panic") || has("panicking13panic_display")) return B_PANIC;
  if (has("handle_alloc_error") || has("process5abort") || has("begin_panic")) return B_PANIC;
  if (has("4core4hash3sip") && has("6Hasher9write_str")) return B_SIPSTR;
  if (has("4core4hash3sip") && has("6Hasher5write")) return B_SIPW;
  if (has("4core4hash3sip") && has("6Hasher6finish")) return B_SIPFIN;
  if (has("3fmteNtB") && has("5Debug3fmt")) return B_OKRES;
  return B_NO;
}
RS Exec::builtin(Func* g, const CallInfo& ci) {
  auto A = [&](int i) -> const Val& { return V(ci.args[i]); }; auto ret = [&](Val v) { if (!ci.dsts.empty() && ci.dsts[0] >= 0) regs[ci.dsts[0]] = v; };
  switch (g->builtin) {
    case B_U8: case B_U32: case B_U64: { int w = g->builtin == B_U8 ? 8 : g->builtin == B_U32 ? 32 : 64; int v = getVar(*st, w); ret({0, mkVar(v, w)}); return RS_OK; }
    case B_ISSYM: ret({1, 0}); return RS_OK;
    case B_CHOICE: { u64 n = concr(A(0), 32); if (n == 0 || n > 256) return trapEnd("choice range");
      S.choices++; int v = getVar(*st, 8); Expr* e = mkVar(v, 8); if (n < 256) addC(*st, mkCmp(E_ULT, e, mkConst(n, 8))); st->model[v] = 0; st->mep = freshEpoch();
      // fork all alternatives now; each continues after the call with a concrete value
      st->fr.back().pc++;
      for (u64 i = n - 1; i >= 1; i--) { State* q = clone(); addC(*q, mkCmp(E_EQ, e, mkConst(i, 8))); q->model[v] = i; q->mep = freshEpoch(); if (ci.dsts[0] >= 0) q->regs[q->fr.back().base + ci.dsts[0]] = {i, 0}; work.push_back(q); }
      if (n > 1) addC(*st, mkCmp(E_EQ, e, mkConst(0, 8))); ret({0, 0}); st->fr.back().pc--; return RS_OK; }
    case B_SHARD: { u64 n = concr(A(0), 32); if (curShard < 0) { fprintf(out, "{\"kind\":\"shards\",\"n\":%llu}\n", (unsigned long long)n); fflush(out); exit(0); } if ((u64)curShard >= n) die("shard out of range"); ret({(u64)curShard, 0}); return RS_OK; }
    case B_ASSUME: { const Val& v = A(0); Expr* c = v.e ? mkNot(mkCmp(E_EQ, v.e, mkConst(0, v.e->w))) : mkConst(v.c != 0, 1); if (c->op == E_CONST) { if (c->c) return RS_OK; S.assumed++; return RS_END; }
      if (evalS(*st, c)) { addC(*st, c); return RS_OK; } Model o; int r = feasible(*st, c, o); if (r & 4) { S.traps++; trapMsgs["solver unknown in assume"]++; return RS_END; } if (r & 1) { addC(*st, c); st->model = o; st->mep = freshEpoch(); return RS_OK; } S.assumed++; return RS_END; }
    case B_CHECK: { S.checks++; const Val& v = A(0); std::string msg = readStr(concr(A(1), 64), concr(A(2), 64)); checkCount[msg]++; Expr* c = v.e ? mkNot(mkCmp(E_EQ, v.e, mkConst(0, v.e->w))) : mkConst(v.c != 0, 1);
      if (c->op == E_CONST) { if (c->c) return RS_OK; violation(*st, st->model, "check", msg); return RS_END; }
      S.checkq++; Model o = st->model; int r; if (!evalS(*st, c)) { violation(*st, st->model, "check", msg); r = 1; } else { r = query(*st, mkNot(c), &o); if (r == 1) violation(*st, o, "check", msg); if (r < 0) { S.traps++; trapMsgs["solver unknown in check"]++; } }
      // continue on the side where it holds
      if (evalS(*st, c)) { if (r != 0) addC(*st, c); return RS_OK; } Model t; int q = feasible(*st, c, t); if (q & 1) { addC(*st, c); st->model = t; st->mep = freshEpoch(); return RS_OK; } return RS_END; }
    case B_OBS: st->obs.push_back(A(0)); return RS_OK;
    case B_TRACE: { const Val& v = A(0); fprintf(stderr, "TRACE path %llu: %s\n", (unsigned long long)S.paths, v.e ? show(v.e).c_str() : std::to_string(v.c).c_str()); return RS_OK; }
    case B_REACH: reachCount[readStr(concr(A(0), 64), concr(A(1), 64))]++; return RS_OK;
    case B_RNG: { u64 p = concr(A(0), 64), n = concr(A(1), 64), c = concr(A(2), 64); RngKey k; k.k.push_back(c); for (u64 i = 0; i < n; i++) { Val b = ldByte(p + i); k.k.push_back(b.e ? ((u64)1 << 40) + b.e->id : b.c); } k.pos = -1;
      for (auto& x : st->rng) if (x.k == k.k) { k.pos = x.pos; break; }
      int v; if (k.pos >= 0) v = k.pos; else { v = getVar(*st, 64); k.pos = v; st->rng.push_back(k); st->model[v] = 0x123456789abcdefull * (v + 3); st->mep = freshEpoch(); st->posVar.pop_back(); }
      Val r{0, mkVar(v, 64)}; st->rngTrace.push_back(r); ret(r); return RS_OK; }
    case B_ALLOC: case B_MALLOC: { u64 n = concr(A(0), 64), a = g->builtin == B_MALLOC ? 16 : concr(A(1), 64); if (a < 16) a = 16; if (n > 0x4000000) return panicEnd("allocation of " + std::to_string(n) + " bytes (capacity overflow / out of memory)"); st->hp = (st->hp + a - 1) / a * a; u64 p = st->hp; st->hp += n ? n : 1; if (st->hp + 64 > ADDR_MAX) return panicEnd("memory exhausted (runaway allocation)"); ret({p, 0}); return RS_OK; }
    case B_DEALLOC: return RS_OK;
    case B_GETRANDOM: { u64 p = concr(A(0), 64), n = concr(A(1), 64); if (!okAddr(p, n)) return badmem(p, "getrandom"); for (u64 i = 0; i < n; i++) stByte(p + i, {0, 0}); ret({n, 0}); return RS_OK; }
    // a legal hash that never becomes symbolic: words are mixed in, of byte strings only the length
    case B_SIPW: case B_SIPSTR: { u64 self = concr(A(0), 64), n = concr(A(2), 64), x = n + 77; if (!okAddr(self, 8)) return badmem(self, "siphash"); if (g->builtin == B_SIPW && n == 8) x = concr(ld(concr(A(1), 64), 64), 64);
      u64 h = (concr(ld(self, 64), 64) ^ x) * 0xff51afd7ed558ccdull; stv(self, {h ^ (h >> 32), 0}, 64); return RS_OK; }
    case B_SIPFIN: { u64 self = concr(A(0), 64); if (!okAddr(self, 8)) return badmem(self, "siphash"); ret(ld(self, 64)); return RS_OK; }
    case B_TIER: ret({(u64)tier, 0}); return RS_OK;
    case B_PANIC: { std::string loc; if (!ci.args.empty()) { const Val& v = V(ci.args.back()); if (!v.e && okAddr(v.c, 24)) { Val fp = ld(v.c, 64), fl = ld(v.c + 8, 64), ln = ld(v.c + 16, 32); if (!fp.e && !fl.e && fl.c < 300 && okAddr(fp.c, 1)) loc = readStr(fp.c, fl.c) + ":" + std::to_string(ln.c); } } 
      std::string stack; for (int i = (int)st->fr.size() - 1, k = 0; i >= 0 && k < 6; i--, k++) stack += " < " + st->fr[i].f->name; return panicEnd("panic at " + loc); }
    case B_ABORT: return panicEnd("abort");
    case B_OKRES: ret({0, 0}); return RS_OK;
    case B_RET0: ret({0, 0}); return RS_OK;
    case B_BCMP: { u64 n = concr(A(2), 64); if (!n) { ret({0, 0}); return RS_OK; } u64 p = concr(A(0), 64), q = concr(A(1), 64); if (!okAddr(p, n)) return badmem(p, "bcmp"); if (!okAddr(q, n)) return badmem(q, "bcmp");
      bool ord = g->name == "memcmp"; Expr* r = mkConst(0, 32); 
      for (u64 i = n; i-- > 0;) { Val a = ldByte(p + i), b = ldByte(q + i); 
        if (!a.e && !b.e) { if (a.c == b.c) continue; r = mkConst(ord ? (a.c < b.c ? (u64)-1 : 1) : 1, 32); continue; }
        Expr *x = toE(a, 8), *y = toE(b, 8); if (x == y) continue; Expr* eq = mkCmp(E_EQ, x, y);
        if (ord) r = mkIte(eq, r, mkIte(mkCmp(E_ULT, x, y), mkConst((u64)-1, 32), mkConst(1, 32))); else r = mkIte(eq, r, mkConst(1, 32)); }
      // flatten equality of strings: r==0 iff all equal
      if (!ord && r->op != E_CONST) { Expr* all = mkConst(1, 1); for (u64 i = 0; i < n; i++) { Val a = ldByte(p + i), b = ldByte(q + i); all = mkBin(E_AND, all, mkCmp(E_EQ, toE(a, 8), toE(b, 8))); } r = mkZext(mkNot(all), 32); }
      ret(fromE(r)); return RS_OK; }
    case B_STRLEN: { u64 p = concr(A(0), 64); u64 n = 0; while (true) { Val b = ldByte(p + n); if (b.e) return trapEnd("strlen symbolic"); if (!b.c) break; n++; } ret({n, 0}); return RS_OK; }
  }
  return trapEnd("builtin");
}
static u64 depthMax = 4000;
RS Exec::doCall(const Op& o) {
  CallInfo& ci = f->calls[o.x]; Func* g = ci.f;
  if (!g) { u64 a = concr(V(ci.fp), 64); g = funcAt(a); if (!g) return trapEnd("indirect call to bad address"); }
  if (!g->builtinChecked) { g->builtinChecked = true; g->builtin = classify(g); }
  if (g->builtin != B_NO) { g->execs++; size_t id = st->fr.size(); (void)id; RS r = builtin(g, ci); if (r == RS_OK) st->fr.back().pc++; return r; }
  if (g->decl) return trapEnd("call to external " + g->name);
  if (st->fr.size() >= depthMax) { S.hangs++; violation(*st, st->model, "hang", "call depth limit reached (runaway recursion) in " + g->name); return RS_END; }
  push(g, ci.args, o.x); return RS_OK;
}
RS Exec::run(State* s0) {
  st = s0; sync(); u64 n = 0;
  for (;;) {
    Frame& fr = st->fr.back(); const Op& o = f->ops[fr.pc]; n++; st->steps++;
    if ((n & 0xfff) == 0) { S.instr += n; n = 0; if (st->steps > maxSteps) { S.hangs++; violation(*st, st->model, "hang", "step limit reached"); return RS_END; } if (now() > deadline) { emitCase(*st, st->model, "cut", "time budget"); return RS_END; } }
    switch (o.opc) {
#define CASE(N, EX) case N: { const Val &a = V(o.a), &b = V(o.b); if (!a.e && !b.e && o.w <= 64) { u64 x = a.c, y = b.c; u64 mk = o.w >= 64 ? ~0ull : (1ull << o.w) - 1; (void)mk; regs[o.dst] = {EX, 0}; } else regs[o.dst] = binop(N, a, b, o.w); fr.pc++; break; }
      CASE(O_ADD, (x + y) & mk) CASE(O_SUB, (x - y) & mk) CASE(O_MUL, (x * y) & mk) CASE(O_AND, x & y) CASE(O_OR, x | y) CASE(O_XOR, x ^ y)
      CASE(O_SHL, y >= o.w ? 0 : (x << y) & mk) CASE(O_LSHR, y >= o.w ? 0 : x >> y) CASE(O_ASHR, (u64)((i64)sgn(x, o.w) >> (y >= o.w ? o.w - 1 : y)) & mk)
      case O_UDIV: case O_SDIV: case O_UREM: case O_SREM: { Val a = V(o.a), b = V(o.b); if (!b.e && !b.c && o.w <= 64) { S.instr += n; return trapEnd("division by zero"); } regs[o.dst] = binop(o.opc, a, b, o.w); fr.pc++; break; }
#define CMP(N, EX) case N: { const Val &a = V(o.a), &b = V(o.b); if (!a.e && !b.e && o.w <= 64) { u64 x = a.c, y = b.c; (void)x; (void)y; regs[o.dst] = {(u64)(EX), 0}; } else regs[o.dst] = fromE(byDomain(cmpE(N, toE(a, o.w), toE(b, o.w)))); fr.pc++; break; }
#define SX(v) ((i64)((v) << (64 - o.w)))
      CMP(O_EQ, x == y) CMP(O_NE, x != y) CMP(O_ULT, x < y) CMP(O_ULE, x <= y) CMP(O_UGT, x > y) CMP(O_UGE, x >= y) CMP(O_SLT, SX(x) < SX(y)) CMP(O_SLE, SX(x) <= SX(y)) CMP(O_SGT, SX(x) > SX(y)) CMP(O_SGE, SX(x) >= SX(y))
      case O_ZEXT: { const Val& a = V(o.a); if (!a.e && o.w <= 64) regs[o.dst] = a; else regs[o.dst] = fromE(mkZext(toE(a, (int)o.imm), o.w)); fr.pc++; break; }
      case O_SEXT: { const Val& a = V(o.a); if (!a.e && o.w <= 64) regs[o.dst] = {(u64)sgn(a.c, (int)o.imm) & (u64)maskw(o.w), 0}; else regs[o.dst] = fromE(mkSext(toE(a, (int)o.imm), o.w)); fr.pc++; break; }
      case O_TRNC: { const Val& a = V(o.a); if (!a.e) regs[o.dst] = {a.c & (u64)maskw(o.w), 0}; else regs[o.dst] = fromE(mkExtract(a.e, 0, o.w)); fr.pc++; break; }
      case O_MOV: regs[o.dst] = V(o.a); fr.pc++; break;
      case O_SELECT: { Val c = V(o.a); if (c.e) c = fromE(byDomain(c.e)); if (!c.e) regs[o.dst] = c.c ? V(o.b) : V(o.c); else { Val x = V(o.b), y = V(o.c); if (x.e == y.e && x.c == y.c) regs[o.dst] = x; else if (o.w == 64 && ((!x.e && !y.e && (x.c >= globalBase || y.c >= globalBase)))) { // pointer select: fork
              int t = truth(c.e); regs[o.dst] = t ? x : y; } else regs[o.dst] = fromE(mkIte(c.e, toE(x, o.w), toE(y, o.w))); } fr.pc++; break; }
      case O_CONCATN: { int k = f->ints[o.x], w = f->ints[o.x + 1]; bool sym = false; for (int i = 0; i < k; i++) if (V(f->ints[o.x + 2 + i]).e) sym = true;
        if (!sym && o.w <= 64) { u64 r = 0; for (int i = 0; i < k; i++) r |= V(f->ints[o.x + 2 + i]).c << (w * i); regs[o.dst] = {r, 0}; } else { Expr* e = toE(V(f->ints[o.x + 2]), w); for (int i = 1; i < k; i++) e = mkConcat(toE(V(f->ints[o.x + 2 + i]), w), e); regs[o.dst] = fromE(e); } fr.pc++; break; }
      case O_EXTRACT: { const Val& a = V(o.a); regs[o.dst] = fromE(mkExtract(toE(a, o.x), (int)o.imm, o.w)); fr.pc++; break; }
      case O_LOAD: { const Val& av = V(o.a); const LoadInfo& li = f->loads[o.x]; u64 a; if (av.e) { if (symLoad(av.e, li, o.dst)) { fr.pc++; break; } a = concr(av, 64); } else a = av.c;
        if (!okAddr(a, o.imm)) { if (o.imm == 0) { fr.pc++; break; } S.instr += n; return badmem(a, "load"); }
        if (o.w) regs[o.dst] = ld(a, o.w); else { for (size_t i = 0; i < li.lv.size(); i++) regs[o.dst + i] = ld(a + li.lv[i].off, li.lv[i].w); } fr.pc++; break; }
      case O_STORE: { u64 a = concr(V(o.a), 64); if (!okAddr(a, o.imm)) { if (o.imm == 0) { fr.pc++; break; } S.instr += n; return badmem(a, "store"); } if (o.w) stv(a, V(o.b), o.w); else { const LoadInfo& li = f->loads[o.x]; for (size_t i = 0; i < li.lv.size(); i++) stv(a + li.lv[i].off, V(f->ints[o.dst + i]), li.lv[i].w); } fr.pc++; break; }
      case O_GEPC: { const Val& a = V(o.a); if (!a.e) regs[o.dst] = {a.c + (u64)o.imm, 0}; else regs[o.dst] = fromE(mkBin(E_ADD, a.e, mkConst((u64)o.imm, 64))); fr.pc++; break; }
      case O_GEPI: { const Val &a = V(o.a), &b = V(o.b); if (!a.e && !b.e) regs[o.dst] = {a.c + (u64)((i64)sgn(b.c, o.w) * o.imm), 0}; else regs[o.dst] = fromE(mkBin(E_ADD, toE(a, 64), mkBin(E_MUL, mkSext(toE(b, o.w), 64), mkConst((u64)o.imm, 64)))); fr.pc++; break; }
      case O_ALLOCA: { u64 al = o.a < 16 ? 16 : o.a; st->sp = (st->sp + al - 1) / al * al; regs[o.dst] = {st->sp, 0}; st->sp += o.imm ? o.imm : 1; if (st->sp > STACK_BASE + STACK_SIZE) { S.instr += n; violation(*st, st->model, "hang", "stack overflow"); return RS_END; } fr.pc++; break; }
      case O_BR: jump(o.x); break;
      case O_CBR: { const Val& c = V(o.a); bool t; if (!c.e) t = c.c; else { 
            Model om; Expr* ce = c.e; int r = feasible(*st, ce, om); bool cur = evalS(*st, ce); t = cur; if (r & 4) { S.traps++; trapMsgs["solver unknown"]++; }
            if ((r & 3) == 3) { State* q = clone(); addC(*q, cur ? mkNot(ce) : ce); q->model = om; q->mep = freshEpoch(); { State* sv = st; st = q; sync(); jump(cur ? o.c : o.b); st = sv; sync(); } work.push_back(q); addC(*st, cur ? ce : mkNot(ce)); } }
        jump(t ? o.b : o.c); break; }
      case O_SWITCH: { const Val& v = V(o.a); SwitchInfo& si = f->switches[o.x]; if (!v.e) { auto it = si.map.find(v.c); jump(it == si.map.end() ? si.def : it->second); break; }
        // group cases by target edge destination, test one group at a time
        int chosen = -1; bool decided = false; Expr* e = v.e; std::vector<std::pair<int, Expr*>> groups; std::map<int, int> gi; 
        for (auto& c : si.cs) { Expr* q = mkCmp(E_EQ, e, mkConst(c.first, o.w)); int tgt = f->edges[c.second].mv.empty() ? f->edges[c.second].target : -1 - c.second; auto it = gi.find(tgt); if (it == gi.end()) { gi[tgt] = (int)groups.size(); groups.push_back({c.second, q}); } else groups[it->second].second = mkBin(E_OR, groups[it->second].second, q); }
        for (auto& g : groups) { if (g.second->op == E_CONST) { if (g.second->c) { chosen = g.first; decided = true; break; } continue; } int t = truth(g.second); if (t) { chosen = g.first; decided = true; break; } }
        jump(decided ? chosen : si.def); break; }
      case O_RET: { int k = o.b; Val tmp[64]; if (k > 64) die("ret too wide"); for (int i = 0; i < k; i++) tmp[i] = V(f->ints[o.a + i]); int call = fr.call; st->sp = fr.sp; st->fr.pop_back(); if (st->fr.empty()) { S.instr += n; return RS_OK; } sync(); CallInfo& ci = f->calls[call]; for (int i = 0; i < k && i < (int)ci.dsts.size(); i++) if (ci.dsts[i] >= 0) regs[ci.dsts[i]] = tmp[i]; st->fr.back().pc++; break; }
      case O_CALL: { RS r = doCall(o); if (r != RS_OK) { S.instr += n; return r; } break; }
      case O_INTR: { RS r = intr(o); if (r != RS_OK) { S.instr += n; return r; } fr.pc++; break; }
      case O_RMW: { u64 a = concr(V(o.a), 64); if (!okAddr(a, 8)) { S.instr += n; return badmem(a, "rmw"); } Val old = ld(a, o.w); Val nv = o.imm == O_MOV ? V(o.b) : binop((int)o.imm, old, V(o.b), o.w); stv(a, nv, o.w); regs[o.dst] = old; fr.pc++; break; }
      case O_CMPXCHG: { u64 a = concr(V(o.a), 64); if (!okAddr(a, 8)) { S.instr += n; return badmem(a, "cmpxchg"); } Val old = ld(a, o.w); Expr* eq = mkCmp(E_EQ, toE(old, o.w), toE(V(o.b), o.w)); bool t = eq->op == E_CONST ? (bool)eq->c : truth(eq); if (t) stv(a, V(o.c), o.w); regs[o.dst] = old; regs[o.dst + 1] = {t, 0}; fr.pc++; break; }
      case O_UNREACH: S.instr += n; return trapEnd("unreachable executed");
      case O_TRAP: S.instr += n; return trapEnd("unsupported: " + f->msgs[o.x]);
      case O_NOP: fr.pc++; break;
      default: die("opcode %d in %s at pc %d of %zu", o.opc, f->name.c_str(), st->fr.back().pc, f->ops.size());
    }
  }
}
static void initState(State* s) {
  s->sp = STACK_BASE; s->hp = HEAP_BASE; s->mep = freshEpoch();
  for (u64 i = 0; i < globalImage.size(); i += PS) { Page* p = s->mem.wr(globalBase + i); memcpy(p->d, globalImage.data() + i, std::min<u64>(PS, globalImage.size() - i)); }
}
static bool recheck(State& st) { std::vector<Expr*> es; std::vector<int> vs; for (PC* p = st.pc; p; p = p->prev) es.push_back(p->e); S.recheck++; Model m; int r = es.empty() ? 1 : zsolve(es, vs, 0); if (r == 0) die("completed path has an unsatisfiable condition (engine error)"); return r == 1; }
static u64 recheckEvery = 1;
static void runShard(Func* entry, int shard, double budget) {
  curShard = shard; S = Stats(); reachCount.clear(); checkCount.clear(); trapMsgs.clear(); violByMsg.clear(); samplesOut = 0; double t0 = now(); if (budget > 0) deadline = std::min(deadline, t0 + budget);
  for (auto* f : funcList) f->execs = 0;
  State* s = new State(); initState(s); Exec ex; ex.st = s; ex.f = 0; ex.regs = 0; decodeFunc(entry); s->regs.resize(entry->nregs + 64); s->fr.push_back({entry, 0, 0, s->sp, -1, 0}); entry->execs++;
  work.push_back(s); bool complete = true; u64 ended = 0; u64 every = sampleEvery;
  while (!work.empty()) {
    if (now() > deadline || S.paths >= maxPaths) { complete = false; break; }
    State* q = work.back(); work.pop_back(); RS r = ex.run(q); ended++; if (q->depth > S.maxdepth) S.maxdepth = q->depth;
    if (now() > deadline) complete = false;
    if (r == RS_OK) { S.paths++; 
      // validate the model against the path condition
      curEpoch = freshEpoch(); for (PC* p = q->pc; p; p = p->prev) if (!evalExpr(p->e, q->model)) die("model does not satisfy path condition: %s", show(p->e).c_str());
      if (recheckEvery && S.paths % recheckEvery == 0) recheck(*q);
      if (S.paths % every == 0 || S.paths <= 3) { if (samplesOut < sampleMax) { emitCase(*q, q->model, "path", ""); samplesOut++; if (samplesOut % 8 == 0) every *= 2; } } }
    delete q;
  }
  if (!complete) { size_t m = work.size(), step = std::max<size_t>(1, m / 24); for (size_t i = 0; i < m; i += step) emitCase(*work[i], work[i]->model, "cut", "time budget"); }
  for (auto* q : work) delete q; work.clear();
  std::string fn; u64 nf = 0; for (auto* f : funcList) if (f->execs && !f->decl) { nf++; fn += (fn.empty() ? "\"" : ",\"") + f->name + "\""; }
  auto mp = [&](std::map<std::string, u64>& m) { std::string r = "{"; for (auto& x : m) r += (r.size() > 1 ? "," : "") + ("\"" + jesc(x.first) + "\":" + std::to_string(x.second)); return r + "}"; };
  fprintf(out, "{\"kind\":\"shard\",\"shard\":%d,\"complete\":%s,\"paths\":%llu,\"assumed\":%llu,\"ended\":%llu,\"instr\":%llu,\"forks\":%llu,\"zq\":%llu,\"zsat\":%llu,\"zunsat\":%llu,\"zunk\":%llu,\"domv\":%llu,\"xchk\":%llu,\"checks\":%llu,\"checkq\":%llu,\"recheck\":%llu,\"viol\":%llu,\"hangs\":%llu,\"traps\":%llu,\"zt\":%.3f,\"wall\":%.3f,\"maxdepth\":%llu,\"reach\":%s,\"checkc\":%s,\"trapmsgs\":%s,\"funcs\":[%s]}\n",
    shard, complete && S.traps == 0 ? "true" : "false", (unsigned long long)S.paths, (unsigned long long)S.assumed, (unsigned long long)ended, (unsigned long long)S.instr, (unsigned long long)S.forks, (unsigned long long)S.zq, (unsigned long long)S.zsat, (unsigned long long)S.zunsat, (unsigned long long)S.zunk, (unsigned long long)S.domv, (unsigned long long)S.xchk, (unsigned long long)S.checks, (unsigned long long)S.checkq, (unsigned long long)S.recheck, (unsigned long long)S.viol, (unsigned long long)S.hangs, (unsigned long long)S.traps, S.zt, now() - t0, (unsigned long long)S.maxdepth, mp(reachCount).c_str(), mp(checkCount).c_str(), mp(trapMsgs).c_str(), fn.c_str());
  fflush(out);
}
int main(int argc, char** argv) {
  std::string entry, outp; int jobs = 8; double budget = 0, sbudget = 0; int only = -1; const char* mod = argv[1]; std::string smt;
  for (int i = 2; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") entry = nx(); else if (a == "--out") outp = nx(); else if (a == "--jobs") jobs = stoi(nx()); else if (a == "--budget") budget = stod(nx()); else if (a == "--shard-budget") sbudget = stod(nx()); else if (a == "--shard") only = stoi(nx()); else if (a == "--max-steps") maxSteps = stoull(nx()); else if (a == "--max-paths") maxPaths = stoull(nx()); else if (a == "--samples") sampleMax = stoull(nx()); else if (a == "--recheck") recheckEvery = stoull(nx()); else if (a == "--xcheck") xcheckEvery = stoull(nx()); else if (a == "--smt") smt = nx(); else if (a == "--smt-max") dumpMax = stoull(nx()); else if (a == "--tier") tier = stoi(nx()); else if (a == "--depth") depthMax = stoull(nx()); else die("bad option %s", a.c_str()); }
  loadModule(mod); auto it = funcs.find(entry); if (it == funcs.end()) die("no entry %s", entry.c_str()); Func* ef = it->second;
  if (budget > 0) deadline = now() + budget;
  // number of shards
  std::string tmp = outp + ".n"; pid_t p = fork(); if (!p) { out = fopen(tmp.c_str(), "w"); zinit(); curShard = -1; runShard(ef, -1, 0); fprintf(out, "{\"kind\":\"shards\",\"n\":1}\n"); fflush(out); _exit(0); } int stt; waitpid(p, &stt, 0);
  int n = 1; { std::ifstream f(tmp); std::string l; while (std::getline(f, l)) { size_t k = l.find("\"n\":"); if (l.find("\"shards\"") != std::string::npos && k != std::string::npos) { n = atoi(l.c_str() + k + 4); break; } } } unlink(tmp.c_str());
  if (only >= 0) { out = outp.empty() ? stdout : fopen(outp.c_str(), "w"); zinit(); if (!smt.empty()) dumpSmt = fopen(smt.c_str(), "w"); runShard(ef, only, sbudget); return 0; }
  auto* ctr = (std::atomic<int>*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); new (ctr) std::atomic<int>(0);
  auto* done = (std::atomic<char>*)mmap(0, n + 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::vector<pid_t> ps; int nw = std::min(jobs, n);
  auto spawn = [&](int w) { pid_t q = fork(); if (!q) { std::string o = outp + "." + std::to_string(w); out = fopen(o.c_str(), "a"); zinit(); if (!smt.empty()) dumpSmt = fopen((smt + "." + std::to_string(w)).c_str(), "w"); double dl = deadline;
      for (;;) { int k = ctr->fetch_add(1); if (k >= n) break; done[k] = 1; deadline = dl; runShard(ef, k, sbudget); done[k] = 2; } fflush(out); if (dumpSmt) fclose(dumpSmt); _exit(0); } return q; };
  for (int w = 0; w < nw; w++) { unlink((outp + "." + std::to_string(w)).c_str()); ps.push_back(spawn(w)); }
  int bad = 0; for (int w = 0; w < nw; w++) { int status; for (;;) { waitpid(ps[w], &status, 0); if (WIFEXITED(status) && WEXITSTATUS(status) == 0) break; bad++; if (bad > 24) break; ps[w] = spawn(w); } }
  FILE* o = fopen(outp.c_str(), "w"); fprintf(o, "{\"kind\":\"shards\",\"n\":%d}\n", n); for (int w = 0; w < nw; w++) { std::string q = outp + "." + std::to_string(w); std::ifstream f(q); std::string l; while (std::getline(f, l)) fprintf(o, "%s\n", l.c_str()); unlink(q.c_str()); }
  for (int k = 0; k < n; k++) if (done[k] != 2) fprintf(o, "{\"kind\":\"lost\",\"shard\":%d}\n", k);
  fprintf(o, "{\"kind\":\"end\",\"crashes\":%d}\n", bad); fclose(o); return 0;
}
