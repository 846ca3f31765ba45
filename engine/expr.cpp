#include "expr.h"
#include <cstdarg>
std::vector<int> varWidth;

struct Key { u8 op, w; Expr* k[3]; u128 c;
  bool operator==(const Key& o) const { return op == o.op && w == o.w && k[0] == o.k[0] && k[1] == o.k[1] && k[2] == o.k[2] && c == o.c; } };
struct KeyH { size_t operator()(const Key& x) const {
  u64 h = x.op * 0x9E3779B97F4A7C15ull + x.w * 0xC2B2AE3D27D4EB4Full;
  for (int i = 0; i < 3; i++) { h ^= (u64)x.k[i]; h *= 0xff51afd7ed558ccdull; h ^= h >> 32; }
  h ^= (u64)x.c ^ (u64)(x.c >> 64) * 31; h *= 0xc4ceb9fe1a85ec53ull; h ^= h >> 29; return h; } };
static std::unordered_map<Key, Expr*, KeyH> table;
static u32 nextId = 1; u32 curEpoch = 1; static u32 epochCtr = 1;
u64 exprCount() { return nextId; }
u32 freshEpoch() { return ++epochCtr; }

static Expr* intern(u8 op, u8 w, Expr* a, Expr* b, Expr* d, u128 c) {
  Key key{op, w, {a, b, d}, c};
  auto it = table.find(key);
  if (it != table.end()) return it->second;
  Expr* e = new Expr(); e->op = op; e->w = w; e->id = nextId++; e->k[0] = a; e->k[1] = b; e->k[2] = d; e->c = c;
  e->ep = 0; e->dom = nullptr; e->z = e->zb = nullptr; e->vars = nullptr;
  if (op == E_VAR) e->sup = (int)c;
  else {
    int s = -1; bool many = false;
    for (int i = 0; i < 3; i++) if (e->k[i]) { int t = e->k[i]->sup; if (t == -1) continue; if (t == -2) many = true; else if (s == -1) s = t; else if (s != t) many = true; }
    if (many) {
      e->sup = -2; auto* v = new std::vector<int>();
      for (int i = 0; i < 3; i++) if (e->k[i]) { Expr* x = e->k[i]; if (x->sup >= 0) v->push_back(x->sup); else if (x->sup == -2) v->insert(v->end(), x->vars->begin(), x->vars->end()); }
      std::sort(v->begin(), v->end()); v->erase(std::unique(v->begin(), v->end()), v->end()); e->vars = v;
    } else e->sup = s;
  }
  table.emplace(key, e);
  return e;
}
Expr* mkConst(u128 v, int w) { return intern(E_CONST, w, 0, 0, 0, v & maskw(w)); }
Expr* mkVar(int idx, int w) { return intern(E_VAR, w, 0, 0, 0, idx); }
static inline bool isC(Expr* e) { return e->op == E_CONST; }

u128 foldBin(int op, u128 a, u128 b, int w) {
  u128 m = maskw(w);
  switch (op) {
    case E_ADD: return (a + b) & m; case E_SUB: return (a - b) & m; case E_MUL: return (a * b) & m;
    case E_UDIV: return b ? a / b : m; case E_UREM: return b ? a % b : a;
    case E_SDIV: { if (!b) return m; i128 x = sgn(a, w), y = sgn(b, w); if (y == -1) return (u128)(-x) & m; return (u128)(x / y) & m; }
    case E_SREM: { if (!b) return a; i128 x = sgn(a, w), y = sgn(b, w); if (y == -1) return 0; return (u128)(x % y) & m; }
    case E_AND: return a & b; case E_OR: return a | b; case E_XOR: return a ^ b;
    case E_SHL: return b >= (u128)w ? 0 : (a << (int)b) & m;
    case E_LSHR: return b >= (u128)w ? 0 : a >> (int)b;
    case E_ASHR: { i128 x = sgn(a, w); int s = b >= (u128)w ? w - 1 : (int)b; if (s > 127) s = 127; return (u128)(x >> s) & m; }
  }
  die("foldBin %d", op);
}
bool foldCmp(int op, u128 a, u128 b, int w) {
  switch (op) { case E_EQ: return a == b; case E_ULT: return a < b; case E_ULE: return a <= b;
    case E_SLT: return sgn(a, w) < sgn(b, w); case E_SLE: return sgn(a, w) <= sgn(b, w); }
  die("foldCmp %d", op);
}
static bool iteConstLeaves(Expr* e, int depth) {
  if (isC(e)) return true; if (e->op != E_ITE || depth == 0) return false;
  return iteConstLeaves(e->k[1], depth - 1) && iteConstLeaves(e->k[2], depth - 1);
}
Expr* mkBin(int op, Expr* a, Expr* b) {
  int w = a->w; if (b->w != w) die("width mismatch in bin %d: %d %d", op, a->w, b->w);
  if (isC(a) && isC(b)) return mkConst(foldBin(op, a->c, b->c, w), w);
  u128 m = maskw(w);
  bool comm = op == E_ADD || op == E_MUL || op == E_AND || op == E_OR || op == E_XOR;
  if (comm && isC(a)) std::swap(a, b);
  if (comm && !isC(b) && a->id > b->id) std::swap(a, b);
  if (op == E_SUB && isC(b)) { return mkBin(E_ADD, a, mkConst((u128)0 - b->c, w)); }
  if (isC(b)) {
    u128 c = b->c;
    switch (op) {
      case E_ADD: if (c == 0) return a; if (a->op == E_ADD && isC(a->k[1])) return mkBin(E_ADD, a->k[0], mkConst(a->k[1]->c + c, w)); break;
      case E_MUL: if (c == 0) return b; if (c == 1) return a; break;
      case E_UDIV: if (c == 1) return a; break;
      case E_AND: if (c == 0) return b; if (c == m) return a;
        if (a->op == E_AND && isC(a->k[1])) return mkBin(E_AND, a->k[0], mkConst(a->k[1]->c & c, w));
        if (a->op == E_ZEXT) { u128 im = maskw(a->k[0]->w); if ((c & im) == im) return a; return mkZext(mkBin(E_AND, a->k[0], mkConst(c & im, a->k[0]->w)), w); }
        // low mask -> extract
        if ((c & (c + 1)) == 0) { int n = 0; while (c >> n) n++; return mkZext(mkExtract(a, 0, n), w); }
        break;
      case E_OR: if (c == 0) return a; if (c == m) return b; break;
      case E_XOR: if (c == 0) return a;
        if (a->op == E_XOR && isC(a->k[1])) return mkBin(E_XOR, a->k[0], mkConst(a->k[1]->c ^ c, w));
        if (w == 1) { // not
          if (a->op == E_ULT) return mkCmp(E_ULE, a->k[1], a->k[0]);
          if (a->op == E_ULE) return mkCmp(E_ULT, a->k[1], a->k[0]);
          if (a->op == E_SLT) return mkCmp(E_SLE, a->k[1], a->k[0]);
          if (a->op == E_SLE) return mkCmp(E_SLT, a->k[1], a->k[0]);
        }
        break;
      case E_SHL: case E_LSHR: if (c == 0) return a; if (c >= (u128)w) return mkConst(0, w);
        if (op == E_LSHR) return mkZext(mkExtract(a, (int)c, w - (int)c), w);
        if (op == E_SHL) return mkConcat(mkExtract(a, 0, w - (int)c), mkConst(0, (int)c));
        break;
      case E_ASHR: if (c == 0) return a; break;
    }
  }
  if (isC(a) && a->c == 0 && (op == E_SHL || op == E_LSHR || op == E_UDIV || op == E_UREM)) return a;
  if (a == b) switch (op) { case E_AND: case E_OR: return a; case E_XOR: case E_SUB: return mkConst(0, w); }
  // disjoint or/add of concat/zext pieces: (x << k) | zext(y)
  if ((op == E_OR || op == E_ADD || op == E_XOR)) {
    Expr *p = a, *q = b;
    for (int t = 0; t < 2; t++, std::swap(p, q)) {
      if (p->op == E_CONCAT && isC(p->k[1]) && p->k[1]->c == 0) {
        int lw = p->k[1]->w;
        if (q->op == E_ZEXT && q->k[0]->w <= lw) return mkConcat(p->k[0], mkZext(q->k[0], lw));
        if (isC(q) && (q->c >> lw) == 0) return mkConcat(p->k[0], mkConst(q->c, lw));
        if (op == E_OR && isC(q)) return mkConcat(mkBin(E_OR, p->k[0], mkConst(q->c >> lw, w - lw)), mkConst(q->c, lw));
      }
    }
  }
  if (w == 1 && op == E_AND) {
    if (b->op == E_XOR && b->k[0] == a && isC(b->k[1])) return mkConst(0, 1);
    if (a->op == E_XOR && a->k[0] == b && isC(a->k[1])) return mkConst(0, 1);
  }
  // push into small constant-leaf ites
  if (isC(b) && a->op == E_ITE && iteConstLeaves(a, 4)) return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
  if (isC(a) && b->op == E_ITE && iteConstLeaves(b, 4)) return mkIte(b->k[0], mkBin(op, a, b->k[1]), mkBin(op, a, b->k[2]));
  return intern(op, w, a, b, 0, 0);
}
Expr* mkCmp(int op, Expr* a, Expr* b) {
  int w = a->w; if (b->w != w) die("width mismatch in cmp %d: %d %d", op, a->w, b->w);
  if (isC(a) && isC(b)) return mkConst(foldCmp(op, a->c, b->c, w), 1);
  if (a == b) return mkConst(op == E_EQ || op == E_ULE || op == E_SLE, 1);
  u128 m = maskw(w);
  if (op == E_EQ) {
    if (isC(a)) std::swap(a, b);
    if (!isC(b) && a->id > b->id) std::swap(a, b);
    if (isC(b)) {
      u128 c = b->c;
      if (w == 1) return c ? a : mkNot(a);
      switch (a->op) {
        case E_ZEXT: { int iw = a->k[0]->w; if (c >> iw) return mkConst(0, 1); return mkCmp(E_EQ, a->k[0], mkConst(c, iw)); }
        case E_SEXT: { int iw = a->k[0]->w; u128 lowv = c & maskw(iw); if (((u128)sgn(lowv, iw) & m) != c) return mkConst(0, 1); return mkCmp(E_EQ, a->k[0], mkConst(lowv, iw)); }
        case E_CONCAT: { int lw = a->k[1]->w; return mkBin(E_AND, mkCmp(E_EQ, a->k[0], mkConst(c >> lw, w - lw)), mkCmp(E_EQ, a->k[1], mkConst(c, lw))); }
        case E_ADD: if (isC(a->k[1])) return mkCmp(E_EQ, a->k[0], mkConst(c - a->k[1]->c, w)); break;
        case E_XOR: if (isC(a->k[1])) return mkCmp(E_EQ, a->k[0], mkConst(c ^ a->k[1]->c, w)); if (c == 0) return mkCmp(E_EQ, a->k[0], a->k[1]); break;
        case E_OR: if (c == 0) return mkBin(E_AND, mkCmp(E_EQ, a->k[0], b), mkCmp(E_EQ, a->k[1], b)); break;
      }
    } else if (a->op == E_CONCAT && b->op == E_CONCAT && a->k[1]->w == b->k[1]->w) {
      return mkBin(E_AND, mkCmp(E_EQ, a->k[0], b->k[0]), mkCmp(E_EQ, a->k[1], b->k[1]));
    } else if (a->op == E_ZEXT && b->op == E_ZEXT && a->k[0]->w == b->k[0]->w) return mkCmp(E_EQ, a->k[0], b->k[0]);
  } else if (op == E_ULT || op == E_ULE) {
    if (isC(b)) {
      if (op == E_ULT && b->c == 0) return mkConst(0, 1);
      if (op == E_ULE && b->c == m) return mkConst(1, 1);
      if (op == E_ULT && b->c == 1) return mkCmp(E_EQ, a, mkConst(0, w));
      if (op == E_ULE && b->c == 0) return mkCmp(E_EQ, a, b);
      if (a->op == E_ZEXT) { int iw = a->k[0]->w; if (b->c >> iw) return mkConst(1, 1); return mkCmp(op, a->k[0], mkConst(b->c, iw)); }
    }
    if (isC(a)) {
      if (op == E_ULE && a->c == 0) return mkConst(1, 1);
      if (op == E_ULT && a->c == m) return mkConst(0, 1);
      if (op == E_ULT && a->c == 0) return mkNot(mkCmp(E_EQ, b, a));
      if (b->op == E_ZEXT) { int iw = b->k[0]->w; if (a->c >> iw) return mkConst(0, 1); return mkCmp(op, mkConst(a->c, iw), b->k[0]); }
    }
    if (a->op == E_ZEXT && b->op == E_ZEXT && a->k[0]->w == b->k[0]->w) return mkCmp(op, a->k[0], b->k[0]);
  } else {
    // signed compare of zero-extended values
    if (a->op == E_ZEXT && isC(b)) { if (sgn(b->c, w) < 0) return mkConst(0, 1); return mkCmp(op == E_SLT ? E_ULT : E_ULE, a, b); }
    if (b->op == E_ZEXT && isC(a)) { if (sgn(a->c, w) < 0) return mkConst(1, 1); return mkCmp(op == E_SLT ? E_ULT : E_ULE, a, b); }
  }
  if (isC(b) && a->op == E_ITE && iteConstLeaves(a, 6)) return mkIte(a->k[0], mkCmp(op, a->k[1], b), mkCmp(op, a->k[2], b));
  if (isC(a) && b->op == E_ITE && iteConstLeaves(b, 6)) return mkIte(b->k[0], mkCmp(op, a, b->k[1]), mkCmp(op, a, b->k[2]));
  return intern(op, 1, a, b, 0, 0);
}
Expr* mkIte(Expr* c, Expr* a, Expr* b) {
  if (isC(c)) return c->c ? a : b;
  if (a == b) return a;
  if (a->w != b->w) die("ite width");
  if (a->w == 1) {
    if (isC(a)) return a->c ? mkBin(E_OR, c, b) : mkBin(E_AND, mkNot(c), b);
    if (isC(b)) return b->c ? mkBin(E_OR, mkNot(c), a) : mkBin(E_AND, c, a);
  }
  return intern(E_ITE, a->w, c, a, b, 0);
}
Expr* mkZext(Expr* a, int w) {
  if (a->w == w) return a; if (a->w > w) die("zext");
  if (isC(a)) return mkConst(a->c, w);
  if (a->op == E_ZEXT) return mkZext(a->k[0], w);
  if (a->op == E_ITE && iteConstLeaves(a, 6)) return mkIte(a->k[0], mkZext(a->k[1], w), mkZext(a->k[2], w));
  return intern(E_ZEXT, w, a, 0, 0, 0);
}
Expr* mkSext(Expr* a, int w) {
  if (a->w == w) return a;
  if (isC(a)) return mkConst((u128)sgn(a->c, a->w), w);
  if (a->op == E_ZEXT) return mkZext(a->k[0], w);
  if (a->op == E_SEXT) return mkSext(a->k[0], w);
  if (a->op == E_ITE && iteConstLeaves(a, 6)) return mkIte(a->k[0], mkSext(a->k[1], w), mkSext(a->k[2], w));
  return intern(E_SEXT, w, a, 0, 0, 0);
}
Expr* mkExtract(Expr* a, int lo, int w) {
  if (lo == 0 && w == a->w) return a;
  if (lo + w > a->w) die("extract");
  if (isC(a)) return mkConst(a->c >> lo, w);
  switch (a->op) {
    case E_EXTRACT: return mkExtract(a->k[0], lo + (int)a->c, w);
    case E_ZEXT: { int iw = a->k[0]->w; if (lo >= iw) return mkConst(0, w); if (lo + w <= iw) return mkExtract(a->k[0], lo, w); return mkZext(mkExtract(a->k[0], lo, iw - lo), w); }
    case E_SEXT: { int iw = a->k[0]->w; if (lo + w <= iw) return mkExtract(a->k[0], lo, w); if (lo == 0) return mkSext(a->k[0], w); break; }
    case E_CONCAT: { int lw = a->k[1]->w; if (lo + w <= lw) return mkExtract(a->k[1], lo, w); if (lo >= lw) return mkExtract(a->k[0], lo - lw, w);
      return mkConcat(mkExtract(a->k[0], 0, lo + w - lw), mkExtract(a->k[1], lo, lw - lo)); }
    case E_AND: case E_OR: case E_XOR: return mkBin(a->op, mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w));
    case E_ADD: case E_SUB: case E_MUL: if (lo == 0) return mkBin(a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w)); break;
    case E_ITE: if (iteConstLeaves(a, 6) || w <= 8) return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w)); break;
  }
  return intern(E_EXTRACT, w, a, 0, 0, lo);
}
Expr* mkConcat(Expr* hi, Expr* lo) {
  int w = hi->w + lo->w; if (w > 128) die("concat too wide");
  if (isC(hi) && isC(lo)) return mkConst((hi->c << lo->w) | lo->c, w);
  if (isC(hi) && hi->c == 0) return mkZext(lo, w);
  // adjacent extracts
  if (hi->op == E_EXTRACT && lo->op == E_EXTRACT && hi->k[0] == lo->k[0] && hi->c == lo->c + lo->w) return mkExtract(hi->k[0], (int)lo->c, w);
  if (hi->op == E_EXTRACT && lo == hi->k[0] && 0) return hi;
  if (hi->op == E_EXTRACT && lo->op != E_EXTRACT && hi->k[0]->op == E_ZEXT) {}
  if (hi->op == E_ZEXT && lo->op != E_CONST) { /* keep zero extension outermost */ return mkZext(mkConcat(hi->k[0], lo), w); }
  if (hi->op == E_ITE && lo->op == E_ITE && hi->k[0] == lo->k[0]) return mkIte(hi->k[0], mkConcat(hi->k[1], lo->k[1]), mkConcat(hi->k[2], lo->k[2]));
  if (hi->op == E_CONCAT) { // right-assoc so that adjacent pieces meet
    Expr* t = mkConcat(hi->k[1], lo);
    if (t->op != E_CONCAT) return mkConcat(hi->k[0], t);
  }
  if (hi->op == E_ITE && isC(lo) && iteConstLeaves(hi, 6)) return mkIte(hi->k[0], mkConcat(hi->k[1], lo), mkConcat(hi->k[2], lo));
  if (lo->op == E_ITE && isC(hi) && iteConstLeaves(lo, 6)) return mkIte(lo->k[0], mkConcat(hi, lo->k[1]), mkConcat(hi, lo->k[2]));
  return intern(E_CONCAT, w, hi, lo, 0, 0);
}
u128 evalExpr(Expr* e, const Model& m) {
  if (e->op == E_CONST) return e->c;
  if (e->ep == curEpoch) return e->ev;
  u128 r;
  switch (e->op) {
    case E_VAR: r = (size_t)e->c < m.size() ? (u128)m[(size_t)e->c] & maskw(e->w) : 0; break;
    case E_ITE: r = evalExpr(e->k[0], m) ? evalExpr(e->k[1], m) : evalExpr(e->k[2], m); break;
    case E_ZEXT: r = evalExpr(e->k[0], m); break;
    case E_SEXT: r = (u128)sgn(evalExpr(e->k[0], m), e->k[0]->w) & maskw(e->w); break;
    case E_EXTRACT: r = (evalExpr(e->k[0], m) >> (int)e->c) & maskw(e->w); break;
    case E_CONCAT: r = (evalExpr(e->k[0], m) << e->k[1]->w) | evalExpr(e->k[1], m); break;
    case E_EQ: case E_ULT: case E_ULE: case E_SLT: case E_SLE: r = foldCmp(e->op, evalExpr(e->k[0], m), evalExpr(e->k[1], m), e->k[0]->w); break;
    default: r = foldBin(e->op, evalExpr(e->k[0], m), evalExpr(e->k[1], m), e->w);
  }
  e->ep = curEpoch; e->ev = r; return r;
}
const u64* domOf(Expr* e) {
  if (e->dom) return e->dom;
  u64* d = new u64[4](); int v = e->sup;
  static Model m; if ((int)m.size() <= v) m.resize(v + 1);
  int n = 1 << varWidth[v]; u32 save = curEpoch;
  for (int x = 0; x < n; x++) { m[v] = x; curEpoch = freshEpoch(); if (evalExpr(e, m)) d[x >> 6] |= 1ull << (x & 63); }
  curEpoch = save;
  return e->dom = d;
}
std::string show(Expr* e, int depth) {
  static const char* nm[] = {"c","v","+","-","*","/u","/s","%u","%s","&","|","^","<<",">>u",">>s","==","<u","<=u","<s","<=s","ite","zx","sx","ex","cat"};
  char b[64];
  if (isC(e)) { snprintf(b, 64, "%llx:%d", (unsigned long long)e->c, e->w); return b; }
  if (e->op == E_VAR) { snprintf(b, 64, "v%d", (int)e->c); return b; }
  if (!depth) return "..";
  std::string s = "("; s += nm[e->op]; if (e->op == E_EXTRACT) { snprintf(b, 64, "[%d+%d]", (int)e->c, e->w); s += b; } if (e->op == E_ZEXT) { snprintf(b, 64, "%d", e->w); s += b; }
  for (int i = 0; i < 3; i++) if (e->k[i]) s += " " + show(e->k[i], depth - 1);
  return s + ")";
}
