#include "ll.h"
#include <cmath>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
std::unordered_map<std::string, Func*> funcs; std::unordered_map<std::string, Global*> globals;
std::vector<Func*> funcList; std::vector<Global*> globalList; std::vector<u8> globalImage; u64 globalBase = 0x100000;

// ---------- types ----------
static std::map<std::string, Ty*> tyCache;
static Ty* basicTy(TK k, int w, u64 size, u64 align) { Ty* t = new Ty(); t->k = k; t->w = w; t->size = size; t->align = align; t->leaves = k == T_VOID || k >= T_LABEL ? 0 : 1; t->n = 0; t->packed = false; return t; }
static Ty *tVoid = basicTy(T_VOID,0,0,1), *tPtr = basicTy(T_PTR,64,8,8), *tFlt = basicTy(T_FLT,32,4,4), *tDbl = basicTy(T_DBL,64,8,8), *tLabel = basicTy(T_LABEL,0,0,1), *tMeta = basicTy(T_META,0,0,1);
static std::map<int, Ty*> ints_;
static Ty* tInt(int w) { Ty*& t = ints_[w]; if (!t) { u64 s = w <= 8 ? 1 : w <= 16 ? 2 : w <= 32 ? 4 : w <= 64 ? 8 : 16; t = basicTy(T_INT, w, (w + 7) / 8, s); if (w > 8) t->size = s; } return t; }
static u64 al(u64 x, u64 a) { return (x + a - 1) / a * a; }
static Ty* mkSeq(TK k, u64 n, Ty* e) {
  Ty* t = new Ty(); t->k = k; t->n = n; t->e = {e}; t->packed = false; t->w = 0; t->leaves = (int)n * e->leaves;
  t->size = n * al(e->size, e->align); t->align = e->align;
  if (k == T_VEC) { t->size = e->w == 1 ? (n + 7) / 8 : n * e->size; t->align = t->size ? t->size : 1; }
  return t;
}
static Ty* mkStruct(std::vector<Ty*> es, bool packed) {
  Ty* t = new Ty(); t->k = T_STRUCT; t->packed = packed; t->e = es; t->w = 0; t->n = es.size(); t->leaves = 0; u64 o = 0, a = 1;
  for (auto x : es) { u64 xa = packed ? 1 : x->align; o = al(o, xa); t->off.push_back(o); o += x->size; if (!packed && (x->k==T_ARR||x->k==T_STRUCT)) {} a = std::max(a, xa); t->leaves += x->leaves; }
  t->size = al(o, a); t->align = a; return t;
}
void leavesOf(Ty* t, u64 base, std::vector<Leaf>& out) {
  switch (t->k) {
    case T_INT: case T_PTR: case T_FLT: case T_DBL: out.push_back({base, t->w}); break;
    case T_VEC: case T_ARR: for (u64 i = 0; i < t->n; i++) leavesOf(t->e[0], base + i * al(t->e[0]->size, t->k == T_VEC ? 1 : t->e[0]->align), out); break;
    case T_STRUCT: for (size_t i = 0; i < t->e.size(); i++) leavesOf(t->e[i], base + t->off[i], out); break;
    default: break;
  }
}
// ---------- scanner ----------
struct Sc {
  const char* p; const char* end;
  void ws() { while (p < end && (*p == ' ' || *p == '\t' || *p == '\n')) p++; }
  bool lit(const char* s) { ws(); size_t n = strlen(s); if ((size_t)(end - p) >= n && !strncmp(p, s, n)) { p += n; return true; } return false; }
  bool isw(char c) { return isalnum((u8)c) || c == '_' || c == '.' || c == '$' || c == '-'; }
  bool word(const char* s) { ws(); size_t n = strlen(s); if ((size_t)(end - p) >= n && !strncmp(p, s, n) && (p + n >= end || !isw(p[n]))) { p += n; return true; } return false; }
  bool peekWord(const char* s) { const char* q = p; bool r = word(s); p = q; return r; }
  std::string ident() { ws(); const char* s = p; while (p < end && isw(*p)) p++; return std::string(s, p); }
  char peek() { ws(); return p < end ? *p : 0; }
  void expect(const char* s) { if (!lit(s)) die("parse: expected '%s' at: %.120s", s, std::string(p, std::min(end, p + 120)).c_str()); }
  std::string name() { // after % or @
    if (p < end && *p == '"') { p++; const char* s = p; while (*p != '"') p++; std::string r(s, p); p++; return r; }
    const char* s = p; while (p < end && isw(*p)) p++; return std::string(s, p);
  }
  void parens() { expect("("); int d = 1; while (p < end && d) { if (*p == '(') d++; else if (*p == ')') d--; p++; } }
};
static Ty* parseType(Sc& s) {
  s.ws(); char c = *s.p;
  if (c == 'i' && isdigit((u8)s.p[1])) { s.p++; int w = 0; while (isdigit((u8)*s.p)) w = w * 10 + *s.p++ - '0'; return tInt(w); }
  if (s.word("ptr")) { if (s.word("addrspace")) s.parens(); return tPtr; }
  if (s.word("void")) return tVoid; if (s.word("float")) return tFlt; if (s.word("double")) return tDbl; if (s.word("label")) return tLabel; if (s.word("metadata")) return tMeta;
  if (s.word("half")||s.word("bfloat")) return tInt(16);
  if (s.word("fp128")||s.word("x86_fp80")) return tInt(128);
  const char* st = s.p;
  if (c == '[') { s.p++; u64 n = strtoull(s.ident().c_str(), 0, 10); s.expect("x"); Ty* e = parseType(s); s.expect("]"); std::string k(st, s.p); Ty*& t = tyCache[k]; if (!t) t = mkSeq(T_ARR, n, e); return t; }
  if (c == '<' && s.p[1] != '{') { s.p++; if (s.word("vscale")) die("vscale"); u64 n = strtoull(s.ident().c_str(), 0, 10); s.expect("x"); Ty* e = parseType(s); s.expect(">"); std::string k(st, s.p); Ty*& t = tyCache[k]; if (!t) t = mkSeq(T_VEC, n, e); return t; }
  if (c == '{' || c == '<') {
    bool packed = c == '<'; if (packed) s.p++; s.expect("{"); std::vector<Ty*> es;
    if (s.peek() != '}') do { es.push_back(parseType(s)); } while (s.lit(","));
    s.expect("}"); if (packed) s.expect(">");
    std::string k(st, s.p); Ty*& t = tyCache[k]; if (!t) t = mkStruct(es, packed); return t;
  }
  die("type? %.80s", std::string(s.p, std::min(s.end, s.p + 80)).c_str());
}
static bool typeAhead(Sc& s) { s.ws(); char c = *s.p; if (c == '{' || c == '[' || c == '<') return true; if (c == 'i' && isdigit((u8)s.p[1])) return true;
  return s.peekWord("ptr") || s.peekWord("void") || s.peekWord("float") || s.peekWord("double") || s.peekWord("metadata") || s.peekWord("label") || s.peekWord("half")||s.peekWord("fp128"); }
// ---------- constants ----------
struct CLeaf { u128 v; int w; };
static u64 symAddr(const std::string& n) { auto g = globals.find(n); if (g != globals.end()) return g->second->addr; auto f = funcs.find(n); if (f != funcs.end()) return f->second->addr; return 0; }
static void parseConst(Sc& s, Ty* t, std::vector<CLeaf>& out);
static u128 constScalar(Sc& s, Ty* t) { std::vector<CLeaf> v; parseConst(s, t, v); if (v.size() != 1) die("constScalar"); return v[0].v; }
static u128 typedScalar(Sc& s, Ty** tt = 0) { Ty* t = parseType(s); if (tt) *tt = t; return constScalar(s, t); }
static void zeros(Ty* t, std::vector<CLeaf>& out) { std::vector<Leaf> l; leavesOf(t, 0, l); for (auto& x : l) out.push_back({0, x.w}); }
static u64 gepConst(Sc& s) { // after '('
  Ty* bt = parseType(s); s.expect(","); u64 a = (u64)typedScalar(s); Ty* cur = bt; bool first = true;
  while (s.lit(",")) { s.lit("inrange"); Ty* it; u128 v = typedScalar(s, &it); i64 i = (i64)sgn(v, it->w);
    if (first) { a += i * al(bt->size, bt->align); first = false; }
    else if (cur->k == T_STRUCT) { a += cur->off[i]; cur = cur->e[i]; } else { cur = cur->e[0]; a += i * al(cur->size, cur->align); } }
  s.expect(")"); return a;
}
static void parseConst(Sc& s, Ty* t, std::vector<CLeaf>& out) {
  s.ws(); char c = *s.p;
  if (s.word("zeroinitializer") || s.word("undef") || s.word("poison")) { zeros(t, out); return; }
  if (s.word("null") || s.word("none")) { out.push_back({0, 64}); return; }
  if (s.word("true")) { out.push_back({1, 1}); return; }
  if (s.word("false")) { out.push_back({0, 1}); return; }
  if (s.word("splat")) { s.expect("("); std::vector<CLeaf> e; Ty* et = parseType(s); parseConst(s, et, e); s.expect(")"); for (u64 i = 0; i < t->n; i++) out.insert(out.end(), e.begin(), e.end()); return; }
  if (c == '@') { s.p++; std::string n = s.name(); u64 a = symAddr(n); if (!a) die("unknown symbol @%s", n.c_str()); out.push_back({a, 64}); return; }
  if (c == 'c' && s.p[1] == '"') { s.p += 2; while (*s.p != '"') { int v; if (*s.p == '\\' && s.p[1] == '\\') { v = '\\'; s.p += 2; } else if (*s.p == '\\') { char h[3] = {s.p[1], s.p[2], 0}; v = strtol(h, 0, 16); s.p += 3; } else v = (u8)*s.p++; out.push_back({(u128)v, 8}); } s.p++; return; }
  if (c == '{' || c == '[' || (c == '<')) {
    bool pk = c == '<' && s.p[1] == '{'; s.p += pk ? 2 : 1; char close = c == '{' || pk ? '}' : c == '[' ? ']' : '>';
    if (s.peek() != close) do { Ty* et = parseType(s); parseConst(s, et, out); } while (s.lit(","));
    char b[2] = {close, 0}; s.expect(b); if (pk) s.expect(">"); return;
  }
  if (s.word("getelementptr")) { while (s.word("inbounds") || s.word("nuw") || s.word("nusw")) {} if (s.word("inrange")) s.parens(); s.expect("("); out.push_back({gepConst(s), 64}); return; }
  for (const char* o : {"inttoptr", "ptrtoint", "bitcast", "trunc", "zext", "addrspacecast"}) if (s.word(o)) { while (s.word("nuw")||s.word("nsw")) {} s.expect("("); u128 v = typedScalar(s); s.expect("to"); Ty* d = parseType(s); s.expect(")"); out.push_back({v & maskw(d->w), d->w}); return; }
  for (auto o : {std::make_pair("add", E_ADD), std::make_pair("sub", E_SUB), std::make_pair("xor", E_XOR)}) if (s.word(o.first)) { while (s.word("nuw")||s.word("nsw")) {} s.expect("("); Ty* et; u128 a = typedScalar(s, &et); s.expect(","); u128 b = typedScalar(s); s.expect(")"); out.push_back({foldBin(o.second, a, b, et->w), et->w}); return; }
  if (t->k == T_FLT || t->k == T_DBL) {
    std::string x; s.ws(); while (isalnum((u8)*s.p) || *s.p == 0x2e || *s.p == 0x2b || *s.p == 0x2d) x += *s.p++;
    double d; if (x.size() > 2 && x[0] == '0' && x[1] == 'x') { u64 b = strtoull(x.c_str() + 2, 0, 16); memcpy(&d, &b, 8); } else d = strtod(x.c_str(), 0);
    if (t->k == T_DBL) { u64 b; memcpy(&b, &d, 8); out.push_back({b, 64}); } else { float f = (float)d; u32 b; memcpy(&b, &f, 4); out.push_back({b, 32}); } return;
  }
  if (c == '-' || isdigit((u8)c)) { bool neg = c == '-'; if (neg) s.p++; u128 v = 0; while (isdigit((u8)*s.p)) v = v * 10 + (*s.p++ - '0'); if (neg) v = (u128)0 - v; out.push_back({v & maskw(t->w), t->w}); return; }
  die("const? %.100s", std::string(s.p, std::min(s.end, s.p + 100)).c_str());
}
// ---------- module ----------
static std::string text;
Func* funcAt(u64 a) { if (a < FUNC_BASE || (a - FUNC_BASE) % 16) return 0; u64 i = (a - FUNC_BASE) / 16; return i < funcList.size() ? funcList[i] : 0; }
void loadModule(const char* path) {
  int fd = open(path, O_RDONLY); if (fd < 0) die("cannot open %s", path); struct stat st; fstat(fd, &st);
  const char* m = (const char*)mmap(0, st.st_size, PROT_READ, MAP_PRIVATE, fd, 0); const char* end = m + st.st_size;
  std::vector<std::pair<Global*, const char*>> inits; u64 ga = globalBase;
  for (const char* p = m; p < end;) {
    const char* nl = (const char*)memchr(p, '\n', end - p); if (!nl) nl = end;
    if (*p == '@') {
      Sc s{p + 1, nl}; Global* g = new Global(); g->name = s.name(); s.expect("=");
      bool ext = false, isFunAlias = false;
      for (;;) { s.ws(); if (s.word("global")) { g->isConst = false; break; } if (s.word("constant")) { g->isConst = true; break; } if (s.word("alias")) { isFunAlias = true; break; }
        if (s.word("external") || s.word("extern_weak")) { ext = true; continue; }
        std::string w = s.ident(); if (w.empty()) die("global %s", g->name.c_str()); if (s.peek() == '(') s.parens(); }
      if (isFunAlias) { fprintf(stderr, "warning: alias %s ignored\n", g->name.c_str()); p = nl + 1; continue; }
      g->ty = parseType(s); s.ws(); g->init = ext ? 0 : s.p; g->size = g->ty->size;
      u64 align = 16; ga = al(ga, align); g->addr = ga; ga += std::max<u64>(g->size, 1);
      globals[g->name] = g; globalList.push_back(g); if (!ext) inits.push_back({g, nl});
    } else if (!strncmp(p, "define ", 7) || !strncmp(p, "declare ", 8)) {
      bool decl = p[2] == 'c'; Func* f = new Func(); f->decl = decl; f->header = std::string(p, nl); const char* at = 0; int d = 0;
      for (const char* q = p; q < nl; q++) { if (*q == '(') d++; else if (*q == ')') d--; else if (*q == '@' && d == 0) { at = q; break; } }
      Sc s{at + 1, nl}; f->name = s.name(); f->addr = FUNC_BASE + 16 * funcList.size(); f->header = std::string(p, nl);
      funcs[f->name] = f; funcList.push_back(f);
      if (!decl) { f->body = nl + 1; const char* q = nl; for (;;) { q = (const char*)memchr(q, '\n', end - q); if (!q) die("eof in function"); if (q[1] == '}') break; q++; } f->bodyEnd = q + 1; nl = (const char*)memchr(q + 1, '\n', end - q - 1); if (!nl) nl = end; }
    }
    p = nl + 1;
  }
  if (FUNC_BASE + 16 * funcList.size() >= globalBase) die("too many functions");
  globalImage.assign(al(ga - globalBase, 4096), 0);
  for (auto& x : inits) {
    Global* g = x.first; Sc s{g->init, x.second}; std::vector<CLeaf> v; parseConst(s, g->ty, v); std::vector<Leaf> l; leavesOf(g->ty, g->addr - globalBase, l);
    if (l.size() != v.size()) die("initialiser size mismatch for %s: %zu %zu", g->name.c_str(), l.size(), v.size());
    for (size_t i = 0; i < l.size(); i++) for (int b = 0; b < (l[i].w + 7) / 8; b++) globalImage[l[i].off + b] = (u8)(v[i].v >> (8 * b));
  }
}
// ---------- function decoding ----------
struct Dec {
  Func* f; Sc s; std::unordered_map<std::string, std::pair<int, Ty*>> vals; std::unordered_map<std::string, int> blocks; // label -> block number
  struct Phi { int block; int dst; Ty* t; std::vector<std::pair<std::vector<int>, std::string>> in; };
  std::vector<Phi> phis; std::vector<int> blockStart; int curBlock = -1; std::vector<std::string> blockName;
  std::unordered_map<std::string, int> constIdx; struct PendEdge { int from; std::string to; }; std::vector<PendEdge> pend;
  std::vector<Ty*> valTy;
  int newReg(int n) { int r = f->nregs; f->nregs += n; return r; }
  int konst(u128 v, int w) { char k[64]; snprintf(k, 64, "%llx_%llx_%d", (unsigned long long)(v >> 64), (unsigned long long)v, w); auto it = constIdx.find(k); if (it != constIdx.end()) return it->second;
    Val x; if (w <= 64) { x.c = (u64)(v & maskw(w)); x.e = 0; } else { x.c = 0; x.e = mkConst(v, w); }
    f->consts.push_back(x); f->constw.push_back(w); int r = ~(int)(f->consts.size() - 1); constIdx[k] = r; return r; }
  int regOf(const std::string& n, Ty* t) { auto it = vals.find(n); if (it != vals.end()) return it->second.first; int r = newReg(t->leaves); vals[n] = {r, t}; return r; }
  void attrs() { for (;;) { s.ws(); char c = *s.p; if (!isalpha((u8)c)) return; const char* q = s.p;
      for (const char* k : {"null", "undef", "poison", "true", "false", "zeroinitializer", "none", "splat", "getelementptr", "inttoptr", "ptrtoint", "bitcast", "trunc", "zext", "add", "sub", "xor"}) if (s.word(k)) { s.p = q; return; }
      if (c == 'c' && s.p[1] == '"') return;
      std::string w = s.ident(); if (w == "align") { s.ws(); if (*s.p=='(') s.parens(); else s.ident(); } else if (s.p < s.end && *s.p == '(') s.parens(); } }
  std::vector<int> operand(Ty* t) { s.ws(); std::vector<int> r; if (*s.p == '%') { s.p++; std::string n = s.name(); int b = regOf(n, t); for (int i = 0; i < t->leaves; i++) r.push_back(b + i); return r; }
    if (t->k == T_META) { while (s.p < s.end && *s.p != ',' && *s.p != ')') s.p++; return r; }
    std::vector<CLeaf> v; parseConst(s, t, v); for (auto& x : v) r.push_back(konst(x.v, x.w)); if ((int)r.size() != t->leaves) die("operand leaves"); return r; }
  std::vector<int> typed(Ty** tt) { Ty* t = parseType(s); attrs(); if (tt) *tt = t; return operand(t); }
  Op& emit(int opc, int w, int dst, int a = 0, int b = 0, int c = 0, i64 imm = 0, int x = -1) { f->ops.push_back({(u16)opc, (u16)w, imm, dst, a, b, c, x}); return f->ops.back(); }
  void trap(const std::string& m) { f->msgs.push_back(m); emit(O_TRAP, 0, 0, 0, 0, 0, 0, (int)f->msgs.size() - 1); }
  int edgeTo(const std::string& to) { f->edges.push_back({-1, {}}); pend.push_back({curBlock, to}); return (int)f->edges.size() - 1; }
  std::string label() { s.expect("label"); s.expect("%"); return s.name(); }
  void elts(Ty* t, std::vector<int>& w) { std::vector<Leaf> l; leavesOf(t, 0, l); for (auto& x : l) w.push_back(x.w); }
  bool intrinsic(const std::string& n, Ty* rt, std::vector<std::vector<int>>& args, std::vector<Ty*>& at, int dst);
  void call(bool inv, const std::string& res);
  void inst(const std::string& res);
  void run();
};
static const std::vector<std::pair<const char*, Intr>> INTR = {
  {"memcpy.", I_MEMCPY}, {"memmove.", I_MEMMOVE}, {"memset.", I_MEMSET}, {"cttz.", I_CTTZ}, {"ctlz.", I_CTLZ}, {"ctpop.", I_CTPOP}, {"umax.", I_UMAX}, {"umin.", I_UMIN}, {"smax.", I_SMAX}, {"smin.", I_SMIN},
  {"bswap.", I_BSWAP}, {"bitreverse.", I_BITREV}, {"usub.sat.", I_USUBSAT}, {"uadd.sat.", I_UADDSAT}, {"ssub.sat.", I_SSUBSAT}, {"sadd.sat.", I_SADDSAT}, {"uadd.with", I_UADDO}, {"usub.with", I_USUBO}, {"umul.with", I_UMULO}, {"sadd.with", I_SADDO}, {"ssub.with", I_SSUBO}, {"smul.with", I_SMULO},
  {"ucmp.", I_UCMP}, {"scmp.", I_SCMP}, {"fshl.", I_FSHL}, {"fshr.", I_FSHR}, {"abs.", I_ABS}, {"is.constant", I_ISCONST}, {"threadlocal.address", I_TLS},
  {"vector.reduce.and", I_RED_AND}, {"vector.reduce.or", I_RED_OR}, {"vector.reduce.add", I_RED_ADD}, {"vector.reduce.umax", I_RED_UMAX}, {"vector.reduce.umin", I_RED_UMIN}, {"trap", I_TRAP}, {"ptrmask", I_PTRMASK}, {"memcpy.inline", I_MEMCPY}};
bool Dec::intrinsic(const std::string& n, Ty* rt, std::vector<std::vector<int>>& args, std::vector<Ty*>& at, int dst) {
  std::string k = n.substr(5);
  for (const char* skip : {"lifetime.", "experimental.noalias", "assume", "dbg.", "prefetch", "donothing", "x86.sse2.pause", "x86.avx.vzero", "invariant.", "sideeffect", "var.annotation"}) if (!k.compare(0, strlen(skip), skip)) return true;
  if (!k.compare(0, 7, "expect.")) { for (int i = 0; i < rt->leaves; i++) emit(O_MOV, 0, dst + i, args[0][i]); return true; }
  Intr id = I_NONE; for (auto& p : INTR) if (!k.compare(0, strlen(p.first), p.first)) { id = p.second; break; }
  if (id == I_NONE) { trap("intrinsic " + n); return true; }
  int lanes = 1; int w = at.empty() ? 0 : at[0]->k == T_VEC ? at[0]->e[0]->w : at[0]->w;
  if (id >= I_RED_AND && id <= I_RED_UMIN) { int base = (int)f->ints.size(); f->ints.push_back(args[0].size()); for (int a : args[0]) f->ints.push_back(a); emit(O_INTR, w, dst, 0, 0, 0, id, base); return true; }
  if (rt->k == T_VEC) lanes = (int)rt->n;
  bool ovf = id >= I_UADDO && id <= I_SMULO; if (ovf && rt->e[0]->k == T_VEC) { trap("vector overflow intrinsic"); return true; }
  for (int l = 0; l < lanes; l++) {
    int a[3] = {0, 0, 0}; for (size_t i = 0; i < args.size() && i < 3; i++) a[i] = args[i].size() == 1 ? args[i][0] : args[i][l];
    int ww = w; if (id == I_UCMP || id == I_SCMP) ww = at[0]->k == T_VEC ? at[0]->e[0]->w : at[0]->w;
    emit(O_INTR, ww, dst + (ovf ? 0 : l), a[0], a[1], a[2], id, rt->k == T_VEC ? rt->e[0]->w : rt->w);
  }
  return true;
}
void Dec::call(bool inv, const std::string& res) {
  // skip cc / attributes until a type
  for (;;) { s.ws(); if (typeAhead(s)) break; std::string w = s.ident(); if (w.empty()) die("call parse: %.100s", std::string(s.p, std::min(s.end, s.p + 100)).c_str()); if (w == "align" || w == "cc") s.ident(); else if (s.p < s.end && *s.p == '(') s.parens(); }
  Ty* rt = parseType(s); s.ws(); if (*s.p == '(') s.parens();
  s.ws(); int dst = -1; if (!res.empty() && rt->k != T_VOID) dst = regOf(res, rt);
  if (s.word("asm")) { const char* q = s.p; bool empty = strstr(std::string(q, std::min(s.end, q + 60)).c_str(), "\"\", ") != 0; if (empty && rt->k == T_VOID) return; trap("inline asm"); if (inv) {} return; }
  std::string cname; std::vector<int> fp; bool direct = false;
  if (*s.p == '@') { s.p++; cname = s.name(); direct = true; } else if (*s.p == '%') fp = operand(tPtr); else { fp = operand(tPtr); }
  s.expect("("); std::vector<std::vector<int>> args; std::vector<Ty*> at; bool badArg = false;
  if (s.peek() != ')') do { Ty* t; s.ws(); auto a = typed(&t); args.push_back(a); at.push_back(t); } while (s.lit(","));
  s.expect(")"); (void)badArg;
  if (direct && !cname.compare(0, 5, "llvm.")) { intrinsic(cname, rt, args, at, dst); if (!inv) return; }
  else {
    CallInfo ci; ci.f = 0; ci.fp = 0; ci.next = -1;
    if (direct) { auto it = funcs.find(cname); if (it == funcs.end()) die("call to unknown @%s", cname.c_str()); ci.f = it->second; } else ci.fp = fp[0];
    for (size_t i = 0; i < args.size(); i++) { std::vector<Leaf> l; leavesOf(at[i], 0, l); for (size_t j = 0; j < args[i].size(); j++) { ci.args.push_back(args[i][j]); ci.argw.push_back(l[j].w); } }
    std::vector<Leaf> l; leavesOf(rt, 0, l); for (int i = 0; i < rt->leaves; i++) { ci.dsts.push_back(dst < 0 ? -1 : dst + i); ci.dstw.push_back(l[i].w); }
    f->calls.push_back(ci); emit(O_CALL, 0, dst, 0, 0, 0, 0, (int)f->calls.size() - 1);
  }
  if (inv) { // "to label %x unwind label %y"
    while (s.p < s.end && !s.peekWord("to")) { s.ws(); if (*s.p == '(') s.parens(); else if (*s.p=='[') { while (*s.p != ']') s.p++; s.p++; } else if (s.ident().empty()) s.p++; }
    s.expect("to"); std::string l = label(); int e = edgeTo(l); emit(O_BR, 0, 0, 0, 0, 0, 0, e);
  }
}
void Dec::inst(const std::string& res) {
  static const std::map<std::string, int> BIN = {{"add", O_ADD}, {"sub", O_SUB}, {"mul", O_MUL}, {"udiv", O_UDIV}, {"sdiv", O_SDIV}, {"urem", O_UREM}, {"srem", O_SREM}, {"and", O_AND}, {"or", O_OR}, {"xor", O_XOR}, {"shl", O_SHL}, {"lshr", O_LSHR}, {"ashr", O_ASHR}};
  static const std::map<std::string, int> PRED = {{"eq", O_EQ}, {"ne", O_NE}, {"ult", O_ULT}, {"ule", O_ULE}, {"ugt", O_UGT}, {"uge", O_UGE}, {"slt", O_SLT}, {"sle", O_SLE}, {"sgt", O_SGT}, {"sge", O_SGE}};
  const char* start = s.p; std::string op = s.ident();
  if (op == "tail" || op == "musttail" || op == "notail") op = s.ident();
  auto bi = BIN.find(op);
  if (bi != BIN.end()) { while (s.word("nuw") || s.word("nsw") || s.word("exact") || s.word("disjoint")) {} Ty* t = parseType(s); auto a = operand(t); s.expect(","); auto b = operand(t); int d = regOf(res, t); std::vector<int> w; elts(t, w); for (int i = 0; i < t->leaves; i++) emit(bi->second, w[i], d + i, a[i], b[i]); return; }
  if (op == "icmp") { s.word("samesign"); std::string p = s.ident(); Ty* t = parseType(s); auto a = operand(t); s.expect(","); auto b = operand(t); Ty* rt = t->k == T_VEC ? mkSeq(T_VEC, t->n, tInt(1)) : tInt(1); int d = regOf(res, rt); std::vector<int> w; elts(t, w); for (int i = 0; i < t->leaves; i++) emit(PRED.at(p), w[i], d + i, a[i], b[i]); return; }
  if (op == "call") { call(false, res); return; }
  if (op == "invoke") { call(true, res); return; }
  if (op == "load") { s.word("atomic"); s.word("volatile"); Ty* t = parseType(s); s.expect(","); auto a = typed(0); int d = regOf(res, t); LoadInfo li; leavesOf(t, 0, li.lv); if (t->k == T_VEC && t->e[0]->w < 8) { int n = t->e[0]->w * (int)t->n; if (n % 8 || n > 64) { trap("load of packed vector"); return; } Ty* q = tInt(n); LoadInfo pl; leavesOf(q, 0, pl.lv); f->loads.push_back(pl); int tmp = newReg(1); emit(O_LOAD, n, tmp, a[0], 0, 0, n / 8, (int)f->loads.size() - 1); for (int i = 0; i < (int)t->n; i++) emit(O_EXTRACT, t->e[0]->w, d + i, tmp, 0, 0, i * t->e[0]->w, n); return; } f->loads.push_back(li); emit(O_LOAD, li.lv.size() == 1 ? li.lv[0].w : 0, d, a[0], 0, 0, t->size, (int)f->loads.size() - 1); return; }
  if (op == "store") { s.word("atomic"); s.word("volatile"); Ty* t; auto v = typed(&t); s.expect(","); auto a = typed(0); if (t->k == T_VEC && t->e[0]->w < 8) { int n = t->e[0]->w * (int)t->n; if (n % 8 || n > 64) { trap("store of packed vector"); return; } int b0 = (int)f->ints.size(); f->ints.push_back((int)t->n); f->ints.push_back(t->e[0]->w); for (int x : v) f->ints.push_back(x); int tmp = newReg(1); emit(O_CONCATN, n, tmp, 0, 0, 0, 0, b0); LoadInfo pl; leavesOf(tInt(n), 0, pl.lv); f->loads.push_back(pl); int b1 = (int)f->ints.size(); f->ints.push_back(tmp); emit(O_STORE, n, b1, a[0], tmp, 0, n / 8, (int)f->loads.size() - 1); return; } LoadInfo li; leavesOf(t, 0, li.lv); f->loads.push_back(li); int base = (int)f->ints.size(); for (int x : v) f->ints.push_back(x); emit(O_STORE, li.lv.size() == 1 ? li.lv[0].w : 0, base, a[0], v.size() ? v[0] : 0, 0, t->size, (int)f->loads.size() - 1); return; }
  if (op == "getelementptr") {
    while (s.word("inbounds") || s.word("nuw") || s.word("nusw")) {} Ty* bt = parseType(s); s.expect(","); Ty* pt; auto b = typed(&pt); int d = regOf(res, tPtr); if (pt->k == T_VEC) { trap("vector gep"); return; }
    i64 off = 0; int cur = b[0]; Ty* ct = bt; bool first = true;
    while (s.lit(",")) { if (s.peek() == '!') break; Ty* it; auto ix = typed(&it); if (it->k == T_VEC) { trap("vector gep"); return; }
      if (!first && ct->k == T_STRUCT) { i64 i = (i64)f->consts[~ix[0]].c; off += ct->off[i]; ct = ct->e[i]; continue; }
      u64 sc; if (first) { sc = al(bt->size, bt->align); first = false; } else { ct = ct->e[0]; sc = al(ct->size, ct->align); }
      if (ix[0] < 0 && !f->consts[~ix[0]].e) off += (i64)sgn(f->consts[~ix[0]].c, it->w) * (i64)sc;
      else { int r = newReg(1); emit(O_GEPI, it->w, r, cur, ix[0], 0, (i64)sc); cur = r; } }
    emit(O_GEPC, 64, d, cur, 0, 0, off); return;
  }
  if (op == "br") { if (s.peekWord("label")) { std::string l = label(); int e = edgeTo(l); emit(O_BR, 0, 0, 0, 0, 0, 0, e); return; }
    auto c = typed(0); s.expect(","); std::string a = label(); s.expect(","); std::string b = label(); int e1 = edgeTo(a), e2 = edgeTo(b); emit(O_CBR, 1, 0, c[0], e1, e2); return; }
  if (op == "switch") { Ty* t; auto v = typed(&t); s.expect(","); SwitchInfo si; si.def = edgeTo(label()); s.expect("["); while (s.peek() != ']') { u128 k = typedScalar(s); s.expect(","); int e = edgeTo(label()); si.cs.push_back({(u64)k, e}); si.map[(u64)k] = e; } f->switches.push_back(si); emit(O_SWITCH, t->w, 0, v[0], 0, 0, 0, (int)f->switches.size() - 1); return; }
  if (op == "phi") { while (!typeAhead(s)) s.ident(); Ty* t = parseType(s); Phi ph; ph.block = curBlock; ph.t = t; ph.dst = regOf(res, t); do { s.expect("["); auto v = operand(t); s.expect(","); s.expect("%"); std::string l = s.name(); s.expect("]"); ph.in.push_back({v, l}); } while (s.lit(",") && s.peek() == '['); phis.push_back(ph); return; }
  if (op == "ret") { Ty* t = parseType(s); int base = (int)f->ints.size(); if (t->k != T_VOID) { attrs(); auto v = operand(t); for (int x : v) f->ints.push_back(x); emit(O_RET, 0, 0, base, (int)v.size()); } else emit(O_RET, 0, 0, base, 0); return; }
  if (op == "zext" || op == "sext" || op == "trunc" || op == "ptrtoint" || op == "inttoptr" || op == "addrspacecast" || op == "ptrtoaddr") {
    while (s.word("nneg") || s.word("nuw") || s.word("nsw")) {} Ty* t; auto a = typed(&t); s.expect("to"); Ty* d = parseType(s); int r = regOf(res, d); std::vector<int> wa, wd; elts(t, wa); elts(d, wd);
    for (size_t i = 0; i < a.size(); i++) emit(wd[i] == wa[i] ? O_MOV : wd[i] < wa[i] ? O_TRNC : op == "sext" ? O_SEXT : O_ZEXT, wd[i], r + i, a[i], 0, 0, wa[i]); return; }
  if (op == "freeze") { Ty* t; auto a = typed(&t); int r = regOf(res, t); for (size_t i = 0; i < a.size(); i++) emit(O_MOV, 0, r + i, a[i]); return; }
  if (op == "select") { Ty* ct; auto c = typed(&ct); s.expect(","); Ty* t; auto a = typed(&t); s.expect(","); auto b = typed(0); int r = regOf(res, t); std::vector<int> w; elts(t, w); for (size_t i = 0; i < a.size(); i++) emit(O_SELECT, w[i], r + i, c.size() == 1 ? c[0] : c[i], a[i], b[i]); return; }
  if (op == "extractvalue") { Ty* t; auto a = typed(&t); int base = 0; while (s.lit(",")) { s.ws(); if (!isdigit((u8)*s.p)) break; int i = atoi(s.ident().c_str()); if (t->k == T_STRUCT) { for (int j = 0; j < i; j++) base += t->e[j]->leaves; t = t->e[i]; } else { t = t->e[0]; base += i * t->leaves; } } int r = regOf(res, t); for (int i = 0; i < t->leaves; i++) emit(O_MOV, 0, r + i, a[base + i]); return; }
  if (op == "insertvalue") { Ty* t; auto a = typed(&t); Ty* full = t; s.expect(","); auto v = typed(0); int base = 0; while (s.lit(",")) { s.ws(); if (!isdigit((u8)*s.p)) break; int i = atoi(s.ident().c_str()); if (t->k == T_STRUCT) { for (int j = 0; j < i; j++) base += t->e[j]->leaves; t = t->e[i]; } else { t = t->e[0]; base += i * t->leaves; } } int r = regOf(res, full); for (int i = 0; i < full->leaves; i++) emit(O_MOV, 0, r + i, i >= base && i < base + (int)v.size() ? v[i - base] : a[i]); return; }
  if (op == "extractelement") { Ty* t; auto a = typed(&t); s.expect(","); auto i = typed(0); int r = regOf(res, t->e[0]); if (i[0] >= 0) { trap("extractelement variable index"); return; } emit(O_MOV, 0, r, a[f->consts[~i[0]].c]); return; }
  if (op == "insertelement") { Ty* t; auto a = typed(&t); s.expect(","); auto v = typed(0); s.expect(","); auto i = typed(0); int r = regOf(res, t); if (i[0] >= 0) { trap("insertelement variable index"); return; } u64 k = f->consts[~i[0]].c; for (size_t j = 0; j < a.size(); j++) emit(O_MOV, 0, r + j, j == k ? v[0] : a[j]); return; }
  if (op == "shufflevector") { Ty* t; auto a = typed(&t); s.expect(","); auto b = typed(0); s.expect(","); Ty* mt; auto m = typed(&mt); Ty* rt = mkSeq(T_VEC, mt->n, t->e[0]); int r = regOf(res, rt); for (size_t j = 0; j < m.size(); j++) { u64 k = f->consts[~m[j]].c; emit(O_MOV, 0, r + j, k < a.size() ? a[k] : b[k - a.size()]); } return; }
  if (op == "bitcast") { Ty* t; auto a = typed(&t); s.expect("to"); Ty* d = parseType(s); int r = regOf(res, d); std::vector<int> wa, wd; elts(t, wa); elts(d, wd);
    if (wa.size() == wd.size()) { for (size_t i = 0; i < a.size(); i++) emit(O_MOV, 0, r + i, a[i]); return; }
    if (wd[0] > wa[0]) { int k = wd[0] / wa[0]; for (size_t i = 0; i < wd.size(); i++) { int base = (int)f->ints.size(); f->ints.push_back(k); f->ints.push_back(wa[0]); for (int j = 0; j < k; j++) f->ints.push_back(a[i * k + j]); emit(O_CONCATN, wd[0], r + i, 0, 0, 0, 0, base); } }
    else { int k = wa[0] / wd[0]; for (size_t i = 0; i < wd.size(); i++) emit(O_EXTRACT, wd[0], r + i, a[i / k], 0, 0, (i % k) * wd[0], wa[0]); }
    return; }
  if (op == "alloca") { s.word("inalloca"); Ty* t = parseType(s); u64 n = 1; i64 align = t->align; while (s.lit(",")) { s.ws(); if (s.word("align")) { align = atoi(s.ident().c_str()); } else if (*s.p == '!') break; else { Ty* it; auto x = typed(&it); if (x[0] >= 0) { trap("dynamic alloca"); return; } n = f->consts[~x[0]].c; } } int r = regOf(res, tPtr); emit(O_ALLOCA, 64, r, (int)align, 0, 0, (i64)(n * t->size)); return; }
  if (op == "unreachable") { emit(O_UNREACH, 0, 0); return; }
  if (op == "fence") return;
  if (op == "atomicrmw") { s.word("volatile"); std::string o = s.ident(); auto p = typed(0); s.expect(","); Ty* t; auto v = typed(&t); int r = regOf(res, t); static const std::map<std::string, int> M = {{"add", O_ADD}, {"sub", O_SUB}, {"and", O_AND}, {"or", O_OR}, {"xor", O_XOR}, {"xchg", O_MOV}}; auto it = M.find(o); if (it == M.end()) { trap("atomicrmw " + o); return; } emit(O_RMW, t->w, r, p[0], v[0], 0, it->second); return; }
  if (op == "cmpxchg") { s.word("weak"); s.word("volatile"); auto p = typed(0); s.expect(","); Ty* t; auto c = typed(&t); s.expect(","); auto n = typed(0); Ty* rt = mkStruct({t, tInt(1)}, false); int r = regOf(res, rt); emit(O_CMPXCHG, t->w, r, p[0], c[0], n[0]); return; }
  if (op == "landingpad" || op == "resume") { if (op == "landingpad") { Ty* t = parseType(s); if (!res.empty()) regOf(res, t); } trap(op); return; }
  // anything else (floating point, va_arg, ...): give the result a type when we can, and trap if executed
  std::string line(start, std::min(s.end, start + 120));
  if (!res.empty()) {
    while (s.p < s.end && !typeAhead(s)) { s.ws(); if (s.ident().empty()) break; }
    Ty* t = parseType(s); if (op == "fcmp") t = tInt(1); const char* to = strstr(line.c_str(), " to "); if (to) { Sc q{start + (to - line.c_str()) + 4, s.end}; t = parseType(q); }
    regOf(res, t);
  }
  trap("instruction " + line);
}
void Dec::run() {
  // parameters
  { Sc h{f->header.c_str(), f->header.c_str() + f->header.size()}; s = h; size_t at = std::string::npos; int d = 0; for (size_t i = 0; i < f->header.size(); i++) { char c = f->header[i]; if (c == '(') d++; else if (c == ')') d--; else if (c == '@' && d == 0) { at = i; break; } }
    // return type
    s.p = f->header.c_str() + 7; for (;;) { s.ws(); if (typeAhead(s)) break; std::string w = s.ident(); if (w.empty()) die("header %s", f->header.c_str()); if (w == "align" || w == "cc") s.ident(); else if (*s.p == '(') s.parens(); }
    Ty* rt = parseType(s); elts(rt, f->retw);
    s.p = f->header.c_str() + at + 1; s.name(); s.expect("("); int n = 0;
    if (s.peek() != ')') do { if (s.lit("...")) break; Ty* t = parseType(s); attrs(); s.ws(); std::string nm; if (*s.p == '%') { s.p++; nm = s.name(); } else nm = "$arg" + std::to_string(n); n++; regOf(nm, t); elts(t, f->paramw); } while (s.lit(","));
    f->nparams = f->nregs; }
  // split into logical lines
  std::vector<std::pair<std::string, std::string>> dummy; const char* p = f->body; std::string line; std::vector<std::string> lines;
  while (p < f->bodyEnd) { const char* nl = (const char*)memchr(p, '\n', f->bodyEnd - p); if (!nl) nl = f->bodyEnd; std::string l(p, nl); p = nl + 1; if (l.empty()) continue;
    bool cont = !lines.empty() && (l.compare(0, 10, "          ") == 0 || (lines.back().find("switch ") != std::string::npos && lines.back().compare(0, 2, "  ") == 0 && lines.back().find("  switch ") == 0 && lines.back().find(']') == std::string::npos));
    if (cont) lines.back() += "\n" + l; else lines.push_back(l); }
  bool started = false; auto begin = [&](const std::string& n) { curBlock = (int)blockStart.size(); blockStart.push_back((int)f->ops.size()); blockName.push_back(n); blocks[n] = curBlock; started = true; };
  // implicit entry label number: parameters unnamed take %0.. ; entry block gets next number
  for (auto& l : lines) {
    if (l[0] != ' ' ) { if (l[0] == ';') continue; std::string n; if (l[0] == '"') n = l.substr(1, l.find('"', 1) - 1); else n = l.substr(0, l.find(':')); begin(n); continue; }
    if (!started) { // entry label: if unnamed, its number is the count of unnamed params
      int k = 0; while (vals.count(std::to_string(k))) k++; begin(std::to_string(k)); }
    s.p = l.c_str(); s.end = l.c_str() + l.size(); s.ws(); std::string res; if (*s.p == '%') { s.p++; res = s.name(); s.expect("="); s.ws(); }
    if (*s.p == '#') continue; // debug records
    inst(res);
  }
  // edges
  for (size_t i = 0; i < pend.size(); i++) { Edge& e = f->edges[i]; auto it = blocks.find(pend[i].to); if (it == blocks.end()) die("label %s in %s", pend[i].to.c_str(), f->name.c_str()); e.target = blockStart[it->second];
    for (auto& ph : phis) if (ph.block == it->second) { bool ok = false; for (auto& in : ph.in) { auto b = blocks.find(in.second); if (b != blocks.end() && b->second == pend[i].from) { for (int j = 0; j < ph.t->leaves; j++) e.mv.push_back({ph.dst + j, in.first[j]}); ok = true; break; } } if (!ok) die("phi edge missing in %s", f->name.c_str()); } }
}
void decodeFunc(Func* f) { if (f->decoded) return; f->decoded = true; Dec d; d.f = f; d.s = Sc{0, 0}; d.run(); }
