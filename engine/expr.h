// Hash-consed bit-vector expressions with a local simplifier.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <map>
#include <set>
#include <memory>
#include <algorithm>
#include <functional>
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
typedef int64_t i64; typedef unsigned __int128 u128; typedef __int128 i128;

[[noreturn]] void die(const char* fmt, ...);

enum EOp : u8 { E_CONST, E_VAR, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_AND, E_OR, E_XOR,
  E_SHL, E_LSHR, E_ASHR, E_EQ, E_ULT, E_ULE, E_SLT, E_SLE, E_ITE, E_ZEXT, E_SEXT, E_EXTRACT, E_CONCAT };

struct Expr {
  u8 op; u8 w; u32 id;
  Expr* k[3];
  u128 c;              // const value / var index / extract low bit
  int sup;             // -1: no vars, >=0: exactly that var, -2: several
  std::vector<int>* vars; // when sup==-2
  u32 ep; u128 ev;     // evaluation memo
  u64* dom;            // 256-bit satisfying set, for a 1-bit expr over one <=8-bit var
  void* z;             // z3 ast (bit-vector view)
  void* zb;            // z3 ast (boolean view, width 1)
};

inline u128 maskw(int w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline i128 sgn(u128 v, int w) { if (w >= 128) return (i128)v; u128 s = (u128)1 << (w - 1); return (i128)((v ^ s)) - (i128)s; }

extern std::vector<int> varWidth; // widths of symbolic variables

Expr* mkConst(u128 v, int w);
Expr* mkVar(int idx, int w);
Expr* mkBin(int op, Expr* a, Expr* b);
Expr* mkCmp(int op, Expr* a, Expr* b);
Expr* mkIte(Expr* c, Expr* a, Expr* b);
Expr* mkZext(Expr* a, int w);
Expr* mkSext(Expr* a, int w);
Expr* mkExtract(Expr* a, int lo, int w);
Expr* mkConcat(Expr* hi, Expr* lo);
inline Expr* mkNot(Expr* a) { return mkBin(E_XOR, a, mkConst(maskw(a->w), a->w)); }
u128 foldBin(int op, u128 a, u128 b, int w);
bool foldCmp(int op, u128 a, u128 b, int w);
typedef std::vector<u64> Model;
u128 evalExpr(Expr* e, const Model& m);
extern u32 curEpoch;      // identifies the model `evalExpr` evaluates under (memo key)
u32 freshEpoch();
const u64* domOf(Expr* e); // requires e->sup >= 0 and width of that var <= 8
u64 exprCount();
std::string show(Expr* e, int depth = 6);
