// Textual LLVM IR -> flat register code.
#pragma once
#include "expr.h"

enum TK : u8 { T_VOID, T_INT, T_PTR, T_FLT, T_DBL, T_VEC, T_ARR, T_STRUCT, T_LABEL, T_META };
struct Ty { TK k; int w; u64 n; bool packed; std::vector<Ty*> e; u64 size, align; int leaves; std::vector<u64> off; };
struct Leaf { u64 off; int w; };            // byte offset, width in bits
void leavesOf(Ty* t, u64 base, std::vector<Leaf>& out);

struct Val { u64 c; Expr* e; };             // e==0: concrete c (width<=64); wider values always carry e

enum Opc : u16 { O_NOP, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
  O_EQ, O_NE, O_ULT, O_ULE, O_UGT, O_UGE, O_SLT, O_SLE, O_SGT, O_SGE,
  O_ZEXT, O_SEXT, O_TRNC, O_MOV, O_SELECT, O_CONCATN, O_EXTRACT,
  O_LOAD, O_STORE, O_GEPC, O_GEPI, O_ALLOCA, O_BR, O_CBR, O_SWITCH, O_RET, O_CALL, O_UNREACH, O_TRAP,
  O_INTR, O_RMW, O_CMPXCHG };

enum Intr : u16 { I_NONE, I_MEMCPY, I_MEMMOVE, I_MEMSET, I_CTTZ, I_CTLZ, I_CTPOP, I_ASSUME, I_UMAX, I_UMIN, I_SMAX, I_SMIN, I_BSWAP, I_BITREV,
  I_USUBSAT, I_UADDSAT, I_SSUBSAT, I_SADDSAT, I_UADDO, I_USUBO, I_UMULO, I_SADDO, I_SSUBO, I_SMULO, I_UCMP, I_SCMP, I_FSHL, I_FSHR, I_ABS, I_ISCONST, I_TLS,
  I_RED_AND, I_RED_OR, I_RED_ADD, I_RED_UMAX, I_RED_UMIN, I_TRAP, I_PTRMASK };

struct Op { u16 opc; u16 w; i64 imm; int dst, a, b, c; int x; };  // operands: >=0 register, <0 constant ~i ; x: side table index

struct Func;
struct CallInfo { Func* f; int fp; std::vector<int> args; std::vector<int> argw; std::vector<int> dsts; std::vector<int> dstw; int next; }; // next: edge index for invoke (or -1)
struct Edge { int target; std::vector<std::pair<int,int>> mv; };
struct SwitchInfo { std::vector<std::pair<u64,int>> cs; int def; std::unordered_map<u64,int> map; };
struct LoadInfo { std::vector<Leaf> lv; };
struct Func {
  std::string name; u64 addr; bool decl; const char* body; const char* bodyEnd; std::string header;
  bool decoded = false; int nregs = 0, nparams = 0;
  std::vector<int> paramw; std::vector<int> retw;
  std::vector<Op> ops; std::vector<Val> consts; std::vector<int> constw;
  std::vector<Edge> edges; std::vector<CallInfo> calls; std::vector<SwitchInfo> switches; std::vector<LoadInfo> loads; std::vector<std::string> msgs;
  std::vector<int> ints; // generic int lists
  int builtin = 0; bool builtinChecked = false; u64 execs = 0; u64 ninstr = 0;
};
struct Global { std::string name; u64 addr, size; Ty* ty; const char* init; bool isConst; };

extern std::unordered_map<std::string, Func*> funcs;
extern std::unordered_map<std::string, Global*> globals;
extern std::vector<Func*> funcList; extern std::vector<Global*> globalList;
extern std::vector<u8> globalImage; extern u64 globalBase;
const u64 FUNC_BASE = 0x10000;
void loadModule(const char* path);
void decodeFunc(Func* f);
Func* funcAt(u64 addr);
