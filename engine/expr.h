// Hash-consed expression DAG used by irvc.  Bit vectors up to 64 bits, booleans as width 1,
// mathematical reals (width 0) for floating point, byte arrays as named array variables.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <set>
#include <functional>
#include <memory>

enum Op : uint8_t {
	CONST, VAR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
	CONCAT, EXTRACT, ZEXT, SEXT, EQ, ULT, ULE, SLT, SLE, ITE, SELECT,
	RCONST, RVAR, RADD, RSUB, RMUL, RDIV, RLT, RLE, REQ, U2R, S2R, R2U, R2S, R2BITS, BITS2R, UF
};

struct Node {
	Op op;
	bool hasReal;
	bool hasArr;
	uint16_t w;          // 0: real
	uint32_t id;
	uint64_t val;        // CONST value, EXTRACT low bit, VAR/SELECT variable index, UF index
	long double rval;    // RCONST
	const Node *c[3];
	uint8_t nc;
	mutable int depth;
	mutable std::shared_ptr<std::vector<uint32_t>> vars; // sorted variable ids (lazily)
	mutable void *z3ast = nullptr;
	mutable uint64_t evalEpoch = 0;
	mutable uint64_t evalVal = 0;
};
typedef const Node *E;

struct VarInfo { std::string name; uint16_t w; bool isArr; bool isReal; };
extern std::vector<VarInfo> g_vars;
extern std::vector<std::string> g_ufs;

inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
inline int64_t sextw(uint64_t v, unsigned w) { if(w >= 64) return (int64_t)v; uint64_t m = 1ULL << (w - 1); return (int64_t)(((v & maskw(w)) ^ m) - m); }

E mkConst(uint64_t v, unsigned w);
E mkVar(const std::string &name, unsigned w);
E mkRVar(const std::string &name);
uint32_t mkArr(const std::string &name, unsigned w = 8); // element width 8 or 64
E mkReal(long double v);
E mkBin(Op op, E a, E b);       // ADD..ASHR
E mkCmp(Op op, E a, E b);       // EQ ULT ULE SLT SLE
E mkNot(E a);                   // width 1
E mkAnd(E a, E b);              // width 1
E mkOr(E a, E b);
E mkIte(E c, E a, E b);
E mkExtract(E a, unsigned lo, unsigned w);
E mkConcat(E hi, E lo);
E mkZext(E a, unsigned w);
E mkSext(E a, unsigned w);
E mkSelect(uint32_t arr, E idx);
E mkR(Op op, E a, E b, int fbits); // RADD..RDIV: fbits = 32/64/80 for rounding concrete folds
E mkRCmp(Op op, E a, E b);
E mkI2R(E a, bool isSigned);
E mkR2I(E a, unsigned w, bool isSigned);
E mkR2Bits(E a);
E mkBits2R(E a);
E mkUF(const std::string &name, std::vector<E> args, unsigned w);

inline bool isC(E e) { return e->op == CONST; }
inline bool isT(E e) { return e->op == CONST and e->val; }
inline bool isF(E e) { return e->op == CONST and not e->val; }
inline E mkTrue() { return mkConst(1, 1); }
inline E mkFalse() { return mkConst(0, 1); }
const std::vector<uint32_t> & varsOf(E e);

struct Model {
	std::unordered_map<uint32_t, uint64_t> v;
	std::unordered_map<uint32_t, std::map<uint64_t, uint64_t>> arr;
	std::unordered_map<uint32_t, uint64_t> arrDefault;
	std::unordered_map<uint32_t, std::string> rv; // rational text
	std::unordered_map<uint32_t, long double> rvl;
};
bool evalBV(E e, const Model &m, uint64_t *out); // false if it involves reals/UF
std::string toStr(E e, int depth = 6);
E substE(E e, std::unordered_map<E, E> &m);
