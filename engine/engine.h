#pragma once
#include "expr.h"
#include "solver.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/DataLayout.h>
#include <atomic>
#include <list>

using namespace llvm;

static const unsigned ADDR_SHIFT = 40;
static const uint64_t ADDR_BASE = 1ULL << 36;
static const uint64_t MAX_OBJ = 1ULL << 38;

struct Chain {
	enum T : uint8_t { ST, CPY, FILL, BASE } t;
	E off = nullptr; uint32_t n = 0; E val = nullptr; E len = nullptr;
	std::shared_ptr<Chain> src; E srcoff = nullptr;
	std::shared_ptr<Chain> prev;
	// BASE
	bool constBase = false; uint8_t fill = 0; uint32_t arr = 0;
	std::shared_ptr<std::string> bytes; // constant initial bytes (beyond: fill)
	int depth = 0;
};
typedef std::shared_ptr<Chain> ChainP;

struct Cell { uint32_t n; E v; };
enum Init : uint8_t { I_UNDEF, I_ZERO, I_SYM };

struct Obj {
	uint32_t id = 0;
	uint64_t csize = 0; E ssize = nullptr;
	Init init = I_UNDEF;
	bool freed = false, ro = false, heap = false, stack = false, chained = false, strict = false;
	std::string name;
	std::map<uint64_t, Cell> cells;
	ChainP chain;
	E sizeE() const { return ssize ? ssize : mkConst(csize, 64); }
};
typedef std::shared_ptr<Obj> ObjP;

struct FInfo {
	Function *f; unsigned nslots = 0;
	std::unordered_map<const Value *, unsigned> slot;
	bool loopsDone = false;
	std::set<BasicBlock *> headers;
	std::map<BasicBlock *, std::set<BasicBlock *>> loopBlocks;
};

struct Frame {
	Function *f; FInfo *fi; BasicBlock *bb, *prev; BasicBlock::iterator it;
	std::vector<E> regs; std::vector<uint32_t> allocas; CallBase *site = nullptr;
	std::map<const Instruction *, int> forks;
	std::vector<E> varargs;
	std::map<const BasicBlock *, std::pair<int, size_t>> backs; // back edges taken with new path conditions
};

struct Nondet { std::string name; char kind; E e; uint32_t arr; }; // kind: u (bv) r (real) b (bytes) c (choice)

struct LoopSum; 
struct State {
	std::vector<Frame> st;
	std::vector<ObjP> mem;
	std::vector<E> pc;
	std::shared_ptr<Model> model; // of the whole path condition
	bool unk = false; // some branch of the path may be infeasible: the solver did not say
	std::vector<Nondet> nd;
	std::map<std::string, int64_t> cfg;
	std::vector<std::string> notes;
	uint64_t steps = 0;
	bool bounded = false;
	// loop summarisation context
	LoopSum *sum = nullptr; int sumDepth = 0; bool abs = false;
};
typedef std::unique_ptr<State> StateP;
