// Path-sensitive (property-simulation style) abstract interpreter over LLVM IR.
// Sources are compiled at -O0 with debug info and promoted to SSA (mem2reg); nothing is executed.
#pragma once
#include "llvm/ADT/APInt.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <bitset>
#include <climits>
#include <deque>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <tuple>
#include <unordered_map>
#include <vector>

using namespace llvm;
typedef std::bitset<256> TySet;  // set of possible i8 type tags, index = (uint8_t)tag

enum Kind { K_INT, K_NULL, K_GLOB, K_PARAM, K_FRESH, K_OLD, K_ADDR, K_IDX, K_LOAD, K_BIN, K_CAST, K_CMP, K_ALLOCA, K_UNDEF };

struct Term {
    Kind k;
    const Term *a, *b;
    int64_t c;
    const Value *v;
    unsigned w;  // bit width for ints, 64 for pointers
    int id;
};
typedef const Term *T;
struct TLess {
    bool operator()(T x, T y) const { return x->id < y->id; }
};

struct Fact {
    bool hasTy = false;
    TySet ty;                    // allowed values for 8-bit terms
    int64_t lo = INT64_MIN, hi = INT64_MAX;  // signed interval
    std::set<int64_t> ne;        // excluded values (for pointers: 0 = null)
    bool trivial() const { return !hasTy && lo == INT64_MIN && hi == INT64_MAX && ne.empty(); }
    bool operator==(const Fact &o) const {
        return hasTy == o.hasTy && (!hasTy || ty == o.ty) && lo == o.lo && hi == o.hi && ne == o.ne;
    }
};
struct Rel {  // a pred b holds; pred normalised to EQ NE SLT SLE ULT ULE
    int p;
    T a, b;
    bool operator<(const Rel &o) const {
        return std::make_tuple(p, a->id, b->id) < std::make_tuple(o.p, o.a->id, o.b->id);
    }
    bool operator==(const Rel &o) const { return p == o.p && a == o.a && b == o.b; }
};

struct State {
    std::map<const Value *, T> env;
    std::map<T, T, TLess> mem;
    std::map<T, Fact, TLess> facts;
    std::set<Rel> rels;
    std::map<T, int, TLess> cnt;   // references held by this activation (tracked resources)
    std::set<T, TLess> rel;        // released terms
    std::set<T, TLess> unt;        // untracked (escaped) terms
    std::set<T, TLess> sto;        // terms whose reference was handed to some container
    std::set<T, TLess> uni;        // objects nothing else can refer to
    std::set<T, TLess> tru;        // objects built on this path, with everything in them
    std::set<T, TLess> own;        // containers whose elements nothing else refers to
    std::map<T, T, TLess> org;     // loaded pointers and the address they were read from
    std::set<T, TLess> esc;        // locals whose address escaped into a call
    const BasicBlock *retFrom = nullptr;
    std::map<std::string, int> ctr;  // named counters (stack depth, ...)
    std::set<int> wrote;             // slot parameters written on this path
    bool clob = false;
    std::set<const Value *> pend;    // calls that failed on this path and whose result nothing has looked at yet
};

enum RetKind { R_VOID, R_NULL, R_NULLOBJ, R_ERR, R_PARAM, R_OWNED, R_BORROWED, R_CONST, R_OTHER, R_SLOT };
struct Outcome {
    std::map<int, int> delta;
    std::set<int> released;
    std::map<std::string, int> ctr;
    RetKind rk = R_VOID;
    int ri = 0;       // param index / constant
    int rcnt = 0;     // extra references on a returned param
    bool hasTy = false;
    bool fresh = false;  // an owned result nothing else refers to
    bool tru = false, own = false;
    std::set<int> puniq; // parameters found to be unshared
    std::set<int> pown, pslot;  // parameters whose elements / slot content were found or made unshared
    TySet ty;         // type tags of an owned result
    T term = nullptr;              // closed form of the result over the parameters
    T tyT = nullptr;               // closed form of the result's type tag over the parameters
    std::map<int, TySet> pty;      // what the path established about parameter type tags
    const Instruction *at = nullptr;
    std::map<int, Fact> pint;      // what the path established about integer parameters
    std::map<int, int> pnull;      // 1: parameter was null, 0: it was not
    std::set<int> wrote;           // slot parameters this outcome wrote
};
struct Summary {
    bool known = false, incomplete = false, noreturn = false;
    bool same = false;             // the result has the tag of the first argument, or is an error
    bool pure = false;             // writes no memory that existed before the call
    std::set<int> writes;          // parameters written through directly
    std::map<int, int> mut;        // parameter -> 1 writes its object, 2 writes objects reached through it
    std::map<int, TySet> mutTy;    // parameter -> types of the containers whose elements are written
    std::set<std::pair<int, int>> via;  // parameter p is handed to the function in parameter q
    std::set<int> takes;           // parameters whose pointed-to object reference moves into the callee's container
    std::vector<Outcome> outs;
};

struct Report {
    std::string rule, func, file, key, msg;
    int line;
    std::string site;
};
