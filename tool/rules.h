#pragma once
#include "engine.h"
enum PK { P_OTHER, P_OBJ, P_SLOT, P_RAW };
struct Config {
    size_t maxStates = 600;
    int maxSteps = 60000;
};
extern Module *M;
extern const DataLayout *DL;
extern std::map<const Function *, Summary> SUM;
extern std::vector<Report> REPORTS;
extern Config CFG;

struct Entry { State S; int round; };
struct FnAnalysis {
    const Function *F;
    DominatorTree DT;
    LoopInfo LI;
    std::map<const BasicBlock *, std::set<const Value *>> liveIn, liveOut;
    std::set<const BasicBlock *> retBlocks;
    std::set<const PHINode *> flagPhis, headerPhis;
    std::map<const BasicBlock *, std::map<std::string, Entry>> states;
    std::deque<std::pair<const BasicBlock *, std::string>> work;
    std::set<const Value *> ownedFresh, rawAlloc, indirectOwned;
    std::vector<Outcome> outs;
    bool reporting = false, incomplete = false, writesMem = false;
    std::set<int> writes;
    std::map<int, std::pair<int, const Instruction *>> mut;  // see Summary::mut
    std::map<int, TySet> mutTy;
    void noteWrite(State &S, T addr, const Instruction *I);
    void noteInner(State &S, T x, const Instruction *I, const std::string &by, int q = -1);
    std::set<std::pair<int, int>> via;
    void noteMut(State &S, T obj, const Instruction *I, const std::string &by, const TySet *lim = nullptr);
    void applyMut(State &S, const CallBase *C, const Function *Cal, const Summary &sm, std::vector<T> &args, int shift);
    size_t nstates = 0;

    FnAnalysis(const Function *F);
    void computeLiveness();
    T val(State &S, const Value *v);
    T gep(State &S, const GEPOperator *g);
    bool liveAfter(const Value *v, const Instruction *I);
    void dropTerm(State &S, T t);
    void redefine(State &S, const Instruction *I);
    void redefineTerm(State &S, const Instruction *I, T t, T o);
    void redefinePhi(State &S, const PHINode *P, std::vector<std::pair<const PHINode *, T>> &upd);
    void leakAt(State &S, T t, const Instruction *I, const char *how);
    void addCnt(State &S, T t, int d, const Instruction *I, bool release);
    bool owned(T t);
    void clobber(State &S, const std::vector<T> &escaped);
    T loadMem(State &S, T addr, unsigned w, const Instruction *I);
    void storeMem(State &S, T addr, T v, const Instruction *I, Type *ty);
    void dropFactsOnLoad(State &S, T addr);
    void containerEscape(State &S, T c, const Instruction *I);
    void prune(State &S, const BasicBlock *B);
    void enterEdge(State S, const BasicBlock *from, const BasicBlock *to);
    void edge(State S, const BasicBlock *from, const BasicBlock *to);
    void run();
    void execBlock(State S, const BasicBlock *B);
    void execFrom(State S, const BasicBlock *B, BasicBlock::const_iterator it);
    void step(State &S, const Instruction *I);
    void terminator(State &S, const Instruction *I);
    bool call(State &S, const CallBase *C, std::vector<State> &outs);
    bool callModel(State &S, const CallBase *C, const std::string &n, std::vector<T> &args, std::vector<State> &outs, bool &handled);
    void applySummary(State &S, const CallBase *C, const Function *Cal, const Summary &sm, std::vector<T> &args, std::vector<State> &outs);
    void bindFresh(State &S, const CallBase *C);
};
// terms
T tInt(int64_t c, unsigned w);
T tNull();
T tGlob(const Value *v);
T tParam(int i, unsigned w);
T tFresh(const Value *v, unsigned w);
T tOld(const Value *v, unsigned w);
T tOut(const Value *v, int n);
T tOldOut(const Value *v, int n);
T tAddr(T base, int64_t off);
T tLoad(T a, unsigned w);
T tyTerm(T o);
T lookupTy(const State &S, T o);
T rootOf(T t);
T tUndef();
T subst(T t, std::function<T(T)> f);
std::string show(T t);
std::string srcName(T t);
const std::set<T, TLess> &leaves(T t);
bool tySetOf(const State &S, T o, TySet &out);
bool isSingleton(const State &S, T o);
void rangeOf(const State &S, T t, int64_t &lo, int64_t &hi);
int evalBool(const State &S, T t);
bool assumeBool(State &S, T t, bool v);
unsigned widthOf(Type *t);
PK paramKind(const Function *F, int i);
PK retKind(const Function *F);
std::string fileOf(const Function *F);
int lineOf(const Instruction *I);
void report(const std::string &rule, const Function *F, const Instruction *I, const std::string &site, const std::string &msg);

// rule hooks
void initState(FnAnalysis &A, State &S);
std::vector<std::string> keyExtra(const State &S);
void rulePending(FnAnalysis &A, State &S, const Instruction *I);
void ruleOutcome(FnAnalysis &A, State &S, const CallBase *C);
void ruleInst(FnAnalysis &A, State &S, const Instruction *I);
void ruleLoad(FnAnalysis &A, State &S, const Instruction *I, T addr, T val);
void ruleStore(FnAnalysis &A, State &S, T addr, T v, const Instruction *I);
void ruleLeak(FnAnalysis &A, State &S, T t, const Instruction *I, const char *how);
void ruleDouble(FnAnalysis &A, State &S, T t, const Instruction *I);
void ruleOver(FnAnalysis &A, State &S, T t, const Instruction *I, bool release);
void ruleUAF(FnAnalysis &A, State &S, T t, const Instruction *I);
void ruleReturn(FnAnalysis &A, State &S, const ReturnInst *R);
void instance(const std::string &rule, const Function *F, const Instruction *I, const std::string &what);
bool undecided(const std::string &f, const std::string &site);
#include <set>
#include <string>
void runLints(const std::set<std::string> &which);
extern std::map<std::string, int64_t> COUNT;
bool isWeakStore(const Instruction *I);
