#pragma once
#include "affine.h"
namespace af {
struct Eval {
    struct Info { DominatorTree DT; LoopInfo LI; };
    struct Exit { const BasicBlock *from, *to; State s; };
    struct LoopCtx { const Loop *L = nullptr; bool dry = false; std::vector<std::pair<const BasicBlock *, State>> latches; std::vector<Exit> exits; };
    struct Frame { const Function *F; Info *fi; std::vector<Outcome> *out; std::vector<LoopCtx *> loops; };
    struct Cond { bool known = false, val = false; std::vector<Lin> t, f; };
    Module *M; const DataLayout *DL;
    Atoms A;
    std::vector<Base> bases;
    std::map<std::string, int> bix;
    std::map<const Function *, std::unique_ptr<Info>> infos;
    std::map<const Value *, const Value *> alias;
    std::map<std::pair<const Value *, const BasicBlock *>, const Value *> phiAlias;
    std::vector<const Function *> stack;
    int nullBase, errBase;
    bool gaveUp = false, silent = false;
    std::string why;
    long steps = 0;
    Eval(Module *m) : M(m), DL(&m->getDataLayout()) { nullBase = newBase(BNull, "null"); errBase = newBase(BErr, "error"); }
    virtual ~Eval() {}
    // what the analyses plug in
    virtual void readObligation(State &, const Val &, const Lin &, const Instruction *) {}
    virtual void writeObligation(State &, const Val &, const Lin &, const Instruction *) {}
    virtual bool contract(const CallBase *, const Function *, const std::vector<Val> &, State &, std::vector<Outcome> &) { return false; }
    virtual bool wantsInline(const Function *, const std::vector<Val> &) { return true; }
    virtual bool lenNonneg(int) { return true; }
    virtual void unknownCall(const CallBase *, const Function *, const std::vector<Val> &, State &) {}
    virtual Val unknownResult(const CallBase *C, const Function *F) {
        if (C->getType()->isPointerTy()) return Val::ptr(newBase(BOther, (F ? F->getName().str() : std::string("call")) + "()" + std::to_string(bases.size())), Lin(0));
        if (C->getType()->isIntegerTy()) return Val::num(Lin::atom(A.fresh(F ? F->getName().str() + "()" : "call", AUnknown, false)));
        return Val();
    }
    bool silentDry() { return false; }
    bool prove(const std::vector<Lin> &, Lin, int) const;
    bool prove(const State &s, const Lin &g) const { return prove(s.facts, g, 6); }
    static Val subst(const Val &, int, const Lin &);
    static Lin subst(const Lin &, int, const Lin &);
    static void subst(Ev &, int, const Lin &);
    void subst(State &, int, const Lin &);
    int newBase(BaseKind, const std::string &);
    int namedBase(BaseKind, const std::string &);
    Val value(State &, const Value *);
    Val gep(State &, const GEPOperator *);
    Val load(State &, const Val &, Type *, const Instruction *);
    void store(State &, const Val &, const Val &, int, const Instruction *);
    void copy(State &, const Val &, const Val &, const Lin &, const Instruction *);
    Cond cond(State &, const Value *, int);
    const BasicBlock *lastPred(const State &, const BasicBlock *);
    void giveUp(const std::string &);
    std::vector<Outcome> call(const Function *, const std::vector<Val> &, State);
    Info &info(const Function *);
    void phis(State &, const BasicBlock *, const BasicBlock *);
    void enter(Frame &, const BasicBlock *, const BasicBlock *, State);
    void loop(Frame &, const Loop *, const BasicBlock *, State);
    void body(Frame &, const Instruction *, State);
    Lin nextRound(const Lin &, int, const std::map<int, Lin> &);
    int strAtom(const Lin &);
};
}
