#pragma once
#include "rules.h"
#include "llvm/Analysis/ValueTracking.h"
namespace lu {
inline const Function *calleeOf(const CallBase *C) { return dyn_cast<Function>(C->getCalledOperand()->stripPointerCasts()); }
// the place in a structure (or global) an address denotes; elem: an element of the array a member points to
struct Loc {
    const void *base = nullptr;  // StructType or GlobalVariable
    unsigned member = 0;
    bool elem = false;
    bool operator<(const Loc &o) const { return std::make_tuple(base, member, elem) < std::make_tuple(o.base, o.member, o.elem); }
    bool operator==(const Loc &o) const { return base == o.base && member == o.member && elem == o.elem; }
};
inline const Value *peel(const Value *p) {
    for (;;) {
        if (auto *c = dyn_cast<IntrinsicInst>(p)) { if (c->getIntrinsicID() == Intrinsic::threadlocal_address || c->getIntrinsicID() == Intrinsic::expect) { p = c->getArgOperand(0); continue; } }
        if (auto *c = dyn_cast<BitCastOperator>(p)) { p = c->getOperand(0); continue; }
        return p;
    }
}
inline bool locOf(const Value *p, Loc &out, int d = 0) {
    p = peel(p);
    if (auto *g = dyn_cast<GlobalVariable>(p)) { out = {g, 0, false}; return true; }
    auto *g = dyn_cast<GEPOperator>(p);
    if (!g) return false;
    Type *t = g->getSourceElementType();
    StructType *st = nullptr;
    unsigned k = 0;
    auto it = g->idx_begin();
    for (++it; it != g->idx_end(); ++it) {
        if (auto *s = dyn_cast<StructType>(t)) { auto *c = dyn_cast<ConstantInt>(*it); if (!c) return false; st = s; k = c->getZExtValue(); t = s->getElementType(k); }
        else if (auto *a = dyn_cast<ArrayType>(t)) t = a->getElementType();
        else return false;
    }
    if (st) { out = {st, k, false}; return true; }
    // element of an array: by the member its address was read from
    const Value *b = peel(g->getPointerOperand());
    if (auto *l = dyn_cast<LoadInst>(b)) { Loc m; if (d < 4 && locOf(l->getPointerOperand(), m, d + 1) && !m.elem) { out = m; out.elem = true; return true; } }
    return false;
}
inline std::string locName(const Loc &l, const Module *M) {
    std::string s;
    if (auto *v = (const Value *)l.base) {
        for (auto &g : M->globals()) if (&g == v) return g.getName().str();
    }
    auto *st = (StructType *)l.base;
    s = st->hasName() ? st->getName().str() : "struct";
    if (s.rfind("struct.", 0) == 0) s = s.substr(7);
    return s + "#" + std::to_string(l.member) + (l.elem ? "[]" : "");
}
// functions a value can be, through copies, selections, parameters and constant tables
struct Targets { std::set<const Function *> fs; bool all = true; };
inline void targets(const Value *v, Targets &out, std::set<const Value *> &seen) {
    v = v->stripPointerCasts();
    if (!seen.insert(v).second) return;
    if (auto *f = dyn_cast<Function>(v)) { out.fs.insert(f); return; }
    if (isa<ConstantPointerNull>(v) || isa<UndefValue>(v)) return;
    if (auto *p = dyn_cast<PHINode>(v)) { for (auto &u : p->incoming_values()) targets(u, out, seen); return; }
    if (auto *s = dyn_cast<SelectInst>(v)) { targets(s->getTrueValue(), out, seen); targets(s->getFalseValue(), out, seen); return; }
    if (auto *c = dyn_cast<CastInst>(v)) { if (c->getOperand(0)->getType()->isPointerTy() || isa<PtrToIntInst>(c->getOperand(0))) { targets(c->getOperand(0), out, seen); return; } out.all = false; return; }
    if (auto *a = dyn_cast<Argument>(v)) {
        auto *f = a->getParent();
        for (auto *u : f->users()) {
            auto *C = dyn_cast<CallBase>(u);
            if (C && C->getCalledOperand()->stripPointerCasts() == f && a->getArgNo() < C->arg_size()) targets(C->getArgOperand(a->getArgNo()), out, seen);
            else out.all = false;
        }
        return;
    }
    if (auto *C = dyn_cast<CallBase>(v)) {
        auto *f = calleeOf(C);
        if (f && !f->isDeclaration()) { for (auto &B : *f) if (auto *r = dyn_cast<ReturnInst>(B.getTerminator())) if (r->getReturnValue()) targets(r->getReturnValue(), out, seen); return; }
        out.all = false;
        return;
    }
    if (auto *l = dyn_cast<LoadInst>(v)) {
        auto *g = dyn_cast<GlobalVariable>(getUnderlyingObject(l->getPointerOperand()));
        if (g && g->isConstant() && g->hasInitializer()) {
            std::vector<const Constant *> todo = {g->getInitializer()};
            while (!todo.empty()) { auto *c = todo.back(); todo.pop_back(); if (auto *f = dyn_cast<Function>(c->stripPointerCasts())) { out.fs.insert(f); continue; } if (isa<ConstantAggregate>(c)) for (auto &o : c->operands()) todo.push_back(cast<Constant>(o)); }
            return;
        }
        out.all = false;
        return;
    }
    out.all = false;
}
inline Targets targetsOf(const Value *v) { Targets t; std::set<const Value *> s; targets(v, t, s); return t; }
}
