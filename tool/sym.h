#pragma once
// Values of a function as normal forms, conditions that hold at a place (used by several rules; one copy per file)
#include "elem.h"
#include "lintutil.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IR/Dominators.h"
namespace {
using namespace el;
struct Lit { E e; bool v; };
static void lits(E c, bool v, std::vector<Lit> &out);
// values of one function as expressions; loop-carried values stay symbols, their next and first values are kept
struct Sym {
    const Function *F;
    DominatorTree DT;
    LoopInfo LI;
    std::map<const Value *, E> memo;
    std::map<E, const PHINode *> phis;
    std::map<const Value *, E> cmemo;     // truth values along a path
    bool asPath = false;                  // values along one path: no merging
    Sym(const Function *f) : F(f), DT(*const_cast<Function *>(f)), LI(DT) {}
    std::string id(const Value *v) { static std::map<const Value *, int> n; auto it = n.emplace(v, (int)n.size()).first; return std::to_string(it->second); }
    E un(const Value *v) { return leaf("v" + id(v), 64); }
    E X(const Value *v, int d = 0) {
        auto it = memo.find(v);
        if (it != memo.end()) return it->second;
        E e = d > 60 ? un(v) : make(v, d);
        return memo[v] = e;
    }
    E cond(const Value *v, int d) {
        { auto it = cmemo.find(v); if (it != cmemo.end()) return it->second; }
        if (auto *c = dyn_cast<FCmpInst>(v)) {
            static const std::map<int, std::string> names = {{FCmpInst::FCMP_OEQ, "eq"}, {FCmpInst::FCMP_UEQ, "eq"}, {FCmpInst::FCMP_ONE, "ne"}, {FCmpInst::FCMP_UNE, "ne"}, {FCmpInst::FCMP_OLT, "slt"}, {FCmpInst::FCMP_ULT, "slt"}, {FCmpInst::FCMP_OLE, "sle"}, {FCmpInst::FCMP_ULE, "sle"}, {FCmpInst::FCMP_OGT, "sgt"}, {FCmpInst::FCMP_UGT, "sgt"}, {FCmpInst::FCMP_OGE, "sge"}, {FCmpInst::FCMP_UGE, "sge"}};
            auto it = names.find(c->getPredicate());
            if (it != names.end()) { bool sg; E e = cmpE(X(c->getOperand(0), d + 1), X(c->getOperand(1), d + 1), it->second, sg); return sg ? e : isC(e) ? konst(!e->c, 1) : op("not", 1, false, {e}); }
        }
        if (auto *c = dyn_cast<ICmpInst>(v)) { bool sg; E e = cmpE(X(c->getOperand(0), d + 1), X(c->getOperand(1), d + 1), CmpInst::getPredicateName(c->getPredicate()).str(), sg); return sg ? e : isC(e) ? konst(!e->c, 1) : op("not", 1, false, {e}); }
        if (auto *c = dyn_cast<CastInst>(v)) return cond(c->getOperand(0), d + 1);
        if (auto *c = dyn_cast<ConstantInt>(v)) return konst(!c->isZero(), 1);
        if (auto *c = dyn_cast<BinaryOperator>(v)) if (c->getType()->isIntegerTy(1) && (c->getOpcode() == Instruction::And || c->getOpcode() == Instruction::Or)) return op(c->getOpcodeName(), 1, false, {cond(c->getOperand(0), d + 1), cond(c->getOperand(1), d + 1)});
        if (auto *c = dyn_cast<SelectInst>(v)) if (c->getType()->isIntegerTy(1)) {
            if (auto *k = dyn_cast<ConstantInt>(c->getFalseValue())) if (k->isZero()) return op("and", 1, false, {cond(c->getCondition(), d + 1), cond(c->getTrueValue(), d + 1)});
            if (auto *k = dyn_cast<ConstantInt>(c->getTrueValue())) if (k->isOne()) return op("or", 1, false, {cond(c->getCondition(), d + 1), cond(c->getFalseValue(), d + 1)});
        }
        if (auto *P = dyn_cast<PHINode>(v)) if (P->getType()->isIntegerTy(1) && P->getNumIncomingValues() == 2 && d < 20)
            for (int k : {0, 1}) {   // a && b, a || b
                auto *c = dyn_cast<ConstantInt>(P->getIncomingValue(k));
                auto *br = dyn_cast<BranchInst>(P->getIncomingBlock(k)->getTerminator());
                if (!c || !br || !br->isConditional()) continue;
                bool side = br->getSuccessor(0) == P->getParent();
                if (side == c->isZero()) continue;
                return op(c->isZero() ? "and" : "or", 1, false, {cond(br->getCondition(), d + 1), cond(P->getIncomingValue(1 - k), d + 1)});
            }
        E x = X(v, d + 1);
        bool sg;
        E e = cmpE(x, konst(0, 64), "ne", sg);
        return sg ? e : isC(e) ? konst(!e->c, 1) : op("not", 1, false, {e});
    }
    // the one store a local variable's value can come from
    const StoreInst *localDef(const LoadInst *l) {
        auto *A = dyn_cast<AllocaInst>(l->getPointerOperand());
        if (!A || A->getAllocatedType()->isAggregateType()) return nullptr;
        std::set<const Instruction *> defs;
        for (auto *U : A->users()) {
            if (isa<LoadInst>(U)) continue;
            auto *I = cast<Instruction>(U);
            if (auto *s = dyn_cast<StoreInst>(I)) { if (s->getPointerOperand() != A) return nullptr; defs.insert(I); }
            else if (isa<CallBase>(I)) { if (!I->isLifetimeStartOrEnd() && !isa<DbgInfoIntrinsic>(I)) defs.insert(I); }
            else return nullptr;
        }
        const StoreInst *one = nullptr;
        std::set<const BasicBlock *> seen;
        std::vector<const Instruction *> todo{l};     // just before these
        while (!todo.empty()) {
            auto *p = todo.back();
            todo.pop_back();
            const Instruction *d = nullptr;
            for (auto *q = p->getPrevNode(); q && !d; q = q->getPrevNode()) if (defs.count(q)) d = q;
            if (d) { auto *s = dyn_cast<StoreInst>(d); if (!s || (one && one != s)) return nullptr; one = s; continue; }
            auto *B = p->getParent();
            if (pred_empty(B)) return nullptr;
            for (auto *P : predecessors(B)) if (seen.insert(P).second) { if (defs.count(P->getTerminator())) return nullptr; todo.push_back(P->getTerminator()); }
        }
        return one;
    }
    E make(const Value *v, int d) {
        if (auto *c = dyn_cast<ConstantInt>(v)) return konst((uint64_t)c->getSExtValue(), 64);
        if (auto *c = dyn_cast<ConstantFP>(v)) return konst(c->getValueAPF().bitcastToAPInt().getZExtValue(), 64);
        if (isa<ConstantPointerNull>(v)) return konst(0, 64);
        if (auto *g = dyn_cast<GlobalValue>(v)) return leaf("@" + g->getName().str(), 64);
        if (isa<AllocaInst>(v)) return un(v);
        if (auto *a = dyn_cast<Argument>(v)) return leaf("arg" + std::to_string(a->getArgNo()), 64);
        if (auto *c = dyn_cast<ConstantExpr>(v)) { if (c->isCast()) return X(c->getOperand(0), d + 1); return un(v); }
        auto *I = dyn_cast<Instruction>(v);
        if (!I) return un(v);
        if (auto *b = dyn_cast<BinaryOperator>(I)) {
            E x = X(b->getOperand(0), d + 1), y = X(b->getOperand(1), d + 1);
            switch (b->getOpcode()) {
                case Instruction::Add: case Instruction::FAdd: return add(x, y);
                case Instruction::Sub: case Instruction::FSub: return add(x, y, -1);
                case Instruction::Mul: case Instruction::FMul: return mul(x, y);
                case Instruction::Shl: if (isC(y) && y->c < 63) return scale(x, 1LL << y->c); break;
                case Instruction::UDiv: return op("sdiv", 64, false, {x, y});
                default: break;
            }
            return op(b->getOpcodeName(), 64, false, {x, y});
        }
        if (auto *c = dyn_cast<CastInst>(I)) { if (c->getType()->isFloatingPointTy() || c->getOperand(0)->getType()->isFloatingPointTy()) return op(c->getOpcodeName(), 64, false, {X(c->getOperand(0), d + 1)}); if (c->getOperand(0)->getType()->isIntegerTy(1)) return op("zext", 64, false, {cond(c->getOperand(0), d + 1)}); return X(c->getOperand(0), d + 1); }
        if (auto *g = dyn_cast<GetElementPtrInst>(I)) {
            MapVector<Value *, APInt> var;
            APInt c(64, 0);
            if (!g->collectOffset(*DL, 64, var, c)) return un(v);
            E r = sum(64, {{1, X(g->getPointerOperand(), d + 1)}}, c.getZExtValue());
            for (auto &p : var) r = add(r, X(p.first, d + 1), p.second.getSExtValue());
            return r;
        }
        if (auto *l = dyn_cast<LoadInst>(I)) {
            if (auto *st = localDef(l)) return X(st->getValueOperand(), d + 1);
            return op("load", 64, false, {X(l->getPointerOperand(), d + 1)});
        }
        if (auto *s = dyn_cast<SelectInst>(I)) { E a = X(s->getTrueValue(), d + 1), b = X(s->getFalseValue(), d + 1); if (a == b) return a; return op("select", 64, false, {cond(s->getCondition(), d + 1), a, b}); }
        if (auto *C = dyn_cast<CallBase>(I)) {
            auto *G = lu::calleeOf(C);
            if (!G) return un(v);
            if (G->getIntrinsicID() == Intrinsic::expect) return X(C->getArgOperand(0), d + 1);
            if (G->getIntrinsicID() == Intrinsic::fmuladd && asPath) return add(mul(X(C->getArgOperand(0), d + 1), X(C->getArgOperand(1), d + 1)), X(C->getArgOperand(2), d + 1));
            if (G->getName() == "clone_obj" && asPath) return X(C->getArgOperand(0), d + 1);
            if ((G->getName() == "memcmp" || G->getName() == "bcmp") && asPath) return add(op("load", 64, false, {X(C->getArgOperand(0), d + 1)}), op("load", 64, false, {X(C->getArgOperand(1), d + 1)}), -1);
            std::vector<E> a;
            for (auto &x : C->args()) a.push_back(X(x, d + 1));
            return op("call:" + G->getName().str(), 64, false, a);
        }
        if (auto *P = dyn_cast<PHINode>(I)) {
            auto *L = LI.getLoopFor(P->getParent());
            if (L && L->getHeader() == P->getParent()) { E e = un(v); phis[e] = P; return e; }
            if (asPath) return un(v);
            // one of two values, by the branch that leads here
            E first = nullptr;
            bool same = true;
            for (auto &u : P->incoming_values()) { E x = X(u, d + 1); if (first && x != first) same = false; first = x; }
            if (same && first) return first;
            if (P->getNumIncomingValues() == 2) {
                auto *D = DT.getNode(P->getParent()) ? DT.getNode(P->getParent())->getIDom() : nullptr;
                auto *br = D ? dyn_cast<BranchInst>(D->getBlock()->getTerminator()) : nullptr;
                if (br && br->isConditional()) {
                    auto side = [&](unsigned k) { auto *B = P->getIncomingBlock(k); for (int s : {0, 1}) { auto *T = br->getSuccessor(s); if ((B == D->getBlock() && T == P->getParent()) || (T != P->getParent() && DT.dominates(BasicBlockEdge(D->getBlock(), T), B))) return s; } return -1; };
                    int s0 = side(0), s1 = side(1);
                    if (s0 >= 0 && s1 >= 0 && s0 != s1) { E a = X(P->getIncomingValue(0), d + 1), b = X(P->getIncomingValue(1), d + 1); return op("select", 64, false, {cond(br->getCondition(), d + 1), s0 == 0 ? a : b, s0 == 0 ? b : a}); }
                }
            }
            return un(v);
        }
        return un(v);
    }
    // the loop-carried values of L: what they become in the next round, and what they are in the first
    void carried(const Loop *L, std::map<E, E> &next, std::map<E, E> &init) {
        for (auto &P : L->getHeader()->phis()) {
            E p = X(&P), n = nullptr, i = nullptr;
            bool okN = true, okI = true;
            for (unsigned k = 0; k < P.getNumIncomingValues(); k++) {
                E x = X(P.getIncomingValue(k));
                if (L->contains(P.getIncomingBlock(k))) { okN &= !n || n == x; n = x; } else { okI &= !i || i == x; i = x; }
            }
            if (n && okN) next[p] = n;
            if (i && okI) init[p] = i;
        }
    }
    // conditions that hold where B is reached, from within `in` (or anywhere below `from`)
    std::vector<Lit> conditions(const BasicBlock *B, const Loop *in, const BasicBlock *from) {
        std::vector<Lit> r;
        for (auto *n = DT.getNode(B); n && n->getIDom(); n = n->getIDom()) {
            auto *D = n->getIDom()->getBlock();
            if (in && !in->contains(D)) break;
            if (auto *br = dyn_cast<BranchInst>(D->getTerminator())) if (br->isConditional()) {
                for (int s : {0, 1}) {
                    auto *T = br->getSuccessor(s);
                    if (T == br->getSuccessor(1 - s)) continue;
                    BasicBlockEdge e(D, T);
                    if (!DT.dominates(e, B)) continue;
                    lits(cond(br->getCondition(), 0), s == 0, r);
                }
            }
            if (D == from) break;
        }
        return r;
    }
};
static void lits(E c, bool v, std::vector<Lit> &out) {
    while (c->op == "not") { c = c->a[0]; v = !v; }
    if (c->k == N::OP && ((c->op == "and" && v) || (c->op == "or" && !v))) { for (E a : c->a) lits(a, v, out); return; }
    out.push_back({c, v});
}
static bool mentionsAny(E e, const std::map<E, E> &m) { for (auto &p : m) if (mentions(e, p.first)) return true; return false; }
static std::map<E, E> *CARRIED = nullptr;   // selections that do not depend on the round are values like any other
static E findSelect(E e) {
    if (e->k == N::OP && e->op == "select") { if (E s = findSelect(e->a[0])) return s; if (!CARRIED || mentionsAny(e->a[0], *CARRIED)) return e; return nullptr; }
    for (auto &p : e->t) if (E s = findSelect(p.second)) return s;
    for (auto *a : e->a) if (E s = findSelect(a)) return s;
    return nullptr;
}
static E simp(E e, E sel, bool v) { return subst(e, {{sel, sel->a[v ? 1 : 2]}}); }
// a < b as a - b < 0; known facts: list of (d, true: d < 0, false: d >= 0)
static bool sltDiff(E e, E &d) { if (e->k == N::OP && (e->op == "slt" || e->op == "ult")) { d = add(e->a[0], e->a[1], -1); return true; } return false; }
static bool refuted(E g, bool gv, const std::vector<Lit> &lits) {   // the condition g == gv cannot hold
    if (isC(g)) return (g->c != 0) != gv;
    E dg;
    if (g->op == "eq0") { for (auto &l : lits) if (l.e == g && l.v != gv) return true; return false; }
    if (!sltDiff(g, dg)) { for (auto &l : lits) if (l.e == g && l.v != gv) return true; return false; }
    // as "x <= 0" of what g claims
    E claim = gv ? add(dg, konst(1, 64)) : scale(dg, -1);
    if (isC(claim) && sval(claim) > 0) return true;
    for (auto &l : lits) {
        E dl;
        if (l.e->op == "eq0" && l.v) { for (int s : {1, -1}) { E k = add(claim, l.e->a[0], s); if (isC(k) && sval(k) > 0) return true; } continue; }
        if (!sltDiff(l.e, dl)) continue;
        E fact = l.v ? add(dl, konst(1, 64)) : scale(dl, -1);   // fact <= 0
        E k = add(claim, fact);                                   // both <= 0: a positive sum is impossible
        if (isC(k) && sval(k) > 0) return true;
    }
    return false;
}
static int64_t coefOf(E e, E x) {
    if (e == x) return 1;
    if (e->k == N::SUM) for (auto &p : e->t) if (p.second == x) return p.first;
    return 0;
}
static bool deep(E e, E x) { return mentions(e, x); }
static const Value *rootOf(const Value *v, int d = 0) {
    v = getUnderlyingObject(v, 0);
    if (auto *P = dyn_cast<PHINode>(v)) if (d < 4) { const Value *r = nullptr; for (auto &u : P->incoming_values()) { auto *x = rootOf(u, d + 1); if (x == P) continue; if (r && x != r) return v; r = x; } if (r) return r; }
    return v;
}
static bool has(E e, const char *what) {
    if (e->k == N::OP && StringRef(e->op).starts_with(what)) return true;
    for (auto &p : e->t) if (has(p.second, what)) return true;
    for (auto *a : e->a) if (has(a, what)) return true;
    return false;
}
}
