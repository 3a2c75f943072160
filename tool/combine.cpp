// A01: aggregates computed in parts: accumulation and combination of the parts agree
#include "sym.h"
namespace {
using Types = std::bitset<256>;
static bool dbg;
struct Acc {                       // one accumulating loop: cases of the new value of OUT, from OUT and IN
    struct Case { std::vector<Lit> lits; E val; };   // null: unchanged
    std::vector<Case> cases;
    Types types;
    int comp = -1;
    const Instruction *at = nullptr;
    const Loop *L = nullptr;
    E out = nullptr, in = nullptr;  // addresses (out: null if carried in a register)
    E initial = nullptr;            // of a register
    std::vector<E> unless;          // other conditions under which nothing is taken
    bool copy = false;              // takes the value as it is, whatever was there
};
static const int64_t EXPM = 0x7FF0000000000000LL, MANT = 0x000FFFFFFFFFFFFFLL;
static E OUT, IN;
static Types typesOf(Sym &S, const BasicBlock *B) {
    Types r;
    r.set();
    for (auto *n = S.DT.getNode(B); n && n->getIDom(); n = n->getIDom()) {
        auto *D = n->getIDom()->getBlock();
        auto isTag = [&](const Value *v) { E c = S.X(v); return c->k == N::OP && c->op == "load" && c->a[0]->k == N::SUM && c->a[0]->c == 2 && c->a[0]->t.size() == 1 && c->a[0]->t[0].second->k == N::L && c->a[0]->t[0].second->op.compare(0, 3, "arg") == 0; };
        auto put = [&](Types t) { Types u = t; for (int i = 77; i < 98; i++) if (t[i]) u.set(i - 77); r &= u; };
        if (auto *sw = dyn_cast<SwitchInst>(D->getTerminator())) {
            if (!isTag(sw->getCondition())) continue;
            Types t;
            bool viaDefault = false;
            auto reach = [&](const BasicBlock *T) { if (T == B || S.DT.dominates(T, B)) return true; return false; };
            std::set<const BasicBlock *> hit;
            // the arm B belongs to: the successor that dominates it
            for (unsigned i = 0; i < sw->getNumSuccessors(); i++) if (reach(sw->getSuccessor(i))) hit.insert(sw->getSuccessor(i));
            if (hit.empty()) continue;
            if (hit.count(sw->getDefaultDest())) viaDefault = true;
            if (viaDefault) { t.set(); for (auto &c : sw->cases()) if (!hit.count(c.getCaseSuccessor())) t.reset((uint8_t)c.getCaseValue()->getSExtValue()); for (int i = 77; i < 98; i++) t.reset(i); }
            else for (auto &c : sw->cases()) if (hit.count(c.getCaseSuccessor())) t.set((uint8_t)c.getCaseValue()->getSExtValue());
            put(t);
        } else if (auto *br = dyn_cast<BranchInst>(D->getTerminator())) {
            if (!br->isConditional()) continue;
            auto *c = dyn_cast<ICmpInst>(br->getCondition());
            auto *k = c && c->isEquality() ? dyn_cast<ConstantInt>(c->getOperand(1)) : nullptr;
            auto *x = c ? c->getOperand(0) : nullptr;
            while (x && isa<CastInst>(x)) x = cast<CastInst>(x)->getOperand(0);
            if (!k || !isTag(x)) continue;
            for (int s : {0, 1}) {
                if (!S.DT.dominates(BasicBlockEdge(D, br->getSuccessor(s)), B)) continue;
                Types t;
                t.set((uint8_t)k->getSExtValue());
                put((s == 0) == (c->getPredicate() == ICmpInst::ICMP_EQ) ? t : ~t);
            }
        }
    }
    return r;
}
static E nullConst(E a) {   // an object of zeros
    if (a->k == N::L && a->op.size() > 1 && a->op[0] == '@') if (auto *g = M->getGlobalVariable(a->op.substr(1), true)) if (g->isConstant() && g->hasInitializer() && g->getInitializer()->isNullValue()) return konst(0, 64);
    return nullptr;
}
// what one round does to memory and registers, path by path
struct Round { std::vector<Lit> lits; std::map<E, E> mem; std::map<const PHINode *, E> regs; std::map<E, const Instruction *> where; bool ends = true; std::vector<E> loads; };
static bool rounds(Sym &S, const Loop *L, std::vector<Round> &out) {
    auto base = S.memo;
    auto cbase = S.cmemo;
    bool ok = true;
    int steps = 0;
    struct St { const BasicBlock *B, *from; Round r; std::map<const Value *, E> memo, cmemo; std::map<E, E> env; };
    std::vector<St> todo;
    todo.push_back({L->getHeader(), nullptr, {}, base, cbase, {}});
    while (!todo.empty() && ok) {
        St s = std::move(todo.back());
        todo.pop_back();
        if (++steps > 4000 || out.size() > 300) { ok = false; break; }
        S.memo = s.memo;
        S.cmemo = s.cmemo;
        if (s.from) {
            std::vector<std::pair<const PHINode *, std::pair<E, E>>> ph;
            for (auto &P : s.B->phis()) { int k = P.getBasicBlockIndex(s.from); if (k < 0) continue; auto *v = P.getIncomingValue(k); ph.push_back({&P, {S.X(v), P.getType()->isIntegerTy(1) ? S.cond(v, 0) : nullptr}}); }
            for (auto &p : ph) { S.memo[p.first] = p.second.first; if (p.second.second) S.cmemo[p.first] = p.second.second; }
        }
        for (auto &I : *s.B) {
            if (auto *ld = dyn_cast<LoadInst>(&I)) {
                E a = S.X(ld->getPointerOperand());
                auto it = s.env.find(a);
                E z = nullConst(a);
                auto *df = it != s.env.end() || z ? nullptr : S.localDef(ld);
                S.memo[&I] = it != s.env.end() ? it->second : z ? z : df ? S.X(df->getValueOperand()) : op("load", 64, false, {a});
            } else if (auto *st = dyn_cast<StoreInst>(&I)) {
                E a = S.X(st->getPointerOperand()), v = S.X(st->getValueOperand());
                s.env[a] = v;
                if (!isa<AllocaInst>(rootOf(st->getPointerOperand()))) { s.r.mem[a] = v; s.r.where[a] = &I; }
            } else if (auto *mc = dyn_cast<MemTransferInst>(&I)) {
                E a = S.X(mc->getRawDest()), b = S.X(mc->getRawSource());
                auto it = s.env.find(b);
                E z = nullConst(b);
                E v = it != s.env.end() ? it->second : z ? z : op("load", 64, false, {b});
                s.env[a] = v;
                if (!isa<AllocaInst>(rootOf(mc->getRawDest()))) { s.r.mem[a] = v; s.r.where[a] = &I; }
            } else if (auto *ms = dyn_cast<MemSetInst>(&I)) {
                E a = S.X(ms->getRawDest()), v = S.X(ms->getValue());
                s.env[a] = v;
                if (!isa<AllocaInst>(rootOf(ms->getRawDest()))) { s.r.mem[a] = v; s.r.where[a] = &I; }
            } else if (auto *C = dyn_cast<CallBase>(&I)) {
                auto *G = lu::calleeOf(C);
                if (G && (G->getName() == "memcmp" || G->getName() == "bcmp")) {
                    auto val = [&](const Value *p) { E a = S.X(p); auto it = s.env.find(a); if (it != s.env.end()) return it->second; E z = nullConst(a); return z ? z : op("load", 64, false, {a}); };
                    S.memo[&I] = add(val(C->getArgOperand(0)), val(C->getArgOperand(1)), -1);
                }
            } else if (auto *se = dyn_cast<SelectInst>(&I)) {   // decided here
                if (!se->getType()->isIntegerTy(1)) {
                    E c = S.cond(se->getCondition(), 0);
                    if (isC(c)) S.memo[&I] = S.X(c->c ? se->getTrueValue() : se->getFalseValue());
                }
            }
        }
        auto go = [&](const BasicBlock *T, std::vector<Lit> add) {
            St n;
            n.B = T; n.from = s.B; n.r = s.r; n.memo = S.memo; n.cmemo = S.cmemo; n.env = s.env;
            for (auto &l : add) {
                for (auto &k : n.r.lits) if (k.e == l.e && k.v != l.v) return;
                n.r.lits.push_back(l);
            }
            if (T == L->getHeader()) {
                for (auto &P : T->phis()) { int k = P.getBasicBlockIndex(s.B); if (k >= 0) n.r.regs[&P] = S.X(P.getIncomingValue(k)); }
                out.push_back(n.r);
                return;
            }
            if (!L->contains(T)) return;      // out of the loop: no further round
            if (auto *K = S.LI.getLoopFor(T)) if (K != L && K->getHeader() == T) {   // a loop within: beyond it
                SmallVector<BasicBlock *, 4> ex;
                while (K->getParentLoop() != L && K->getParentLoop()) K = K->getParentLoop();
                K->getExitBlocks(ex);
                std::set<BasicBlock *> seen;
                for (auto *X : ex) if (seen.insert(X).second && L->contains(X)) {
                    St m = n;
                    m.B = X;
                    m.from = nullptr;
                    if (X == L->getHeader()) { out.push_back(m.r); continue; }
                    todo.push_back(m);
                }
                return;
            }
            todo.push_back(n);
        };
        auto *t = s.B->getTerminator();
        if (auto *br = dyn_cast<BranchInst>(t)) {
            if (!br->isConditional()) { go(br->getSuccessor(0), {}); continue; }
            E c = S.cond(br->getCondition(), 0);
            if (isC(c)) { go(br->getSuccessor(c->c ? 0 : 1), {}); continue; }
            bool leaves = !L->contains(br->getSuccessor(0)) || !L->contains(br->getSuccessor(1));
            for (int k : {0, 1}) { std::vector<Lit> l; if (!leaves) lits(c, k == 0, l); go(br->getSuccessor(k), l); }
        } else if (auto *sw = dyn_cast<SwitchInst>(t)) {
            std::set<const BasicBlock *> seen;
            for (unsigned i = 0; i < sw->getNumSuccessors(); i++) if (seen.insert(sw->getSuccessor(i)).second) go(sw->getSuccessor(i), {{op("switch", 1, false, {S.X(sw->getCondition()), konst(i, 64)}), true}});
        }
    }
    S.memo = base;
    S.cmemo = cbase;
    return ok;
}
static void valueLoads(E e, std::set<E> &out) {
    if (e->k == N::OP && e->op == "load") { out.insert(e); return; }
    for (auto &p : e->t) valueLoads(p.second, out);
    for (auto *a : e->a) valueLoads(a, out);
}
static void symbols(E e, std::set<E> &out) {   // other unknowns of a value
    if (e->k == N::OP && e->op == "load") return;
    if (e->k == N::L) out.insert(e);
    for (auto &p : e->t) symbols(p.second, out);
    for (auto *a : e->a) symbols(a, out);
}
// addresses of objects are as good as numbers
static E numbered(E e) {
    static std::map<E, E> m;
    std::set<E> sy;
    symbols(e, sy);
    std::map<E, E> r;
    for (E x : sy) if (x->op[0] == '@') { auto it = m.emplace(x, konst(0x5A000000 + m.size(), 64)); r[x] = it.first->second; }
    return r.empty() ? e : subst(e, r);
}
// all accumulations of a loop; consts: addresses that are set to a constant in every round
static void accs(Sym &S, const Loop *L, std::vector<Acc> &res, std::map<E, std::pair<E, const Instruction *>> &consts, std::vector<std::pair<E, E>> &copies) {
    std::vector<Round> rs;
    if (!rounds(S, L, rs) || rs.empty()) return;
    for (auto &r : rs) { for (auto &l : r.lits) l.e = numbered(l.e); for (auto &p : r.mem) p.second = numbered(p.second); for (auto &p : r.regs) p.second = numbered(p.second); }
    std::map<E, const Instruction *> addrs;
    for (auto &r : rs) for (auto &p : r.where) addrs.emplace(p.first, p.second);
    std::set<const PHINode *> regs;
    for (auto &P : L->getHeader()->phis()) {
        E p = S.X(&P);
        bool step = true, id = true, cst = true;
        E by = nullptr;
        for (auto &r : rs) { auto it = r.regs.find(&P); if (it == r.regs.end()) continue; E d = add(it->second, p, -1); step &= isC(d) && (!by || by == d); by = d; id &= it->second == p; cst &= !mentions(it->second, p); }
        if (!step && !id && !cst) regs.insert(&P);
    }
    auto one = [&](E a, const PHINode *P, const Instruction *at) {
        E self = P ? S.X(P) : op("load", 64, false, {a});
        std::set<E> vl;
        bool all = true, anyself = false;
        E cst = nullptr, cp = nullptr;
        bool sameConst = true;
        Acc x;
        for (auto &r : rs) {
            E v = nullptr;
            if (P) { auto it = r.regs.find(P); if (it != r.regs.end()) v = it->second; if (v == self) v = nullptr; } else { auto it = r.mem.find(a); if (it != r.mem.end()) v = it->second; if (v == self) v = nullptr; }
            if (!v) all = false;
            else { valueLoads(v, vl); if (!isC(v) || (cst && cst != v)) sameConst = false; cst = v; cp = v; if (mentions(v, self)) anyself = true; }
            Acc::Case c;
            c.val = v;
            for (auto &l : r.lits) { c.lits.push_back(l); }
            x.cases.push_back(c);
        }
        for (auto &c : x.cases) for (auto &l : c.lits) if (mentions(l.e, self)) anyself = true;
        if (all && sameConst && cst) { consts[a ? a : self] = {cst, at}; return; }
        if (all && !anyself && vl.size() == 1 && cp == *vl.begin()) {
            bool one = true;
            for (auto &r : rs) { auto it = r.mem.find(a); if (!P && it->second != cp) one = false; }
            copies.push_back({a ? a : self, cp});
            if (one) { Acc y; y.cases = {{{}, IN}}; y.out = a; y.in = cp->a[0]; y.at = at; y.L = L; y.copy = true; y.types = typesOf(S, at->getParent()); if (P) for (unsigned k = 0; k < P->getNumIncomingValues(); k++) if (!L->contains(P->getIncomingBlock(k))) y.initial = S.X(P->getIncomingValue(k)); res.push_back(y); }
            return;
        }
        // what the conditions look at, besides
        auto involved = [&](const Lit &l) { if (mentions(l.e, self)) return true; std::set<E> q; valueLoads(l.e, q); for (E e : q) if (vl.count(e)) return true; return false; };
        for (auto &c : x.cases) for (auto &l : c.lits) if (involved(l)) valueLoads(l.e, vl);
        vl.erase(self);
        if (!anyself && vl.empty() && P) return;
        if (vl.size() > 1) { if (dbg) { errs() << S.F->getName() << " loads " << vl.size() << " self " << str(self) << "\n"; for (E q : vl) errs() << "   LOAD " << str(q) << "\n"; } return; }
        if (vl.empty()) {    // counting: the element looked at is in a condition, if anywhere
            for (auto &c : x.cases) for (auto &l : c.lits) valueLoads(l.e, vl);
            vl.erase(self);
            if (vl.size() > 1) vl.clear();
        }
        E in = vl.empty() ? nullptr : *vl.begin();
        std::map<E, E> m = {{self, OUT}};
        if (in) m[in] = IN;
        // by what else the round depends on; rounds that only set or copy begin anew
        std::map<std::set<std::pair<E, bool>>, std::vector<Acc::Case>> groups;
        for (auto &c : x.cases) {
            Acc::Case n;
            n.val = c.val ? subst(c.val, m) : nullptr;
            std::set<std::pair<E, bool>> foreign;
            for (auto &l : c.lits) { Lit k{subst(l.e, m), l.v}; std::set<E> q, sy; valueLoads(k.e, q); symbols(k.e, sy); sy.erase(OUT); sy.erase(IN); if (!q.empty() || !sy.empty()) { foreign.insert({k.e, k.v}); continue; } n.lits.push_back(k); }
            if (n.val) { std::set<E> q, sy; valueLoads(n.val, q); symbols(n.val, sy); sy.erase(OUT); sy.erase(IN); if (!q.empty() || !sy.empty()) { if (dbg) errs() << S.F->getName() << " other values " << str(n.val) << "\n"; return; } }
            groups[foreign].push_back(n);
        }
        x.out = a;
        x.in = in ? in->a[0] : nullptr;
        x.at = at;
        x.L = L;
        if (P) { E i = nullptr; for (unsigned k = 0; k < P->getNumIncomingValues(); k++) if (!L->contains(P->getIncomingBlock(k))) i = S.X(P->getIncomingValue(k)); x.initial = i; }
        x.types = typesOf(S, at->getParent());
        size_t had = res.size();
        for (auto &g : groups) { bool any = false; for (auto &c : g.second) any |= c.val != nullptr; if (!any) for (auto &f : g.first) x.unless.push_back(f.first); }
        for (auto &g : groups) {
            bool any = false, same = true;
            for (auto &c : g.second) { if (c.val) any = true; same &= c.val == g.second[0].val && (!c.val || isC(c.val) || c.val == IN); }
            bool takes = false;   // a mere flag does not accumulate
            for (auto &c : g.second) { takes |= c.val && (mentions(c.val, IN) || mentions(c.val, OUT)); if (!P) for (auto &l : c.lits) takes |= mentions(l.e, IN); }
            if (!any || same || !takes) continue;
            Acc y = x;
            y.cases = g.second;
            bool dup = false;
            for (size_t k = had; k < res.size(); k++) { bool eq = res[k].cases.size() == y.cases.size(); for (size_t i = 0; eq && i < y.cases.size(); i++) { eq = res[k].cases[i].val == y.cases[i].val && res[k].cases[i].lits.size() == y.cases[i].lits.size(); for (size_t j = 0; eq && j < y.cases[i].lits.size(); j++) eq = res[k].cases[i].lits[j].e == y.cases[i].lits[j].e && res[k].cases[i].lits[j].v == y.cases[i].lits[j].v; } dup |= eq; }
            if (!dup) res.push_back(y);
        }
    };
    for (auto &p : addrs) one(p.first, nullptr, p.second);
    for (auto *P : regs) one(nullptr, P, P);
}
// ---- cases: places of the values among the constants that matter
struct Undecided { std::string why; };
struct World {
    std::vector<int64_t> cs;         // constants, ascending
    std::map<E, int> pos;            // places of the symbols
    int place(E e) const {
        if (isC(e)) { for (unsigned i = 0; i < cs.size(); i++) if (cs[i] == sval(e)) return 10 * (i + 1); return -1; }
        auto it = pos.find(e);
        if (it != pos.end()) return it->second;
        return -1;                   // compound
    }
    E canon(E e) const {
        std::map<E, E> m;
        std::map<int, E> first;
        for (auto &p : pos) { if (p.second % 10 == 0) m[p.first] = konst((uint64_t)cs[p.second / 10 - 1], 64); else { auto f = first.emplace(p.second, p.first); if (!f.second) m[p.first] = f.first->second; } }
        return subst(e, m);
    }
};
static bool isNanBits(int64_t v) { return (v & ~(1LL << 63)) == 0x7ff8000000000000LL; }
static bool truth(E c, const World &w) {
    if (isC(c)) return c->c != 0;
    if (c->op == "not") return !truth(c->a[0], w);
    if (c->op == "and") return truth(c->a[0], w) && truth(c->a[1], w);
    if (c->op == "or") return truth(c->a[0], w) || truth(c->a[1], w);
    auto bits = [&](E e, int64_t mask) -> E { if (e->k == N::OP && e->op == "and" && e->a.size() == 2) { if (isC(e->a[1]) && sval(e->a[1]) == mask) return e->a[0]; if (isC(e->a[0]) && sval(e->a[0]) == mask) return e->a[1]; } return nullptr; };
    auto known = [&](E v, int64_t &x) { int p = w.place(v); if (p > 0 && p % 10 == 0) { x = w.cs[p / 10 - 1]; return true; } return false; };
    if (c->op == "eq0") {
        E d = c->a[0];
        int64_t x;
        if (isC(d)) return d->c == 0;
        if (E v = bits(d, MANT)) { if (v->k == N::SUM || v->k == N::OP) return true; if (known(v, x)) return (x & MANT) == 0; throw Undecided{"bits"}; }
        if (d->k == N::SUM && d->t.size() == 1) if (E v = bits(d->t[0].second, EXPM)) { if (v->k == N::SUM || v->k == N::OP) return false; if (known(v, x)) return (x & EXPM) == EXPM; return false; }
        if (d->k == N::L) { int p = w.place(d), z = w.place(konst(0, 64)); return p == z; }
        if (d->k == N::SUM && d->t.size() == 1 && std::abs(d->t[0].first) == 1) {
            E x = d->t[0].second;
            int64_t k = d->t[0].first == 1 ? -(int64_t)d->c : (int64_t)d->c;
            if (x->k == N::L) return w.place(x) == w.place(konst((uint64_t)k, 64));
            return false;            // compound: not one of the constants
        }
        if (d->k == N::SUM && d->t.size() == 2 && d->c == 0 && d->t[0].first == -d->t[1].first && std::abs(d->t[0].first) == 1 && d->t[0].second->k == N::L && d->t[1].second->k == N::L) return w.place(d->t[0].second) == w.place(d->t[1].second);
        return false;                // a sum compared with a constant
    }
    if (c->op == "slt" || c->op == "ult") {
        int p = w.place(c->a[0]), q = w.place(c->a[1]);
        if (p < 0 || q < 0) throw Undecided{"order of a sum"};
        for (int z : {p, q}) if (z % 10 == 0 && isNanBits(w.cs[z / 10 - 1])) throw Undecided{"order of not-a-number"};
        return p < q;
    }
    throw Undecided{"condition " + str(c)};
}
static E apply(const Acc &A, E a, E x, const World &w) {
    std::map<E, E> m = {{OUT, a}, {IN, x}};
    for (auto &c : A.cases) {
        bool ok = true;
        for (auto &l : c.lits) { E e = subst(l.e, m); if (truth(e, w) != l.v) { ok = false; break; } }
        if (!ok) continue;
        if (!c.val) return w.canon(a);
        E v = subst(c.val, m);
        for (int i = 0; i < 40; i++) { E s = findSelect(v); if (!s) break; v = simp(v, s, truth(s->a[0], w)); }
        return w.canon(v);
    }
    throw Undecided{"no case"};
}
static void constantsOf(E e, std::set<int64_t> &out) {
    if (e->k == N::C) { if (sval(e) != EXPM && sval(e) != MANT) out.insert(sval(e)); return; }
    if (e->k == N::OP && e->op == "eq0") { E d = e->a[0]; if (d->k == N::SUM && d->t.size() == 1 && std::abs(d->t[0].first) == 1) { if (d->t[0].second->k == N::L) out.insert(d->t[0].first == 1 ? -(int64_t)d->c : (int64_t)d->c); } if (d->k == N::L) out.insert(0); if (d->k == N::OP && d->op == "and") out.insert(0x7ff8000000000000LL); }
    for (auto &p : e->t) constantsOf(p.second, out);
    for (auto *a : e->a) constantsOf(a, out);
}
static void constantsOf(const Acc &A, std::set<int64_t> &out) { for (auto &c : A.cases) { for (auto &l : c.lits) constantsOf(l.e, out); if (c.val) constantsOf(c.val, out); } }
static bool topmost(int64_t v) { return v == INT64_MAX || v == INT32_MAX || v == INT16_MAX || v == EXPM; }
static bool lowest(int64_t v) { return v == INT64_MIN || v == INT32_MIN || v == INT16_MIN; }
// all places a value can be at
static std::vector<int> places(const std::vector<int64_t> &cs, int gaps) {
    std::vector<int> r;
    bool fp = false;
    int top = 1 << 30, low = 0;
    for (unsigned i = 0; i < cs.size(); i++) { fp |= isNanBits(cs[i]); if (topmost(cs[i])) top = 10 * (i + 1); if (lowest(cs[i])) low = 10 * (i + 1); }
    for (unsigned i = 0; i <= cs.size(); i++) {
        if (i) { int p = 10 * i; if (p >= low && (p <= top || isNanBits(cs[i - 1]))) r.push_back(p); }
        for (int g = 1; g <= gaps; g++) { int p = 10 * i + g; if (p > low && p < top) r.push_back(p); }
    }
    return r;
}
static std::string placeName(const World &w, E s) {
    int p = w.pos.at(s);
    if (p % 10 == 0) { int64_t c = w.cs[p / 10 - 1]; return lowest(c) || isNanBits(c) ? "null" : topmost(c) ? "the largest value" : std::to_string(c); }
    return "a value";
}
static bool same(const Acc &A, const Acc &B, std::string &why) {
    std::set<int64_t> k;
    constantsOf(A, k); constantsOf(B, k);
    World w;
    w.cs.assign(k.begin(), k.end());
    E a = leaf("a", 64), x = leaf("x", 64);
    auto ps = places(w.cs, 2);
    for (int p : ps) for (int q : ps) {
        w.pos = {{a, p}, {x, q}};
        if (apply(A, a, x, w) != apply(B, a, x, w)) { why = "accumulated " + placeName(w, a) + ", next " + placeName(w, x); return false; }
    }
    return true;
}
// P accumulates from ini, H combines
static bool agree(const Acc &P, const Acc &given, E ini, std::string &why, E first = nullptr) {
    Acc H = given;
    bool counts = ini && isC(ini) && !ini->c;      // never below zero
    for (auto &c : P.cases) counts &= !c.val || add(c.val, OUT, -1) == konst(1, 64);
    if (counts) for (auto &c : H.cases) for (auto &l : c.lits) {
        E d;
        if (!sltDiff(l.e, d)) continue;
        if (d == scale(IN, -1)) { l.e = op("eq0", 1, false, {IN}); l.v = !l.v; }
        else if (add(d, IN, -1) == konst(-1, 64)) l.e = op("eq0", 1, false, {IN});
    }
    std::set<int64_t> k;
    constantsOf(P, k); constantsOf(H, k);
    if (ini && isC(ini)) k.insert(sval(ini));
    if (first) k.insert(sval(first));
    World w;
    w.cs.assign(k.begin(), k.end());
    if (w.cs.size() > 6) throw Undecided{"constants"};
    E a = leaf("a", 64), b = leaf("b", 64), x = leaf("x", 64);
    auto all = places(w.cs, 3), two = places(w.cs, 2);
    // elements of a narrow type
    int64_t lo = INT16_MAX, hi = 0;
    for (int i = 0; i < 64; i++) if (P.types[i]) {
        if (i == 1 || i == 2 || i == 12) { lo = std::min<int64_t>(lo, 0); hi = std::max<int64_t>(hi, 255); }
        else if (i == 3) { lo = std::min<int64_t>(lo, INT16_MIN); hi = std::max<int64_t>(hi, INT16_MAX); }
        else if (i == 4 || i == 7 || i == 8) { lo = std::min<int64_t>(lo, INT32_MIN); hi = std::max<int64_t>(hi, INT32_MAX); }
        else { lo = INT64_MIN; hi = INT64_MAX; }
    }
    std::vector<int> elems;
    for (int p : all) { if (p % 10 == 0 && hi > lo && (w.cs[p / 10 - 1] < lo || w.cs[p / 10 - 1] > hi)) continue; elems.push_back(p); }
    // places the accumulated value can be at
    std::set<int> R;
    if (!ini) R.insert(all.begin(), all.end());
    else {
        std::set<int> nul;
        for (unsigned i = 0; i < w.cs.size(); i++) if (lowest(w.cs[i]) || isNanBits(w.cs[i])) nul.insert(10 * (i + 1));
        std::vector<int> todo;
        w.pos.clear();
        R.insert(w.place(ini));
        todo.assign(R.begin(), R.end());
        while (!todo.empty()) {
            int p = todo.back();
            todo.pop_back();
            for (int q : elems) {
                w.pos = {{a, p}, {x, q}};
                E v = apply(P, a, x, w);
                int r = isC(v) ? (std::find(w.cs.begin(), w.cs.end(), sval(v)) == w.cs.end() ? -1 : w.place(v)) : v->k == N::L ? w.place(v) : -1;
                std::vector<int> add;
                if (r > 0) add.push_back(r); else for (int z : all) if (!nul.count(z)) add.push_back(z);
                for (int z : add) if (R.insert(z).second) todo.push_back(z);
            }
        }
    }
    if (ini) for (int p : R) {
        w.pos = {{a, p}};
        if (!first && apply(H, a, ini, w) != w.canon(a)) { why = "a part without elements of the group changes the result (" + placeName(w, a) + ")"; return false; }
        if (apply(H, first ? first : ini, a, w) != w.canon(a)) { why = "a group that is not in the first part: " + placeName(w, a) + " of a later part becomes " + str(apply(H, ini, a, w)); return false; }
    }
    for (int p : R) for (int q : R) for (int z : elems) {
        w.pos = {{a, p}, {b, q}, {x, z}};
        E l, r;
        l = apply(H, a, apply(P, b, x, w), w);
        r = apply(P, apply(H, a, b, w), x, w);
        if (l != r) { why = "combined so far " + placeName(w, a) + ", part " + placeName(w, b) + ", next element " + placeName(w, x) + ": " + str(l) + " in parts, " + str(r) + " at once"; return false; }
    }
    return true;
}
// ---- who computes and who combines
struct Part { std::vector<Acc> steps; std::map<int, std::vector<std::pair<E, Types>>> ini; };
static std::map<const Function *, Part> parts;
static int compOf(E addr, E res) {   // address: within res itself (-1), or within element k of it
    E base = nullptr;
    std::function<void(E)> find = [&](E e) {
        if (e->k == N::OP && e->op == "load") { E a = e->a[0]; E d = add(a, res, -1); if (isC(d)) { base = e; return; } }
        for (auto &p : e->t) find(p.second);
    };
    if (coefOf(addr, res) == 1) return -1;
    find(addr);
    if (!base) return -2;
    int64_t o = sval(add(base->a[0], res, -1));
    return o >= 16 ? (int)((o - 16) / 8) : -2;
}
static void partial(const Function *T) {
    auto &pt = parts[T];
    Sym S(T);
    S.asPath = true;
    E res = leaf("arg4", 64);
    for (auto *L : S.LI.getLoopsInPreorder()) {
        std::vector<Acc> as;
        std::map<E, std::pair<E, const Instruction *>> cs;
        std::vector<std::pair<E, E>> cp;
        accs(S, L, as, cs, cp);
        for (auto &p : cs) { int k = compOf(p.first, res); if (k > -2) pt.ini[k].push_back({p.second.first, typesOf(S, p.second.second->getParent())}); }
        for (auto &a : as) {
            if (a.copy) continue;
            E o = a.out;
            if (!o && a.initial && a.initial->k == N::OP && a.initial->op == "load") o = a.initial->a[0];
            if (!o) { instance("combine-register", T, a.at, ""); continue; }
            a.comp = compOf(o, res);
            if (a.comp == -2) continue;
            instance("combine-step", T, a.at, std::to_string(a.cases.size()) + " cases");
            pt.steps.push_back(a);
            if (dbg) { errs() << T->getName() << " comp " << a.comp << " line " << (a.at->getDebugLoc() ? a.at->getDebugLoc().getLine() : 0) << "\n"; for (auto &c : a.cases) { for (auto &l : c.lits) errs() << "   " << (l.v ? "" : "!") << str(l.e); errs() << " -> " << (c.val ? str(c.val) : "same") << "\n"; } }
        }
        if (as.empty() && L->isInnermost() && dbg && cs.empty()) errs() << T->getName() << " loop without accumulation, line " << (L->getStartLoc() ? L->getStartLoc().getLine() : 0) << "\n";
    }
    // every way through the rows accumulates alike
    for (unsigned i = 0; i < pt.steps.size(); i++) for (unsigned j = 0; j < i; j++) {
        auto &a = pt.steps[i], &b = pt.steps[j];
        if (a.comp != b.comp || (a.types & b.types).none()) continue;
        try {
            std::string why;
            instance("combine-alike", T, a.at, "");
            if (!same(a, b, why)) report("combine", T, a.at, "alike", "accumulates differently from the loop in line " + std::to_string(b.at->getDebugLoc() ? b.at->getDebugLoc().getLine() : 0) + " (" + why + ")");
        } catch (Undecided &u) { instance("combine-undecided", T, a.at, u.why); }
        break;
    }
}
// tasks whose results a call returns, in parts
static std::map<const Function *, std::set<const Function *>> makers;
static void taskOf(E call, std::set<const Function *> &out) {
    if (call->k == N::OP && call->op.compare(0, 5, "call:") == 0) {
        for (E a : call->a) if (a->k == N::L && a->op[0] == '@') if (auto *G = M->getFunction(a->op.substr(1))) if (parts.count(G)) out.insert(G);
        if (auto *G = M->getFunction(call->op.substr(5))) { auto it = makers.find(G); if (it != makers.end()) out.insert(it->second.begin(), it->second.end()); }
    }
}
static void findCalls(E e, std::set<E> &out) {
    if (e->k == N::OP && e->op.compare(0, 5, "call:") == 0) { std::set<const Function *> t; taskOf(e, t); if (!t.empty()) { out.insert(e); return; } }
    for (auto &p : e->t) findCalls(p.second, out);
    for (auto *a : e->a) findCalls(a, out);
}
struct Use { const Function *T; Types types; E root; bool part = false; };   // part: one of the parts, not all of them
static void combiner(const Function *G, const std::vector<Use> *given) {
    Sym S(G);
    S.asPath = true;
    std::vector<std::pair<E, E>> cp;
    std::vector<Acc> all;
    for (auto *L : S.LI.getLoopsInPreorder()) { std::map<E, std::pair<E, const Instruction *>> cs; accs(S, L, all, cs, cp); }
    for (auto &B : *G) for (auto &I : B) if (auto *mc = dyn_cast<MemTransferInst>(&I)) if (!isa<AllocaInst>(rootOf(mc->getRawDest()))) cp.push_back({S.X(mc->getRawDest()), op("load", 64, false, {S.X(mc->getRawSource())})});
    for (auto &a : all) {
        if (!a.in && a.out && !given) {   // into the first part, without a look at the others
            std::set<E> cs;
            findCalls(a.out, cs);
            for (E c : cs) for (const Loop *K = a.L; K; K = K->getParentLoop()) {
                auto *br = dyn_cast<BranchInst>(K->getHeader()->getTerminator());
                if (!br || !br->isConditional()) continue;
                std::vector<Lit> gs;
                lits(S.cond(br->getCondition(), 0), K->contains(br->getSuccessor(0)), gs);
                for (auto &g : gs) if (mentions(g.e, op("load", 64, false, {add(c, konst(8, 64))}))) { report("combine", G, a.at, "combine", "goes through the parts, but does not take their values"); break; }
            }
        }
        if (!a.in) continue;
        if (a.copy && !a.out && (!a.initial || !isC(a.initial))) continue;
        std::vector<Use> us;
        if (given) { for (auto &u : *given) if (mentions(a.in, u.root)) us.push_back(u); }
        else { std::set<E> cs; findCalls(a.in, cs); for (E c : cs) { std::set<const Function *> ts; taskOf(c, ts); for (auto *T : ts) us.push_back({T, a.types, c}); } }
        for (auto &u : us) {
            // the part: an element of the list of parts
            E partLd = nullptr;
            std::function<void(E)> find = [&](E e) { if (e->k == N::OP && e->op == "load" && coefOf(e->a[0], u.root) == 1) { partLd = e; return; } for (auto &p : e->t) find(p.second); for (auto *x : e->a) find(x); };
            if (u.part) partLd = u.root; else find(a.in);
            if (!partLd) { instance("combine-undecided", G, a.at, "which part"); continue; }
            int comp = coefOf(a.in, partLd) == 1 ? -1 : compOf(a.in, partLd);
            if (dbg) { errs() << "COMBINE " << G->getName() << " of " << u.T->getName() << " comp " << comp << " line " << (a.at->getDebugLoc() ? a.at->getDebugLoc().getLine() : 0) << " in " << str(a.in) << " out " << (a.out ? str(a.out) : "reg") << "\n"; for (auto &c : a.cases) { for (auto &l : c.lits) errs() << "   " << (l.v ? "" : "!") << str(l.e); errs() << " -> " << (c.val ? str(c.val) : "same") << "\n"; } }
            E pa = u.part ? konst(0, 64) : add(partLd->a[0], u.root, -1);
            bool moves = u.part || mentions(pa, OUT);      // another part in every round
            for (const Loop *K = a.L; K && !moves; K = K->getParentLoop()) for (auto &P : K->getHeader()->phis()) { E p = S.X(&P); moves |= mentions(pa, p) || mentions(u.root, p); }
            if (!moves) continue;
            if (a.copy && u.part) continue;
            if (a.copy) {    // to a place of its own for every part: not combined
                bool own = false, over = false;
                for (const Loop *K = a.L; K; K = K->getParentLoop()) for (auto &P : K->getHeader()->phis()) { E p = S.X(&P); bool m = mentions(pa, p) || mentions(u.root, p); over |= m; if (a.out && m && mentions(a.out, p)) own = true; }
                if (a.out) for (auto &P : a.L->getHeader()->phis()) { E p = S.X(&P); if (mentions(a.out, p) && !mentions(a.in, p)) own = true; }
                for (const Loop *K = a.L->getParentLoop(); K && a.out; K = K->getParentLoop()) for (auto &P : K->getHeader()->phis()) { E p = S.X(&P); if (mentions(a.out, p)) own = true; }
                if (own || !over) continue;
            }
            if (!a.copy) for (E f : a.unless) {
                bool value = false;
                std::function<void(E)> look = [&](E e) {
                    if (e->k == N::OP && e->op == "load" && mentions(e->a[0], partLd)) for (auto &P : a.L->getHeader()->phis()) if (mentions(e->a[0], S.X(&P))) {
                        // nothing counted, nothing to take
                        E d;
                        bool counts = (f->op == "eq0" && f->a[0] == e) || (sltDiff(f, d) && (d == scale(e, -1) || add(d, e, -1) == konst(-1, 64)));
                        int k = compOf(e->a[0], partLd);
                        for (auto &q : parts[u.T].steps) if (q.comp == k) for (auto &c : q.cases) counts &= !c.val || add(c.val, OUT, -1) == konst(1, 64);
                        value |= !counts;
                    }
                    for (auto &p : e->t) look(p.second);
                    for (auto *x : e->a) look(x);
                };
                look(f);
                if (value) { report("combine", G, a.at, "combine", "whether the part is taken depends on " + str(f)); break; }
            }
            auto &pt = parts[u.T];
            Types ty = u.types & a.types;
            bool paired = false, bad = false;
            for (auto &p : pt.steps) {
                if (p.comp != comp || (p.types & ty).none()) continue;
                E ini = nullptr;
                bool many = false;
                if (pt.ini.count(comp)) for (auto &i : pt.ini[comp]) if ((i.second & p.types).any()) { if (ini && ini != i.first) many = true; ini = i.first; }
                if (many) ini = nullptr;
                try {
                    std::string why;
                    if (!bad && !agree(p, a, ini, why)) { report("combine", G, a.at, "combine", "combines parts of " + u.T->getName().str() + " differently from how they are accumulated: " + why); bad = true; }
                    if (!paired) instance("combine-pair", G, a.at, u.T->getName().str() + " " + std::to_string(p.at->getDebugLoc() ? p.at->getDebugLoc().getLine() : 0) + (ini ? " from " + str(ini) : ""));
                    paired = true;
                    if (!bad && a.initial && ini && isC(a.initial) && a.initial != ini) { report("combine", G, a.at, "initial", "starts from " + str(a.initial) + ", parts of " + u.T->getName().str() + " start from " + str(ini)); bad = true; }
                } catch (Undecided &x) { if (!paired) instance("combine-undecided", G, a.at, x.why); paired = true; }
            }
            if (!paired) { instance("combine-undecided", G, a.at, "no accumulation of these types"); continue; }
            // the same place in both, every part once
            const Loop *L = a.L;
            std::map<E, E> next, init;
            S.asPath = false;
            S.carried(L, next, init);
            S.asPath = true;
            for (auto &P : L->getHeader()->phis()) {
                E p = S.X(&P);
                if (!next.count(p) || add(next[p], p, -1) != konst(1, 64)) continue;
                bool overParts = mentions(pa, p);
                if (!overParts && a.out) {
                    if (!mentions(a.in, p) && !mentions(a.out, p)) continue;
                    instance("combine-place", G, a.at, "");
                    if (coefOf(a.out, p) != coefOf(a.in, p)) report("combine", G, a.at, "place", "combines element " + str(a.in) + " into " + str(a.out) + ": not the same group");
                    if (init.count(p) && isC(init[p]) && sval(init[p]) > 0) report("combine", G, a.at, "place", "the first " + std::to_string(sval(init[p])) + " groups are not combined");
                }
            }
            for (const Loop *K = L; K && !u.part; K = K->getParentLoop()) {
                std::map<E, E> nx, in;
                S.carried(K, nx, in);
                for (auto &P : K->getHeader()->phis()) {
                    E p = S.X(&P);
                    if (!mentions(pa, p) || !nx.count(p) || !in.count(p)) continue;
                    E st = add(nx[p], p, -1);
                    bool fromFirst = a.out ? mentions(a.out, u.root) : false, copied = fromFirst;
                    if (a.out) for (auto &c : cp) if (mentions(c.second, u.root)) copied = true;
                    instance("combine-parts", G, a.at, "from part " + str(in[p]));
                    if (st != konst(1, 64)) { report("combine", G, a.at, "parts", "goes through the parts by " + str(st)); continue; }
                    E off = add(pa, scale(p, 8), -1);       // which part that is, apart from the variable
                    int64_t k0 = isC(off) ? (sval(off) - 16) / 8 : 0;
                    if (!isC(in[p])) continue;
                    if (sval(in[p]) + k0 > (copied ? 1 : 0)) report("combine", G, a.at, "parts", "the parts before part " + std::to_string(sval(in[p]) + k0) + " are left out");
                    if (sval(in[p]) + k0 <= 0 && fromFirst) report("combine", G, a.at, "parts", "the first part is combined with itself");
                    auto *br = dyn_cast<BranchInst>(K->getHeader()->getTerminator());
                    if (!br || !br->isConditional()) continue;
                    std::vector<Lit> gs;
                    lits(S.cond(br->getCondition(), 0), K->contains(br->getSuccessor(0)), gs);
                    for (auto &g : gs) {
                        E d;
                        if (!g.v || !sltDiff(g.e, d) || coefOf(d, p) != 1) continue;
                        E b = add(p, d, -1), len = op("load", 64, false, {add(u.root, konst(8, 64))});
                        E k = add(add(b, konst(k0, 64)), len, -1);
                        if (isC(k) && sval(k) != 0) report("combine", G, a.at, "parts", "goes through " + str(b) + " parts");
                    }
                }
            }
        }
    }
    if (given) return;
    // parts handed on to a function that combines them
    for (auto &B : *G) for (auto &I : B) if (auto *C = dyn_cast<CallBase>(&I)) {
        auto *H = lu::calleeOf(C);
        if (!H || H->isDeclaration() || parts.count(H) || H->getName() == "drop_obj" || H->getName() == "clone_obj") continue;
        std::vector<Use> gv;
        for (unsigned i = 0; i < C->arg_size(); i++) {
            E e = S.X(C->getArgOperand(i));
            std::set<const Function *> ts;
            taskOf(e, ts);
            bool part = false;      // an element of a list
            if (e->k == N::OP && e->op == "load") { std::set<E> cs; findCalls(e, cs); for (E c : cs) if (coefOf(e->a[0], c) == 1) { part = true; taskOf(c, ts); } }
            if (ts.empty()) continue;
            for (auto *T : ts) gv.push_back({T, typesOf(S, &B), leaf("arg" + std::to_string(i), 64), part});
        }
        if (!gv.empty()) combiner(H, &gv);
    }
}
// ---- folds: every part gives one value, the values are folded again
struct Fold { Acc a; E ini; int type; };
static std::map<const Function *, std::vector<Fold>> folds;
static int atomType(const Function *G) {   // the type of the single values a function makes
    if (!G || G->isDeclaration()) return 0;
    int t = 0;
    for (auto &B : *G) for (auto &I : B) {
        if (auto *C = dyn_cast<CallBase>(&I)) { auto *H = lu::calleeOf(C); if (H && H->getName() == "atom" && C->arg_size() == 1) if (auto *k = dyn_cast<ConstantInt>(C->getArgOperand(0))) { int v = std::abs((int)(int8_t)k->getSExtValue()); if (t && t != v) return 0; t = v; } }
    }
    return t;
}
static void fold(const Function *T) {
    Sym S(T);
    S.asPath = true;
    for (auto *L : S.LI.getLoopsInPreorder()) {
        if (!L->isInnermost()) continue;
        std::vector<Acc> as;
        std::map<E, std::pair<E, const Instruction *>> cs;
        std::vector<std::pair<E, E>> cp;
        accs(S, L, as, cs, cp);
        for (auto &a : as) {
            auto *P = dyn_cast<PHINode>(a.at);
            if (!P || a.out || a.copy || !a.initial || !isC(a.initial) || !a.in || !mentions(a.in, leaf("arg0", 64))) continue;
            int ty = 0;
            std::set<const Value *> seen;
            std::vector<const Value *> todo = {P};
            while (!todo.empty()) { auto *v = todo.back(); todo.pop_back(); if (!seen.insert(v).second) continue; for (auto *U : v->users()) { if (auto *I = dyn_cast<Instruction>(U)) { if (L->contains(I->getParent())) continue; if (isa<CastInst>(I) || isa<PHINode>(I)) todo.push_back(I); if (auto *C = dyn_cast<CallBase>(I)) if (int t = atomType(lu::calleeOf(C))) ty = t; } } }
            for (int i = 64; i < 256; i++) a.types.reset(i);
            if (!ty || a.types.none()) continue;
            instance("fold-step", T, a.at, "type " + std::to_string(ty) + " from " + str(a.initial));
            if (dbg) { errs() << "FOLD " << T->getName() << " line " << (a.at->getDebugLoc() ? a.at->getDebugLoc().getLine() : 0) << " gives " << ty << " types"; for (int i = 0; i < 64; i++) if (a.types[i]) errs() << " " << i; errs() << "\n"; for (auto &c : a.cases) { for (auto &l : c.lits) errs() << "   " << (l.v ? "" : "!") << str(l.e); errs() << " -> " << (c.val ? str(c.val) : "same") << "\n"; } }
            folds[T].push_back({a, a.initial, ty});
        }
    }
}
static void folded(const Function *T, const Function *H, const Function *F, const CallBase *C) {
    if (!folds.count(T)) return;
    static std::set<std::tuple<const Function *, const Function *, const CallBase *>> done;
    if (!done.insert({T, H, C}).second) return;
    for (auto &p : folds[T]) {
        const Fold *h = nullptr;
        if (folds.count(H)) for (auto &q : folds[H]) if (q.a.types[p.type]) h = &q;
        if (!h) { instance("fold-undecided", F, C, T->getName().str() + ": no fold of type " + std::to_string(p.type) + " in " + H->getName().str()); continue; }
        try {
            std::string why;
            instance("fold-pair", F, C, T->getName().str() + " type " + std::to_string(p.type) + " folded by " + H->getName().str());
            if (!agree(p.a, h->a, p.ini, why, h->ini)) report("combine", F, C, "fold:" + T->getName().str(), "folds the parts of " + T->getName().str() + " (type " + std::to_string(p.type) + ", line " + std::to_string(p.a.at->getDebugLoc() ? p.a.at->getDebugLoc().getLine() : 0) + ") differently from their elements: " + why);
        } catch (Undecided &u) { instance("fold-undecided", F, C, u.why); }
    }
}
static void foldsOver() {
    auto argOf = [](const Value *v) { while (auto *c = dyn_cast<CastInst>(v)) v = c->getOperand(0); return dyn_cast<Argument>(v->stripPointerCasts()); };
    struct Pair { const Value *task, *again; const Function *F; const CallBase *C; };
    std::vector<Pair> pairs;
    std::set<const Function *> tasks;
    for (auto &F : *M) {
        std::vector<const CallBase *> adds, runs, others;
        for (auto &B : F) for (auto &I : B) if (auto *C = dyn_cast<CallBase>(&I)) { auto *G = lu::calleeOf(C); if (!G) continue; if (G->getName() == "pool_add_task") adds.push_back(C); else if (G->getName() == "pool_run") runs.push_back(C); else others.push_back(C); }
        if (adds.empty() || runs.empty()) continue;
        DominatorTree DT(F);
        for (auto *C : others) {
            bool after = false;
            for (auto *R : runs) after |= DT.dominates(R, C);
            if (!after) continue;
            auto *G = lu::calleeOf(C);
            const Value *again = nullptr;
            if (G->getName() == "pool_call_task_fn") again = C->getArgOperand(0);
            else if (G->arg_size() == 3 || G->arg_size() == 4) { for (auto *A : adds) if (lu::targetsOf(A->getArgOperand(1)).fs.count(G)) again = G; }
            else for (auto &B : *G) if (auto *R = dyn_cast<ReturnInst>(B.getTerminator())) if (auto *D = dyn_cast_or_null<CallBase>(R->getReturnValue())) for (auto &a : D->args()) if (isa<Function>(a->stripPointerCasts())) again = a;
            if (!again) continue;
            std::set<const Value *> seen;
            for (auto *A : adds) if (seen.insert(A->getArgOperand(1)->stripPointerCasts()).second) pairs.push_back({A->getArgOperand(1), again, &F, C});
        }
    }
    for (auto &p : pairs) for (auto *v : {p.task, p.again}) for (auto *T : lu::targetsOf(v).fs) if (!T->isDeclaration() && T->getReturnType()->isPointerTy() && T->arg_size() >= 3 && T->arg_size() <= 4) tasks.insert(T);
    for (auto *T : tasks) fold(T);
    for (auto &p : pairs) {
        auto *a = argOf(p.task), *b = argOf(p.again);
        auto ts = lu::targetsOf(p.task).fs;
        if (a && a == b) { for (auto *T : ts) folded(T, T, p.F, p.C); continue; }
        for (auto *T : ts) for (auto *H : lu::targetsOf(p.again).fs) folded(T, H, p.F, p.C);
    }
}
}
void runCombine() {
    dbg = getenv("RA_COMBINE");
    OUT = leaf("OUT", 64);
    IN = leaf("IN", 64);
    // tasks with a result to fill: handed to functions that give them to the pool along with room
    std::set<const Function *> direct;
    auto isPool = [](const Function *G) { return G && (G->getName() == "pool_add_task" || G->getName() == "pool_call_task_fn"); };
    std::set<const Function *> tasks;
    for (auto &F : *M) for (auto &B : F) for (auto &I : B) if (auto *C = dyn_cast<CallBase>(&I)) {
        if (!isPool(lu::calleeOf(C))) continue;
        auto t = lu::targetsOf(C->getArgOperand(lu::calleeOf(C)->getName() == "pool_add_task" ? 1 : 0));
        for (auto *T : t.fs) if (!T->isDeclaration() && T->arg_size() == 5 && T->getReturnType()->isPointerTy()) { tasks.insert(T); if (t.fs.size() == 1) makers[&F].insert(T); }
    }
    for (auto *T : tasks) partial(T);
    for (auto it = parts.begin(); it != parts.end();) { if (it->second.steps.empty()) it = parts.erase(it); else ++it; }
    for (auto it = makers.begin(); it != makers.end();) { std::set<const Function *> s; for (auto *T : it->second) if (parts.count(T)) s.insert(T); it->second = s; if (s.empty()) it = makers.erase(it); else ++it; }
    for (int r = 0; r < 4; r++) for (auto &F : *M) for (auto &B : F) if (auto *R = dyn_cast<ReturnInst>(B.getTerminator())) if (R->getReturnValue()) {
        std::set<const Value *> seen;
        std::vector<const Value *> todo = {R->getReturnValue()};
        while (!todo.empty()) { auto *v = todo.back(); todo.pop_back(); if (!seen.insert(v).second) continue; if (auto *P = dyn_cast<PHINode>(v)) for (auto &u : P->incoming_values()) todo.push_back(u); if (auto *C = dyn_cast<CallBase>(v)) if (auto *G = lu::calleeOf(C)) { auto i = makers.find(G); if (i != makers.end() && G != &F) { auto s = i->second; makers[&F].insert(s.begin(), s.end()); } } }
    }
    for (auto &F : *M) {
        if (F.isDeclaration() || parts.count(&F)) continue;
        bool uses = false;
        for (auto &B : F) for (auto &I : B) if (auto *C = dyn_cast<CallBase>(&I)) {
            if (auto *G = lu::calleeOf(C)) { if (isPool(G)) continue; uses |= makers.count(G) > 0; }
            for (auto &a : C->args()) if (auto *T = dyn_cast<Function>(a->stripPointerCasts())) uses |= parts.count(T) > 0;
        }
        if (uses) combiner(&F, nullptr);
    }
    foldsOver();
}
