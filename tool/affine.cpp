#include "affine_eval.h"
#include <numeric>
#include "llvm/Analysis/ConstantFolding.h"
namespace af {
using namespace lu;
bool Eval::prove(const std::vector<Lin> &facts, Lin g, int depth) const {
    if (!g.ok) return false;
    int neg = -1;
    for (auto &p : g.c) if (p.second < 0 || !A.v[p.first].nonneg) { neg = p.first; break; }
    if (neg < 0) {
        if (g.k >= 0) return true;
    }
    if (depth <= 0) return false;
    if (neg >= 0) {
        long long c = g.c.at(neg);
        for (auto &f : facts) { auto it = f.c.find(neg); if (it == f.c.end() || (it->second > 0) != (c > 0) || c % it->second) continue; if (prove(facts, g - f * (c / it->second), depth - 1)) return true; }
        return false;
    }
    // constant too small: use a fact that only takes quantities away
    for (auto &f : facts) { if (f.k >= 0) continue; if (prove(facts, g - f, depth - 1)) return true; }
    return false;
}
Val Eval::subst(const Val &v, int a, const Lin &by) { Val r = v; if (r.k != Val::Unk) r.l = subst(r.l, a, by); return r; }
Lin Eval::subst(const Lin &l, int a, const Lin &by) {
    if (!l.ok) return l;
    Lin r = l;
    auto it = r.c.find(a);
    if (it != r.c.end()) { long long m = it->second; r.c.erase(it); r = r + by * m; }
    return r;
}
void Eval::subst(Ev &e, int a, const Lin &by) { e.off = subst(e.off, a, by); e.size = subst(e.size, a, by); e.dst = subst(e.dst, a, by); e.val = subst(e.val, a, by); e.times = subst(e.times, a, by); }
void Eval::subst(State &s, int a, const Lin &by) {
    for (auto &p : s.env) p.second = subst(p.second, a, by);
    decltype(s.mem) m;
    for (auto &p : s.mem) m[{p.first.first, subst(p.first.second, a, by)}] = {p.second.first, subst(p.second.second, a, by)};
    s.mem.swap(m);
    for (auto &f : s.facts) f = subst(f, a, by);
    for (auto &e : s.evs) subst(e, a, by);
}
int Eval::newBase(BaseKind k, const std::string &n) { bases.push_back({k, n}); return bases.size() - 1; }
int Eval::namedBase(BaseKind k, const std::string &n) { auto it = bix.find(n); if (it != bix.end()) return it->second; return bix[n] = newBase(k, n); }
Val Eval::value(State &s, const Value *v) {
    if (auto *c = dyn_cast<ConstantInt>(v)) return Val::num(Lin(c->getBitWidth() == 1 ? (long long)c->getZExtValue() : c->getSExtValue()));
    if (isa<ConstantPointerNull>(v)) return Val::ptr(nullBase, Lin(0));
    auto it = s.env.find(v);
    if (it != s.env.end()) return it->second;
    if (auto *g = dyn_cast<GEPOperator>(v)) { if (isa<Constant>(v)) return gep(s, g); }
    if (auto *g = dyn_cast<GlobalVariable>(v)) return Val::ptr(namedBase(BOther, "@" + g->getName().str()), Lin(0));
    return Val();
}
Val Eval::gep(State &s, const GEPOperator *g) {
    Val b = value(s, g->getPointerOperand());
    if (b.k != Val::Ptr) return Val();
    MapVector<Value *, APInt> var;
    APInt k(64, 0);
    if (!g->collectOffset(*DL, 64, var, k)) return Val();
    Lin o = b.l + Lin(k.getSExtValue());
    for (auto &p : var) { Val i = value(s, p.first); if (i.k != Val::Int) return Val(); o = o + i.l * p.second.getSExtValue(); }
    if (!o.ok) return Val();
    return Val::ptr(b.base, o);
}
Val Eval::load(State &s, const Val &p, Type *t, const Instruction *I) {
    if (p.k != Val::Ptr) return t->isIntegerTy() ? Val() : Val();
    int n = DL->getTypeStoreSize(t);
    auto &B = bases[p.base];
    if (B.kind == BBuf) readObligation(s, p, Lin(n), I);
    auto it = s.mem.find({p.base, p.l});
    if (it != s.mem.end() && it->second.first == n) return it->second.second;
    if (it != s.mem.end() && it->second.second.k == Val::Int && it->second.second.l.isConst() && n < it->second.first) {
        long long x = it->second.second.l.k; x = n == 1 ? (int8_t)x : n == 2 ? (int16_t)x : (int32_t)x;
        return Val::num(Lin(x));
    }
    if (B.kind == BCell || B.kind == BNew) { if (t->isPointerTy()) return Val(); int a = A.fresh("undef", AUnknown, false); return Val::num(Lin::atom(a)); }
    if (B.kind == BOther && B.name[0] == '@' && p.l.isConst()) if (auto *g = M->getGlobalVariable(B.name.substr(1), true)) if (g->isConstant() && g->hasInitializer())
        if (auto *c = ConstantFoldLoadFromConst(g->getInitializer(), t, APInt(64, p.l.k), *DL)) if (auto *ci = dyn_cast<ConstantInt>(c)) return Val::num(Lin(ci->getSExtValue()));
    std::string nm = B.name + "@" + A.str(p.l) + ":" + std::to_string(n);
    if (B.kind == BBuf) {
        int a = A.get("rd:" + nm, ARead, false);
        A.v[a].off = p.l; A.v[a].n = n;
        if (t->isPointerTy()) return Val();
        return Val::num(Lin::atom(a));
    }
    if (B.kind == BErr && p.l == Lin(2) && n == 1) return Val::num(Lin(127));
    if (t->isPointerTy()) return Val::ptr(namedBase(B.kind == BOther && B.name[0] != '@' ? BOther : BObj, B.name + "." + A.str(p.l)), Lin(0));
    if (!t->isIntegerTy()) return Val();
    bool len = B.kind == BObj && p.l == Lin(8) && n == 8 && lenNonneg(p.base);
    int a = A.get(nm, AQty, len);
    A.v[a].off = p.l; A.v[a].n = n;
    return Val::num(Lin::atom(a));
}
void Eval::store(State &s, const Val &p, const Val &v, int n, const Instruction *I) {
    if (p.k != Val::Ptr) return;
    auto &B = bases[p.base];
    if (B.kind == BBuf) { Ev e; e.off = p.l; e.size = Lin(n); e.val = v; s.evs.push_back(e); writeObligation(s, p, Lin(n), I); return; }
    for (auto it = s.mem.begin(); it != s.mem.end();) { Lin d = it->first.second - p.l; if (it->first.first == p.base && d.isConst() && d.k > -it->second.first && d.k < n) it = s.mem.erase(it); else ++it; }
    s.mem[{p.base, p.l}] = {n, v};
    if (B.kind == BNew && !p.l.isConst()) { Ev e; e.k = Ev::Fill; e.base = p.base; e.dst = p.l; e.size = Lin(n); e.val = v; if (v.k == Val::Int && v.l.c.size() == 1 && v.l.k == 0) { auto &a = A.v[v.l.c.begin()->first]; e.off = a.off; e.what = a.name; } s.evs.push_back(e); }
}
void Eval::copy(State &s, const Val &d, const Val &src, const Lin &n, const Instruction *I) {
    if (src.k == Val::Ptr && bases[src.base].kind == BBuf) readObligation(s, src, n, I);
    if (d.k != Val::Ptr) return;
    if (bases[d.base].kind == BBuf) {
        Ev e; e.off = d.l; e.size = n; e.val = src.k == Val::Ptr ? Val::ptr(src.base, src.l) : Val();
        if (src.k == Val::Ptr && n.isConst() && n.k <= 8) { auto it = s.mem.find({src.base, src.l}); if (it != s.mem.end() && it->second.first == n.k) e.val = it->second.second; }
        s.evs.push_back(e); writeObligation(s, d, n, I);
        return;
    }
    if (n.isConst() && n.k <= 8 && n.k > 0 && src.k == Val::Ptr) {
        Val v = load(s, src, IntegerType::get(M->getContext(), n.k * 8), nullptr);
        if (bases[d.base].kind == BCell || (bases[d.base].kind == BNew && d.l.isConst())) { store(s, d, v, n.k, I); return; }
    }
    if (bases[d.base].kind == BNew) { Ev e; e.k = Ev::Fill; e.base = d.base; e.dst = d.l; e.size = n; if (src.k == Val::Ptr) { e.off = src.l; e.what = bases[src.base].name; e.val = src; } s.evs.push_back(e); }
    else if (bases[d.base].kind == BCell) { for (auto it = s.mem.begin(); it != s.mem.end();) if (it->first.first == d.base) it = s.mem.erase(it); else ++it; }
}
// truth of a condition in a state: constant, or the facts of either outcome
Eval::Cond Eval::cond(State &s, const Value *v, int d) {
    Cond r;
    auto konst = [&](bool b) { r.known = true; r.val = b; return r; };
    if (auto *c = dyn_cast<ConstantInt>(v)) return konst(!c->isZero());
    if (d > 6) return r;
    auto al = alias.find(v);
    if (isa<PHINode>(v)) { auto it = s.env.find(v); if (it != s.env.end() && it->second.k == Val::Int && it->second.l.isConst()) return konst(it->second.l.k != 0); auto ai = phiAlias.find({v, s.trail.empty() ? nullptr : lastPred(s, cast<PHINode>(v)->getParent())}); if (ai != phiAlias.end()) return cond(s, ai->second, d + 1); return r; }
    (void)al;
    if (auto *c = dyn_cast<CastInst>(v)) return cond(s, c->getOperand(0), d + 1);
    if (auto *f = dyn_cast<FreezeInst>(v)) return cond(s, f->getOperand(0), d + 1);
    if (auto *ii = dyn_cast<IntrinsicInst>(v)) if (ii->getIntrinsicID() == Intrinsic::expect) return cond(s, ii->getArgOperand(0), d + 1);
    if (auto *b = dyn_cast<BinaryOperator>(v)) if (b->getOpcode() == Instruction::Xor) if (auto *c = dyn_cast<ConstantInt>(b->getOperand(1))) if (c->isOne()) { Cond x = cond(s, b->getOperand(0), d + 1); std::swap(x.t, x.f); if (x.known) x.val = !x.val; return x; }
    auto *I = dyn_cast<ICmpInst>(v);
    if (!I) { Val x = value(s, v); if (x.k == Val::Int && x.l.isConst()) return konst(x.l.k != 0); return r; }
    auto pr = I->getPredicate();
    if (auto *c = dyn_cast<ConstantInt>(I->getOperand(1))) if (c->isZero() && I->isEquality()) {
        const Value *o = I->getOperand(0);
        while (auto *z = dyn_cast<CastInst>(o)) o = z->getOperand(0);
        if (o->getType()->isIntegerTy(1)) { Cond x = cond(s, o, d + 1); if (pr == CmpInst::ICMP_EQ) { std::swap(x.t, x.f); if (x.known) x.val = !x.val; } return x; }
        if (auto *ii = dyn_cast<IntrinsicInst>(o)) if (ii->getIntrinsicID() == Intrinsic::expect) {
            const Value *q = ii->getArgOperand(0); while (auto *z = dyn_cast<CastInst>(q)) q = z->getOperand(0);
            if (q->getType()->isIntegerTy(1)) { Cond x = cond(s, q, d + 1); if (pr == CmpInst::ICMP_EQ) { std::swap(x.t, x.f); if (x.known) x.val = !x.val; } return x; }
        }
    }
    Val a = value(s, I->getOperand(0)), b = value(s, I->getOperand(1));
    if (a.k == Val::Ptr && b.k == Val::Ptr && a.base != b.base) {
        bool an = a.base == nullBase, bn = b.base == nullBase;
        if (I->isEquality() && (an || bn)) { int o = an ? b.base : a.base; if (bases[o].kind != BObj && bases[o].kind != BOther) return konst(pr == CmpInst::ICMP_NE); }
        return r;
    }
    if (a.k == Val::Unk || b.k == Val::Unk || a.k != b.k) return r;
    Lin df = b.l - a.l;  // b - a
    if (!df.ok) return r;
    auto ge = [&](const Lin &l) { return prove(s.facts, l, 5); };
    bool uns = I->isUnsigned();
    if (uns && !(ge(a.l) && ge(b.l))) return r;
    switch (pr) {
        case CmpInst::ICMP_EQ: case CmpInst::ICMP_NE: {
            bool eq = pr == CmpInst::ICMP_EQ;
            if (df == Lin(0)) return konst(eq);
            if (df.isConst() || ge(df - Lin(1)) || ge(df * -1 - Lin(1))) return konst(!eq);
            (eq ? r.t : r.f) = {df, df * -1};
            return r;
        }
        case CmpInst::ICMP_SLT: case CmpInst::ICMP_ULT: r.t = {df - Lin(1)}; r.f = {df * -1}; break;
        case CmpInst::ICMP_SLE: case CmpInst::ICMP_ULE: r.t = {df}; r.f = {df * -1 - Lin(1)}; break;
        case CmpInst::ICMP_SGT: case CmpInst::ICMP_UGT: r.t = {df * -1 - Lin(1)}; r.f = {df}; break;
        case CmpInst::ICMP_SGE: case CmpInst::ICMP_UGE: r.t = {df * -1}; r.f = {df - Lin(1)}; break;
        default: return r;
    }
    if (ge(r.t[0])) return konst(true);
    if (ge(r.f[0])) return konst(false);
    return r;
}
const BasicBlock *Eval::lastPred(const State &s, const BasicBlock *B) { for (size_t i = s.trail.size(); i-- > 1;) if (s.trail[i] == B) return s.trail[i - 1]; return nullptr; }
void Eval::giveUp(const std::string &w) { if (!gaveUp) { gaveUp = true; why = w; } }
std::vector<Outcome> Eval::call(const Function *F, const std::vector<Val> &args, State s) {
    std::vector<Outcome> out;
    if (stack.size() > 5) { giveUp("calls nested too deeply"); return out; }
    stack.push_back(F);
    auto &fi = info(F);
    Frame fr{F, &fi, &out, {}};
    for (unsigned i = 0; i < F->arg_size() && i < args.size(); i++) s.env[F->getArg(i)] = args[i];
    auto keep = s.trail;
    s.trail.clear();
    enter(fr, &F->getEntryBlock(), nullptr, s);
    for (auto &o : out) o.s.trail = keep;
    stack.pop_back();
    return out;
}
Eval::Info &Eval::info(const Function *F) {
    auto &p = infos[F];
    if (!p) { p.reset(new Info); p->DT.recalculate(*const_cast<Function *>(F)); p->LI.analyze(p->DT); }
    return *p;
}
void Eval::phis(State &s, const BasicBlock *B, const BasicBlock *pred) {
    std::vector<std::pair<const Value *, Val>> nv;
    for (auto &I : *B) {
        auto *p = dyn_cast<PHINode>(&I);
        if (!p) break;
        const Value *in = p->getIncomingValueForBlock(pred);
        Val v = value(s, in);
        if (p->getType()->isIntegerTy(1) && v.k == Val::Unk) phiAlias[{p, pred}] = in;
        nv.push_back({p, v});
    }
    for (auto &p : nv) s.env[p.first] = p.second;
}
// control reaches B from pred
void Eval::enter(Frame &fr, const BasicBlock *B, const BasicBlock *pred, State s) {
    if (gaveUp) return;
    if (++steps > 60000) { giveUp("too many paths"); return; }
    s.trail.push_back(B);
    if (s.trail.size() > 400) s.trail.erase(s.trail.begin(), s.trail.begin() + 200);
    if (!fr.loops.empty()) {
        auto &lc = *fr.loops.back();
        if (B == lc.L->getHeader()) { if (pred) { lc.latches.push_back({pred, s}); } return; }
        if (!lc.L->contains(B)) { if (!lc.dry) lc.exits.push_back({pred, B, s}); return; }
    }
    auto *L = fr.fi->LI.getLoopFor(B);
    if (L && L->getHeader() == B && pred && !L->contains(pred)) { loop(fr, L, pred, s); return; }
    if (pred) phis(s, B, pred);
    body(fr, B->getFirstNonPHI(), s);
}
void Eval::loop(Frame &fr, const Loop *L, const BasicBlock *pred, State s) {
    const BasicBlock *H = L->getHeader();
    struct Ent { const PHINode *p; std::pair<int, Lin> cell; Val entry; Lin x; bool bad = false, nonneg = false; Lin cst; int prog = -1; int sign = 1; };
    std::vector<Ent> ents;
    {
        State t = s;
        phis(t, H, pred);
        for (auto &I : *H) { auto *p = dyn_cast<PHINode>(&I); if (!p) break; Ent e; e.p = p; e.entry = t.env[p]; if (e.entry.k == Val::Unk) { e.bad = true; } ents.push_back(e); }
    }
    auto run = [&](State &st, bool dry, LoopCtx &lc) {
        lc.L = L; lc.dry = dry;
        fr.loops.push_back(&lc);
        auto saveTrail = st.trail;
        body(fr, H->getFirstNonPHI(), st);
        fr.loops.pop_back();
    };
    auto setup = [&](State &st) {
        for (auto &e : ents) {
            Val v = e.entry;
            if (e.bad) { v = e.p && e.p->getType()->isIntegerTy() && !e.p->getType()->isIntegerTy(1) ? Val::num(Lin::atom(A.fresh("any", AUnknown, false))) : Val(); }
            else v.l = v.l + e.x;
            if (e.nonneg && v.k == Val::Int) st.facts.push_back(v.l);  // inductive
            if (e.p) st.env[e.p] = v; else if (v.k == Val::Unk) st.mem.erase(e.cell); else st.mem[e.cell].second = v;
        }
    };
    auto delta = [&](Ent &e, std::pair<const BasicBlock *, State> &la, State &head) -> Lin {
        Val h = e.p ? head.env[e.p] : head.mem[e.cell].second, n;
        if (e.p) n = value(la.second, e.p->getIncomingValueForBlock(la.first));
        else { auto it = la.second.mem.find(e.cell); if (it != la.second.mem.end()) n = it->second.second; }
        if (n.k == Val::Unk || n.k != h.k || n.base != h.base) return Lin::bad();
        return n.l - h.l;
    };
    std::set<int> xs;
    auto fresh = [&](Ent &e) { if (!e.bad) { int a = A.fresh("x", AIter, false); xs.insert(a); e.x = Lin::atom(a); } };
    bool quiet = silent; silent = true;
    for (int round = 0; round < 2 && !gaveUp; round++) {  // which memory changes; how everything changes
        for (auto &e : ents) fresh(e);
        State t = s; t.evs.clear(); setup(t);
        State head = t;
        LoopCtx lc; run(t, true, lc);
        if (!round) {
            std::set<std::pair<int, Lin>> ch;
            for (auto &la : lc.latches) for (auto &m : head.mem) { auto it = la.second.mem.find(m.first); if (it == la.second.mem.end() || !(it->second == m.second)) ch.insert(m.first); }
            if (ch.empty() && 0) break;
            for (auto &c : ch) { Ent e; e.p = nullptr; e.cell = c; e.entry = s.mem[c].second; if (e.entry.k == Val::Unk) e.bad = true; ents.push_back(e); }
            continue;
        }
        std::vector<std::pair<Lin, int>> progs;
        for (auto &e : ents) {
            if (e.bad || e.entry.k != Val::Int || !prove(s.facts, e.entry.l, 5)) continue;
            Val h = e.p ? head.env[e.p] : head.mem[e.cell].second;
            bool all = true;
            for (auto &la : lc.latches) {
                Val n;
                if (e.p) n = value(la.second, e.p->getIncomingValueForBlock(la.first)); else { auto it = la.second.mem.find(e.cell); if (it != la.second.mem.end()) n = it->second.second; }
                if (n.k != Val::Int) { all = false; break; }
                auto fs = la.second.facts; fs.push_back(h.l);
                if (!prove(fs, n.l, 5)) { all = false; break; }
            }
            e.nonneg = all;
        }
        int K = A.fresh("iter", AIter, true);
        for (auto &e : ents) {
            if (e.bad) continue;
            Lin d; bool first = true;
            for (auto &la : lc.latches) { Lin x = delta(e, la, head); if (first) d = x; else if (!(x == d)) d = Lin::bad(); first = false; }
            if (lc.latches.empty()) d = Lin(0);
            if (d.ok) for (auto &p : d.c) if (xs.count(p.first)) { d = Lin::bad(); break; }
            if (!d.ok) { e.bad = true; continue; }
            e.cst = Lin(d.k); e.x = Lin::atom(K) * d.k;
            Lin v = d - Lin(d.k);
            if (!v.c.empty()) {
                int found = -1, sg = 1;
                for (auto &pr : progs) { if (pr.first == v) { found = pr.second; break; } if (pr.first == v * -1) { found = pr.second; sg = -1; break; } }
                if (found < 0) {
                    bool pos = true, neg = true;
                    for (auto &p : v.c) { if (!A.v[p.first].nonneg) pos = neg = false; if (p.second < 0) pos = false; else neg = false; }
                    found = A.fresh("prog", AProg, pos || neg);
                    if (neg) { v = v * -1; sg = -1; }
                    progs.push_back({v, found});
                }
                e.prog = found; e.sign = sg;
                e.x = e.x + Lin::atom(found) * sg;
            }
        }
        silent = quiet;
        // the real pass
        State r = s; r.evs.clear(); setup(r);
        State rh = r;
        LoopCtx rc; run(r, silentDry(), rc);
        // progress per round, in the names of this pass
        std::map<int, Lin> per;
        for (auto &e : ents) if (!e.bad && e.prog >= 0) { Lin d; bool first = true; for (auto &la : rc.latches) { Lin x = delta(e, la, rh); if (first) d = x; else if (!(x == d)) d = Lin::bad(); first = false; } d = (d - e.cst) * e.sign; if (!per.count(e.prog)) per[e.prog] = d; }
        std::vector<Ev> bodyEvs; bool bodyOk = true;
        for (size_t i = 0; i < rc.latches.size(); i++) { if (!i) bodyEvs = rc.latches[i].second.evs; else if (bodyEvs.size() != rc.latches[i].second.evs.size()) bodyOk = false; }
        for (auto &ex : rc.exits) {
            State e = ex.s;
            // counted exit
            Lin T = Lin::bad();
            for (auto &f : e.facts) {
                auto it = f.c.find(K);
                if (it == f.c.end() || it->second <= 0) continue;
                long long m = it->second; bool div = f.k % m == 0;
                for (auto &p : f.c) if (p.second % m) div = false;
                if (!div) continue;
                Lin t = Lin::atom(K);
                for (auto &p : f.c) if (p.first != K) { if (A.v[p.first].kind == AProg) div = false; t.c[p.first] = p.second / m; }
                if (!div) continue;
                t.k = f.k / m;
                t = (t - Lin::atom(K)) * -1;  // K >= t
                bool bound = true;
                for (auto &la : rc.latches) if (!prove(la.second.facts, t - Lin(1) - Lin::atom(K), 4)) bound = false;
                if (bound && prove(s.facts, t, 4)) { T = t; break; }
            }
            auto outer = s.evs;
            auto part = e.evs;
            std::vector<Ev> evs = outer;
            if (T.ok) {
                e.evs.clear();
                std::map<int, Lin> sums;
                for (auto &p : per) {
                    Lin z;
                    if (!p.second.ok) z = Lin::bad();
                    else for (auto &q : p.second.c) {
                        int a = A.get("sum{" + A.str(T) + "}(" + A.v[q.first].name + ")", ASum, A.v[q.first].nonneg);
                        A.v[a].times = T; A.v[a].inner = q.first;
                        z = z + Lin::atom(a) * q.second;
                    }
                    sums[p.first] = z;
                }
                auto body2 = bodyEvs;
                if (!body2.empty()) {  // what is written a second time counts once
                    std::vector<Ev> once; Lin at = body2[0].off;
                    for (auto &b : body2) { if (b.k == Ev::Write && !once.empty() && b.off + b.size == at) continue; once.push_back(b); at = b.off + b.size; }
                    body2 = once;
                }
                for (auto &p : sums) subst(e, p.first, p.second.ok ? p.second : Lin::atom(A.fresh("sum", AUnknown, false)));
                subst(e, K, T);
                if (!body2.empty()) {
                    Ev le; le.k = Ev::Loop; le.times = T; le.body = body2; le.what = bodyOk ? "" : "?";
                    Ev b0 = body2[0]; subst(b0, K, Lin(0)); for (auto &p : per) subst(b0, p.first, Lin(0));
                    le.off = b0.off; le.base = b0.base; le.dst = b0.dst;
                    Lin total;
                    for (auto &b : body2) {
                        Lin z = b.size;
                        if (!z.ok) { total = Lin::bad(); break; }
                        Lin sm = T * z.k;
                        for (auto &q : z.c) { int a = A.get("sum{" + A.str(T) + "}(" + A.v[q.first].name + ")", ASum, A.v[q.first].nonneg); A.v[a].times = T; A.v[a].inner = q.first; sm = sm + Lin::atom(a) * q.second; }
                        total = total + sm;
                    }
                    le.size = total;
                    // does the body tile its progress?
                    Lin at = body2[0].off; Lin step;
                    for (auto &b : body2) { if (b.k != Ev::Fill && !(b.off == at)) le.what = "?"; at = at + b.size; step = step + b.size; }
                    Lin d = nextRound(body2[0].off, K, per) - body2[0].off;
                    if (body2[0].k == Ev::Write && !(d == step)) le.what = "?";
                    evs.push_back(le);
                }
                evs.insert(evs.end(), part.begin(), part.end());
            } else {
                if (!bodyEvs.empty() || !part.empty()) { evs.insert(evs.end(), part.begin(), part.end()); Ev q; q.what = "?"; q.k = Ev::Loop; evs.push_back(q); }
                // found the end of a text
                for (auto &f : e.facts) if (f.c.size() == 1 && f.k == 0) {
                    auto &a = A.v[f.c.begin()->first];
                    if (a.kind != ARead || a.n != 1 || f.c.begin()->second != 1) continue;
                    auto it = a.off.c.find(K);
                    if (it == a.off.c.end() || it->second != 1) continue;
                    bool neg = false; for (auto &g : e.facts) if (g == f * -1) neg = true;
                    if (!neg) continue;
                    Lin o0 = a.off - Lin::atom(K);
                    bool clean = true; for (auto &p : o0.c) if (A.v[p.first].kind == AIter && !0) clean = clean && p.first != K;
                    if (!clean) continue;
                    int st = strAtom(o0);
                    subst(e, K, Lin::atom(st));
                    break;
                }
            }
            e.evs = evs;
            enter(fr, ex.to, ex.from, e);
        }
        return;
    }
    silent = quiet;
}
Lin Eval::nextRound(const Lin &o, int K, const std::map<int, Lin> &per) {
    Lin r = subst(o, K, Lin::atom(K) + Lin(1));
    for (auto &p : per) r = subst(r, p.first, Lin::atom(p.first) + p.second);
    return r;
}
int Eval::strAtom(const Lin &off) { int a = A.get("strlen@" + A.str(off), AStr, true); A.v[a].off = off; return a; }
void Eval::body(Frame &fr, const Instruction *I, State s) {
    for (; I && !gaveUp; I = I->getNextNode()) {
        if (isa<DbgInfoIntrinsic>(I)) continue;
        if (auto *a = dyn_cast<AllocaInst>(I)) { s.env[a] = Val::ptr(newBase(BCell, "local"), Lin(0)); continue; }
        if (auto *g = dyn_cast<GetElementPtrInst>(I)) { s.env[g] = gep(s, cast<GEPOperator>(g)); continue; }
        if (auto *l = dyn_cast<LoadInst>(I)) { s.env[l] = load(s, value(s, l->getPointerOperand()), l->getType(), l); continue; }
        if (auto *st = dyn_cast<StoreInst>(I)) { store(s, value(s, st->getPointerOperand()), value(s, st->getValueOperand()), DL->getTypeStoreSize(st->getValueOperand()->getType()), st); continue; }
        if (auto *c = dyn_cast<CastInst>(I)) {
            Val v = value(s, c->getOperand(0));
            if (v.k == Val::Int && c->getType()->isIntegerTy()) {
                unsigned from = c->getOperand(0)->getType()->getIntegerBitWidth(), to = c->getType()->getIntegerBitWidth();
                if (v.l.isConst()) { APInt x(64, v.l.k, true); x = x.trunc(from); x = isa<SExtInst>(c) ? x.sext(64) : isa<ZExtInst>(c) ? x.zext(64) : from > to ? x.trunc(to).sext(64) : x.sext(64); v = Val::num(Lin(to == 1 ? x.getZExtValue() & 1 : x.getSExtValue())); }
                s.env[c] = c->getOperand(0)->getType()->isIntegerTy(1) && !v.l.isConst() ? Val() : v;
            } else if (isa<BitCastInst>(c)) s.env[c] = v;
            else if (isa<PtrToIntInst>(c) || isa<IntToPtrInst>(c)) s.env[c] = v;  // keeps its base
            else s.env[c] = Val();
            continue;
        }
        if (auto *b = dyn_cast<BinaryOperator>(I)) {
            Val x = value(s, b->getOperand(0)), y = value(s, b->getOperand(1));
            Val r;
            if (x.k == Val::Ptr && y.k == Val::Int && b->getOpcode() == Instruction::Add) r = Val::ptr(x.base, x.l + y.l);
            else if (x.k == Val::Ptr && y.k == Val::Int && b->getOpcode() == Instruction::Sub) r = Val::ptr(x.base, x.l - y.l);
            else if (x.k == Val::Ptr && y.k == Val::Ptr && x.base == y.base && b->getOpcode() == Instruction::Sub) r = Val::num(x.l - y.l);
            else if (x.k == Val::Int && y.k == Val::Int && b->getType()->getIntegerBitWidth() > 1) switch (b->getOpcode()) {
                case Instruction::Add: r = Val::num(x.l + y.l); break;
                case Instruction::Sub: r = Val::num(x.l - y.l); break;
                case Instruction::Mul: if (y.l.isConst()) r = Val::num(x.l * y.l.k); else if (x.l.isConst()) r = Val::num(y.l * x.l.k); break;
                case Instruction::Shl: if (y.l.isConst() && y.l.k >= 0 && y.l.k < 32) r = Val::num(x.l * (1LL << y.l.k)); break;
                case Instruction::SDiv: case Instruction::UDiv: case Instruction::LShr: case Instruction::AShr: {
                    if (!y.l.isConst() || y.l.k <= 0) break;
                    long long m = b->getOpcode() == Instruction::LShr || b->getOpcode() == Instruction::AShr ? 1LL << (y.l.k & 31) : y.l.k;
                    bool div = x.l.k % m == 0; for (auto &p : x.l.c) if (p.second % m) div = false;
                    if (div) { Lin q; q.k = x.l.k / m; for (auto &p : x.l.c) q.c[p.first] = p.second / m; r = Val::num(q); }
                    else if (x.l.isConst()) r = Val::num(Lin(x.l.k / m));
                    else if (prove(s, x.l)) {  // m * q <= x < m * q + m
                        int q = A.get("(" + A.str(x.l) + ")/" + std::to_string(m), AQty, true);
                        s.facts.push_back(x.l - Lin::atom(q) * m);
                        s.facts.push_back(Lin::atom(q) * m + Lin(m - 1) - x.l);
                        r = Val::num(Lin::atom(q));
                    }
                    break;
                }
                case Instruction::And: if (x.l.isConst() && y.l.isConst()) r = Val::num(Lin(x.l.k & y.l.k)); break;
                case Instruction::Or: if (x.l.isConst() && y.l.isConst()) r = Val::num(Lin(x.l.k | y.l.k)); break;
                case Instruction::Xor: if (x.l.isConst() && y.l.isConst()) r = Val::num(Lin(x.l.k ^ y.l.k)); break;
                default: break;
            }
            if (r.k == Val::Unk && b->getType()->isIntegerTy() && b->getType()->getIntegerBitWidth() > 1) r = Val::num(Lin::atom(A.fresh("n", AUnknown, false)));
            s.env[b] = r;
            continue;
        }
        if (auto *c = dyn_cast<ICmpInst>(I)) { Cond x = cond(s, c, 0); s.env[c] = x.known ? Val::num(Lin(x.val)) : Val(); continue; }
        if (auto *sl = dyn_cast<SelectInst>(I)) {
            Cond c = cond(s, sl->getCondition(), 0);
            if (c.known) { s.env[sl] = value(s, c.val ? sl->getTrueValue() : sl->getFalseValue()); continue; }
            for (int k = 0; k < 2; k++) { State t = s; t.env[sl] = value(s, k ? sl->getTrueValue() : sl->getFalseValue()); for (auto &f : k ? c.t : c.f) t.facts.push_back(f); body(fr, I->getNextNode(), t); }
            return;
        }
        if (auto *C = dyn_cast<CallBase>(I)) {
            std::vector<Val> args;
            for (auto &a : C->args()) args.push_back(value(s, a));
            auto *F = calleeOf(C);
            if (auto *ii = dyn_cast<IntrinsicInst>(C)) {
                switch (ii->getIntrinsicID()) {
                    case Intrinsic::memcpy: case Intrinsic::memmove: copy(s, args[0], args[1], args[2].k == Val::Int ? args[2].l : Lin::bad(), C); break;
                    case Intrinsic::expect: s.env[C] = args[0]; break;
                    case Intrinsic::memset: { if (args[0].k == Val::Ptr && bases[args[0].base].kind == BBuf) { Ev e; e.off = args[0].l; e.size = args[2].k == Val::Int ? args[2].l : Lin::bad(); e.what = "set"; s.evs.push_back(e); } break; }
                    case Intrinsic::threadlocal_address: s.env[C] = args[0]; break;
                    default: if (C->getType()->isIntegerTy()) s.env[C] = Val::num(Lin::atom(A.fresh("i", AUnknown, false)));
                }
                continue;
            }
            std::vector<Outcome> outs;
            State in = s;
            if (F && contract(C, F, args, in, outs)) {}
            else if (F && !F->isDeclaration() && std::find(stack.begin(), stack.end(), F) == stack.end() && stack.size() < 5 && F->size() < 300 && !F->isVarArg() && wantsInline(F, args)) {
                outs = call(F, args, s);
                if (gaveUp) return;
            } else {
                Outcome o; o.s = s;
                for (auto &a : args) if (a.k == Val::Ptr && bases[a.base].kind == BCell) { for (auto it = o.s.mem.begin(); it != o.s.mem.end();) { if (it->first.first == a.base) it = o.s.mem.erase(it); else ++it; } }
                o.ret = unknownResult(C, F);
                unknownCall(C, F, args, o.s);
                outs.push_back(o);
            }
            if (outs.size() == 1) { s = outs[0].s; if (!C->getType()->isVoidTy()) s.env[C] = outs[0].ret; continue; }
            for (auto &o : outs) { o.s.trail = s.trail; if (!C->getType()->isVoidTy()) o.s.env[C] = o.ret; body(fr, I->getNextNode(), o.s); }
            return;
        }
        if (auto *b = dyn_cast<BranchInst>(I)) {
            if (b->isUnconditional()) { enter(fr, b->getSuccessor(0), b->getParent(), s); return; }
            Cond c = cond(s, b->getCondition(), 0);
            for (int k = 0; k < 2; k++) {
                if (c.known && c.val != (k == 0)) continue;
                State t = s;
                for (auto &f : k == 0 ? c.t : c.f) t.facts.push_back(f);
                enter(fr, b->getSuccessor(k), b->getParent(), t);
            }
            return;
        }
        if (auto *sw = dyn_cast<SwitchInst>(I)) {
            Val v = value(s, sw->getCondition());
            if (v.k == Val::Int && v.l.isConst()) {
                const BasicBlock *to = sw->getDefaultDest();
                for (auto &c : sw->cases()) { long long cv = c.getCaseValue()->getSExtValue(); unsigned w = c.getCaseValue()->getBitWidth(); if (cv == v.l.k || (w < 64 && ((cv ^ v.l.k) & ((1LL << w) - 1)) == 0)) to = c.getCaseSuccessor(); }
                enter(fr, to, sw->getParent(), s);
                return;
            }
            std::set<const BasicBlock *> done;
            for (auto *to : successors(sw->getParent())) if (done.insert(to).second) enter(fr, to, sw->getParent(), s);
            return;
        }
        if (auto *r = dyn_cast<ReturnInst>(I)) { Outcome o; o.ret = r->getReturnValue() ? value(s, r->getReturnValue()) : Val(); o.s = s; fr.out->push_back(o); return; }
        if (isa<UnreachableInst>(I)) return;
        if (!I->getType()->isVoidTy()) s.env[I] = Val();
    }
}
}
