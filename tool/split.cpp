// P01: work divided among the executors covers every element exactly once
#include "sym.h"
namespace {
struct Arm { std::vector<Lit> lits; E len, off, noff; };
static std::string show(E e) { return str(e); }
// pool_chunk_aligned(total, n, size) * (n - 1) never exceeds total
static std::map<const Function *, int> chunkContract;
static bool chunkOk(const Function *G) {
    auto known = chunkContract.emplace(G, 1);
    if (!known.second) return known.first->second;
    if (!G || G->isDeclaration() || G->arg_size() < 2 || !G->getReturnType()->isIntegerTy()) return chunkContract[G] = 0;
    auto *keep = CARRIED;
    CARRIED = nullptr;
    struct Back { std::map<E, E> *k; ~Back() { CARRIED = k; } } back{keep};
    Sym S(G);
    E total = leaf("arg0", 64), n = leaf("arg1", 64);
    std::function<void(E, std::vector<Lit>, const Instruction *)> val = [&](E e, std::vector<Lit> lits, const Instruction *I) {
        if (E s = findSelect(e)) {
            for (bool v : {true, false}) { auto l = lits; E c = s->a[0]; bool x = v; while (c->op == "not") { c = c->a[0]; x = !x; } l.push_back({c, x}); val(simp(e, s, v), l, I); }
            return;
        }
        E n1 = add(n, konst(1, 64), -1);
        if (e == op("sdiv", 64, false, {total, n})) return;
        // n <= 1
        bool sg;
        E few = cmpE(konst(1, 64), n, "slt", sg);
        if (refuted(few, sg, lits)) return;
        // e * (n - 1) < total (or <=) established
        E d = add(mul(e, n1), total, -1);
        for (auto &l : lits) { E dl; if (!sltDiff(l.e, dl)) continue; E fact = l.v ? add(dl, konst(1, 64)) : scale(dl, -1); E k = add(d, fact, -1); if (isC(k) && sval(k) <= 0) return; }
        chunkContract[G] = 0;
    };
    for (auto &B : *G) if (auto *R = dyn_cast<ReturnInst>(B.getTerminator())) {
        std::vector<Lit> lits = S.conditions(&B, nullptr, nullptr);
        auto *P = dyn_cast<PHINode>(R->getReturnValue());
        if (P && P->getParent() == &B) for (unsigned k = 0; k < P->getNumIncomingValues(); k++) {
            auto l = S.conditions(P->getIncomingBlock(k), nullptr, nullptr);
            auto *br = dyn_cast<BranchInst>(P->getIncomingBlock(k)->getTerminator());
            if (br && br->isConditional()) { E c = S.cond(br->getCondition(), 0); bool v = br->getSuccessor(0) == &B; while (c->op == "not") { c = c->a[0]; v = !v; } l.push_back({c, v}); }
            val(S.X(P->getIncomingValue(k)), l, P->getIncomingBlock(k)->getTerminator());
        }
        else val(S.X(R->getReturnValue()), lits, R);
    }
    return chunkContract[G];
}
static bool dbg;
// ---- what an executor does with its part
struct Work { int off, len; bool ends; std::set<int> own; };   // positions of the arguments; own: those the splitter moves along
static std::map<const Function *, std::vector<Work>> works;
static void fnsOf(const Value *v, std::set<const Function *> &out, int d = 0) {
    v = v->stripPointerCasts();
    if (auto *c = dyn_cast<CastInst>(v)) return fnsOf(c->getOperand(0), out, d);
    if (auto *G = dyn_cast<Function>(v)) { if (!G->isDeclaration()) out.insert(G); return; }
    if (d > 5) return;
    if (auto *P = dyn_cast<PHINode>(v)) { for (auto &u : P->incoming_values()) fnsOf(u, out, d + 1); return; }
    if (auto *s = dyn_cast<SelectInst>(v)) { fnsOf(s->getTrueValue(), out, d + 1); fnsOf(s->getFalseValue(), out, d + 1); return; }
    if (auto *a = dyn_cast<Argument>(v)) {
        for (auto *U : a->getParent()->users()) if (auto *C = dyn_cast<CallBase>(U)) if (C->getCalledOperand()->stripPointerCasts() == a->getParent() && a->getArgNo() < C->arg_size()) fnsOf(C->getArgOperand(a->getArgNo()), out, d + 1);
        return;
    }
}
struct Site { const Function *G, *F; const CallInst *C; int off; std::set<unsigned> atoms; std::map<E, E> consts; };
static std::vector<Site> sites;
static void addWork(const Function *G, const Work &w) {
    if (w.off < 0 || w.len < 0 || (unsigned)w.off >= G->arg_size() || (unsigned)w.len >= G->arg_size()) return;
    for (auto &x : works[G]) if (x.off == w.off && x.len == w.len) { std::set<int> o; for (int i : x.own) if (w.own.count(i)) o.insert(i); x.own = o; return; }
    works[G].push_back(w);
}
static void splitter(const Function *F) {
    std::vector<const CallInst *> adds;
    std::vector<const CallInst *> sizes;
    for (auto &B : *F) for (auto &I : B) if (auto *C = dyn_cast<CallInst>(&I)) { auto *G = lu::calleeOf(C); if (!G) continue; if (G->getName() == "pool_add_task") adds.push_back(C); else if (G->getName().starts_with("pool_split_by") || G->getName() == "pool_chunk_aligned") sizes.push_back(C); }
    if (adds.empty()) return;
    Sym S(F);
    std::set<E> totals;
    for (auto *C : sizes) totals.insert(S.X(C->getArgOperand(lu::calleeOf(C)->getName() == "pool_chunk_aligned" ? 0 : 1)));
    std::map<const Loop *, std::vector<const CallInst *>> loops;
    std::vector<const CallInst *> after;
    for (auto *C : adds) {
        auto *L = S.LI.getLoopFor(C->getParent());
        bool behind = !L;
        for (auto *D : adds) { auto *K = S.LI.getLoopFor(D->getParent()); if (K && K != L && (!L || L->contains(K)) && !K->contains(C->getParent()) && S.DT.dominates(K->getHeader(), C->getParent()) && S.X(D->getArgOperand(1)) == S.X(C->getArgOperand(1))) behind = true; }
        if (behind) after.push_back(C); else loops[L].push_back(C);
    }
    std::set<const CallInst *> usedAfter;
    auto isPtr = [](const Value *v) { while (auto *c = dyn_cast<CastInst>(v)) v = c->getOperand(0); return v->getType()->isPointerTy(); };
    for (auto &lp : loops) {
        const Loop *L = lp.first;
        auto *C0 = lp.second[0];
        std::map<E, E> next, init;
        S.carried(L, next, init);
        CARRIED = &next;
        struct Reset { ~Reset() { CARRIED = nullptr; } } reset;
        auto und = [&](const std::string &w) { instance("split-undecided", F, C0, w); };
        // conditions for another round
        std::vector<Lit> guard;
        { auto *H = L->getHeader(); SmallVector<BasicBlock *, 4> ex; L->getExitingBlocks(ex); for (auto *B : ex) { auto *br = dyn_cast<BranchInst>(B->getTerminator()); if (!br || !br->isConditional()) continue; lits(S.cond(br->getCondition(), 0), L->contains(br->getSuccessor(0)), guard); } (void)H; }
        // the matching call behind the loop: the same task, reached only through the loop, before the tasks are run
        const CallInst *last = nullptr;
        for (auto *C : after) {
            if (usedAfter.count(C) || !S.DT.dominates(L->getHeader(), C->getParent())) continue;
            if (S.X(C->getArgOperand(1)) != S.X(C0->getArgOperand(1))) continue;
            bool other = false;    // another loop in between
            for (auto &q : loops) if (q.first != L && S.DT.dominates(L->getHeader(), q.first->getHeader()) && S.DT.dominates(q.first->getHeader(), C->getParent())) other = true;
            if (!other && !last) last = C;
        }
        // the argument that moves
        unsigned na = C0->arg_size();
        std::vector<unsigned> mov;
        for (unsigned i = 3; i < na; i++) { E e = S.X(C0->getArgOperand(i)); if (!isPtr(C0->getArgOperand(i)) && mentionsAny(e, next)) mov.push_back(i); }
        if (mov.empty()) { if (dbg) for (unsigned i = 3; i < na; i++) errs() << F->getName() << " " << i << " " << show(S.X(C0->getArgOperand(i))) << " ptr " << isPtr(C0->getArgOperand(i)) << " next " << next.size() << "\n"; und("no argument says where the part starts"); continue; }
        // decide which argument starts the part, which says how long it is
        int offI = -1, lenI = -1;
        bool ends = false;
        auto stepOf = [&](E e) { return add(subst(e, next), e, -1); };
        std::vector<unsigned> pure;
        for (unsigned i : mov) { bool all = true; for (auto *C : lp.second) all &= !findSelect(S.X(C->getArgOperand(i))); if (all) pure.push_back(i); }
        // length: an argument that is different in the call behind the loop or chosen by a condition, next to the offset
        for (unsigned o : pure) {
            for (unsigned i = 3; i < na; i++) {
                if (i == o || isPtr(C0->getArgOperand(i))) continue;
                std::set<E> vs;
                for (auto *C : lp.second) vs.insert(S.X(C->getArgOperand(i)));
                if (last && i < last->arg_size()) vs.insert(S.X(last->getArgOperand(i)));
                bool cand = vs.size() > 1 || findSelect(*vs.begin()) || *vs.begin() == stepOf(S.X(C0->getArgOperand(o)));
                if (!cand) continue;
                // prefers a length that is the step of the offset
                bool exact = false;
                for (auto *C : lp.second) { E e = S.X(C->getArgOperand(i)), st = stepOf(S.X(C->getArgOperand(o))); exact |= e == st; for (E x = e, s = findSelect(e); s; s = nullptr) for (bool v : {true, false}) exact |= simp(x, s, v) == st || simp(x, s, v) == simp(st, s, v); }
                bool endArg = false;
                { E e = S.X(C0->getArgOperand(i)), oo = S.X(C0->getArgOperand(o)); endArg = e == subst(oo, next); for (E s = findSelect(e); s; s = nullptr) for (bool v : {true, false}) endArg |= simp(e, s, v) == subst(oo, next); }
                if (lenI < 0 || exact || endArg) { if (lenI >= 0 && !exact && !endArg) continue; offI = o; lenI = i; ends = endArg && !exact; if (exact || endArg) goto found; }
            }
        }
    found:
        if (offI < 0 || lenI < 0) { und("no argument says how long the part is"); continue; }
        {
            Work w{offI - 3, lenI - 3, ends, {}};
            E oo = S.X(C0->getArgOperand(offI));
            for (unsigned i = 3; i < na; i++) { E e = S.X(C0->getArgOperand(i)); if ((int)i == offI || (int)i == lenI || !mentionsAny(e, next)) continue; for (int64_t k : {1, 2, 4, 8, 16}) if (!mentionsAny(add(e, oo, -k), next)) { w.own.insert(i - 3); break; } }
            std::set<const Function *> fs;
            fnsOf(C0->getArgOperand(1), fs);
            for (auto *G : fs) addWork(G, w);
        }
        // a single value (the payload of an atom) is the same for every part
        for (auto *C : lp.second) {
            std::set<const Function *> fs;
            fnsOf(C->getArgOperand(1), fs);
            std::map<E, E> consts;
            std::set<unsigned> atoms;
            for (unsigned i = 3; i < C->arg_size(); i++) {
                E e = S.X(C->getArgOperand(i));
                if (isC(e)) consts[leaf("arg" + std::to_string(i - 3), 64)] = e;
                if (e->k == N::SUM && e->t.size() == 1 && e->t[0].first == 1 && e->c == 8 && isPtr(C->getArgOperand(i))) atoms.insert(i - 3);
            }
            if (!atoms.empty()) for (auto *G : fs) sites.push_back({G, F, C, offI - 3, atoms, consts});
        }
        E R = nullptr;
        bool bad = false;
        auto rep = [&](const CallInst *C, const std::string &site, const std::string &m) { if (!bad) report("split", F, C, site, m); bad = true; };
        std::vector<Arm> arms;
        for (auto *C : lp.second) {
            E off = S.X(C->getArgOperand(offI)), len = S.X(C->getArgOperand(lenI));
            if (ends) len = add(len, off, -1);
            std::vector<Arm> todo = {{S.conditions(C->getParent(), L, nullptr), len, off, subst(off, next)}};
            while (!todo.empty()) {
                Arm a = todo.back();
                todo.pop_back();
                E s = findSelect(a.len);
                if (!s) s = findSelect(a.noff);
                if (!s) s = findSelect(a.off);
                if (!s || todo.size() > 16) { arms.push_back(a); continue; }
                for (bool v : {true, false}) {
                    Arm b = a;
                    E c = s->a[0];
                    bool x = v;
                    while (c->op == "not") { c = c->a[0]; x = !x; }
                    if (isC(c) && (c->c != 0) != x) continue;
                    if (refuted(c, x, a.lits)) continue;
                    b.lits.push_back({c, x});
                    b.len = simp(a.len, s, v); b.off = simp(a.off, s, v); b.noff = simp(a.noff, s, v);
                    todo.push_back(b);
                }
            }
        }
        E lastOff = nullptr, lastLen = nullptr;
        std::map<E, E> atEnd;   // counters at the end of the loop
        for (auto &g : guard) { E d; if (g.v && sltDiff(g.e, d)) for (auto &p : next) if (add(p.second, p.first, -1) == konst(1, 64)) { E b = add(p.first, d, -1); if (!mentionsAny(b, next)) atEnd[p.first] = b; } }
        if (last) {
            lastOff = S.X(last->getArgOperand(offI));
            lastLen = S.X(last->getArgOperand(lenI));
            if (ends) lastLen = add(lastLen, lastOff, -1);
            R = add(lastLen, lastOff);
            usedAfter.insert(last);
            bool okOff = false;
            for (auto &a : arms) {
                if (a.off == lastOff || subst(a.off, atEnd) == lastOff || subst(a.off, atEnd) == subst(lastOff, atEnd)) okOff = true;
            }
            instance("split-part", F, last, "rest: from " + show(lastOff) + ", length " + show(lastLen));
            if (!okOff) { rep(last, "rest", "the last part starts at " + show(lastOff) + ", but the parts before it end at " + show(subst(arms[0].off, atEnd))); continue; }
            if (mentionsAny(R, next)) { R = subst(R, atEnd); }
            if (mentionsAny(R, next) || (totals.size() && !totals.count(R))) {
                std::string t;
                for (E e : totals) t += (t.empty() ? "" : " or ") + show(e);
                rep(last, "rest", "the last part ends at " + show(R) + (t.empty() ? " instead of the end" : ", the work divided is " + t + " long"));
                continue;
            }
            // everything else goes on as in the loop
            for (unsigned i = 3; i < na && i < last->arg_size(); i++) {
                if ((int)i == offI || (int)i == lenI) continue;
                E a = S.X(C0->getArgOperand(i)), b = S.X(last->getArgOperand(i));
                if (a == b || subst(a, atEnd) == b || subst(a, atEnd) == subst(b, atEnd)) continue;
                rep(last, "rest", "the last part is given " + show(b) + " where the others are given " + show(a));
            }
            if (bad) continue;
            for (auto &l : S.conditions(last->getParent(), nullptr, L->getHeader())) {
                E d;
                bool fromLoop = false;
                for (auto &g : guard) fromLoop |= g.e == l.e;
                if (l.e->op == "and" && !l.v) { fromLoop = true; for (E a : l.e->a) { bool any = false; std::vector<Lit> q; lits(a, true, q); for (auto &x : q) for (auto &g : guard) any |= g.e == x.e; fromLoop &= any; } }
                if (fromLoop && !l.v) continue;      // the loop is over
                if (sltDiff(l.e, d) && l.v && (d == add(lastOff, R, -1) || subst(d, atEnd) == subst(add(lastOff, R, -1), atEnd))) continue;
                bool inv = !mentionsAny(l.e, next);
                if (inv) continue;
                rep(last, "rest", "the rest is left out unless " + std::string(l.v ? "" : "not ") + show(l.e));
            }
            if (bad) continue;
        }
        for (auto &a : arms) {
            instance("split-part", F, C0, "from " + show(a.off) + ", length " + show(a.len));
            // parts follow each other
            E end = add(a.off, a.len);
            bool step = end == a.noff;
            bool rest = !mentionsAny(end, next) && (R ? end == R : totals.empty() || totals.count(end));
            if (step) continue;
            if (rest) {
                bool stops = false;
                for (auto &g : guard) { E c = subst(g.e, next); for (E s = findSelect(c); s; s = findSelect(c)) { bool done = false; for (auto &l : a.lits) { E q = s->a[0]; bool n = false; while (q->op == "not") { q = q->a[0]; n = !n; } if (l.e == q) { c = simp(c, s, l.v != n); done = true; break; } } if (!done) break; } bool v = g.v; while (c->op == "not") { c = c->a[0]; v = !v; } stops |= refuted(c, v, a.lits); }
                if (!stops) { rep(C0, "step", "a part that reaches to the end (" + show(end) + ") may be followed by another one from " + show(a.noff)); break; }
                if (!R) R = end;
                continue;
            }
            rep(C0, "step", "a part goes from " + show(a.off) + " over " + show(a.len) + " elements, the next one starts at " + show(a.noff));
            break;
        }
        if (bad) continue;
        // the first part starts at the beginning
        {
            E o = subst(arms[0].off, init);
            if (mentionsAny(o, next)) { und("the first part"); continue; }
            if (o != konst(0, 64)) { rep(C0, "start", "the first part starts at " + show(o)); continue; }
        }
        // nothing is left behind when there is no call behind the loop
        bool byGuard = false;
        for (auto &g : guard) { E d; if (sltDiff(g.e, d) && g.v) for (auto &a : arms) for (E t : totals) if (d == add(a.off, t, -1)) { byGuard = true; if (!R) R = t; } }
        bool hasRest = false;
        for (auto &a : arms) hasRest |= add(a.off, a.len) == R;
        if (!last && !byGuard && !hasRest) { und("where the parts end"); continue; }
        // the same work done by one executor: all of it
        if (R) {
            for (auto &B : *F) for (auto &I : B) {
                auto *C = dyn_cast<CallInst>(&I);
                if (!C || S.DT.dominates(L->getHeader(), &B) || L->contains(&B)) continue;
                auto *G = lu::calleeOf(C);
                bool one = false;   // the pool has decided for one part
                for (auto &l : S.conditions(&B, nullptr, nullptr)) if (l.v && l.e->op == "eq0" && has(l.e, "call:pool_split_by")) for (auto &m : S.conditions(L->getHeader(), nullptr, nullptr)) one |= m.e == l.e && !m.v;
                if (!one) continue;
                std::vector<E> a;
                if (G && G->getName() == "pool_call_task_fn" && C->arg_size() == 3) {
                    if (S.X(C->getArgOperand(0)) != S.X(C0->getArgOperand(1))) continue;
                    E base = S.X(C->getArgOperand(2));
                    a.assign(na - 3, nullptr);
                    for (auto *b = &B; b; b = b->getSinglePredecessor())
                        for (auto it = b->rbegin(); it != b->rend(); ++it) if (auto *st = dyn_cast<StoreInst>(&*it)) {
                            E d = add(S.X(st->getPointerOperand()), base, -1);
                            if (isC(d) && d->c % 8 == 0 && d->c / 8 < a.size() && !a[d->c / 8]) a[d->c / 8] = S.X(st->getValueOperand());
                        }
                } else {
                    if (S.X(C->getCalledOperand()) != S.X(C0->getArgOperand(1)) || C->arg_size() != na - 3) continue;
                    for (auto &x : C->args()) a.push_back(S.X(x));
                }
                E off = a[offI - 3], len = a[lenI - 3];
                if (!off || !len) { instance("split-undecided", F, C, "arguments of the undivided work"); continue; }
                if (ends) len = add(len, off, -1);
                instance("split-whole", F, C, "from " + show(off) + ", length " + show(len));
                if (off != konst(0, 64)) { rep(C, "whole", "the undivided work starts at " + show(off)); break; }
                if (len != R) { rep(C, "whole", "the undivided work is " + show(len) + " long, the parts together " + show(R)); break; }
                for (unsigned i = 3; i < na; i++) {
                    if ((int)i == offI || (int)i == lenI || !a[i - 3]) continue;
                    E e = S.X(C0->getArgOperand(i));
                    bool moves = mentionsAny(e, next);
                    if (has(e, "call:") || has(a[i - 3], "call:")) continue;   // room of its own
                    E f = subst(e, init);
                    if (moves && isPtr(C0->getArgOperand(i)) && f != a[i - 3] && !(add(e, S.X(C0->getArgOperand(offI)), -1) != e && !mentionsAny(add(e, S.X(C0->getArgOperand(offI)), -1), next))) continue;   // room of the part
                    if (f != a[i - 3]) { rep(C, "whole", "the undivided work is given " + show(a[i - 3]) + " where the parts are given " + show(f)); break; }
                }
            }
            if (bad) continue;
        }
        // no part reaches beyond the end
        bool clamp = false;
        for (auto &a : arms) if (R && add(a.off, a.len) == R && !last) clamp = true;
        bool plain = true;
        for (auto &a : arms) {
            if (R && add(a.off, a.len) == R) continue;
            // room known on this arm: off + len <= R
            bool known = false;
            if (R) { E d = add(add(a.off, a.len), R, -1); for (auto &l : a.lits) { E dl; if (!sltDiff(l.e, dl)) continue; E fact = l.v ? add(dl, konst(1, 64)) : scale(dl, -1); E k = add(d, fact, -1); if (isC(k) && sval(k) <= 0) known = true; } }
            if (!known) plain = false;
        }
        if (plain) { instance("split-bound", F, C0, "clamped"); continue; }
        // off + len <= total for every round: len = total / n (or pool_chunk_aligned(total, n)), at most n - 1 (or n) rounds
        E st = arms[0].len;
        for (auto &a : arms) if (add(a.off, a.len) == a.noff) st = a.len;
        E rounds = nullptr;
        for (auto &p : atEnd) { auto it = init.find(p.first); if (it != init.end() && it->second == konst(0, 64)) rounds = p.second; }
        if (!R || !rounds) { und("how many parts there are"); continue; }
        bool dv = st->k == N::OP && st->op == "sdiv" && st->a[0] == R, al = st->k == N::OP && st->op.compare(0, 5, "call:") == 0 && st->a.size() >= 2 && st->a[0] == R;
        if (!dv && !al) { und("length of the parts " + show(st)); continue; }
        E n = st->a[1];
        E more = add(rounds, n, -1);                 // rounds - n
        if (!isC(more)) { und("number of the parts"); continue; }
        int64_t lim = dv ? 0 : -1;
        bool inLast = hasRest && !last;              // the last round takes the rest
        if (sval(more) > lim && !(inLast && al && sval(more) <= 0)) { rep(C0, "bound", "there are " + show(rounds) + " parts of " + show(st) + " elements before the rest"); continue; }
        if (al) {
            auto *G = M->getFunction(st->op.substr(5));
            if (!chunkOk(G)) { rep(C0, "bound", "the parts may reach beyond the end: " + st->op.substr(5) + " may return more than total / (n - 1)"); continue; }
        }
        instance("split-bound", F, C0, dv ? "total / n" : st->op);
        (void)clamp;
    }
    // tasks outside loops that no loop belongs to are single tasks
}
static bool allocates(const Function *G, int d = 0) {
    static std::map<const Function *, bool> memo;
    if (!G) return true;
    auto it = memo.find(G);
    if (it != memo.end()) return it->second;
    memo[G] = false;
    if (G->getName().starts_with("heap_alloc") || G->getName() == "heap_realloc" || G->getName() == "malloc" || G->getName() == "mmap") return memo[G] = true;
    if (G->isDeclaration()) return false;
    bool r = false;
    for (auto &B : *G) for (auto &I : B) if (auto *C = dyn_cast<CallBase>(&I)) if (!C->isInlineAsm()) r |= allocates(lu::calleeOf(C), d + 1);
    return memo[G] = r;
}
// functions that go from one argument on over as many elements as another one says
static std::optional<std::pair<int, int>> ranged(const Function *G) {
    static std::map<const Function *, std::optional<std::pair<int, int>>> memo;
    auto it = memo.find(G);
    if (it != memo.end()) return it->second;
    auto &r = memo[G];
    Sym S(G);
    for (auto *L : S.LI.getLoopsInPreorder()) {
        std::map<E, E> next, init;
        S.carried(L, next, init);
        auto *br = dyn_cast<BranchInst>(L->getHeader()->getTerminator());
        if (!br || !br->isConditional() || !L->contains(br->getSuccessor(0))) continue;
        std::vector<Lit> g;
        lits(S.cond(br->getCondition(), 0), true, g);
        for (auto &l : g) {
            E d;
            if (!l.v || !sltDiff(l.e, d)) continue;
            for (auto &p : next) {
                if (coefOf(d, p.first) != 1 || !init.count(p.first)) continue;
                E b = add(p.first, d, -1), len = add(b, init[p.first], -1), o = init[p.first];
                if (o->k != N::L || len->k != N::L || o->op.compare(0, 3, "arg") || len->op.compare(0, 3, "arg")) continue;
                r = {atoi(o->op.c_str() + 3), atoi(len->op.c_str() + 3)};
                return r;
            }
        }
    }
    return r;
}
static void worker(const Function *T, const Work &w) {
    Sym S(T);
    E off = leaf("arg" + std::to_string(w.off), 64), len = leaf("arg" + std::to_string(w.len), 64);
    E zero = konst(0, 64);
    if (w.ends) len = add(len, off, -1);
    E end = add(off, len);
    for (auto *L : S.LI.getLoopsInPreorder()) {
        std::map<E, E> next, init;
        S.carried(L, next, init);
        CARRIED = nullptr;
        std::vector<Lit> guard;
        // conditions of the header: an early way out of the loop does not count
        { auto *br = dyn_cast<BranchInst>(L->getHeader()->getTerminator()); if (br && br->isConditional() && L->contains(br->getSuccessor(0)) != L->contains(br->getSuccessor(1))) lits(S.cond(br->getCondition(), 0), L->contains(br->getSuccessor(0)), guard); }
        for (auto &g : guard) {
            E d;
            if (!sltDiff(g.e, d) || !g.v) continue;
            E iv = nullptr;
            for (auto &p : next) if (add(p.second, p.first, -1) == konst(1, 64) && coefOf(d, p.first) == 1 && init.count(p.first)) { iv = p.first; break; }
            if (!iv) continue;
            E bound = add(iv, d, -1), start = init[iv];
            bool touches = deep(bound, len) || deep(start, off) || deep(bound, off) || (w.ends && deep(bound, leaf("arg" + std::to_string(w.len), 64)));
            if (!touches || mentionsAny(bound, next)) continue;
            auto *I = L->getHeader()->getTerminator();
            // selections decided alike for start and bound
            struct Case { E first, second; std::vector<Lit> lits; };
            std::vector<Case> cases, todo = {{start, bound, S.conditions(L->getHeader(), nullptr, nullptr)}};
            while (!todo.empty()) {
                auto c = todo.back();
                todo.pop_back();
                E s = findSelect(c.first);
                if (!s) s = findSelect(c.second);
                if (!s || cases.size() > 8) { cases.push_back(c); continue; }
                E q = s->a[0];
                bool neg = false;
                while (q->op == "not") { q = q->a[0]; neg = !neg; }
                for (bool v : {true, false}) {
                    if (refuted(q, v != neg, c.lits)) continue;
                    Case n = c;
                    n.lits.push_back({q, v != neg});
                    n.first = simp(c.first, s, v);
                    n.second = simp(c.second, s, v);
                    todo.push_back(n);
                }
            }
            for (auto &c : cases) {
                if (findSelect(c.first) || findSelect(c.second)) { instance("place-undecided", T, I, show(c.first) + " .. " + show(c.second)); continue; }
                if (!deep(c.second, len) && !deep(c.first, off) && !deep(c.second, off)) continue;
                E s0 = c.first, b0 = c.second;
                bool rel = b0 == len, abs = b0 == end;
                if (!rel && !abs) {
                    E k = add(b0, len, -1), k2 = add(b0, end, -1);
                    if (isC(k) || isC(k2)) { report("split", T, I, "loop", "the part of " + show(len) + " elements is gone through up to " + show(b0) + " only"); continue; }
                    if (deep(b0, off) && coefOf(b0, off) && !deep(b0, len)) { instance("place-undecided", T, I, show(s0) + " .. " + show(b0)); continue; }
                    instance("place-undecided", T, I, show(s0) + " .. " + show(b0));
                    continue;
                }
                E from = add(s0, rel ? zero : off, -1);
                if (!isC(from)) { if (rel && s0 == off) report("split", T, I, "loop", "the part is gone through from " + show(s0) + " to " + show(b0)); else if (abs && s0 == zero) report("split", T, I, "loop", "the part is gone through from 0 to " + show(b0)); else instance("place-undecided", T, I, show(s0) + " .. " + show(b0)); continue; }
                if (sval(from) != 0) {
                    // the first elements may have been taken before
                    bool seen = false;
                    for (auto &B : *T) if (!L->contains(&B) && S.DT.dominates(&B, L->getHeader())) for (auto &J : B) if (auto *ld = dyn_cast<LoadInst>(&J)) { E a = S.X(ld->getPointerOperand()); if (rel ? true : coefOf(a, off) != 0) seen |= rootOf(ld->getPointerOperand()) != nullptr && (rel || coefOf(a, off)); }
                    if (sval(from) < 0 || !seen) { report("split", T, I, "loop", "the part is gone through from " + show(s0) + " on"); continue; }
                }
                instance("place-loop", T, I, show(s0) + " .. " + show(b0));
                // element of the part: base + iv (+ off)
                auto settled = [&](E a) {   // as chosen in this case
                    for (E s = findSelect(a); s; s = findSelect(a)) {
                        E q = s->a[0];
                        bool neg = false;
                        while (q->op == "not") { q = q->a[0]; neg = !neg; }
                        bool t = refuted(q, neg, c.lits), f = refuted(q, !neg, c.lits);
                        if (t == f && mentions(s, off)) return (E) nullptr;
                        if (t == f) break;
                        a = simp(a, s, t);
                    }
                    return a;
                };
                auto says = [&](E a, const Instruction *J, const char *what) {
                    if (E x = settled(a)) a = x; else if (coefOf(a, iv)) { instance("place-undecided", T, J, show(a)); return; }
                    int64_t ci = coefOf(a, iv), co = coefOf(a, off);
                    if (ci != 1 && ci != -1) return;
                    instance("place-number", T, J, show(a));
                    if (co != (rel ? ci : 0)) report("split", T, J, "number", std::string(what) + " " + show(a) + ", the number of the element in its part is not its number in the whole");
                };
                for (auto *B : L->blocks()) for (auto &J : *B) {
                    const Value *ptr = nullptr;
                    if (auto *C = dyn_cast<CallBase>(&J)) {
                        auto *G = lu::calleeOf(C);
                        bool room = false;   // room of its own
                        for (auto &a : C->args()) if (a->getType()->isPointerTy()) { auto *r = rootOf(a); auto *K = dyn_cast<CallBase>(r); room |= isa<AllocaInst>(r) || (K && allocates(lu::calleeOf(K))); }
                        if (!room && (!G || !G->isDeclaration())) for (auto &a : C->args()) if (a->getType()->isIntegerTy(64)) says(S.X(a), &J, "is given");
                    }
                    if (auto *st = dyn_cast<StoreInst>(&J)) if (st->getValueOperand()->getType()->isIntegerTy(64)) {
                        auto *r = rootOf(st->getPointerOperand());
                        if (!isa<AllocaInst>(r) && !(isa<CallBase>(r) && allocates(lu::calleeOf(cast<CallBase>(r))))) says(S.X(st->getValueOperand()), &J, "stores");
                    }
                    if (auto *ld = dyn_cast<LoadInst>(&J)) ptr = ld->getPointerOperand(); else if (auto *st = dyn_cast<StoreInst>(&J)) ptr = st->getPointerOperand();
                    std::vector<const Value *> ptrs;
                    if (ptr) ptrs.push_back(ptr);
                    if (auto *mc = dyn_cast<MemTransferInst>(&J)) { ptrs.push_back(mc->getRawDest()); ptrs.push_back(mc->getRawSource()); }
                    for (auto *ptr : ptrs) {
                    E a = S.X(ptr);
                    if (!coefOf(a, iv)) continue;
                    if (E x = settled(a)) a = x; else { instance("place-undecided", T, &J, show(a)); continue; }
                    int64_t ci = coefOf(a, iv), co = coefOf(a, off);
                    if (!ci) continue;
                    auto *r = rootOf(ptr);
                    if (isa<AllocaInst>(r)) continue;                                     // its own room
                    if (auto *K = dyn_cast<CallBase>(r)) if (allocates(lu::calleeOf(K))) continue;
                    bool own = false;
                    if (auto *A = dyn_cast<Argument>(r)) own = w.own.count(A->getArgNo());
                    if (own) { instance("place-access", T, &J, "moved along"); int64_t want = rel ? 0 : -ci; if (co == want) continue; report("split", T, &J, "place", "element " + show(a) + " of what is moved along with the parts"); continue; }
                    int64_t want = rel ? ci : 0;
                    instance("place-access", T, &J, show(a));
                    if (co != want) report("split", T, &J, "place", "accesses element " + std::string(co ? "offset + " : "") + "i in a loop from " + show(s0) + " to " + show(b0) + ", the part's elements are at " + std::string(rel ? "offset + i" : "i"));
                    }
                }
            }
        }
    }
    // the part is handed on as it is
    for (auto &B : *T) for (auto &J : B) if (auto *C = dyn_cast<CallBase>(&J)) {
        auto *G = lu::calleeOf(C);
        if (!G || G->isDeclaration()) continue;
        std::vector<Work> as;
        if (works.count(G)) as = works[G]; else if (auto rg = ranged(G)) as.push_back({rg->first, rg->second, false, {}});
        for (auto &v : as) {
            if ((unsigned)std::max(v.off, v.len) >= C->arg_size()) continue;
            E l = S.X(C->getArgOperand(v.len)), o = S.X(C->getArgOperand(v.off));
            if (l != leaf("arg" + std::to_string(w.len), 64)) continue;
            instance("place-call", T, C, G->getName().str());
            if (o != off && isC(o)) report("split", T, C, "place", "hands its part on to " + G->getName().str() + " from " + show(o));
        }
    }
}
static void single(const Site &w) {
    Sym S(w.G);
    E off = leaf("arg" + std::to_string(w.off), 64);
    for (auto &B : *w.G) {
        bool dead = false;
        for (auto &l : S.conditions(&B, nullptr, nullptr)) dead |= refuted(subst(l.e, w.consts), l.v, {});
        if (dead) continue;
        for (auto &J : B) {
            const Value *ptr = nullptr;
            if (auto *ld = dyn_cast<LoadInst>(&J)) ptr = ld->getPointerOperand(); else if (auto *st = dyn_cast<StoreInst>(&J)) ptr = st->getPointerOperand();
            auto *A = ptr ? dyn_cast<Argument>(rootOf(ptr)) : nullptr;
            if (!A || !w.atoms.count(A->getArgNo())) continue;
            E a = S.X(ptr);
            instance("place-single", w.G, &J, w.F->getName().str() + ": " + show(a));
            if (deep(a, off)) report("split", w.G, &J, "single", w.F->getName().str() + " hands over a single value, " + show(a) + " moves along with the parts");
        }
    }
}
}
void runSplit() {
    dbg = getenv("RA_SPLIT");
    for (auto &F : *M) if (!F.isDeclaration()) splitter(&F);
    // parts handed on to other functions
    for (int round = 0; round < 4; round++) {
        auto cur = works;
        for (auto &p : cur) for (auto &w : p.second) for (auto &B : *p.first) for (auto &I : B) if (auto *C = dyn_cast<CallBase>(&I)) {
            auto *G = lu::calleeOf(C);
            if (!G || G->isDeclaration()) continue;
            Work v{-1, -1, w.ends, {}};
            for (unsigned i = 0; i < C->arg_size(); i++) {
                auto *a = C->getArgOperand(i);
                while (auto *c = dyn_cast<CastInst>(a)) a = c->getOperand(0);
                if (a == p.first->getArg(w.off)) v.off = v.off == -1 ? (int)i : -2; else if (a == p.first->getArg(w.len)) v.len = v.len == -1 ? (int)i : -2;
                else if (auto *A = dyn_cast<Argument>(getUnderlyingObject(a))) if (w.own.count(A->getArgNo())) v.own.insert(i);
            }
            if (v.off >= 0 && v.len >= 0) addWork(G, v);
        }
    }
    for (auto &w : sites) single(w);
    for (auto &p : works) for (auto &w : p.second) { instance("place-work", p.first, &p.first->getEntryBlock().front(), ""); worker(p.first, w); }
    (void)dbg;
}
