// Sharing between threads: which accesses to shared memory are synchronised, decided on the intermediate
// representation (no execution, no scheduling): access classes per structure member, publication order,
// must-held locks, condition waits, process-wide state reachable from tasks.
#include "lintutil.h"
#include "llvm/IR/Dominators.h"
using namespace lu;
namespace {
struct Acc { const Instruction *I; const Function *F; const Value *ptr; Loc l; bool atomic, write, cas; AtomicOrdering ord, ord2; Type *ty; };
std::vector<Acc> ACC;
bool strong(AtomicOrdering o) { return o != AtomicOrdering::NotAtomic && o != AtomicOrdering::Unordered && o != AtomicOrdering::Monotonic; }
std::string sname(const Loc &l) { return locName(l, M); }
std::string stName(const Loc &l) { auto s = sname(l); return s.substr(0, s.find('#')); }
const std::set<std::string> ALLOC = {"heap_alloc", "heap_mmap", "mmap_alloc", "malloc", "calloc", "mmap", "heap_create", "vector", "heap_realloc"};
const std::set<std::string> DEALLOC = {"heap_free", "heap_unmap", "mmap_free", "free", "munmap"};
const Value *rootOf(const Value *p) {
    for (int i = 0; i < 12; i++) {
        const Value *q = peel(getUnderlyingObject(p, 0));
        if (q == p) return q;
        p = q;
    }
    return p;
}
// memory nothing else refers to yet: allocated by this very function
bool fresh(const Value *p, std::set<const Value *> &seen, int d = 0) {
    const Value *r = rootOf(p);
    if (!seen.insert(r).second) return true;
    if (isa<AllocaInst>(r)) return true;
    if (auto *c = dyn_cast<CallBase>(r)) { auto *f = calleeOf(c); return f && ALLOC.count(f->getName().str()); }
    if (auto *ph = dyn_cast<PHINode>(r)) { for (auto &u : ph->incoming_values()) { if (isa<ConstantPointerNull>(u)) continue; if (d > 4 || !fresh(u, seen, d + 1)) return false; } return true; }
    if (auto *l = dyn_cast<LoadInst>(r)) if (d < 4) { const Value *b = rootOf(l->getPointerOperand()); if (!isa<AllocaInst>(b) && !isa<GlobalVariable>(b)) { std::set<const Value *> s2; auto *c = dyn_cast<CallBase>(b); if (c && calleeOf(c) && ALLOC.count(calleeOf(c)->getName().str())) return true; (void)s2; } }
    return false;
}
bool isFresh(const Value *p) { std::set<const Value *> s; return fresh(p, s); }
// every static caller of f hands parameter k a value nothing else refers to yet
bool freshParam(const Argument *a, int d = 0) {
    auto *f = a->getParent();
    bool any = false;
    for (auto *u : f->users()) {
        auto *C = dyn_cast<CallBase>(u);
        if (!C || C->getCalledOperand()->stripPointerCasts() != f) return false;
        const Value *v = C->getArgOperand(a->getArgNo());
        any = true;
        if (isFresh(v)) continue;
        if (auto *b = dyn_cast<Argument>(rootOf(v))) if (d < 3 && freshParam(b, d + 1)) continue;
        return false;
    }
    return any;
}
// what a function takes apart belongs to it alone
bool joins(const Function *f) { if (f->getName() == "pthread_join") return true; if (f->isDeclaration()) return false; for (auto &I : instructions(*f)) if (auto *C = dyn_cast<CallBase>(&I)) if (auto *g = calleeOf(C)) if (g->getName() == "pthread_join") return true; return false; }
bool teardown(const Function *F, const Value *p, const Instruction *at) {
    const Value *r = rootOf(p);
    // other threads run until they have been joined
    bool seenAt = false;
    std::set<const BasicBlock *> seen;
    std::vector<const BasicBlock *> todo;
    auto scan = [&](const Instruction &I) { auto *C = dyn_cast<CallBase>(&I); auto *g = C ? calleeOf(C) : nullptr; return g && joins(g); };
    for (auto &I : *at->getParent()) { if (&I == at) seenAt = true; else if (seenAt && scan(I)) return false; }
    for (auto *s : successors(at->getParent())) todo.push_back(s);
    while (!todo.empty()) { auto *B = todo.back(); todo.pop_back(); if (!seen.insert(B).second) continue; for (auto &I : *B) if (scan(I)) return false; for (auto *s : successors(B)) todo.push_back(s); }
    for (auto &I : instructions(*F)) if (auto *C = dyn_cast<CallBase>(&I)) {
        auto *f = calleeOf(C);
        if (f && DEALLOC.count(f->getName().str()) && C->arg_size() && rootOf(C->getArgOperand(0)) == r) return true;
    }
    // memory reached from it
    for (int i = 0; i < 4; i++) { auto *l = dyn_cast<LoadInst>(r); if (!l) break; r = rootOf(l->getPointerOperand()); for (auto &I : instructions(*F)) if (auto *C = dyn_cast<CallBase>(&I)) { auto *f = calleeOf(C); if (f && DEALLOC.count(f->getName().str()) && C->arg_size() && rootOf(C->getArgOperand(0)) == r) return true; } }
    return false;
}
void collect() {
    for (auto &F : *M) for (auto &I : instructions(F)) {
        Acc a{&I, &F, nullptr, Loc(), false, false, false, AtomicOrdering::NotAtomic, AtomicOrdering::NotAtomic, nullptr};
        if (auto *l = dyn_cast<LoadInst>(&I)) { a.ptr = l->getPointerOperand(); a.atomic = l->isAtomic(); a.ord = l->getOrdering(); a.ty = l->getType(); }
        else if (auto *s = dyn_cast<StoreInst>(&I)) { a.ptr = s->getPointerOperand(); a.atomic = s->isAtomic(); a.ord = s->getOrdering(); a.write = true; a.ty = s->getValueOperand()->getType(); }
        else if (auto *c = dyn_cast<AtomicCmpXchgInst>(&I)) { a.ptr = c->getPointerOperand(); a.atomic = a.write = a.cas = true; a.ord = c->getSuccessOrdering(); a.ord2 = c->getFailureOrdering(); a.ty = c->getCompareOperand()->getType(); }
        else if (auto *r = dyn_cast<AtomicRMWInst>(&I)) { a.ptr = r->getPointerOperand(); a.atomic = a.write = true; a.ord = r->getOrdering(); a.ty = r->getType(); }
        else continue;
        if (!locOf(a.ptr, a.l)) continue;
        ACC.push_back(a);
    }
}
// polarity of cond with respect to v: 1 same, -1 opposite, 0 unrelated
int polarity(const Value *c, const std::function<bool(const Value *)> &is, int d = 0) {
    if (d > 8) return 0;
    c = peel(c);
    if (is(c)) return 1;
    if (auto *z = dyn_cast<CastInst>(c)) return polarity(z->getOperand(0), is, d + 1);
    if (auto *x = dyn_cast<BinaryOperator>(c)) if (x->getOpcode() == Instruction::Xor) if (auto *k = dyn_cast<ConstantInt>(x->getOperand(1))) return k->isOne() || k->isMinusOne() ? -polarity(x->getOperand(0), is, d + 1) : 0;
    if (auto *p = dyn_cast<ICmpInst>(c)) {
        const Value *a = p->getOperand(0), *b = p->getOperand(1);
        if (isa<Constant>(a)) std::swap(a, b);
        auto *k = dyn_cast<ConstantInt>(b);
        if (!k || !p->isEquality()) return 0;
        int q = polarity(a, is, d + 1);
        bool eq = p->getPredicate() == CmpInst::ICMP_EQ;
        if (k->isZero()) return eq ? -q : q;
        if (k->isOne()) return eq ? q : -q;
        return 0;
    }
    return 0;
}
// I is reached only over an edge on which v is true (want=1) or false (want=-1)
bool guarded(const Instruction *I, const std::function<bool(const Value *)> &is, int want, DominatorTree &DT) {
    for (auto &B : *I->getFunction()) {
        auto *br = dyn_cast<BranchInst>(B.getTerminator());
        if (!br || !br->isConditional()) continue;
        int q = polarity(br->getCondition(), is);
        if (!q) continue;
        unsigned k = (q == want) ? 0 : 1;
        if (br->getSuccessor(0) == br->getSuccessor(1)) continue;
        if (DT.dominates(BasicBlockEdge(&B, br->getSuccessor(k)), I->getParent())) return true;
    }
    return false;
}
bool isSync(const Value *v) {
    if (auto *l = dyn_cast<LoadInst>(v)) { Loc x; return locOf(l->getPointerOperand(), x) && stName(x) == "vm_t" && x.member == 0; }
    if (auto *c = dyn_cast<CallBase>(v)) {
        auto *f = calleeOf(c);
        if (!f || f->isDeclaration() || f->getInstructionCount() > 12) return false;
        for (auto &B : *f) if (auto *r = dyn_cast<ReturnInst>(B.getTerminator())) { const Value *rv = r->getReturnValue(); if (!rv) return false; rv = peel(rv); while (auto *z = dyn_cast<CastInst>(rv)) rv = peel(z->getOperand(0)); return isa<LoadInst>(rv) && isSync(rv); }
    }
    return false;
}
// a structure with a sequential interface next to a parallel one: functions without any atomic access to it are the sequential one
const std::set<std::string> SEQUENTIAL = {"ht_bk_t", "bucket_t"};
const std::set<std::string> HANDSHAKE = {"executor_t#3", "executor_t#4"};  // written once, before the start-up handshake completes
const std::string RC = "obj_t#4";

bool isPtrLoc(const Loc &l) {
    if (l.elem) return false;
    for (auto &g : M->globals()) if (&g == l.base) return g.getValueType()->isPointerTy();
    return ((StructType *)l.base)->getElementType(l.member)->isPointerTy();
}
std::set<Loc> changes;  // members written after their structure was set up
void access() {
    std::map<Loc, std::vector<Acc *>> by;
    for (auto &a : ACC) by[a.l].push_back(&a);
    std::map<const Function *, std::set<std::string>> atomicIn;
    for (auto &a : ACC) if (a.atomic) atomicIn[a.F].insert(stName(a.l));
    std::map<const Function *, DominatorTree *> dts;
    auto dt = [&](const Function *F) -> DominatorTree & { auto *&d = dts[F]; if (!d) d = new DominatorTree(*const_cast<Function *>(F)); return *d; };
    for (auto &g : by) {
        bool at = false, ord = false;
        for (auto *a : g.second) { at |= a->atomic; if (a->atomic && (strong(a->ord) || strong(a->ord2)) && !(a->ord == AtomicOrdering::SequentiallyConsistent && !a->write)) ord = true; }
        std::string n = sname(g.first);
        if (n == RC) at = true;
        if (!at) continue;
        for (auto *a : g.second) {
            instance("shared-access", a->F, a->I, n);
            if (!a->atomic) {
                if (isFresh(a->ptr) || (n != RC && teardown(a->F, a->ptr, a->I))) continue;
                if (auto *p = dyn_cast<Argument>(rootOf(a->ptr))) if (freshParam(p)) continue;
                if (SEQUENTIAL.count(stName(g.first)) && !atomicIn[a->F].count(stName(g.first))) continue;
                if (HANDSHAKE.count(n) && !a->write) continue;
                if (n == RC) { if (guarded(a->I, isSync, -1, dt(a->F))) continue; report("unsynchronised", a->F, a->I, n, "the reference count is accessed without regard to whether other threads are running"); continue; }
                report("unsynchronised", a->F, a->I, n, std::string(a->write ? "writes" : "reads") + " " + n + " plainly; other accesses to it are atomic");
                continue;
            }
            bool ptr = n != RC && (isa<LoadInst>(a->I) || isa<StoreInst>(a->I)) && isPtrLoc(g.first);
            if (a->write && isFresh(a->ptr)) continue;
            if ((ord || ptr) && !strong(a->ord)) report("weak-order", a->F, a->I, n, "relaxed access to " + n + (ptr ? ", a published pointer" : ", which orders other accesses"));
            else if (ord && !a->cas && a->write && isa<StoreInst>(a->I) && !isReleaseOrStronger(a->ord)) report("weak-order", a->F, a->I, n, "store to " + n + " does not publish what was written before it");
            else if (ord && !a->write && !isAcquireOrStronger(a->ord)) report("weak-order", a->F, a->I, n, "load of " + n + " does not order what is read after it");
        }
    }
    // publication: what is written for the other side is written after the slot was claimed and before it is released
    for (auto &a : ACC) if (!a.atomic && a.write && !isFresh(a.ptr)) changes.insert(a.l);
    std::map<const Function *, std::vector<Acc *>> inF;
    for (auto &a : ACC) inF[a.F].push_back(&a);
    auto basePtr = [&](const Value *p) -> const Value * { if (auto *g = dyn_cast<GEPOperator>(peel(p))) return peel(g->getPointerOperand()); return peel(p); };
    for (auto &fa : inF) {
        const Function *F = fa.first;
        std::vector<Acc *> rel, cas;
        for (auto *a : fa.second) { if (a->atomic && isa<StoreInst>(a->I) && isReleaseOrStronger(a->ord) && !isFresh(a->ptr)) rel.push_back(a); if (a->cas) cas.push_back(a); }
        for (auto *r : rel) {
            instance("publication", F, r->I, sname(r->l));
            const Value *b = basePtr(r->ptr);
            auto related = [&](Acc *a) {
                if (a->atomic || a->I == r->I) return false;
                if (isa<AllocaInst>(b) || b == peel(a->ptr)) {}
                if (basePtr(a->ptr) == b && !isa<LoadInst>(b) && changes.count(a->l)) return true;          // another member of the same cell
                if (auto *v = dyn_cast<StoreInst>(r->I)) if (rootOf(a->ptr) == rootOf(v->getValueOperand()) && a->write) return true;  // the object being published
                return a->write && a->l.base == r->l.base && a->l.elem;              // arrays of the same structure
            };
            // accesses of whole members (copies) count as well
            std::vector<std::pair<const Instruction *, const Value *>> more;
            for (auto &I : instructions(*F)) if (auto *mc = dyn_cast<MemTransferInst>(&I)) for (const Value *p : {mc->getRawDest(), mc->getRawSource()}) { const Value *q = basePtr(p); if (q == b && !isa<LoadInst>(b)) more.push_back({&I, p}); }
            for (auto *a : fa.second) if (related(a)) more.push_back({a->I, a->ptr});
            for (auto &m : more) {
                // reachable after the release without the cell being chosen anew?
                auto *bd = dyn_cast<Instruction>(b);
                std::set<const BasicBlock *> seen;
                std::vector<const BasicBlock *> todo;
                bool after = false;
                bool past = false;
                for (auto &J : *r->I->getParent()) { if (&J == r->I) past = true; else if (past && &J == m.first) after = true; }
                for (auto *s : successors(r->I->getParent())) todo.push_back(s);
                while (!todo.empty() && !after) {
                    auto *B = todo.back();
                    todo.pop_back();
                    if (!seen.insert(B).second) continue;
                    bool stop = false;
                    for (auto &J : *B) { if (&J == bd) { stop = true; break; } if (&J == m.first) { after = true; break; } }
                    if (!stop) for (auto *s : successors(B)) todo.push_back(s);
                }
                if (after) report("published-too-early", F, m.first, sname(r->l), "accessed after " + sname(r->l) + " was released to other threads");
                bool claimed = cas.empty();
                for (auto *c : cas) {
                    auto ok = [&](const Value *v) { auto *e = dyn_cast<ExtractValueInst>(v); return e && e->getAggregateOperand() == c->I && e->getIndices()[0] == 1; };
                    if (guarded(m.first, ok, 1, dt(F))) claimed = true;
                }
                if (!claimed && !isFresh(m.second)) report("not-claimed", F, m.first, sname(r->l), "accessed without having claimed it: other threads may use it at the same time");
            }
        }
    }
}
// ---------------------------------------------------------------- locks
typedef std::set<Loc> Held;
struct LockFx { Held gen; bool may = false; std::set<Loc> kill; };
std::map<const Function *, LockFx> FX;
std::map<const Function *, Held> ENTRY;
std::map<const Function *, bool> ENTRYALL;  // not reached yet
bool lockCall(const CallBase *C, Loc &l, int &d) {
    auto *f = calleeOf(C);
    if (!f || !C->arg_size()) return false;
    auto n = f->getName();
    if (n == "mutex_lock" || n == "pthread_mutex_lock") d = 1;
    else if (n == "mutex_unlock" || n == "pthread_mutex_unlock") d = -1;
    else return false;
    return locOf(C->getArgOperand(0), l);
}
void applyLocks(const Instruction &I, Held &h) {
    auto *C = dyn_cast<CallBase>(&I);
    if (!C) return;
    Loc l;
    int d;
    if (lockCall(C, l, d)) { if (d > 0) h.insert(l); else h.erase(l); return; }
    auto *f = calleeOf(C);
    if (!f) return;
    auto it = FX.find(f);
    if (it == FX.end()) return;
    for (auto &k : it->second.kill) h.erase(k);
    for (auto &k : it->second.gen) h.insert(k);
}
std::map<const BasicBlock *, Held> flowLocks(const Function *F, const Held &entry) {
    std::map<const BasicBlock *, Held> in;
    std::deque<const BasicBlock *> todo = {&F->getEntryBlock()};
    in[&F->getEntryBlock()] = entry;
    while (!todo.empty()) {
        auto *B = todo.front();
        todo.pop_front();
        Held h = in[B];
        for (auto &I : *B) applyLocks(I, h);
        for (auto *s : successors(B)) {
            auto it = in.find(s);
            if (it == in.end()) { in[s] = h; todo.push_back(s); continue; }
            Held m;
            for (auto &x : it->second) if (h.count(x)) m.insert(x);
            if (m != it->second) { it->second = m; todo.push_back(s); }
        }
    }
    return in;
}
std::set<const Function *> reach(std::vector<const Function *> from, bool refs) {
    std::set<const Function *> r;
    while (!from.empty()) {
        auto *f = from.back();
        from.pop_back();
        if (f->isDeclaration() || !r.insert(f).second) continue;
        for (auto &I : instructions(*f)) {
            if (auto *C = dyn_cast<CallBase>(&I)) { if (auto *g = calleeOf(C)) from.push_back(g); }
            if (refs) for (auto &o : I.operands()) if (auto *g = dyn_cast<Function>(o->stripPointerCasts())) from.push_back(g);
        }
    }
    return r;
}
std::set<const Function *> threadEntries() {
    std::set<const Function *> r;
    for (auto &F : *M) for (auto &I : instructions(F)) if (auto *C = dyn_cast<CallBase>(&I)) {
        auto *f = calleeOf(C);
        if (!f || !(f->getName() == "pthread_create")) continue;
        for (auto *t : targetsOf(C->getArgOperand(2)).fs) r.insert(t);
    }
    return r;
}
std::set<const Function *> taskFns() {
    std::set<const Function *> r;
    for (auto &F : *M) for (auto &I : instructions(F)) if (auto *C = dyn_cast<CallBase>(&I)) {
        auto *f = calleeOf(C);
        if (f && f->getName() == "pool_add_task") for (auto *t : targetsOf(C->getArgOperand(1)).fs) r.insert(t);
    }
    return r;
}
void locks() {
    // effects, then what is held at entry (by every caller)
    for (int round = 0; round < 4; round++) for (auto &F : *M) if (!F.isDeclaration()) {
        if (F.getName() == "mutex_lock" || F.getName() == "mutex_unlock") continue;
        bool any = false;
        for (auto &I : instructions(F)) if (auto *C = dyn_cast<CallBase>(&I)) { Loc l; int d; auto *f = calleeOf(C); if (lockCall(C, l, d) || (f && FX.count(f))) any = true; }
        if (!any) continue;
        auto in = flowLocks(&F, {});
        LockFx fx;
        bool first = true;
        for (auto &b : in) {
            Held h = b.second;
            for (auto &I : *b.first) { Loc l; int d; if (auto *C = dyn_cast<CallBase>(&I)) { if (lockCall(C, l, d) && d < 0 && !h.count(l)) fx.kill.insert(l); } applyLocks(I, h); }
            if (isa<ReturnInst>(b.first->getTerminator())) { if (first) { fx.gen = h; first = false; } else { Held m; for (auto &x : fx.gen) if (h.count(x)) m.insert(x); fx.gen = m; } }
        }
        if (fx.gen.empty() && fx.kill.empty()) FX.erase(&F); else FX[&F] = fx;
    }
    for (auto &F : *M) if (!F.isDeclaration()) { bool addr = false, called = false; for (auto *u : F.users()) { auto *C = dyn_cast<CallBase>(u); if (C && C->getCalledOperand()->stripPointerCasts() == &F) called = true; else addr = true; } ENTRYALL[&F] = called && !addr; }
    for (int round = 0; round < 6; round++) {
        std::map<const Function *, Held> nx;
        std::set<const Function *> have;
        for (auto &F : *M) if (!F.isDeclaration()) {
            bool all = ENTRYALL[&F] && round == 0;
            if (all) continue;
            auto in = flowLocks(&F, ENTRY[&F]);
            for (auto &b : in) { Held h = b.second; for (auto &I : *b.first) { if (auto *C = dyn_cast<CallBase>(&I)) if (auto *f = calleeOf(C)) if (!f->isDeclaration()) { if (have.insert(f).second) nx[f] = h; else { Held m; for (auto &x : nx[f]) if (h.count(x)) m.insert(x); nx[f] = m; } } applyLocks(I, h); } }
        }
        bool ch = false;
        for (auto &p : nx) if (ENTRYALL[p.first] && ENTRY[p.first] != p.second) { ENTRY[p.first] = p.second; ch = true; }
        if (!ch && round > 1) break;
    }
    std::set<const void *> lockedStructs;
    std::map<const void *, Loc> lockOf;
    for (auto &F : *M) for (auto &I : instructions(F)) if (auto *C = dyn_cast<CallBase>(&I)) { Loc l; int d; if (lockCall(C, l, d)) lockOf[l.base] = l; }
    auto ents = threadEntries();
    std::vector<const Function *> ev(ents.begin(), ents.end());
    std::set<const Function *> worker = reach(ev, false);
    COUNT["thread-entry"] += ents.size();
    // accesses to the other members of a structure that has a lock
    std::map<Loc, std::vector<std::pair<Acc *, bool>>> ac;
    std::map<const Function *, std::map<const BasicBlock *, Held>> cache;
    for (auto &a : ACC) {
        if (a.atomic || a.l.elem) continue;
        auto lk = lockOf.find(a.l.base);
        if (lk == lockOf.end() || a.l.member == lk->second.member) continue;
        if (isFresh(a.ptr) || teardown(a.F, a.ptr, a.I)) continue;
        auto &in = cache[a.F];
        if (in.empty()) in = flowLocks(a.F, ENTRY[a.F]);
        Held h = in[a.I->getParent()];
        for (auto &I : *a.I->getParent()) { if (&I == a.I) break; applyLocks(I, h); }
        ac[a.l].push_back({&a, h.count(lk->second) > 0});
    }
    for (auto &g : ac) {
        bool written = false, wWorker = false;
        for (auto &p : g.second) if (p.first->write) { written = true; if (worker.count(p.first->F)) wWorker = true; }
        if (!written) continue;  // never changes once the structure is set up
        for (auto &p : g.second) {
            instance("locked-access", p.first->F, p.first->I, sname(g.first));
            if (p.second) continue;
            if (!p.first->write && !wWorker && !worker.count(p.first->F)) continue;  // the only thread that writes it
            report("unlocked", p.first->F, p.first->I, sname(g.first), std::string(p.first->write ? "writes" : "reads") + " " + sname(g.first) + " without holding the lock its other accesses hold");
        }
    }
    // waits
    std::set<const Function *> waitFn;
    for (auto &F : *M) if (F.getName() == "cond_wait" || F.getName() == "pthread_cond_wait") waitFn.insert(&F);
    std::set<const Function *> skip = waitFn;
    for (int round = 0; round < 3; round++) {
        std::set<const Function *> nw;
        for (auto &F : *M) if (!F.isDeclaration() && !skip.count(&F)) for (auto &I : instructions(F)) {
            auto *C = dyn_cast<CallBase>(&I);
            auto *f = C ? calleeOf(C) : nullptr;
            if (!f || !waitFn.count(f)) continue;
            std::set<const BasicBlock *> *win = nullptr;
            std::function<bool(const Value *, int)> shared = [&](const Value *v, int d) -> bool {
                if (d > 8) return false;
                v = peel(v);
                if (auto *l = dyn_cast<LoadInst>(v)) { Loc x; return locOf(l->getPointerOperand(), x) && lockOf.count(x.base) && changes.count(x) && (!win || win->count(l->getParent())); }
                if (auto *p = dyn_cast<PHINode>(v)) { for (auto &u : p->incoming_values()) if (shared(u, d + 1)) return true; return false; }
                if (auto *J = dyn_cast<Instruction>(v)) { if (isa<CastInst>(J) || isa<CmpInst>(J) || isa<BinaryOperator>(J) || isa<SelectInst>(J)) { for (auto &o : J->operands()) if (shared(o, d + 1)) return true; } if (auto *c = dyn_cast<CallBase>(J)) { auto *g = calleeOf(c); if (g && !g->isDeclaration()) for (auto &Q : instructions(*g)) if (auto *l = dyn_cast<LoadInst>(&Q)) { Loc x; if (locOf(l->getPointerOperand(), x) && lockOf.count(x.base) && changes.count(x)) return true; } } }
                return false;
            };
            auto tests = [&](const BasicBlock *B) { auto *br = dyn_cast<BranchInst>(B->getTerminator()); return br && br->isConditional() && shared(br->getCondition(), 0); };
            auto isLock = [&](const Instruction &J, int want) { auto *c = dyn_cast<CallBase>(&J); Loc l; int d; return c && lockCall(c, l, d) && d == want; };
            // backwards to where the lock was taken: the state must have been looked at
            bool bad = false, atEntry = false, badAfter = false;
            std::set<const BasicBlock *> seen;
            std::vector<const BasicBlock *> todo;
            bool hit = false;
            for (auto it = I.getReverseIterator(); it != I.getParent()->rend(); ++it) if (&*it != &I && isLock(*it, 1)) { bad = hit = true; break; }
            if (!hit) { if (I.getParent() == &F.getEntryBlock()) atEntry = true; for (auto *p : predecessors(I.getParent())) todo.push_back(p); }
            while (!todo.empty() && !bad) {
                auto *B = todo.back();
                todo.pop_back();
                if (!seen.insert(B).second) continue;
                if (tests(B)) continue;
                bool lk = false;
                for (auto &J : *B) if (isLock(J, 1)) lk = true;
                if (lk) { bad = true; break; }
                if (B == &F.getEntryBlock()) atEntry = true;
                for (auto *p : predecessors(B)) todo.push_back(p);
            }
            seen.clear();
            todo.clear();
            win = &seen;
            if (!tests(I.getParent())) { bool un = false; for (auto it = std::next(I.getIterator()); it != I.getParent()->end(); ++it) if (isLock(*it, -1)) un = true; if (un) badAfter = true; for (auto *s : successors(I.getParent())) todo.push_back(s); }
            while (!todo.empty() && !badAfter) {
                auto *B = todo.back();
                todo.pop_back();
                if (!seen.insert(B).second) continue;
                bool un = false;
                for (auto &J : *B) if (isLock(J, -1)) un = true;
                if (un) { badAfter = true; break; }
                if (tests(B)) continue;
                for (auto *s : successors(B)) todo.push_back(s);
            }
            if (atEntry && !bad) { if (!ENTRY[&F].empty()) { nw.insert(&F); continue; } }
            instance("condition-wait", &F, C, f->getName().str());
            if (bad) report("wait-unchecked", &F, C, "wait", "waits without having looked at the state since the lock was taken: a wake-up sent before is lost");
            else if (badAfter) report("wait-unchecked", &F, C, "wait", "goes on after a wait without looking at the state again");
        }
        for (auto *f : nw) { skip.insert(f); }
        waitFn = nw;
        if (nw.empty()) break;
    }
}
void globals() {
    auto tasks = taskFns();
    auto ents = threadEntries();
    std::vector<const Function *> from(tasks.begin(), tasks.end());
    for (auto *e : ents) from.push_back(e);
    auto r = reach(from, true);
    COUNT["task-function"] += tasks.size();
    COUNT["task-reachable"] += r.size();
    const std::set<std::string> UNSAFE = {"strtok", "localtime", "gmtime", "asctime", "ctime", "strerror_l_unsafe", "rand", "srand", "random", "drand48", "getpwnam", "getpwuid", "gethostbyname", "readdir_unsafe", "setlocale", "basename", "dirname", "inet_ntoa", "ttyname", "getlogin", "tmpnam"};
    for (auto *F : r) for (auto &I : instructions(*F)) {
        if (auto *s = dyn_cast<StoreInst>(&I)) {
            auto *g = dyn_cast<GlobalVariable>(getUnderlyingObject(s->getPointerOperand()));
            if (!g || g->isThreadLocal() || s->isAtomic()) continue;
            report("task-writes-global", F, &I, g->getName().str(), "writes process-wide " + g->getName().str() + " and can run on several threads at once");
        } else if (auto *C = dyn_cast<CallBase>(&I)) {
            auto *f = calleeOf(C);
            if (f && f->isDeclaration() && UNSAFE.count(f->getName().str())) report("task-unsafe-call", F, &I, f->getName().str(), f->getName().str() + " keeps its result in process-wide memory and can run on several threads at once");
        }
    }
}
}
void runConcur() {
    if (getenv("RA_TIME")) errs() << "concur\n";
    collect();
    access();
    locks();
    globals();
}
