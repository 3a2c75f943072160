// Typestate of operating-system resources and of paired operations, explored path by path over the
// control-flow graph. Branch conditions over the same values are taken consistently; callees enter
// through inferred effects (what they release, hand over, open or close).
#include "rules.h"
#include "llvm/IR/ConstantRange.h"
#include "llvm/Analysis/ValueTracking.h"
typedef ConstantRange CR;
static const Function *calleeOf(const CallBase *C) { return dyn_cast<Function>(C->getCalledOperand()->stripPointerCasts()); }
static unsigned bits(const Value *v) {
    Type *t = v->getType();
    if (t->isPointerTy()) return 64;
    if (auto *i = dyn_cast<IntegerType>(t)) return i->getBitWidth();
    return 0;
}
namespace {
typedef std::map<const Value *, CR> Facts;
bool constOf(const Value *v, APInt &out) {
    if (auto *c = dyn_cast<ConstantInt>(v)) { out = c->getValue(); return true; }
    if (isa<ConstantPointerNull>(v)) { out = APInt(64, 0); return true; }
    if (auto *e = dyn_cast<ConstantExpr>(v)) if (e->getOpcode() == Instruction::IntToPtr) if (auto *c = dyn_cast<ConstantInt>(e->getOperand(0))) { out = c->getValue().sextOrTrunc(64); return true; }
    return false;
}
CR rangeIn(const Facts &F, const Value *v, int d = 0) {
    unsigned b = bits(v);
    CR full = CR::getFull(b ? b : 64);
    if (!b) return full;
    APInt c;
    if (constOf(v, c)) return CR(c.sextOrTrunc(b));
    auto it = F.find(v);
    if (it != F.end()) full = it->second;
    if (d > 6) return full;
    auto *I = dyn_cast<Instruction>(v);
    if (!I) return full;
    if (auto *z = dyn_cast<ZExtInst>(I)) return full.intersectWith(rangeIn(F, z->getOperand(0), d + 1).zeroExtend(b));
    if (auto *s = dyn_cast<SExtInst>(I)) return full.intersectWith(rangeIn(F, s->getOperand(0), d + 1).signExtend(b));
    if (auto *t = dyn_cast<TruncInst>(I)) return full.intersectWith(rangeIn(F, t->getOperand(0), d + 1).truncate(b));
    if ((isa<PtrToIntInst>(I) || isa<IntToPtrInst>(I)) && bits(I->getOperand(0)) == b) return full.intersectWith(rangeIn(F, I->getOperand(0), d + 1));
    if (auto *x = dyn_cast<BinaryOperator>(I)) if (x->getOpcode() == Instruction::Xor && b == 1) { APInt k; if (constOf(x->getOperand(1), k) && k == 1) { CR r = rangeIn(F, x->getOperand(0), d + 1); if (r.isSingleElement()) return CR(*r.getSingleElement() ^ k); } }
    if (auto *p = dyn_cast<ICmpInst>(I)) {
        if (!bits(p->getOperand(0))) return full;
        CR a = rangeIn(F, p->getOperand(0), d + 1), q = rangeIn(F, p->getOperand(1), d + 1);
        if (a.isEmptySet() || q.isEmptySet()) return full;
        if (a.icmp(p->getPredicate(), q)) return full.intersectWith(CR(APInt(1, 1)));
        if (a.icmp(p->getInversePredicate(), q)) return full.intersectWith(CR(APInt(1, 0)));
    }
    return full;
}
bool assume(Facts &F, const Value *v, CR r, int d = 0) {
    unsigned b = bits(v);
    if (!b) return true;
    CR cur = rangeIn(F, v);
    CR n = cur.intersectWith(r);
    if (n.isEmptySet()) return false;
    APInt c;
    if (constOf(v, c)) return true;
    if (!n.isFullSet()) { auto it = F.find(v); if (it != F.end()) it->second = n; else F.insert({v, n}); }
    if (d > 6) return true;
    auto *I = dyn_cast<Instruction>(v);
    if (!I) return true;
    if (isa<ZExtInst>(I) || isa<SExtInst>(I)) { CR f = isa<ZExtInst>(I) ? CR::getFull(bits(I->getOperand(0))).zeroExtend(b) : CR::getFull(bits(I->getOperand(0))).signExtend(b); CR x = n.intersectWith(f); if (x.isEmptySet()) return false; return assume(F, I->getOperand(0), x.truncate(bits(I->getOperand(0))), d + 1); }
    if ((isa<PtrToIntInst>(I) || isa<IntToPtrInst>(I)) && bits(I->getOperand(0)) == b) return assume(F, I->getOperand(0), n, d + 1);
    if (auto *x = dyn_cast<BinaryOperator>(I)) if (x->getOpcode() == Instruction::Xor && b == 1 && n.isSingleElement()) { APInt k; if (constOf(x->getOperand(1), k) && k == 1) return assume(F, x->getOperand(0), CR(*n.getSingleElement() ^ k), d + 1); }
    if (auto *p = dyn_cast<ICmpInst>(I)) if (n.isSingleElement()) {
        bool t = n.getSingleElement()->getBoolValue();
        auto pr = t ? p->getPredicate() : p->getInversePredicate();
        const Value *l = p->getOperand(0), *q = p->getOperand(1);
        APInt k;
        if (constOf(q, k) && bits(l)) return assume(F, l, CR::makeAllowedICmpRegion(pr, CR(k.sextOrTrunc(bits(l)))), d + 1);
        if (constOf(l, k) && bits(q)) return assume(F, q, CR::makeAllowedICmpRegion(CmpInst::getSwappedPredicate(pr), CR(k.sextOrTrunc(bits(q)))), d + 1);
        if (bits(l) && bits(q)) {
            CR a = rangeIn(F, l), e = rangeIn(F, q);
            return assume(F, l, CR::makeAllowedICmpRegion(pr, e), d + 1) && assume(F, q, CR::makeAllowedICmpRegion(CmpInst::getSwappedPredicate(pr), a), d + 1);
        }
    }
    return true;
}
// values whose facts can matter at a later branch
std::map<const Function *, std::set<const Value *>> RELV;
void condOps(const Value *v, std::map<const Value *, int> &cnt, int d) {
    if (d > 6 || isa<Constant>(v)) return;
    cnt[v]++;
    auto *I = dyn_cast<Instruction>(v);
    if (I && (isa<CastInst>(I) || isa<ICmpInst>(I) || (isa<BinaryOperator>(I) && bits(I) == 1))) for (auto &o : I->operands()) condOps(o, cnt, d + 1);
}
const std::set<const Value *> &relevant(const Function *F) {
    auto it = RELV.find(F);
    if (it != RELV.end()) return it->second;
    std::map<const Value *, int> cnt;
    for (auto &B : *F) {
        if (auto *br = dyn_cast<BranchInst>(B.getTerminator())) { if (br->isConditional()) condOps(br->getCondition(), cnt, 0); }
        else if (auto *sw = dyn_cast<SwitchInst>(B.getTerminator())) condOps(sw->getCondition(), cnt, 0);
    }
    auto &r = RELV[F];
    for (auto &p : cnt) {
        if (p.second > 1) r.insert(p.first);
        if (auto *ph = dyn_cast<PHINode>(p.first)) for (auto &u : ph->incoming_values()) if (isa<Constant>(u)) r.insert(ph);
    }
    return r;
}
// ---------------------------------------------------------------- resources
struct Kind { const char *name; bool ptr; std::vector<const char *> acq, rel; };
const std::vector<Kind> KINDS = {
    {"file descriptor", false, {"open", "openat", "creat", "socket", "accept", "accept4", "epoll_create", "epoll_create1", "eventfd", "dup"}, {"close"}},
    {"directory stream", true, {"opendir"}, {"closedir"}},
    {"stream", true, {"fopen"}, {"fclose"}},
    {"process stream", true, {"popen"}, {"pclose"}},
    {"mapping", true, {"mmap"}, {"munmap"}},
    {"library", true, {"dlopen"}, {"dlclose"}},
};
typedef std::pair<const void *, unsigned> Field;  // structure type or global, member
std::map<std::pair<Field, int>, std::pair<const Function *, const Instruction *>> KEPT;  // where resources are kept
bool fieldOf(const Value *p, Field &f) {
    if (auto *c = dyn_cast<IntrinsicInst>(p)) if (c->getIntrinsicID() == Intrinsic::threadlocal_address) p = c->getArgOperand(0);
    if (isa<GlobalVariable>(p->stripPointerCasts())) { f = {p->stripPointerCasts(), 0}; return true; }
    auto *g = dyn_cast<GEPOperator>(p);
    if (!g || g->getNumIndices() < 2) return false;
    Type *t = g->getSourceElementType(), *st = nullptr;
    unsigned k = 0;
    auto it = g->idx_begin();
    for (++it; it != g->idx_end(); ++it) {
        if (auto *s = dyn_cast<StructType>(t)) { auto *c = dyn_cast<ConstantInt>(*it); if (!c) return false; st = s; k = c->getZExtValue(); t = s->getElementType(k); }
        else if (auto *a = dyn_cast<ArrayType>(t)) t = a->getElementType();
        else return false;
    }
    if (!st) return false;
    f = {st, k};
    return true;
}
enum Eff { E_NONE, E_HAND, E_CLOSE, E_SPLIT };
std::map<std::tuple<const Function *, int, int>, Eff> PEFF;  // function, parameter, kind
std::map<const Function *, int> RETS;                        // functions that return a resource of this kind
int acqKind(const CallBase *C) {
    auto *f = calleeOf(C);
    if (!f) return -1;
    auto it = RETS.find(f);
    if (it != RETS.end()) return it->second;
    if (!f->isDeclaration()) return -1;
    for (size_t k = 0; k < KINDS.size(); k++) for (auto *n : KINDS[k].acq) if (f->getName() == n || (f->getName() == std::string(n) + "64")) return k;
    return -1;
}
bool anonymous(const CallBase *C) {  // anonymous memory belongs to the allocator
    auto *f = calleeOf(C);
    if (f && f->getName().starts_with("mmap") && f->isDeclaration() && C->arg_size() == 6) { auto *c = dyn_cast<ConstantInt>(C->getArgOperand(4)); return c && c->isMinusOne(); }
    return false;
}
struct RS {
    Facts facts;
    std::set<const Value *> alias, derived, holders;
    bool released = false;
    const Instruction *relAt = nullptr;
};
struct Res {
    const Function *F;
    const Instruction *site;  // acquiring call, or null: the parameter
    const Value *root;
    int kind;
    bool rep;
    bool leaked = false, handed = false, closed = false, returned = false, incomplete = false;
    std::set<std::string> seen;
    size_t steps = 0;
    bool valid(const RS &S) {
        for (auto *a : S.alias) {
            unsigned b = bits(a);
            if (!b) continue;
            CR v = KINDS[kind].ptr ? CR(APInt(b, 1), APInt(b, -1, true)) : CR(APInt(b, 0), APInt(b, (1ull << 31) - 1).zextOrTrunc(b));
            if (!KINDS[kind].ptr && b < 32) continue;
            if (rangeIn(S.facts, a).intersectWith(v).isEmptySet()) return false;
        }
        return true;
    }
    std::string what() { auto *c = dyn_cast_or_null<CallBase>(site); return std::string(KINDS[kind].name) + (c && calleeOf(c) ? " from " + calleeOf(c)->getName().str() + " (line " + std::to_string(lineOf(c)) + ")" : ""); }
    std::string siteName() { auto *c = dyn_cast_or_null<CallBase>(site); return c && calleeOf(c) ? calleeOf(c)->getName().str() : std::string("param"); }
    void rpt(const std::string &rule, const Instruction *I, const std::string &msg) { if (rep) report(rule, F, I, siteName(), msg); }
    void leak(RS &S, const Instruction *I, const char *how) {
        if (S.released) { closed = true; return; }
        if (!valid(S)) return;
        leaked = true;
        if (site) rpt("resource-leak", I, what() + " is still open " + how);
    }
    static const Value *root0(const Value *p) { return getUnderlyingObject(p); }
    void use(RS &S, const Instruction *I, const Value *v) {
        if (S.released && (S.alias.count(v) || S.derived.count(v))) rpt("resource-use-after-release", I, what() + " is used after its release");
    }
    // explores from instruction 'it' of B
    void go(RS S0, const BasicBlock *B0, BasicBlock::const_iterator it0) {
        struct W { RS S; const BasicBlock *B; BasicBlock::const_iterator it; };
        std::vector<W> work;
        work.push_back({S0, B0, it0});
        while (!work.empty()) {
            W w = std::move(work.back());
            work.pop_back();
            if (++steps > 60000) { incomplete = true; return; }
            RS &S = w.S;
            const BasicBlock *B = w.B;
            bool dead = false;
            for (auto it = w.it; it != B->end() && !dead; ++it) {
                const Instruction *I = &*it;
                if (isa<PHINode>(I)) continue;
                if (I->isTerminator()) break;
                if (isa<DbgInfoIntrinsic>(I)) continue;
                S.facts.erase(I);
                if (I == site) { leak(S, I, "when the same place opens another one"); dead = true; break; }
                bool al = false, de = false;
                if (auto *c = dyn_cast<CastInst>(I)) { al = S.alias.count(c->getOperand(0)); de = S.derived.count(c->getOperand(0)); }
                else if (auto *g = dyn_cast<GetElementPtrInst>(I)) de = S.alias.count(g->getPointerOperand()) || S.derived.count(g->getPointerOperand());
                else if (auto *b = dyn_cast<BinaryOperator>(I)) { if (KINDS[kind].ptr) de = S.alias.count(b->getOperand(0)) || S.derived.count(b->getOperand(0)); }
                else if (auto *s = dyn_cast<SelectInst>(I)) al = S.alias.count(s->getTrueValue()) || S.alias.count(s->getFalseValue());
                else if (auto *l = dyn_cast<LoadInst>(I)) {
                    if (S.holders.count(root0(l->getPointerOperand())) && bits(l) >= 32 && (KINDS[kind].ptr || bits(l))) al = true;
                    use(S, I, l->getPointerOperand());
                } else if (auto *s = dyn_cast<StoreInst>(I)) {
                    use(S, I, s->getPointerOperand());
                    if (S.alias.count(s->getValueOperand()) || S.derived.count(s->getValueOperand())) {
                        const Value *r = root0(s->getPointerOperand());
                        Field fd;
                        if (rep && S.alias.count(s->getValueOperand()) && valid(S) && !S.released && fieldOf(s->getPointerOperand(), fd)) KEPT.insert({{fd, kind}, {F, s}});
                        if (isa<AllocaInst>(r)) S.holders.insert(r);
                        else if (S.alias.count(r) || S.derived.count(r)) {}
                        else { if (!S.released) handed = true; dead = true; break; }
                    }
                } else if (auto *C = dyn_cast<CallBase>(I)) {
                    auto *f = calleeOf(C);
                    if (f && f->isIntrinsic()) continue;
                    bool noret = C->doesNotReturn() || (f && (SUMnoret(f)));
                    for (unsigned i = 0; i < C->arg_size() && !dead; i++) {
                        const Value *a = C->getArgOperand(i);
                        bool hit = S.alias.count(a) || S.derived.count(a);
                        if (!hit && a->getType()->isPointerTy() && isa<AllocaInst>(root0(a)) && S.holders.count(root0(a)) && !(f && f->isDeclaration()) && !C->doesNotReturn()) {
                            if (!S.released) handed = true;
                            dead = true;
                            break;
                        }
                        if (!hit) continue;
                        bool fixed = !f || i < f->arg_size();
                        if (!fixed) continue;  // formatted output, task arguments
                        Eff e = E_NONE;
                        if (!f) e = E_HAND;
                        else if (f->isDeclaration()) {
                            for (auto *n : KINDS[kind].rel) if (f->getName() == n && i == 0) e = E_CLOSE;
                            if (f->getName() == "fdopen") e = E_HAND;
                        } else {
                            auto p = PEFF.find({f, (int)i, kind});
                            if (p != PEFF.end()) e = p->second;
                        }
                        if (e == E_CLOSE) {
                            if (S.released) { rpt("resource-double-release", I, what() + " is released a second time"); dead = true; }
                            else { S.released = true; S.relAt = I; closed = true; }
                        } else if (e == E_HAND) { if (S.released) use(S, I, a); else handed = true; dead = true; }
                        else if (e == E_SPLIT) { RS N = S; if (!S.released) { N.released = true; work.push_back({N, B, std::next(it)}); } }
                        else use(S, I, a);
                    }
                    if (noret) dead = true;
                }
                if (dead) break;
                S.alias.erase(I);
                S.derived.erase(I);
                if (al) S.alias.insert(I);
                if (de) S.derived.insert(I);
            }
            if (dead) continue;
            const Instruction *T = B->getTerminator();
            if (auto *r = dyn_cast<ReturnInst>(T)) {
                const Value *v = r->getReturnValue();
                if (v && (S.alias.count(v) || S.derived.count(v))) { if (!S.released) { handed = true; if (S.alias.count(v) && valid(S)) returned = true; } else use(S, T, v); }
                else leak(S, T, "when the function returns");
                continue;
            }
            if (isa<UnreachableInst>(T)) continue;
            auto edge = [&](const BasicBlock *to, Facts fc) {
                RS N;
                N.released = S.released; N.relAt = S.relAt; N.holders = S.holders;
                N.alias = S.alias; N.derived = S.derived;
                std::vector<std::pair<const PHINode *, const Value *>> ph;
                for (auto &p : to->phis()) ph.push_back({&p, p.getIncomingValueForBlock(B)});
                Facts nf = fc;
                for (auto &p : ph) {
                    if (!bits(p.first)) continue;
                    CR r = rangeIn(fc, p.second);
                    nf.erase(p.first);
                    if (!r.isFullSet()) nf.insert({p.first, r});
                    N.alias.erase(p.first); N.derived.erase(p.first);
                }
                for (auto &p : ph) { if (S.alias.count(p.second)) N.alias.insert(p.first); if (S.derived.count(p.second)) N.derived.insert(p.first); }
                auto &rel = relevant(F);
                for (auto &f : nf) if (rel.count(f.first) || N.alias.count(f.first)) N.facts.insert(f);
                std::string k;
                raw_string_ostream o(k);
                o << (const void *)to << N.released;
                for (auto *a : N.alias) o << "a" << (const void *)a;
                for (auto *a : N.derived) o << "d" << (const void *)a;
                for (auto *a : N.holders) o << "h" << (const void *)a;
                for (auto &f : N.facts) { o << (const void *)f.first; f.second.print(o); }
                if (!seen.insert(o.str()).second) return;
                work.push_back({std::move(N), to, to->begin()});
            };
            if (auto *br = dyn_cast<BranchInst>(T)) {
                if (!br->isConditional()) { edge(br->getSuccessor(0), S.facts); continue; }
                for (int k = 0; k < 2; k++) { Facts fc = S.facts; if (assume(fc, br->getCondition(), CR(APInt(1, k == 0)))) edge(br->getSuccessor(k), fc); }
            } else if (auto *sw = dyn_cast<SwitchInst>(T)) {
                Facts fd = S.facts;
                bool dok = true;
                for (auto &c : sw->cases()) {
                    Facts fc = S.facts;
                    if (assume(fc, sw->getCondition(), CR(c.getCaseValue()->getValue()))) edge(c.getCaseSuccessor(), fc);
                    if (dok) dok = assume(fd, sw->getCondition(), CR(c.getCaseValue()->getValue()).inverse());
                }
                if (dok) edge(sw->getDefaultDest(), fd);
            } else for (unsigned k = 0; k < T->getNumSuccessors(); k++) edge(T->getSuccessor(k), S.facts);
        }
    }
    static std::map<const Function *, bool> NORET;
    static bool SUMnoret(const Function *f) {
        auto it = NORET.find(f);
        if (it != NORET.end()) return it->second;
        if (f->isDeclaration()) return NORET[f] = f->doesNotReturn();
        NORET[f] = false;
        bool any = false;
        for (auto &B : *f) if (isa<ReturnInst>(B.getTerminator())) any = true;
        return NORET[f] = !any;
    }
};
std::map<const Function *, bool> Res::NORET;

void resources() {
    std::vector<const Function *> fs;
    for (auto &F : *M) if (!F.isDeclaration()) fs.push_back(&F);
    for (int round = 0; round < 4; round++) {
        bool ch = false;
        for (auto *F : fs) {
            for (auto &I : instructions(*F)) {
                auto *C = dyn_cast<CallBase>(&I);
                if (!C) continue;
                int k = acqKind(C);
                if (k < 0 || anonymous(C)) continue;
                Res R{F, C, C, k, false};
                RS S;
                S.alias.insert(C);
                R.go(S, C->getParent(), std::next(C->getIterator()));
                if (R.returned && !RETS.count(F)) { RETS[F] = k; ch = true; }
            }
            for (auto &A : F->args()) for (size_t k = 0; k < KINDS.size(); k++) {
                unsigned b = bits(&A);
                if (b < 32) continue;
                // without a place that could release it, only whether it is handed on matters
                bool rel = false, hand = false;
                std::set<const Value *> cl = {&A};
                std::vector<const Value *> todo = {&A};
                while (!todo.empty()) {
                    auto *v = todo.back();
                    todo.pop_back();
                    for (auto *u : v->users()) {
                        auto *I = dyn_cast<Instruction>(u);
                        if (!I) continue;
                        bool deriv = false;
                        if (auto *c = dyn_cast<CallBase>(I)) {
                            auto *f = calleeOf(c);
                            if (f && f->isIntrinsic()) continue;
                            for (unsigned i = 0; i < c->arg_size(); i++) if (c->getArgOperand(i) == v) {
                                if (!f) { hand = true; continue; }
                                if (f->isDeclaration()) { for (auto *n : KINDS[k].rel) if (f->getName() == n) rel = true; if (f->getName() == "fdopen") hand = true; continue; }
                                auto p = PEFF.find({f, (int)i, (int)k});
                                if (p != PEFF.end()) { if (p->second == E_HAND) hand = true; else if (p->second != E_NONE) rel = true; }
                            }
                        } else if (auto *st = dyn_cast<StoreInst>(I)) { if (st->getValueOperand() == v) hand = true; }
                        else if (isa<ReturnInst>(I)) hand = true;
                        else if (isa<CastInst>(I) || isa<PHINode>(I) || isa<SelectInst>(I)) deriv = true;
                        else if (KINDS[k].ptr && (isa<GetElementPtrInst>(I) || isa<BinaryOperator>(I))) deriv = true;
                        if (deriv && cl.insert(I).second) todo.push_back(I);
                    }
                }
                if (!rel) {
                    Eff e = hand ? E_HAND : E_NONE;
                    auto &cur = PEFF[{F, (int)A.getArgNo(), (int)k}];
                    if (cur != e) { cur = e; ch = true; }
                    continue;
                }
                Res R{F, nullptr, &A, (int)k, false};
                RS S;
                S.alias.insert(&A);
                R.go(S, &F->getEntryBlock(), F->getEntryBlock().begin());
                Eff e = R.handed ? E_HAND : R.closed ? (R.leaked ? E_SPLIT : E_CLOSE) : E_NONE;
                auto &cur = PEFF[{F, (int)A.getArgNo(), (int)k}];
                if (cur != e) { cur = e; ch = true; }
            }
        }
        if (!ch) break;
    }
    for (auto *F : fs) for (auto &I : instructions(*F)) {
        auto *C = dyn_cast<CallBase>(&I);
        if (!C) continue;
        int k = acqKind(C);
        if (k < 0 || anonymous(C)) continue;
        instance("resource-acquired", F, C, std::string(KINDS[k].name) + " " + calleeOf(C)->getName().str());
        Res R{F, C, C, k, true};
        RS S;
        S.alias.insert(C);
        R.go(S, C->getParent(), std::next(C->getIterator()));
        if (R.incomplete) COUNT["resource-incomplete"]++;
    }
    // what is kept in a structure must be released by whoever takes the structure apart
    std::map<Field, std::set<Field>> flow;
    std::set<std::pair<Field, int>> done;
    for (auto *F : fs) for (auto &I : instructions(*F)) {
        auto *L = dyn_cast<LoadInst>(&I);
        Field from;
        if (!L || bits(L) < 32 || !fieldOf(L->getPointerOperand(), from)) continue;
        std::set<const Value *> cl = {L};
        std::vector<const Value *> todo = {L};
        while (!todo.empty()) {
            auto *v = todo.back();
            todo.pop_back();
            for (auto *u : v->users()) {
                auto *J = dyn_cast<Instruction>(u);
                if (!J) continue;
                Field to;
                if (auto *s = dyn_cast<StoreInst>(J)) { if (s->getValueOperand() == v && fieldOf(s->getPointerOperand(), to)) flow[from].insert(to); }
                else if (auto *c = dyn_cast<CallBase>(J)) {
                    auto *f = calleeOf(c);
                    for (size_t k = 0; f && k < KINDS.size(); k++) for (unsigned i = 0; i < c->arg_size(); i++) if (c->getArgOperand(i) == v) {
                        if (f->isDeclaration()) { if (i == 0) for (auto *n : KINDS[k].rel) if (f->getName() == n) done.insert({from, (int)k}); }
                        else { auto p = PEFF.find({f, (int)i, (int)k}); if (p != PEFF.end() && (p->second == E_CLOSE || p->second == E_SPLIT)) done.insert({from, (int)k}); }
                    }
                } else if ((isa<CastInst>(J) || isa<PHINode>(J) || isa<SelectInst>(J)) && cl.insert(J).second) todo.push_back(J);
            }
        }
    }
    for (auto &k : KEPT) {
        std::set<Field> vis = {k.first.first};
        std::vector<Field> todo = {k.first.first};
        bool ok = false;
        while (!todo.empty() && !ok) { Field f = todo.back(); todo.pop_back(); ok = done.count({f, k.first.second}); for (auto &n : flow[f]) if (vis.insert(n).second) todo.push_back(n); }
        instance("resource-kept", k.second.first, k.second.second, KINDS[k.first.second].name);
        if (!ok) report("resource-never-released", k.second.first, k.second.second, KINDS[k.first.second].name, std::string(KINDS[k.first.second].name) + " is kept in a structure member that nothing releases");
    }
    if (getenv("RA_RES")) for (auto &p : PEFF) if (p.second > E_HAND) outs() << "peff " << std::get<0>(p.first)->getName() << " " << std::get<1>(p.first) << " " << KINDS[std::get<2>(p.first)].name << " " << p.second << "\n";
    if (getenv("RA_RES")) for (auto &p : RETS) outs() << "rets " << p.first->getName() << " " << KINDS[p.second].name << "\n";
}
// ---------------------------------------------------------------- brackets
struct Pair { const char *name; std::vector<std::string> open, close, inside; int argc; bool nest; };
const std::vector<Pair> PAIRS = {
    {"lock", {"pthread_mutex_lock"}, {"pthread_mutex_unlock"}, {"pthread_cond_wait"}, -1, false},
    {"query context", {"query_ctx_init"}, {"query_ctx_destroy"}, {}, -1, false},
    {"shared counting", {"rc_sync_set=1"}, {"rc_sync_set=0"}, {}, 0, false},
    {"task batch", {"pool_prepare"}, {"pool_run"}, {"pool_add_task"}, -1, false},
    {"timing span", {"timeit_span_start"}, {"timeit_span_end"}, {}, -1, true},
    {"address list", {"getaddrinfo"}, {"freeaddrinfo"}, {}, -1, false},
};
struct BS { Facts facts; int depth = 0; const Instruction *last = nullptr; };
std::set<const Function *> MAYLOCK;
std::set<std::pair<const Function *, int>> NEEDS;  // functions to be called inside
std::map<std::pair<const Function *, int>, int> DELTA;  // net effect of defined functions
static bool is(const std::vector<std::string> &v, const CallBase *C) {
    auto *f = calleeOf(C);
    if (!f) return false;
    for (auto &s : v) {
        auto e = s.find('=');
        if (f->getName() != s.substr(0, e)) continue;
        if (e == std::string::npos) return true;
        auto *c = dyn_cast<ConstantInt>(C->getArgOperand(0));
        if (c && c->getSExtValue() == std::stoi(s.substr(e + 1))) return true;
    }
    return false;
}
struct Brk {
    const Function *F;
    int kind;
    bool rep;
    std::map<int, const Instruction *> exits;
    std::map<int, const Instruction *> opened;
    bool incomplete = false, touched = false, outside = false;
    void go() {
        struct W { BS S; const BasicBlock *B; };
        std::set<std::string> seen;
        std::vector<W> work;
        work.push_back({BS(), &F->getEntryBlock()});
        size_t steps = 0;
        const Pair &P = PAIRS[kind];
        while (!work.empty()) {
            W w = std::move(work.back());
            work.pop_back();
            if (++steps > 60000) { incomplete = true; return; }
            BS &S = w.S;
            bool dead = false;
            for (auto &I : *w.B) {
                if (isa<PHINode>(&I)) continue;
                S.facts.erase(&I);
                auto *C = dyn_cast<CallBase>(&I);
                if (!C) continue;
                auto *f = calleeOf(C);
                if (!f || f->isIntrinsic()) continue;
                int d = 0;
                bool prim = false;
                if (is(P.open, C)) { d = 1; prim = true; }
                else if (is(P.close, C)) { d = -1; prim = true; }
                else if (!f->isDeclaration()) { auto it = DELTA.find({f, kind}); if (it != DELTA.end()) d = it->second; }
                if (d) touched = true;
                if (is(P.inside, C) || NEEDS.count({f, kind})) { touched = true; if (S.depth <= 0) { outside = true; if (rep && !NEEDS.count({F, kind})) report("not-inside", F, C, P.name, f->getName().str() + " is called outside a " + P.name); } }
                if (!d && S.depth > 0 && kind == 0 && rep && MAYLOCK.count(f)) report("entered-twice", F, C, P.name, f->getName().str() + " takes the " + P.name + " that is already held");
                if (d > 0 && S.depth > 0 && !P.nest && rep) { report("entered-twice", F, C, P.name, std::string(P.name) + " is entered while it is already open"); dead = true; break; }
                S.depth += d;
                if (d > 0) S.last = C;
                if (S.depth > 8 || S.depth < -8) { dead = true; break; }
                if (C->doesNotReturn() || Res::SUMnoret(f)) { dead = true; break; }
                if (prim && d > 0 && P.open[0] == "getaddrinfo") {  // nothing to free unless it succeeded
                    BS N = S;
                    N.depth -= d;
                    assume(N.facts, C, CR(APInt(32, 0)).inverse());
                    assume(S.facts, C, CR(APInt(32, 0)));
                    pend = N;
                    hasPend = true;
                }
            }
            if (dead) { hasPend = false; continue; }
            std::vector<BS> ss = {S};
            if (hasPend) { ss.push_back(pend); hasPend = false; }
            for (BS &Q : ss) {
                const Instruction *T = w.B->getTerminator();
                if (isa<ReturnInst>(T)) { if (!exits.count(Q.depth)) { exits[Q.depth] = T; opened[Q.depth] = Q.last; } continue; }
                auto edge = [&](const BasicBlock *to, Facts &fc) {
                    BS N;
                    N.depth = Q.depth;
                    N.last = Q.last;
                    Facts nf = fc;
                    for (auto &p : to->phis()) { if (!bits(&p)) continue; CR r = rangeIn(fc, p.getIncomingValueForBlock(w.B)); nf.erase(&p); if (!r.isFullSet()) nf.insert({&p, r}); }
                    auto &rel = relevant(F);
                    for (auto &f : nf) if (rel.count(f.first)) N.facts.insert(f);
                    std::string k;
                    raw_string_ostream o(k);
                    o << (const void *)to << "." << N.depth << ".";
                    for (auto &f : N.facts) { o << (const void *)f.first; f.second.print(o); }
                    if (!seen.insert(o.str()).second) return;
                    work.push_back({std::move(N), to});
                };
                if (auto *br = dyn_cast<BranchInst>(T)) {
                    if (!br->isConditional()) { edge(br->getSuccessor(0), Q.facts); continue; }
                    for (int k = 0; k < 2; k++) { Facts fc = Q.facts; if (assume(fc, br->getCondition(), CR(APInt(1, k == 0)))) edge(br->getSuccessor(k), fc); }
                } else for (unsigned k = 0; k < T->getNumSuccessors(); k++) edge(T->getSuccessor(k), Q.facts);
            }
        }
    }
    BS pend;
    bool hasPend = false;
};
void brackets() {
    std::vector<const Function *> fs;
    for (auto &F : *M) if (!F.isDeclaration()) fs.push_back(&F);
    auto prim = [&](const Function *f, int k) {
        for (auto &s : PAIRS[k].open) if (f->getName() == s.substr(0, s.find('='))) return true;
        for (auto &s : PAIRS[k].close) if (f->getName() == s.substr(0, s.find('='))) return true;
        return false;
    };
    auto concerns = [&](const Function *F, int k) {
        for (auto &I : instructions(*F)) if (auto *C = dyn_cast<CallBase>(&I)) {
            if (is(PAIRS[k].open, C) || is(PAIRS[k].close, C) || is(PAIRS[k].inside, C)) return true;
            auto *f = calleeOf(C);
            auto it = DELTA.find({f, k});
            if (f && ((it != DELTA.end() && it->second) || NEEDS.count({f, k}))) return true;
        }
        return false;
    };
    std::set<const Function *> wrap;  // thin wrappers of the locking call
    for (auto *F : fs) for (auto &I : instructions(*F)) if (auto *C = dyn_cast<CallBase>(&I)) if (is(PAIRS[0].open, C)) { if (F->size() == 1 && F->getInstructionCount() < 12) wrap.insert(F); else MAYLOCK.insert(F); }
    for (auto *F : fs) for (auto &I : instructions(*F)) if (auto *C = dyn_cast<CallBase>(&I)) if (wrap.count(calleeOf(C))) MAYLOCK.insert(F);
    for (int round = 0; round < 5; round++) {
        bool ch = false;
        for (auto *F : fs) for (size_t k = 0; k < PAIRS.size(); k++) {
            if (prim(F, k) || !concerns(F, k)) continue;
            Brk B{F, (int)k, false};
            B.go();
            if (!B.touched) continue;
            int d = B.exits.size() == 1 ? B.exits.begin()->first : 0;
            auto it = DELTA.find({F, (int)k});
            if ((it == DELTA.end() ? 0 : it->second) != d) { DELTA[{F, (int)k}] = d; ch = true; }
            bool direct = false;
            for (auto *u : F->users()) if (auto *c = dyn_cast<CallBase>(u)) if (calleeOf(c) == F) direct = true;
            if (B.outside && direct && !F->hasAddressTaken() && NEEDS.insert({F, (int)k}).second) ch = true;
        }
        if (!ch) break;
    }
    for (auto *F : fs) for (size_t k = 0; k < PAIRS.size(); k++) {
        if (prim(F, k) || !concerns(F, k)) continue;
        Brk B{F, (int)k, true};
        B.go();
        if (!B.touched) continue;
        for (auto &I : instructions(*F)) if (auto *C = dyn_cast<CallBase>(&I)) if (is(PAIRS[k].open, C) || is(PAIRS[k].close, C) || is(PAIRS[k].inside, C)) instance("paired-operation", F, C, std::string(PAIRS[k].name) + " " + calleeOf(C)->getName().str());
        instance("paired-function", F, nullptr, std::string(PAIRS[k].name) + " " + F->getName().str());
        if (B.incomplete) COUNT["paired-incomplete"]++;
        if (B.exits.size() > 1) {
            for (auto &e : B.exits) if (e.first) { report("left-open", F, e.second, PAIRS[k].name, std::string(PAIRS[k].name) + (e.first > 0 ? " is still open" : " is closed more often than it was opened") + " when the function returns on this path, not on others"); break; }
        } else if (B.exits.size() == 1 && B.exits.begin()->first) {
            bool direct = false;  // somebody else closes it
            for (auto *u : F->users()) if (auto *c = dyn_cast<CallBase>(u)) if (calleeOf(c) == F) direct = true;
            if (!direct || F->hasAddressTaken()) report("left-open", F, B.exits.begin()->second, PAIRS[k].name, std::string(PAIRS[k].name) + (B.exits.begin()->first > 0 ? " is left open" : " is closed without being opened"));
        }
    }
}
}  // namespace
void runTypestate() { resources(); brackets(); }
