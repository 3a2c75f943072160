#include "llvm/Analysis/ValueTracking.h"
#include <fstream>
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "rules.h"
#include "llvm/ADT/SCCIterator.h"
#include "llvm/Analysis/CallGraph.h"
#include "llvm/Support/Format.h"
#include "llvm/Support/JSON.h"
#include <fstream>
#include <sstream>

extern std::set<std::string> REPORT_KEYS;
// ------------------------------------------------------------------ calls
void FnAnalysis::bindFresh(State &S, const CallBase *C) {
    if (C->getType()->isVoidTy()) return;
    redefine(S, C);
    S.env[C] = tFresh(C, widthOf(C->getType()));
}
static void ownElems(State &S, T r);
static const Function *calleeOf(const CallBase *C) {
    return dyn_cast<Function>(C->getCalledOperand()->stripPointerCasts());
}
static const std::set<std::string> MODELLED = {"clone_obj", "drop_obj", "heap_free", "drop_raw", "heap_alloc", "heap_realloc", "vector", "vn_list", "vn_symbol", "vn_c8", "guid",
    "rc_obj", "vm_stack_push", "vm_stack_pop", "pool_add_task", "pool_call_task_fn"};
static std::map<const Function *, std::vector<Outcome>> INF;  // what was inferred for functions that callers see through a contract
// may the function, given these arguments, return the error value?
static bool mayReturnErr(const State &S, const Function *f, const std::vector<T> &args, unsigned base, std::map<int, TySet> &when) {
    auto it = INF.find(f);
    when.clear();
    if (it == INF.end()) return true;
    bool may = false;
    for (auto &o : it->second) {
        if (o.rk == R_PARAM || o.rk == R_NULL || o.rk == R_NULLOBJ) continue;
        if (o.rk == R_OWNED && o.hasTy && !o.ty[127]) continue;
        bool ok = true;
        for (auto &p : o.pty) {
            TySet ts;
            if (base + p.first < args.size() && tySetOf(S, args[base + p.first], ts) && (ts & p.second).none()) ok = false;
        }
        if (!ok) continue;
        std::map<int, TySet> w = o.pty;
        if (may) for (auto p = w.begin(); p != w.end();) { if (when.count(p->first)) { p->second |= when[p->first]; ++p; } else p = w.erase(p); }
        when = w;
        may = true;
    }
    return may;
}
static bool isUnique(const State &S, T o);
T originOf(const State &S, T t);
static bool isAllocaRoot(T t) { return rootOf(t)->k == K_ALLOCA; }
static const AllocaInst *allocaOf(T t) { return cast<AllocaInst>(rootOf(t)->v); }

static std::map<const Function *, std::set<int>> PASS;
// constant functions a value can be, looking through parameters of functions that are only called directly
static bool resolveFns(const Value *v, std::set<const Function *> &out, std::set<const Value *> &seen) {
    v = v->stripPointerCasts();
    if (auto *f = dyn_cast<Function>(v)) { out.insert(f); return true; }
    if (!seen.insert(v).second) return true;
    if (auto *p = dyn_cast<PHINode>(v)) { for (auto &u : p->incoming_values()) if (!resolveFns(u, out, seen)) return false; return true; }
    if (auto *s = dyn_cast<SelectInst>(v)) return resolveFns(s->getTrueValue(), out, seen) && resolveFns(s->getFalseValue(), out, seen);
    auto *a = dyn_cast<Argument>(v);
    if (!a) return false;
    bool any = false;
    for (auto *u : a->getParent()->users()) {
        auto *c = dyn_cast<CallBase>(u);
        if (!c || c->getCalledOperand()->stripPointerCasts() != a->getParent()) return false;
        if (!resolveFns(c->getArgOperand(a->getArgNo()), out, seen)) return false;
        any = true;
    }
    return any;
}
static bool resolveFns(const Value *v, std::set<const Function *> &out, int) {
    std::set<const Value *> seen;
    return resolveFns(v, out, seen) && !out.empty();
}
bool FnAnalysis::callModel(State &S, const CallBase *C, const std::string &n, std::vector<T> &args, std::vector<State> &outs, bool &handled) {
    handled = true;
    auto ownedRes = [&](bool raw) {
        bindFresh(S, C);
        T t = S.env[C];
        ownedFresh.insert(C);
        if (raw) rawAlloc.insert(C);
        S.cnt[t] = 1;
        S.uni.insert(t);
        S.tru.insert(t);
        S.facts[t].ne.insert(0);
    };
    if (n == "clone_obj" && (args[0]->k == K_ADDR || args[0]->k == K_IDX)) { ownedRes(false); outs.push_back(S); return true; }
    if (n == "clone_obj") { if (isUnique(S, args[0])) S.uni.insert(args[0]); addCnt(S, args[0], 1, C, false); S.env[C] = args[0]; outs.push_back(S); return true; }
    if (n == "drop_obj" || n == "heap_free" || n == "drop_raw") {
        if (n != "drop_obj" && (args[0]->k == K_FRESH)) {}
        addCnt(S, args[0], -1, C, true);
        outs.push_back(S);
        return true;
    }
    if (n == "heap_alloc") { ownedRes(true); outs.push_back(S); return true; }
    if (n == "heap_realloc") {
        T old = args[0];
        std::vector<std::pair<T, T>> carry;
        for (auto &p : S.mem) if (rootOf(p.first) == old) carry.push_back(p);
        noteMut(S, old, C, n);
        addCnt(S, old, -1, C, true);
        ownedRes(false);
        outs.push_back(S);
        return true;
    }
    if (n == "vector" || n == "vn_list" || n == "vn_symbol" || n == "vn_c8" || n == "guid") {
        if (n == "vn_list") for (unsigned i = 1; i < args.size(); i++) addCnt(S, args[i], -1, C, false);
        ownedRes(false);
        T t = S.env[C];
        T ty = lookupTy(S, t);
        Fact f;
        f.hasTy = true;
        if (n == "vector") {
            int64_t l, h;
            rangeOf(S, args[0], l, h);
            if (l == h) {
                int v = l < 0 ? -l : l > 0 && l < 20 ? l : l == 20 ? 6 : 0;
                f.ty.set(v);
            } else { for (int v : {0,1,2,3,4,5,6,7,8,9,10,11,12}) f.ty.set(v); for (int v = 13; v < 20; v++) f.ty.set(v); }
            // the element count given to the constructor is the length
            if (args[1]->w <= 64) S.mem[tAddr(t, 8)] = args[1];
            // vector(x->type, n): same tag as x (remembered when x's tag is a plain vector type)
            if (l != h && l >= 1 && h < 20) { S.mem[tAddr(t, 2)] = args[0]; f.hasTy = false; f.ty.reset(); }
        } else if (n == "vn_list") f.ty.set(0);
        else if (n == "vn_symbol") f.ty.set(6);
        else if (n == "vn_c8") { f.ty.set(12); }
        else f.ty.set((uint8_t)-11);
        if (f.hasTy) S.facts[ty] = f;
        outs.push_back(S);
        return true;
    }
    if (n == "rc_obj") {
        T a = tAddr(args[0], 4), t = loadMem(S, a, 32, C);
        if (t->k == K_FRESH && t->v == C) {
            S.mem.erase(a);
            redefine(S, C);
            a = tAddr(val(S, C->getArgOperand(0)), 4);
            t = tFresh(C, 32);
            S.mem[a] = t;
        }
        S.env[C] = t;
        outs.push_back(S);
        return true;
    }
    if (n == "vm_stack_push") { addCnt(S, args[0], -1, C, false); outs.push_back(S); return true; }
    if (n == "vm_stack_pop") {
        bindFresh(S, C);
        S.cnt[S.env[C]] = 1;
        ownedFresh.insert(C);
        outs.push_back(S);
        return true;
    }
    if (n == "exit" || n == "abort" || n == "_exit" || n == "__assert_fail" || n == "longjmp" || n == "pthread_exit") return false;
    if (n == "pool_add_task") {
        std::set<const Function *> fns;
        bool fn = resolveFns(C->getArgOperand(1), fns, 0) && !fns.empty();
        for (auto *f : fns) if (SUM.count(f)) applyMut(S, C, f, SUM[f], args, 3);
        if (S.ctr.count("!task") && !fn) S.ctr["!task"] = 2;
        std::vector<State> failing;  // the task fails: what that says about its arguments
        if (S.ctr.count("!task") && S.ctr["!task"] == 1) for (auto *f : fns) {
            std::map<int, TySet> when;
            if (!mayReturnErr(S, f, args, 3, when)) continue;
            State N = S;
            N.ctr["!task"] = 2;
            for (auto &p : when) {
                if (3 + p.first >= (int)args.size()) continue;
                T ty = lookupTy(N, args[3 + p.first]);
                if (ty->k != K_LOAD && ty->k != K_FRESH) continue;
                Fact &g = N.facts[ty];
                g.ty = g.hasTy ? (g.ty & p.second) : p.second;
                g.hasTy = true;
            }
            failing.push_back(N);
        }
        std::set<int> through;  // task arguments every candidate task hands back as its result
        bool first = true;
        for (auto *f : fns) {
            std::set<int> t = PASS.count(f) ? PASS[f] : std::set<int>();
            if (first) through = t; else if (through != t) fn = false;
            first = false;
        }
        failing.push_back(S);
        for (State &N : failing) {
            for (unsigned i = 3; i < args.size(); i++) {
                T x = args[i];
                if (!N.cnt.count(x)) continue;
                if (!fn) { N.cnt.erase(x); N.unt.insert(x); }
                else if (through.count(i - 3)) addCnt(N, x, -1, C, false);
            }
            bindFresh(N, C); clobber(N, {}); outs.push_back(N);
        }
        return true;
    }
    if (n == "pool_call_task_fn") {
        T arr = rootOf(args[2]);
        for (auto &p : S.mem) if (rootOf(p.first) == arr && S.cnt.count(p.second)) { S.cnt.erase(p.second); S.unt.insert(p.second); }
        bindFresh(S, C);
        S.unt.insert(S.env[C]);
        clobber(S, {}); outs.push_back(S); return true;
    }
    handled = false;
    return true;
}
// ------------------------------------------------------------------ contracts
// Boundary functions are checked against a contract instead of an inferred summary: every function
// called through a pointer (builtins, tasks, callbacks) and the object API listed in contracts.txt.
struct Contract { bool set = false, unique = false, pure = false, deep = false, memo = false, hasTy = false, trusted = false, same = false; TySet ty, owns; std::string ret; std::set<int> consumes, takes; };
static std::map<const Function *, Contract> CON;
// structure fields that refer to an object without holding a reference (contracts.txt: weak <struct> <field>)
static std::set<std::pair<std::string, unsigned>> WEAK;
static DenseMap<const Instruction *, bool> WEAKC;
static bool addWeak(const std::string &st, const std::string &field) {
    DebugInfoFinder df;
    df.processModule(*M);
    for (auto *t : df.types()) {
        auto *ct = dyn_cast<DICompositeType>(t);
        if (!ct || ct->getTag() != dwarf::DW_TAG_structure_type || ct->getName() != st) continue;
        unsigned i = 0;
        for (auto *e : ct->getElements()) {
            auto *m = dyn_cast<DIDerivedType>(e);
            if (!m) continue;
            if (m->getName() == field) { WEAK.insert({"struct." + st, i}); return true; }
            i++;
        }
    }
    return false;
}
bool isWeakStore(const Instruction *I) {
    auto it = WEAKC.find(I);
    if (it != WEAKC.end()) return it->second;
    bool w = false;
    if (auto *st = dyn_cast<StoreInst>(I))
        if (auto *g = dyn_cast<GEPOperator>(st->getPointerOperand()))
            if (auto *t = dyn_cast<StructType>(g->getSourceElementType()))
                if (g->getNumIndices() == 2) if (auto *ci = dyn_cast<ConstantInt>(g->getOperand(2))) w = WEAK.count({t->hasName() ? t->getName().str() : "", (unsigned)ci->getZExtValue()});
    return WEAKC[I] = w;
}
static std::set<std::string> SKIPFILE;  // files whose functions use a protocol these rules do not model
static std::set<std::pair<std::string, std::string>> UNDEC;  // function, resource
static void loadContracts(const char *path) {
    std::ifstream in(path);
    std::string line;
    while (std::getline(in, line)) {
        if (line.empty() || line[0] == '#') continue;
        std::istringstream q(line);
        std::string n, w;
        q >> n;
        if (n == "skipfile") { std::string a; q >> a; SKIPFILE.insert(a); continue; }
        if (n == "undecided") { std::string a, b; q >> a >> b; UNDEC.insert({a, b}); continue; }
        if (n == "weak") { std::string a, b; q >> a >> b; if (!addWeak(a, b)) outs() << "CONTRACT-MISSING weak " << a << "." << b << "\n"; continue; }
        std::vector<Function *> fs;  // static functions of headers exist once per unit
        for (auto &F : *M) if (!F.isDeclaration()) { StringRef fn = F.getName(); if (fn == n || (fn.starts_with(n + ".") && fn.substr(n.size() + 1).find_first_not_of("0123456789") == StringRef::npos)) fs.push_back(&F); }
        if (fs.empty()) { outs() << "CONTRACT-MISSING " << n << "\n"; continue; }
        Contract c;
        c.set = true;
        while (q >> w) {
            if (w.rfind("ret=", 0) == 0) c.ret = w.substr(4);
            if (w == "trusted") c.trusted = true;
            if (w == "unique") c.unique = true;
            if (w == "pure") c.pure = true;
            if (w == "deep") c.deep = true;
            if (w == "same") c.same = true;
            if (w == "memo") c.memo = true;
            if (w.rfind("ty=", 0) == 0) { c.hasTy = true; std::istringstream z(w.substr(3)); std::string x; while (std::getline(z, x, ',')) c.ty.set((uint8_t)std::stoi(x)); }
            if (w.rfind("owns=", 0) == 0) { std::istringstream z(w.substr(5)); std::string x; while (std::getline(z, x, ',')) c.owns.set((uint8_t)std::stoi(x)); }
            if (w.rfind("takes=", 0) == 0) { std::istringstream z(w.substr(6)); std::string x; while (std::getline(z, x, ',')) c.takes.insert(std::stoi(x)); }
            if (w.rfind("consumes=", 0) == 0) { std::istringstream z(w.substr(9)); std::string x; while (std::getline(z, x, ',')) c.consumes.insert(std::stoi(x)); }
        }
        for (auto *F : fs) CON[F] = c;
    }
    for (auto &F : *M) {
        if (F.isDeclaration() || CON.count(&F) || !F.hasAddressTaken()) continue;
        Contract c;
        c.set = true;
        if (retKind(&F) == P_OBJ) c.ret = "owned";
        CON[&F] = c;
    }
}
static Summary contractSummary(const Function *F, const Contract &c, const Summary *inf) {
    Summary s;
    s.known = true;
    s.takes = c.takes;
    if (inf && inf->known) { s.mut = inf->mut; s.mutTy = inf->mutTy; s.via = inf->via; s.pure = inf->pure; s.writes = inf->writes; s.noreturn = inf->noreturn; }
    else for (unsigned i = 0; i < F->arg_size(); i++) s.writes.insert(i);
    Outcome o;
    for (int i : c.consumes) { o.delta[i] = -1; }
    if (F->getReturnType()->isVoidTy()) o.rk = R_VOID;
    else if (c.ret == "owned") o.rk = R_OWNED;
    else if (c.ret == "borrowed") o.rk = R_BORROWED;
    else if (c.ret.rfind("slot", 0) == 0) { o.rk = R_SLOT; o.ri = 0; }
    else o.rk = R_OTHER;
    if (c.ret == "owned" && inf && !inf->incomplete && !inf->outs.empty()) {
        bool all = true;
        TySet ts;
        for (auto &q : inf->outs) { if (q.rk == R_OWNED && q.hasTy) ts |= q.ty; else all = false; }
        if (all) { o.hasTy = true; o.ty = ts; }
        o.fresh = true;
        for (auto &q : inf->outs) if (!(q.rk == R_OWNED && q.fresh)) o.fresh = false;
    }
    if (c.hasTy) { o.hasTy = true; o.ty = c.ty; }
    o.tru = o.fresh;
    if (c.ret == "owned" && inf && !inf->incomplete) for (auto &q : inf->outs) if (!q.tru) o.tru = false;
    if (c.unique) o.fresh = true;
    if (c.pure) s.pure = true;
    if (c.deep) o.tru = true;
    if (c.unique && !c.deep) o.tru = false;
    if (c.memo) { s.mut.clear(); s.via.clear(); }
    o.wrote = s.writes;
    s.outs.push_back(o);
    s.same = c.same;
    if (c.owns.any()) {  // names and values of a copied table or dict are copies as well
        Outcome e = s.outs[0];
        e.hasTy = true; e.ty = c.owns; e.own = true;
        s.outs[0].hasTy = true;
        s.outs[0].ty.set();
        s.outs[0].ty &= ~c.owns;
        s.outs.push_back(e);
    }
    bool mayErr = true;
    if (c.ret == "slot" && inf && !inf->incomplete && !inf->outs.empty()) {
        mayErr = false;
        for (auto &q : inf->outs) if (q.rk == R_OWNED || q.rk == R_OTHER || q.rk == R_BORROWED) mayErr = true;
    }
    if (c.ret == "owned" && !c.hasTy) {  // the error value is a result of its own, returned for certain arguments only
        bool err = true;
        TySet z;
        z.set(127);
        std::map<int, TySet> when;
        if (inf && !inf->incomplete && !inf->outs.empty()) {
            err = false;
            for (auto &q : inf->outs) {
                if (q.rk == R_PARAM || q.rk == R_NULL || q.rk == R_NULLOBJ || (q.rk == R_OWNED && q.hasTy && !q.ty[127])) continue;
                std::map<int, TySet> w = q.pty;
                if (err) for (auto p = w.begin(); p != w.end();) { if (when.count(p->first)) { p->second |= when[p->first]; ++p; } else p = w.erase(p); }
                when = w;
                err = true;
            }
        }
        for (auto &q : s.outs) if (q.hasTy && !q.ty[127]) err = false;
        if (err) {
            Outcome e = s.outs[0];
            e.hasTy = true; e.ty = z; e.fresh = e.tru = e.own = true;
            e.pty = when;
            for (auto &q : s.outs) { if (!q.hasTy) { q.hasTy = true; q.ty.set(); } q.ty.reset(127); }
            s.outs.push_back(e);
        }
    }
    if (c.ret == "slot" && mayErr) { Outcome e = o; e.rk = R_OWNED; e.hasTy = true; e.ty.set(127); s.outs.push_back(e); }
    return s;
}
static Summary defaultSummary(const Function *F) {
    Summary s;
    s.known = true;
    Outcome o;
    if (F->getReturnType()->isVoidTy()) o.rk = R_VOID;
    else if (retKind(F) == P_OBJ) o.rk = R_OWNED;
    else o.rk = R_OTHER;
    for (unsigned i = 0; i < F->arg_size(); i++) o.wrote.insert(i);
    s.outs.push_back(o);
    return s;
}
void FnAnalysis::applySummary(State &S, const CallBase *C, const Function *Cal, const Summary &sm, std::vector<T> &args, std::vector<State> &outs) {
    TySet same;  // tags of a result that is a copy of the first argument
    if (sm.same && tySetOf(S, args[0], same)) {
        if (same[20] || same[75]) for (int i = 0; i < 20; i++) same.set(i);
        same.reset(20);
        same.reset(126);
        same.reset(75);
        same.set(127);
    }
    bool noTaskErr = false;
    if (Cal && Cal->getName() == "pool_prepare") S.ctr["!task"] = 1;
    if (Cal && Cal->getName() == "pool_run") { auto it = S.ctr.find("!task"); noTaskErr = it != S.ctr.end() && it->second == 1; if (noTaskErr) S.ctr["!task"] = 3; else S.ctr.erase("!task"); }
    for (auto &o : sm.outs) {
        State N = S;
        bool ok = true;
        std::vector<T> a = args;
        // facts the callee's path established about its arguments
        for (auto &p : o.pty) {
            if (p.first >= (int)a.size()) continue;
            TySet ts;
            if (tySetOf(N, a[p.first], ts)) {
                TySet m = ts & p.second;
                if (m.none()) { ok = false; break; }
            }
            T ty = lookupTy(N, a[p.first]);
            if (ty->k == K_LOAD || ty->k == K_FRESH) {
                Fact f;
                auto it = N.facts.find(ty);
                if (it != N.facts.end()) f = it->second;
                f.ty = f.hasTy ? (f.ty & p.second) : p.second;
                f.hasTy = true;
                if (f.ty.none()) { ok = false; break; }
                N.facts[ty] = f;
            }
        }
        if (!ok) continue;
        for (auto &p : o.pnull) {
            if (p.first >= (int)a.size()) continue;
            T c = a[p.first];
            if (c->k == K_NULL) { if (p.second == 0) ok = false; continue; }
            if (c->k == K_GLOB || c->k == K_ALLOCA || c->k == K_ADDR || c->k == K_IDX) { if (p.second == 1) ok = false; continue; }
            Fact f;
            auto it = N.facts.find(c);
            if (it != N.facts.end()) f = it->second;
            if (p.second == 1) { if (f.ne.count(0)) { ok = false; continue; } f.lo = f.hi = 0; }
            else { if (f.lo == 0 && f.hi == 0) { ok = false; continue; } f.ne.insert(0); }
            N.facts[c] = f;
        }
        if (!ok) continue;
        for (auto &p : o.pint) {
            if (p.first >= (int)a.size()) continue;
            T c = a[p.first];
            if (c->w > 64) continue;
            int64_t l, h;
            rangeOf(N, c, l, h);
            if (h < p.second.lo || l > p.second.hi || (l == h && p.second.ne.count(l))) { ok = false; break; }
        }
        if (!ok) continue;
        for (int k : o.puniq) if (k < (int)a.size()) {
            N.uni.insert(a[k]);
            if (T og = originOf(N, a[k])) ownElems(N, rootOf(og));
        }
        for (int k : o.pown) if (k < (int)a.size()) {
            if (!Cal || paramKind(Cal, k) != P_SLOT) { N.own.insert(a[k]); continue; }
            auto it = N.mem.find(a[k]);
            if (it != N.mem.end() ? it->second->k != K_UNDEF : !isAllocaRoot(a[k])) ownElems(N, it != N.mem.end() ? it->second : tLoad(a[k], 64));
        }
        for (int k : o.pslot) if (k < (int)a.size()) {
            if (!isAllocaRoot(a[k])) N.own.insert(rootOf(a[k]));
            else { auto it = N.mem.find(a[k]); if (it != N.mem.end() && it->second->k != K_UNDEF) N.uni.insert(it->second); }
        }
        // name the result before the deltas so that loop instances are renamed first
        T res = nullptr;
        bool freshRes = !(o.rk == R_VOID || o.rk == R_NULL || o.rk == R_PARAM || o.rk == R_CONST || o.rk == R_SLOT || (o.rk == R_OTHER && o.term));
        bool bad = false;
        std::function<T(T)> inCaller = [&](T x) -> T {
            if (x->k == K_PARAM) return x->c < (int64_t)a.size() ? a[x->c] : tUndef();
            if (x->k == K_LOAD) {
                T ad = subst(x->a, inCaller);
                if (bad || ad->k == K_UNDEF) { bad = true; return x; }
                T r = rootOf(ad);
                auto it = N.mem.find(ad);
                if (it != N.mem.end()) { if (it->second->k == K_UNDEF || it->second->w != x->w) { bad = true; return x; } return it->second; }
                bool hdr = ad->k == K_ADDR && (ad->c == 2 || ad->c == 8);
                if (r->k == K_ALLOCA || (N.clob && !hdr)) { bad = true; return x; }
                return tLoad(ad, x->w);
            }
            return nullptr;
        };
        if (o.rk == R_OTHER && o.term) {
            res = subst(o.term, inCaller);
            if (bad || res->k == K_UNDEF) { res = nullptr; freshRes = true; }
        }
        T resTy = nullptr;
        TySet resTs;
        if (o.rk == R_OWNED && o.tyT) {
            bad = false;
            resTy = subst(o.tyT, inCaller);
            if (bad || resTy->k == K_UNDEF) resTy = nullptr;
            else {
                State Q = N;
                T probe = tFresh(C, 64);
                Q.mem[tAddr(probe, 2)] = resTy;
                if (!tySetOf(Q, probe, resTs)) resTy = nullptr;
            }
        }
        if (freshRes && !C->getType()->isVoidTy()) {
            // arguments may mention the previous instance of this very call
            redefine(N, C);
            for (unsigned i = 0; i < C->arg_size(); i++) a[i] = val(N, C->getArgOperand(i));
            res = tFresh(C, widthOf(C->getType()));
        }
        for (auto &d : o.delta) {
            if (d.first >= (int)a.size()) continue;
            T t = a[d.first];
            int k = d.second;
            bool rel = o.released.count(d.first);
            while (k < 0) { addCnt(N, t, -1, C, rel); k++; }
            if (k > 0) addCnt(N, t, k, C, false);
        }
        for (int k : sm.takes) {
            if (k >= (int)a.size() || !isAllocaRoot(a[k])) continue;
            auto it = N.mem.find(a[k]);
            if (it == N.mem.end()) continue;
            T t = it->second;
            if (N.cnt.count(t) || (t->k == K_PARAM && paramKind(F, t->c) == P_OBJ)) addCnt(N, t, -1, C, false);
        }
        for (auto &c : o.ctr) { N.ctr[c.first] += c.second; if (std::abs(N.ctr[c.first]) > 20) N.ctr[c.first] = 20; }
        // effects on locals passed by address
        T slotCur = nullptr;
        bool slotSing = false;
        if (o.rk == R_SLOT && o.ri < (int)a.size()) {
            auto it = N.mem.find(a[o.ri]);
            if (it != N.mem.end()) { slotCur = it->second; slotSing = slotCur->k != K_UNDEF && isSingleton(N, slotCur); }
        }
        std::vector<T> esc;
        for (unsigned i = 0; i < a.size(); i++) {
            T x = a[i];
            if (o.wrote.count(i) && x->k == K_PARAM && paramKind(F, x->c) == P_SLOT) N.wrote.insert(x->c);
            if (!isAllocaRoot(x)) {
                // object reached through a non-local slot: header facts may change
                if (Cal && paramKind(Cal, i) == P_SLOT && sm.writes.count(i)) {
                    auto it = N.mem.find(x);
                    T cur = it != N.mem.end() ? it->second : tLoad(x, 64);
                    N.mem[tAddr(cur, 2)] = tUndef();
                    N.mem[tAddr(cur, 8)] = tUndef();
                }
                continue;
            }
            PK pk = Cal ? paramKind(Cal, i) : P_SLOT;
            bool isArr = allocaOf(x)->getAllocatedType()->isArrayTy();
            if (pk == P_SLOT) {
                if (!sm.writes.count(i) && Cal) continue;
                if (isArr) continue;
                auto it = N.mem.find(x);
                T cur = it == N.mem.end() ? tUndef() : it->second;
                if (cur->k == K_UNDEF || cur->k == K_NULL || cur->k == K_GLOB || isSingleton(N, cur)) {
                    if (Cal && !o.wrote.count(i) && o.rk != R_SLOT) continue;
                    N.mem[x] = tUndef();
                    if (Cal && cur->k != K_UNDEF && cur->k != K_NULL && o.wrote.count(i) && o.rk != R_SLOT) {
                        // an empty slot may now hold an object of its own
                        T f = tOut(C, i);
                        redefineTerm(N, C, f, tOldOut(C, i));
                        ownedFresh.insert(C);
                        N.cnt[f] = 1;
                        N.uni.insert(f);
                        N.mem[x] = f;
                    }
                }
                else {
                    N.mem[tAddr(cur, 2)] = tUndef();
                    N.mem[tAddr(cur, 8)] = tUndef();
                    N.mem[tAddr(cur, 4)] = tUndef();
                }
            } else if (pk == P_RAW || pk == P_OTHER || !Cal) {
                if (!isArr) {
                    std::vector<T> held;
                    for (auto &p : N.mem)
                        if (rootOf(p.first) == rootOf(x) && N.cnt.count(p.second) && N.cnt[p.second] > 0) held.push_back(p.second);
                    for (T h : held) {
                        if (h->v && rawAlloc.count(h->v)) containerEscape(N, h, C);  // what the block refers to goes with it
                        N.cnt.erase(h);
                        N.unt.insert(h);
                    }
                }
                esc.push_back(x);
            }
        }
        if (!sm.pure || !esc.empty()) {
            if (sm.pure) {
                for (auto it = N.mem.begin(); it != N.mem.end();) { bool k = false; for (T e : esc) if (rootOf(e) == rootOf(it->first)) k = true; if (k) it = N.mem.erase(it); else ++it; }
                for (T e : esc) N.esc.insert(rootOf(e));
            } else clobber(N, esc);
        }
        if (!C->getType()->isVoidTy()) {
            switch (o.rk) {
                case R_NULL: N.env[C] = tNull(); break;
                case R_CONST: N.env[C] = tInt(o.ri, widthOf(C->getType())); break;
                case R_PARAM:
                    if (o.ri < (int)a.size()) { N.env[C] = a[o.ri]; }
                    break;
                case R_SLOT: {
                    T x = o.ri < (int)a.size() ? a[o.ri] : tUndef();
                    auto it = N.mem.find(x);
                    if (it != N.mem.end() && it->second->k != K_UNDEF) N.env[C] = it->second;
                    else if (!isAllocaRoot(x) && !N.clob && it == N.mem.end()) N.env[C] = tLoad(x, 64);
                    else {
                        redefine(N, C);
                        T f = tFresh(C, 64);
                        N.env[C] = f;
                        N.mem[x] = f;
                        N.facts[f].ne.insert(0);
                        if (slotSing) { ownedFresh.insert(C); N.cnt[f] = 1; N.uni.insert(f); }
                        else N.unt.insert(f);
                    }
                    if (o.pslot.count(o.ri)) N.uni.insert(N.env[C]);
                    if (o.own) ownElems(N, N.env[C]);
                    if (o.hasTy) { TySet ts; if (tySetOf(N, N.env[C], ts) && (ts & o.ty).none()) continue; if (N.env[C]->v == C) { Fact &f = N.facts[tyTerm(N.env[C])]; f.ty = f.hasTy ? (f.ty & o.ty) : o.ty; f.hasTy = true; } }
                    break;
                }
                case R_OWNED:
                    N.env[C] = res;
                    ownedFresh.insert(C);
                    if (o.hasTy) {
                        Fact f;
                        f.hasTy = true;
                        f.ty = o.ty;
                        if (sm.same && same.any()) { f.ty &= same; if (f.ty.none()) continue; }
                        if (noTaskErr) { f.ty.reset(127); if (f.ty.none()) continue; }
                        N.facts[tyTerm(res)] = f;
                    } else if (resTy) {
                        Fact f;
                        f.hasTy = true;
                        f.ty = resTs;
                        N.facts[tyTerm(res)] = f;
                    } else if (noTaskErr) { Fact f; f.hasTy = true; f.ty.set(); f.ty.reset(127); N.facts[tyTerm(res)] = f; }
                    { Fact &f = N.facts[res]; f.ne.insert(0); }
                    if (!isSingleton(N, res)) N.cnt[res] = 1;
                    if (o.fresh) N.uni.insert(res);
                    if (o.tru) N.tru.insert(res);
                    if (o.own) N.own.insert(res);
                    break;
                default:
                    N.env[C] = res;
                    if (o.rk == R_BORROWED && o.fresh) N.uni.insert(res);
                    if (o.rk == R_BORROWED && o.tru) N.tru.insert(res);
                    if (o.rk == R_BORROWED && o.own) N.own.insert(res);
                    if (o.rk == R_BORROWED && o.hasTy) { Fact f; f.hasTy = true; f.ty = o.ty; N.facts[tyTerm(res)] = f; }
            }
        }
        outs.push_back(std::move(N));
    }
}
bool FnAnalysis::call(State &S, const CallBase *C, std::vector<State> &outs) {
    const Function *Cal = calleeOf(C);
    std::vector<T> args;
    for (auto &a : C->args()) args.push_back(a->getType()->isMetadataTy() ? tUndef() : val(S, a));
    if (Cal && Cal->isIntrinsic()) {
        switch (Cal->getIntrinsicID()) {
            case Intrinsic::threadlocal_address: S.env[C] = args[0]; break;
            case Intrinsic::expect: S.env[C] = args[0]; break;
            case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memset: {
                if (reporting) for (int k = 0; k < 2; k++) { T r = rootOf(args[k]); if (S.rel.count(r)) ruleUAF(*this, S, r, C); }
                if (reporting) ruleInst(*this, S, C);
                T d = args[0], r = rootOf(d);
                noteWrite(S, d, C);
                bool payload = d->k != K_PARAM && d != r;
                for (auto &p : S.mem) if (rootOf(p.first) == r) {
                    bool hdr = p.first->k == K_ADDR && p.first->a == r && p.first->c < 16;
                    if (hdr && payload) continue;
                    p.second = tUndef();
                }
                if (r->k != K_ALLOCA && !(r->k == K_FRESH && isa<CallBase>(r->v))) writesMem = true;
                if (r->k == K_ALLOCA && args.size() > 1 && Cal->getIntrinsicID() != Intrinsic::memset) {
                    // struct copy between locals keeps the references it moves
                    T s = args[1];
                    (void)s;
                }
                break;
            }
            default: bindFresh(S, C); break;
        }
        outs.push_back(std::move(S));
        return true;
    }
    for (unsigned i = 0; i < args.size(); i++)  // a raw block passed as a number is stored somewhere else
        if (C->getArgOperand(i)->getType()->isIntegerTy(64) && S.cnt.count(args[i]) && args[i]->k != K_PARAM) { S.cnt.erase(args[i]); S.unt.insert(args[i]); }
    if (C->isInlineAsm()) { bindFresh(S, C); outs.push_back(std::move(S)); return true; }
    if (reporting) {
        ruleInst(*this, S, C);
        std::string nm = Cal ? Cal->getName().str() : "";
        bool rel = nm == "drop_obj" || nm == "heap_free" || nm == "drop_raw";
        for (unsigned i = 0; i < args.size(); i++) {
            T r = rootOf(args[i]);
            if (!S.rel.count(r)) continue;
            if (rel && args[i] == r) continue;  // double release reported separately
            if (!C->getArgOperand(i)->getType()->isPointerTy()) continue;
            ruleUAF(*this, S, r, C);
        }
    }
    if (Cal) {
        bool handled;
        if (!callModel(S, C, Cal->getName().str(), args, outs, handled)) return false;
        if (handled) return true;
        if (Cal->doesNotReturn()) return false;
        auto it = SUM.find(Cal);
        if (it != SUM.end() && it->second.known) {
            if (it->second.noreturn) return false;
            if (!it->second.pure) writesMem = true;
            applyMut(S, C, Cal, it->second, args, 0);
            for (auto &v : it->second.via) {
                if (v.first >= (int)args.size() || v.second >= (int)args.size()) continue;
                T f = args[v.second];
                if (f->k == K_GLOB && isa<Function>(f->v)) {
                    bool in = false;
                    if (SUM.count(cast<Function>(f->v))) for (auto &m : SUM[cast<Function>(f->v)].mut) if (m.second & 4) in = true;
                    if (in) noteInner(S, args[v.first], C, cast<Function>(f->v)->getName().str());
                } else noteInner(S, args[v.first], C, Cal->getName().str(), f->k == K_PARAM ? f->c : -1);
            }
            for (int w : it->second.writes) if (w < (int)args.size() && args[w]->k == K_PARAM) writes.insert(args[w]->c);
            applySummary(S, C, Cal, it->second, args, outs);
            if (outs.size() > 8) outs.resize(8);
            return !outs.empty();
        }
        if (!Cal->isDeclaration()) {
            Summary d = defaultSummary(Cal);
            writesMem = true;
            for (unsigned i = 0; i < args.size(); i++) d.writes.insert(i);
            applySummary(S, C, Cal, d, args, outs);
            return !outs.empty();
        }
        // external function
        bool ext_pure = Cal->onlyReadsMemory();
        std::vector<T> esc;
        for (T a : args) if (isAllocaRoot(a)) esc.push_back(a);
        if (!ext_pure) {
            for (auto it2 = S.mem.begin(); it2 != S.mem.end();) {
                bool k = false;
                for (T e : args) if (rootOf(e) == rootOf(it2->first)) k = true;
                if (k && !(it2->first->k == K_ADDR && it2->first->c == 2)) it2->second = tUndef();
                ++it2;
            }
        }
        bindFresh(S, C);
        outs.push_back(std::move(S));
        return true;
    }
    // indirect call: arguments are borrowed, an object result is owned
    writesMem = true;
    {
        std::set<const Function *> fns;
        if (resolveFns(C->getCalledOperand(), fns, 0)) { for (auto *f : fns) if (SUM.count(f)) applyMut(S, C, f, SUM[f], args, 0); }
        else if (C->getType()->isPointerTy()) {  // a builtin reached through a value
            T f = val(S, C->getCalledOperand());
            for (unsigned i = 0; i < args.size(); i++) if (C->getArgOperand(i)->getType()->isPointerTy()) noteInner(S, args[i], C, "a builtin", f->k == K_PARAM ? f->c : -1);
        }
    }
    std::vector<T> esc;
    for (T a : args) if (isAllocaRoot(a) && !allocaOf(a)->getAllocatedType()->isArrayTy() && !allocaOf(a)->getAllocatedType()->isPointerTy()) esc.push_back(a);
    clobber(S, esc);
    bindFresh(S, C);
    if (C->getType()->isPointerTy()) {
        T callee = val(S, C->getCalledOperand());
        S.facts[S.env[C]].ne.insert(0);
        std::set<const Function *> fns;
        bool conv = callee->k == K_PARAM && resolveFns(C->getCalledOperand(), fns, 0);
        for (auto *f : fns) if (!CON.count(f) || CON[f].ret != "owned") conv = false;
        if (callee->k == K_PARAM && !conv) S.unt.insert(S.env[C]);  // the convention of a callback parameter is its caller's business
        else {
            ownedFresh.insert(C);
            S.cnt[S.env[C]] = 1;
            Fact f;
            f.hasTy = conv;
            if (conv) for (auto *g : fns) for (auto &o : SUM[g].outs) { if (o.rk == R_OWNED && o.hasTy) f.ty |= o.ty; else f.hasTy = false; }
            if (conv && fns.size() && (!f.hasTy || f.ty[127])) {
                // the error value as a result of its own, when the arguments allow it
                std::map<int, TySet> when;
                bool may = false, all = true;
                for (auto *g : fns) {
                    std::map<int, TySet> w;
                    if (!INF.count(g)) all = false;
                    if (!mayReturnErr(S, g, args, 0, w)) continue;
                    if (may) for (auto p = w.begin(); p != w.end();) { if (when.count(p->first)) { p->second |= when[p->first]; ++p; } else p = w.erase(p); }
                    when = w;
                    may = true;
                }
                if (all) {
                    if (may) {
                        State N = S;
                        for (auto &p : when) {
                            if (p.first >= (int)args.size()) continue;
                            T ty = lookupTy(N, args[p.first]);
                            if (ty->k != K_LOAD && ty->k != K_FRESH) continue;
                            Fact &g = N.facts[ty];
                            g.ty = g.hasTy ? (g.ty & p.second) : p.second;
                            g.hasTy = true;
                        }
                        Fact e;
                        e.hasTy = true;
                        e.ty.set(127);
                        N.facts[tyTerm(N.env[C])] = e;
                        N.cnt.erase(N.env[C]);
                        outs.push_back(N);
                    }
                    if (!f.hasTy) { f.hasTy = true; f.ty.set(); }
                    f.ty.reset(127);
                    if (f.ty.none()) return true;
                }
            }
            if (f.hasTy) S.facts[tyTerm(S.env[C])] = f;
            if (isSingleton(S, S.env[C])) S.cnt.erase(S.env[C]);
        }
    }
    outs.push_back(std::move(S));
    return true;
}

std::string srcName(T t);
// ------------------------------------------------------------------ writes to shared values
static bool isUnique(const State &S, T o) {
    if (S.uni.count(o) || isSingleton(S, o)) return true;
    T a = tAddr(o, 4);
    auto it = S.mem.find(a);
    T r = it != S.mem.end() ? it->second : tLoad(a, 32);
    int64_t l, h;
    if (r->k == K_UNDEF) return false;
    rangeOf(S, r, l, h);
    return l == 1 && h == 1;
}
T originOf(const State &S, T t) {  // the address a loaded pointer came from
    if (t->k == K_LOAD) return t->a;
    if ((t->k == K_FRESH || t->k == K_OLD) && isa<LoadInst>(t->v)) { auto it = S.org.find(t); if (it != S.org.end()) return it->second; }
    if ((t->k == K_FRESH || t->k == K_OLD) && isa<LoadInst>(t->v)) for (auto &p : S.mem) if (p.second == t) return p.first;
    return nullptr;
}
// the elements of r were made private; r may be read again from where it is kept
static void ownElems(State &S, T r) {
    S.own.insert(r);
    if (T a = originOf(S, r)) S.own.insert(a);
}
void noteEqual(State &S, T f, T o) {  // what a container holds is the object obtained here
    T a = originOf(S, o);
    if (a && rootOf(a)->k != K_ALLOCA && isUnique(S, f)) ownElems(S, rootOf(a));
}
void FnAnalysis::noteMut(State &S, T o, const Instruction *I, const std::string &by, const TySet *lim) {
    int level = 1, loose = 0;  // loose: containers on the way whose elements may be referred to from elsewhere as well
    TySet cty;
    for (int depth = 0; depth < 6; depth++) {
        T r = rootOf(o);
        if (r->k == K_ALLOCA || r->k == K_GLOB || r->k == K_NULL || r->k == K_UNDEF || r->k == K_INT) return;
        bool slot = r->k == K_PARAM && paramKind(F, r->c) != P_OBJ;
        if (S.tru.count(r)) return;
        if (level > 1 && !slot && !S.own.count(r)) {
            T at = originOf(S, r);
            bool known = at && (S.own.count(at) || at->k == K_IDX);
            TySet ct;
            if ((r->k == K_FRESH || r->k == K_OLD) && isa<CallBase>(r->v) && ownedFresh.count(r->v) && !rawAlloc.count(r->v) && !(tySetOf(S, r, ct) && ct.count() <= 16)) known = true;  // its type is not established here
            if (!known) loose++;
        }
        if (!slot && isUnique(S, r)) {
            if (r->k == K_PARAM && level == 1) { auto &m = mut[r->c]; m.first |= 4; if (!m.second) m.second = I; }
            if (!loose) return;
        }
        TySet ts;
        bool has = tySetOf(S, r, ts);
        if (level == 2) { if (has && !slot) cty = ts; else cty.set(); if (lim) cty &= *lim; }
        if (level == 1 && has && ts.count() == 1 && ts[100]) return;  // a function caches its compiled form and its name
        if (r->k == K_PARAM) {
            if (paramKind(F, r->c) == P_RAW && level > 1) return;
            int bit = !loose && !slot ? 1 : level == 1 ? 1 : (loose + slot >= 2) ? 8 : 2;
            auto &m = mut[r->c];
            if (slot ? bit == 8 : bit > 1) mutTy[r->c] |= cty;
            if (!(m.first & bit)) { m.first |= bit; if (!m.second) m.second = I; }
            return;
        }
        bool call = (r->k == K_FRESH || r->k == K_OLD) && isa<CallBase>(r->v);
        if (loose && (isUnique(S, r) || (!S.unt.count(r) && call && ownedFresh.count(r->v) && !rawAlloc.count(r->v)))) {
            if (reporting) report("shared-write", F, I, srcName(r), "writes into an element of " + show(r) + ", which may be shared" + (by.empty() ? "" : " (through " + by + ")"));
            return;
        }
        T a = originOf(S, r);
        if (a) { o = a; level++; continue; }
        if (call && ownedFresh.count(r->v) && !rawAlloc.count(r->v)) {
            if (reporting && !S.unt.count(r) && !loose && !isUnique(S, r)) report("shared-write", F, I, srcName(r), "writes into the value obtained from " + srcName(r) + ", which may be shared" + (by.empty() ? "" : " (through " + by + ")"));
            return;
        }
        return;
    }
}
// x goes to a function that updates it in place when it holds the only reference: that reference must not be a container's
void FnAnalysis::noteInner(State &S, T x, const Instruction *I, const std::string &by, int q) {
    T r = rootOf(x);
    if (isUnique(S, r) || (S.cnt.count(r) && S.cnt[r] > 0)) return;
    if (r->k == K_PARAM && q >= 0) { via.insert({(int)r->c, q}); return; }
    if (r->k == K_PARAM) { auto &m = mut[r->c]; m.first |= 4; if (!m.second) m.second = I; return; }
    T a = originOf(S, r);
    if (!a) return;
    T b = rootOf(a);
    if (isUnique(S, b)) return;
    if ((b->k == K_PARAM && paramKind(F, b->c) == P_OBJ) || (((b->k == K_FRESH || b->k == K_OLD) && isa<CallBase>(b->v)) && ownedFresh.count(b->v) && !rawAlloc.count(b->v)))
        if (reporting) report("shared-write", F, I, srcName(b), "hands an element of " + show(b) + " to " + by + ", which updates it in place when it looks unshared");
}
void FnAnalysis::noteWrite(State &S, T addr, const Instruction *I) {
    T r = rootOf(addr);
    if (r->k == K_ALLOCA || r->k == K_GLOB) return;
    bool obj = !(r->k == K_PARAM && paramKind(F, r->c) != P_OBJ);
    if (obj && addr->k == K_ADDR && addr->a == r && (addr->c < 2 || (addr->c >= 3 && addr->c < 8))) return;  // bookkeeping bytes
    if (obj && addr == r) return;
    noteMut(S, r, I, "");
}
void FnAnalysis::applyMut(State &S, const CallBase *C, const Function *Cal, const Summary &sm, std::vector<T> &args, int shift) {
    for (auto &m : sm.mut) {
        int i = m.first + shift;
        if (i >= (int)args.size()) continue;
        T x = args[i], r = rootOf(x);
        std::string by = Cal ? Cal->getName().str() : "";
        bool slot = !Cal || paramKind(Cal, m.first) != P_OBJ;
        if (m.second & 1) noteMut(S, x, C, by);
        if (m.second & 4) noteInner(S, x, C, by);
        if (!(m.second & 10)) continue;
        auto ti = sm.mutTy.find(m.first);
        auto elems = [&](T c) {  // the elements of c are written
            TySet ts;
            if (ti != sm.mutTy.end() && tySetOf(S, c, ts) && (ts & ti->second).none()) return;
            noteMut(S, tLoad(c, 64), C, by, ti != sm.mutTy.end() ? &ti->second : nullptr);
        };
        std::vector<T> cs;
        if (r->k == K_ALLOCA) {
            bool arr = cast<AllocaInst>(r->v)->getAllocatedType()->isArrayTy();
            for (auto &p : S.mem) if (rootOf(p.first) == r && (arr || p.first == x)) cs.push_back(p.second);
        } else if (slot) {
            auto it = S.mem.find(x);
            cs.push_back(it != S.mem.end() && it->second->w == 64 ? it->second : tLoad(x, 64));
        } else cs.push_back(x);
        for (T c : cs) {
            if ((m.second & 2) && slot) noteMut(S, c, C, by);
            if ((m.second & 2) && !slot) elems(c);
            if ((m.second & 8) && slot) elems(c);
            if ((m.second & 8) && !slot) noteMut(S, tLoad(tLoad(c, 64), 64), C, by);
        }
    }
}
bool isBuiltin(const Function *F) {  // registered as a function of the language: its address is stored into a value as a number
    for (auto *u : F->users())
        if (auto *ce = dyn_cast<ConstantExpr>(u)) if (ce->getOpcode() == Instruction::PtrToInt) for (auto *v : ce->users()) if (isa<StoreInst>(v)) return true;
    return false;
}
static void checkMut(FnAnalysis &A) {
    if (!isBuiltin(A.F)) return;
    instance("builtin-arguments", A.F, nullptr, std::to_string(A.F->arg_size()));
    for (auto &p : A.mut) {
        PK k = paramKind(A.F, p.first);
        if ((k == P_OBJ && (p.second.first & 11)) || (k == P_SLOT && (p.second.first & 10)))
            report("shared-write", A.F, p.second.second, "arg" + std::to_string(p.first), "writes into argument " + std::to_string(p.first + 1) + ", which the caller still refers to");
    }
}

// ------------------------------------------------------------------ ownership rules
std::string srcName(T t) {
    if (auto *I = dyn_cast_or_null<Instruction>(t->v)) {
        if (auto *C = dyn_cast<CallBase>(I)) { auto *f = calleeOf(C); return f ? f->getName().str() : "indirect-call"; }
        return I->getOpcodeName();
    }
    return show(t);
}
static int srcLine(T t) { if (auto *I = dyn_cast_or_null<Instruction>(t->v)) return lineOf(I); return 0; }
void initState(FnAnalysis &A, State &S) {}
std::vector<std::string> keyExtra(const State &S) { std::vector<std::string> r; for (int w : S.wrote) r.push_back("w" + std::to_string(w)); for (T t : S.own) if (t->k == K_ADDR || (!S.tru.count(t) && isUnique(S, t))) r.push_back("o" + std::to_string(t->id)); return r; }
void ruleLoad(FnAnalysis &A, State &S, const Instruction *I, T addr, T val) {}
void ruleStore(FnAnalysis &A, State &S, T addr, T v, const Instruction *I) {
    T r = rootOf(addr);
    if (r->k != K_ALLOCA && v->w >= 64 && v->k != K_INT && addr != r) {
        if (isUnique(S, v)) ownElems(S, r);
    }
    if (r->k == K_PARAM && addr == r) { A.writes.insert(r->c); if (paramKind(A.F, r->c) == P_SLOT) S.wrote.insert(r->c); }
    if (!(r->k == K_FRESH && isa<CallBase>(r->v) && A.ownedFresh.count(r->v))) A.writesMem = true;
}
void ruleLeak(FnAnalysis &A, State &S, T t, const Instruction *I, const char *how) {
    if (!A.owned(t)) return;
    report("leak", A.F, I, srcName(t), "reference obtained from " + srcName(t) + " (line " + std::to_string(srcLine(t)) + ") is " + how);
}
void ruleDouble(FnAnalysis &A, State &S, T t, const Instruction *I) { report("double-release", A.F, I, srcName(t), "released twice: " + show(t)); }
void ruleOver(FnAnalysis &A, State &S, T t, const Instruction *I, bool rel) {
    report("over-release", A.F, I, srcName(t), std::string(rel ? "released" : "handed over") + " without a reference of its own: " + show(t));
}
bool undecided(const std::string &f, const std::string &site) { return UNDEC.count({f, site}); }
void ruleUAF(FnAnalysis &A, State &S, T t, const Instruction *I) { report("use-after-release", A.F, I, srcName(t), "used after release: " + show(t)); }

void ruleReturn(FnAnalysis &A, State &S, const ReturnInst *R) {
    Outcome o;
    T t = nullptr;
    const Function *F = A.F;
    if (R->getReturnValue()) t = A.val(S, R->getReturnValue());
    const Instruction *at = S.retFrom ? S.retFrom->getTerminator() : R;
    T base = t ? rootOf(t) : nullptr;
    // ownership of the result
    if (t) {
        if (t->k == K_NULL) o.rk = R_NULL;
        else if (t->w == 64 && F->getReturnType()->isPointerTy()) {
            TySet ts;
            bool has = tySetOf(S, t, ts);
            int c = S.cnt.count(base) ? S.cnt[base] : 0;
            // the current content of a slot parameter?
            int slot = -1;
            for (unsigned i = 0; i < F->arg_size(); i++) {
                if (!F->getArg(i)->getType()->isPointerTy()) continue;
                auto it = S.mem.find(tParam(i, 64));
                if (it != S.mem.end() && it->second == t) slot = i;
                if (it == S.mem.end() && t == tLoad(tParam(i, 64), 64)) slot = i;
            }
            auto nf = S.facts.find(t);
            if (nf != S.facts.end() && nf->second.lo == 0 && nf->second.hi == 0) o.rk = R_NULL;
            else if (isSingleton(S, t)) { o.rk = R_OWNED; o.hasTy = true; o.ty = ts; o.fresh = true; o.tru = true; o.own = true; }
            else if (slot >= 0 && c <= 0) { o.rk = R_SLOT; o.ri = slot; if (S.own.count(base)) o.own = true; else { o.hasTy = has; if (has) o.ty = ts; } }
            else if (t->k == K_PARAM) { o.rk = R_PARAM; o.ri = t->c; }
            else if (c > 0) {
                o.rk = R_OWNED; o.hasTy = has; if (has) o.ty = ts;
                o.fresh = S.uni.count(base);
                if (!has && t == base) {
                    T q = lookupTy(S, t);
                    bool closed = q->k != K_UNDEF && q->k != K_INT;
                    for (T l : leaves(q)) if (l->k != K_PARAM) closed = false;
                    if (closed) o.tyT = q;
                }
                if (A.rawAlloc.count(base->v)) A.containerEscape(S, base, R);
                S.cnt[base]--;
                if (S.cnt[base] == 0) S.cnt.erase(base);
            } else if (S.unt.count(base)) { o.rk = R_OWNED; o.hasTy = has; if (has) o.ty = ts; }
            else {
                bool closed = true;
                for (T l : leaves(t)) if (l->k != K_PARAM) closed = false;
                if (closed && t->k != K_UNDEF) { o.rk = R_OTHER; o.term = t; }
                else { o.rk = R_BORROWED; o.hasTy = has; if (has) o.ty = ts; }
            }
            if (o.rk == R_BORROWED || o.rk == R_OWNED) { o.fresh = o.fresh || isUnique(S, base); o.tru = S.tru.count(base) || isSingleton(S, t); o.own = S.own.count(base) || isSingleton(S, t); }
        } else if (t->k == K_INT && t->w <= 64) { o.rk = R_CONST; o.ri = t->c; }
        else {
            o.rk = R_OTHER;
            bool closed = t->w <= 64 && t->k != K_UNDEF;
            for (T l : leaves(t)) if (l->k != K_PARAM) closed = false;
            if (closed) o.term = t;
            int64_t l, h;
            if (t->w <= 64) { rangeOf(S, t, l, h); if (l == h) { o.rk = R_CONST; o.ri = l; o.term = nullptr; } }
            int e = t->w == 1 ? evalBool(S, t) : -1;
            if (e >= 0) { o.rk = R_CONST; o.ri = e ? -1 : 0; o.term = nullptr; }
        }
    }
    for (auto &p : S.cnt) {
        T x = p.first;
        if (x->k == K_PARAM) {
            if (isSingleton(S, x)) continue;
            if (p.second) o.delta[x->c] = p.second;
            if (S.rel.count(x)) o.released.insert(x->c);
            continue;
        }
        if (p.second > 0) A.leakAt(S, x, at, "still held when the function returns");
    }
    for (auto &p : S.ctr) if (p.second && p.first[0] != '!') o.ctr[p.first] = p.second;
    o.wrote = S.wrote;
    for (unsigned i = 0; i < F->arg_size(); i++) if (paramKind(F, i) == P_OBJ && isUnique(S, tParam(i, 64))) o.puniq.insert(i);
    for (unsigned i = 0; i < F->arg_size(); i++) {
        PK k = paramKind(F, i);
        T x = tParam(i, 64);
        if (k == P_OBJ && S.own.count(x)) o.pown.insert(i);
        if (k == P_SLOT) { auto it = S.mem.find(x); T cur = it != S.mem.end() ? it->second : tLoad(x, 64); if (isUnique(S, cur)) o.pslot.insert(i); if (S.own.count(cur)) o.pown.insert(i); }
    }
    for (unsigned i = 0; i < F->arg_size(); i++) {
        if (F->getArg(i)->getType()->isIntegerTy()) {
            auto it = S.facts.find(tParam(i, widthOf(F->getArg(i)->getType())));
            if (it != S.facts.end()) o.pint[i] = it->second;
        }
        if (!F->getArg(i)->getType()->isPointerTy()) continue;
        T x = tParam(i, 64);
        TySet ts;
        if (paramKind(F, i) == P_OBJ) {
            auto it = S.facts.find(tyTerm(x));
            if (it != S.facts.end() && it->second.hasTy && !S.mem.count(tAddr(x, 2))) o.pty[i] = it->second.ty;
        }
        auto it = S.facts.find(x);
        if (it != S.facts.end()) {
            if (it->second.lo == 0 && it->second.hi == 0) o.pnull[i] = 1;
            else if (it->second.ne.count(0)) o.pnull[i] = 0;
        }
    }
    o.at = at;
    A.outs.push_back(o);
}
static std::vector<Outcome> normalise(std::vector<Outcome> v) {
    // group by everything except facts
    auto key = [](const Outcome &o, bool consts) {
        std::string s;
        raw_string_ostream q(s);
        for (auto &d : o.delta) q << d.first << ":" << d.second << ",";
        q << "|";
        for (auto r : o.released) q << r << ",";
        q << "|";
        for (auto &c : o.ctr) q << c.first << c.second;
        q << "|";
        for (int w : o.wrote) q << w << ",";
        if (consts && o.rk == R_OWNED && o.hasTy) { TySet x = o.ty; x.reset(126); x.reset(127); q << (x.none() ? "s" : "o") << o.ty[127]; }
        if (consts && (o.rk == R_OWNED || o.rk == R_BORROWED) && o.fresh) q << (o.tru ? 't' : '-') << (o.own ? 'o' : '-');
        if (consts && o.rk == R_SLOT) q << (o.own ? 'o' : '-');
        if (consts && o.rk == R_PARAM && o.puniq.count(o.ri)) q << (o.pown.count(o.ri) ? 'o' : '-');
        q << "|" << (int)(o.rk == R_CONST && !consts ? R_OTHER : o.rk) << "," << (o.rk == R_CONST && !consts ? 0 : o.ri) << "," << (o.term && consts ? o.term->id : -1);
        return q.str();
    };
    bool consts = true;
    for (int pass = 0; pass < 2; pass++) {
        std::map<std::string, Outcome> g;
        for (auto &o : v) {
            auto k = key(o, consts);
            auto it = g.find(k);
            if (it == g.end()) { g[k] = o; if (!consts && o.rk == R_CONST) { g[k].rk = R_OTHER; } if (!consts) g[k].term = nullptr; continue; }
            Outcome &d = it->second;
            if (d.tyT != o.tyT) d.tyT = nullptr;
            if (d.hasTy && o.hasTy) d.ty |= o.ty; else d.hasTy = false;
            d.fresh = d.fresh && o.fresh;
            d.tru = d.tru && o.tru;
            d.own = d.own && o.own;
            for (auto m : {&Outcome::puniq, &Outcome::pown, &Outcome::pslot})
                for (auto i = (d.*m).begin(); i != (d.*m).end();) if (!(o.*m).count(*i)) i = (d.*m).erase(i); else ++i;
            for (auto i = d.pty.begin(); i != d.pty.end();) {
                auto j = o.pty.find(i->first);
                if (j == o.pty.end()) i = d.pty.erase(i);
                else { i->second |= j->second; if (i->second.all()) i = d.pty.erase(i); else ++i; }
            }
            for (auto i = d.pint.begin(); i != d.pint.end();) {
                auto j = o.pint.find(i->first);
                if (j == o.pint.end()) { i = d.pint.erase(i); continue; }
                Fact &x = i->second;
                const Fact &y = j->second;
                std::set<int64_t> ne;
                for (auto v : x.ne) if (y.ne.count(v) || v < y.lo || v > y.hi) ne.insert(v);
                for (auto v : y.ne) if (v < x.lo || v > x.hi) ne.insert(v);
                x.ne = ne;
                if (x.hasTy && y.hasTy) x.ty |= y.ty; else x.hasTy = false;
                x.lo = std::min(x.lo, y.lo);
                x.hi = std::max(x.hi, y.hi);
                if (x.trivial()) i = d.pint.erase(i); else ++i;
            }
            for (auto i = d.pnull.begin(); i != d.pnull.end();) {
                auto j = o.pnull.find(i->first);
                if (j == o.pnull.end() || j->second != i->second) i = d.pnull.erase(i); else ++i;
            }
        }
        std::vector<Outcome> r;
        for (auto &p : g) r.push_back(p.second);
        if (r.size() <= 9 || !consts) return r;
        consts = false;
    }
    return v;
}
static void checkContract(FnAnalysis &A, const Function *F, const Contract &c, const Outcome &o) {
    for (unsigned i = 0; i < F->arg_size(); i++) {
        if (paramKind(F, i) != P_OBJ) continue;
        int d = o.delta.count(i) ? o.delta.at(i) : 0;
        int want = c.consumes.count(i) ? -1 : 0;
        if (o.rk == R_PARAM && o.ri == (int)i && c.ret == "owned") want++;
        auto p = o.pty.find(i);
        if (p != o.pty.end()) { TySet t = p->second; t.reset(126); t.reset(127); if (t.none()) continue; }
        if (d == want) continue;
        std::string a = "argument " + std::to_string(i + 1);
        if (o.rk == R_PARAM && o.ri == (int)i && d < want) report("returns-borrowed", F, o.at, "arg" + std::to_string(i), "returns " + a + " without taking a reference");
        else report(d > want ? "leak" : "over-release", F, o.at, "arg" + std::to_string(i), a + (d > want ? " keeps a reference nobody releases" : " loses a reference the caller still owns") + " (" + std::to_string(d) + " vs " + std::to_string(want) + ")");
    }
    if (c.ret == "owned" && (o.rk == R_BORROWED || (o.rk == R_OTHER && o.term && o.term->k != K_GLOB)))
        report("returns-borrowed", F, o.at, "result", "returns an object it holds no reference to");
}
std::map<std::string, int64_t> COUNT;
std::map<std::string, std::vector<std::string>> SAMPLES;
bool FINAL = false;
void instance(const std::string &rule, const Function *F, const Instruction *I, const std::string &what) {
    COUNT[rule]++;
    auto &s = SAMPLES[rule];
    if (s.size() < 12 || (COUNT[rule] % 97 == 0 && s.size() < 40)) s.push_back(fileOf(F) + ":" + std::to_string(I ? lineOf(I) : 0) + " " + F->getName().str() + " " + what);
}
static void countOwnership(FnAnalysis &A) {
    const Function *F = A.F;
    for (auto *v : A.ownedFresh) if (auto *C = dyn_cast<CallBase>(v)) { auto *g = calleeOf(C); instance("acquire-site", F, C, g ? g->getName().str() : "indirect call"); }
    for (auto &B : *F) for (auto &I : B) if (auto *C = dyn_cast<CallBase>(&I)) {
        auto *g = calleeOf(C);
        if (!g) continue;
        auto n = g->getName();
        if (n == "drop_obj" || n == "heap_free" || n == "drop_raw") instance("release-site", F, C, n.str());
        if (n == "clone_obj") instance("clone-site", F, C, n.str());
    }
    instance("function", F, nullptr, "states=" + std::to_string(A.nstates));
    COUNT["abstract-states"] += A.nstates;
    COUNT["exits"] += A.outs.size();
}
static void analyse(const Function *F, bool final, std::map<std::string, std::string> &stats) {
    if (MODELLED.count(F->getName().str()) || fileOf(F) == "core/heap.c") { if (!SUM.count(F)) SUM[F] = defaultSummary(F); return; }
    clock_t t0 = clock(); if (getenv("RA_TIME")) errs() << "> " << F->getName() << "\n";
    FnAnalysis A(F);
    A.run();
    if (FINAL) countOwnership(A);
    double dt = (double)(clock() - t0) / CLOCKS_PER_SEC;
    if (getenv("RA_TIME") && dt > 0.3) errs() << F->getName() << " " << format("%.2f", dt) << "s states=" << A.nstates << (A.incomplete ? " INCOMPLETE" : "") << "\n";
    Summary s;
    s.known = true;
    s.incomplete = A.incomplete;
    s.outs = normalise(A.outs);
    s.noreturn = s.outs.empty();
    if (A.incomplete && s.outs.empty()) s = defaultSummary(F);
    s.pure = !A.writesMem;
    s.writes = A.writes;
    for (auto &p : A.mut) s.mut[p.first] = p.second.first;
    s.mutTy = A.mutTy;
    s.via = A.via;
    if (FINAL) checkMut(A);
    if (A.incomplete) for (auto &o : s.outs) for (int w : s.writes) o.wrote.insert(w);
    for (auto &o : s.outs) if (o.rk == R_PARAM && paramKind(F, o.ri) != P_OBJ) PASS[F].insert(o.ri);
    auto ci = CON.find(F);
    if (ci != CON.end()) {
        // assume-guarantee: the body must honour the contract its callers rely on
        if (!ci->second.trusted) for (auto &q : A.outs) checkContract(A, F, ci->second, q);
        if (!s.incomplete) INF[F] = s.outs; else INF.erase(F);
        s = contractSummary(F, ci->second, &s);
    }
    SUM[F] = s;
    if (final && A.incomplete) stats[F->getName().str()] = "incomplete";
}
// The interpreter's operand stack is written as  vm->ps[vm->sp++] = x  and  x = vm->ps[--vm->sp].  Both shapes are
// replaced by the push/pop primitives before the analysis, wherever they occur.
static bool vmField(const Value *p, const Value *&vm, unsigned &f) {
    auto *g = dyn_cast<GEPOperator>(p);
    if (!g || g->getNumIndices() != 2) return false;
    auto *st = dyn_cast<StructType>(g->getSourceElementType());
    if (!st || st->getName() != "struct.vm_t") return false;
    auto *ci = dyn_cast<ConstantInt>(g->getOperand(2));
    if (!ci) return false;
    vm = g->getPointerOperand();
    f = ci->getZExtValue();
    return true;
}
static int liftVmStack() {
    int n = 0;
    Function *push = M->getFunction("vm_stack_push"), *pop = M->getFunction("vm_stack_pop");
    if (!push || !pop) return -1;
    for (auto &F : *M) {
        if (&F == push || &F == pop) continue;
        std::vector<Instruction *> todo;
        for (auto &B : F) for (auto &I : B) if (isa<LoadInst>(I) || isa<StoreInst>(I)) todo.push_back(&I);
        for (auto *I : todo) {
            auto *ld = dyn_cast<LoadInst>(I);
            auto *st = dyn_cast<StoreInst>(I);
            Value *addr = ld ? ld->getPointerOperand() : st->getPointerOperand();
            Type *vt = ld ? ld->getType() : st->getValueOperand()->getType();
            if (!vt->isPointerTy()) continue;
            auto *g = dyn_cast<GetElementPtrInst>(addr);
            if (!g || g->getNumIndices() != 2 || !g->getSourceElementType()->isArrayTy()) continue;
            const Value *vm, *vm2;
            unsigned f, f2;
            if (!vmField(g->getPointerOperand(), vm, f)) continue;
            Value *ix = g->getOperand(2);
            if (auto *c = dyn_cast<CastInst>(ix)) ix = c->getOperand(0);
            Value *spLoad = ix;
            int64_t delta = 0;
            if (auto *b = dyn_cast<BinaryOperator>(ix)) {
                auto *k = dyn_cast<ConstantInt>(b->getOperand(1));
                if (!k) continue;
                delta = b->getOpcode() == Instruction::Add ? k->getSExtValue() : b->getOpcode() == Instruction::Sub ? -k->getSExtValue() : 99;
                spLoad = b->getOperand(0);
            }
            auto *sl = dyn_cast<LoadInst>(spLoad);
            if (!sl || !vmField(sl->getPointerOperand(), vm2, f2)) continue;
            int64_t stored = 99;
            for (auto *u : sl->users()) {
                auto *b = dyn_cast<BinaryOperator>(u);
                if (!b) continue;
                auto *k = dyn_cast<ConstantInt>(b->getOperand(1));
                if (!k || b->getOperand(0) != sl) continue;
                for (auto *w : b->users()) {
                    auto *s2 = dyn_cast<StoreInst>(w);
                    const Value *vm3; unsigned f3;
                    if (s2 && s2->getValueOperand() == b && vmField(s2->getPointerOperand(), vm3, f3) && f3 == f2)
                        stored = b->getOpcode() == Instruction::Add ? k->getSExtValue() : -k->getSExtValue();
                }
            }
            if (ld && delta == -1 && stored == -1) {
                auto *c = CallInst::Create(pop->getFunctionType(), pop, {}, "", I);
                c->setDebugLoc(I->getDebugLoc());
                I->replaceAllUsesWith(c);
                I->eraseFromParent();
                n++;
            } else if (st && delta == 0 && stored == 1) {
                auto *c = CallInst::Create(push->getFunctionType(), push, {st->getValueOperand()}, "", I);
                c->setDebugLoc(I->getDebugLoc());
                I->eraseFromParent();
                n++;
            }
        }
    }
    return n;
}
// small functions of plain values only (no memory, no loops): as if written where they are called
static int inlineScalars(const std::string &file) {
    int n = 0;
    std::set<std::string> kept;
    { std::ifstream in(file); for (std::string l; std::getline(in, l);) if (!l.empty() && l[0] != '#') kept.insert(l); }
    auto keep = [&](StringRef f) { auto p = f.rsplit('.'); return kept.count(f.str()) || kept.count(p.first.str()); };
    for (int round = 0; round < 3; round++) {
        std::set<Function *> leaves;
        for (auto &F : *M) {
            if (F.isDeclaration() || F.isVarArg() || F.getReturnType()->isVoidTy() || F.getReturnType()->isPointerTy() || F.getInstructionCount() > 60 || F.arg_empty() || keep(F.getName())) continue;
            bool ok = true;
            for (auto &a : F.args()) ok &= a.getType()->isIntegerTy() || a.getType()->isFloatingPointTy();
            std::map<const BasicBlock *, int> num;
            int k = 0;
            for (auto *B : ReversePostOrderTraversal<Function *>(&F)) num[B] = k++;
            for (auto &B : F) {
                for (auto *T : successors(&B)) ok &= num.count(&B) && num[T] > num[&B];
                for (auto &I : B) { if (auto *C = dyn_cast<CallBase>(&I)) ok &= isa<IntrinsicInst>(C); else if (I.mayReadOrWriteMemory()) { auto *p = getLoadStorePointerOperand(&I); ok &= p && isa<AllocaInst>(getUnderlyingObject(p)); } ok &= !isa<UnreachableInst>(&I); }
            }
            if (ok) leaves.insert(&F);
        }
        std::vector<CallBase *> sites;
        for (auto &F : *M) for (auto &B : F) for (auto &I : B) if (auto *C = dyn_cast<CallBase>(&I)) if (C->getCalledFunction() && C->getCalledFunction() != &F && leaves.count(C->getCalledFunction())) sites.push_back(C);
        for (auto *C : sites) { if (getenv("RA_INLINE")) errs() << "inline " << C->getCalledFunction()->getName() << " in " << C->getFunction()->getName() << "\n"; InlineFunctionInfo IFI; if (InlineFunction(*C, IFI).isSuccess()) n++; }
        if (sites.empty()) break;
    }
    return n;
}
int main(int argc, char **argv) {
    LLVMContext ctx;
    SMDiagnostic err;
    std::unique_ptr<Module> m = parseIRFile(argv[1], err, ctx);
    if (!m) { err.print(argv[0], errs()); return 2; }
    M = m.get();
    DL = &M->getDataLayout();
    std::set<std::string> only;
    bool dump = false;
    std::string contracts = std::string(argv[0]);
    contracts = contracts.substr(0, contracts.rfind('/') + 1) + "contracts.txt";
    std::string jsonPath;
    bool own = true, lints = true;
    std::set<std::string> which;
    for (int i = 2; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--dump") dump = true;
        else if (a == "--json" && i + 1 < argc) jsonPath = argv[++i];
        else if (a == "--thorough") { CFG.maxStates = 1200; CFG.maxSteps = 160000; }
        else if (a == "--no-engine") own = false;
        else if (a == "--no-lints") lints = false;
        else if (a == "--lint" && i + 1 < argc) which.insert(argv[++i]);
        else only.insert(a);
    }
    outs() << "scalar helpers inlined at " << inlineScalars(contracts.substr(0, contracts.rfind('/') + 1) + "scalars.txt") << " places\n";
    if (lints) runLints(which);
    std::vector<Report> lintReports = REPORTS;
    REPORTS.clear();
    auto lintCount = COUNT;
    int lifted = liftVmStack();
    outs() << "vm-stack accesses lifted " << lifted << "\n";
    for (auto &F : *M)
        for (auto bi = F.begin(); bi != F.end(); ++bi)
            for (auto &I : *bi) {
                auto *C = dyn_cast<CallInst>(&I);
                if (!C || isa<IntrinsicInst>(C)) continue;
                auto *n = C->getNextNode();
                if (!n || n->isTerminator()) continue;
                bi->splitBasicBlock(n->getIterator());
                break;
            }
    loadContracts(contracts.c_str());
    for (auto &p : CON) SUM[p.first] = contractSummary(p.first, p.second, nullptr);
    std::map<std::string, std::string> stats;
    std::vector<const Function *> order;
    std::set<const Function *> seen;
    std::function<void(const Function *)> dfs = [&](const Function *f) {
        if (!seen.insert(f).second) return;
        for (auto *u : f->users()) if (auto *c = dyn_cast<CallBase>(u)) for (auto &a : c->args()) if (auto *h = dyn_cast<Function>(a->stripPointerCasts())) if (!h->isDeclaration() && h != f) dfs(h);
        for (auto &B : *f) for (auto &I : B) if (auto *c = dyn_cast<CallBase>(&I)) {
            auto *g = calleeOf(c);
            if (!g || !g->isIntrinsic()) for (auto &a : c->args()) if (auto *h = dyn_cast<Function>(a->stripPointerCasts())) if (!h->isDeclaration()) dfs(h);  // callbacks
            if (g && !g->isDeclaration() && !g->isIntrinsic()) dfs(g);
        }
        order.push_back(f);
    };
    // contract functions last, so that everything they call through plain calls is inferred first
    for (auto &F : *M) if (!F.isDeclaration()) dfs(&F);
    int nf = 0;
    // functions on call cycles that are not cut by a contract get a second round
    std::set<const Function *> cyc;
    {
        std::map<const Function *, int> pos;
        for (size_t i = 0; i < order.size(); i++) pos[order[i]] = i;
        for (auto *f : order) for (auto &B : *f) for (auto &I : B) if (auto *c = dyn_cast<CallBase>(&I)) { auto *g = calleeOf(c); if (g && pos.count(g) && pos[g] >= pos[f] && !CON.count(g)) cyc.insert(f); }
    }
    if (own && !cyc.empty()) {
        // members of call cycles (and what they call) first, so that what one of them establishes reaches the others
        std::map<const Function *, std::set<const Function *>> callees;
        for (auto *f : order) for (auto &B : *f) for (auto &I : B) if (auto *c = dyn_cast<CallBase>(&I)) { auto *g = calleeOf(c); if (g && !g->isDeclaration()) callees[f].insert(g); }
        auto reach = [&](const Function *f) {
            std::set<const Function *> vis;
            std::vector<const Function *> todo(callees[f].begin(), callees[f].end());
            while (!todo.empty()) { auto *g = todo.back(); todo.pop_back(); if (!CON.count(g) && vis.insert(g).second) for (auto *h : callees[g]) todo.push_back(h); }
            return vis;
        };
        std::set<const Function *> member, pre;
        for (auto *f : order) { auto r = reach(f); if (r.count(f)) { member.insert(f); pre.insert(r.begin(), r.end()); } }
        for (auto *f : order) if (pre.count(f)) analyse(f, false, stats);
        for (int round = 0; round < 2; round++) for (auto *f : order) if (member.count(f) && !SUM[f].incomplete) analyse(f, false, stats);
        outs() << "members of call cycles " << member.size() << ", prepared " << pre.size() << "\n";
        REPORTS.clear();
        REPORT_KEYS.clear();
    }
    COUNT.clear();
    FINAL = true;
    if (own) for (auto *f : order) { analyse(f, true, stats); nf++; }
    for (auto &c : lintCount) COUNT[c.first] += c.second;
    if (dump)
        for (auto &p : SUM) {
            if (only.size() && !only.count(p.first->getName().str())) continue;
            outs() << p.first->getName() << (p.second.pure ? " pure" : "") << " writes{";
            for (int w : p.second.writes) outs() << w << ",";
            outs() << "}";
            for (auto &q : p.second.mut) outs() << " mut" << q.first << "=" << q.second << "/" << p.second.mutTy[q.first].count();
            outs() << "\n";
            for (auto &o : p.second.outs) {
                outs() << "   ret=" << (int)o.rk << "/" << o.ri << (o.term ? " term=" + show(o.term) : "") << " delta{";
                for (auto &d : o.delta) outs() << d.first << ":" << d.second << (o.released.count(d.first) ? "r" : "") << " ";
                outs() << "} ctr{";
                for (auto &d : o.ctr) outs() << d.first << ":" << d.second;
                outs() << "} ty=";
                if (o.hasTy) for (int i = 0; i < 256; i++) if (o.ty[i]) outs() << (int)(int8_t)i << ",";
                for (auto &q : o.pty) { outs() << " pty" << q.first << "{"; if (q.second.count() < 20 || getenv("RA_TRACE")) for (int i = 0; i < 256; i++) { if (q.second[i]) outs() << (int)(int8_t)i << ","; } else outs() << q.second.count(); outs() << "}"; }
                outs() << (o.fresh ? " fresh" : "") << (o.tru ? " tru" : "") << (o.own ? " own" : "");
                for (int q : o.puniq) outs() << " uniq" << q;
                for (int q : o.pown) outs() << " own" << q;
                for (int q : o.pslot) outs() << " slot" << q;
                for (auto &q : o.pnull) outs() << " null" << q.first << "=" << q.second;
                outs() << "\n";
            }
        }
    std::vector<Report> hidden;
    {
        std::vector<Report> keep;
        for (auto &r : REPORTS) {
            if ((SKIPFILE.count(r.file) && r.rule != "shared-write") || UNDEC.count({r.func, r.site}) || UNDEC.count({r.func, ""})) hidden.push_back(r);
            else keep.push_back(r);
        }
        REPORTS.swap(keep);
        REPORTS.insert(REPORTS.begin(), lintReports.begin(), lintReports.end());
    }
    if (!jsonPath.empty()) {
        std::error_code ec;
        raw_fd_ostream js(jsonPath, ec);
        auto rep = [&](const Report &r) {
            return json::Object{{"rule", r.rule}, {"func", r.func}, {"file", r.file}, {"line", r.line}, {"site", r.site}, {"msg", r.msg}};
        };
        json::Array ra, ha, inc, ud;
        for (auto &r : REPORTS) ra.push_back(rep(r));
        for (auto &r : hidden) ha.push_back(rep(r));
        for (auto &s : stats) inc.push_back(s.first);
        for (auto &u : UNDEC) ud.push_back(u.first + (u.second.empty() ? "" : " " + u.second));
        json::Object fn, cnt, inst;
        for (auto &F : *M) {
            if (F.isDeclaration()) continue;
            json::Array cs;
            std::set<std::string> callers;
            for (auto *u : F.users()) if (auto *c = dyn_cast<Instruction>(u)) callers.insert(c->getFunction()->getName().str());
            for (auto &c : callers) cs.push_back(c);
            fn[F.getName()] = json::Object{{"file", fileOf(&F)}, {"callers", std::move(cs)}};
        }
        for (auto &c : COUNT) cnt[c.first] = c.second;
        for (auto &c : SAMPLES) { json::Array a; for (auto &s : c.second) a.push_back(s); inst[c.first] = std::move(a); }
        json::Array sk;
        for (auto &s : SKIPFILE) sk.push_back(s);
        json::Object top{{"reports", std::move(ra)}, {"undecided_reports", std::move(ha)}, {"undecided", std::move(ud)}, {"incomplete", std::move(inc)}, {"functions", std::move(fn)}, {"counts", std::move(cnt)}, {"samples", std::move(inst)}, {"skipped_files", std::move(sk)}, {"contracts", (int64_t)CON.size()}};
        js << json::Value(std::move(top)) << "\n";
    }
    for (auto &r : REPORTS)
        if (only.empty() || only.count(r.func)) outs() << r.file << ":" << r.line << ": [" << r.rule << "] " << r.func << ": " << r.msg << "\n";
    for (auto &s : stats) outs() << "INCOMPLETE " << s.first << "\n";
    outs() << "functions " << nf << " reports " << REPORTS.size() << "\n";
    return 0;
}
