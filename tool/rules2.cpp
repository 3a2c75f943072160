// Rules decided on the states of the path-sensitive engine: payload width, use of error results.
#include "rules.h"

// bytes per element of a vector's payload, 0: not a plain vector
static int elemSize(int8_t t) {
    switch (t) {
        case 1: case 2: case 12: return 1;
        case 3: return 2;
        case 4: case 7: case 8: return 4;
        case 5: case 6: case 9: case 10: case 0: return 8;
        case 11: return 16;
        case 98: case 99: return 8;
    }
    if (t >= 77 && t < 77 + 20) return 8;
    return 0;
}
static int atomSize(int8_t t) {
    switch (-t) {
        case 1: case 2: case 12: return 1;
        case 3: return 2;
        case 4: case 7: case 8: return 4;
        case 5: case 6: case 9: case 10: return 8;
    }
    return 0;
}
static std::string tyName(int8_t t) {
    static const char *n[] = {"list", "b8", "u8", "i16", "i32", "i64", "symbol", "date", "time", "timestamp", "f64", "guid", "c8"};
    int8_t a = t < 0 ? -t : t;
    std::string s = a <= 12 ? n[a] : "type " + std::to_string(a);
    return t < 0 ? s + " atom" : s;
}
// width with which a function accesses the payload of an object parameter whose type it has not looked at
static std::map<std::pair<const Function *, int>, int> REQ;
static void join(int &w, int v) { if (!v) return; if (!w) w = v; else if (w != v) w = -1; }
void ruleWidth(FnAnalysis &A, State &S, const Instruction *I) {
    const Value *p;
    Type *ty;
    if (auto *L = dyn_cast<LoadInst>(I)) p = L->getPointerOperand(), ty = L->getType();
    else if (auto *St = dyn_cast<StoreInst>(I)) p = St->getPointerOperand(), ty = St->getValueOperand()->getType();
    else return;
    if (auto *St = dyn_cast<StoreInst>(I); St && ty->isPointerTy()) {   // where the elements of an error would be
        T v = A.val(S, St->getValueOperand());
        int64_t o = 0;
        while (v->k == K_ADDR) { o += v->c; v = v->a; }
        TySet vs;
        if (o >= 16 && v->k != K_INT && tySetOf(S, v, vs) && vs.count() == 1 && vs[127]) report("error-value", A.F, I, "err:" + srcName(v), "the elements of an error result are handed on: " + show(v));
    }
    // a structure of another kind laid over the object is not an element access
    bool viaObj = false;
    for (const Value *q = p; auto *G = dyn_cast<GEPOperator>(q); q = G->getPointerOperand())
        if (auto *ST = dyn_cast<StructType>(G->getSourceElementType())) {
            if (ST->hasName() && ST->getName().starts_with("struct.obj_t")) viaObj = true;
            else if (ST->hasName() && ST->getName().starts_with("struct.") && !ST->getName().starts_with("struct.anon")) return;
        }
    T a = A.val(S, p), r = rootOf(a);
    if (a == r || r->k == K_ALLOCA || r->k == K_GLOB || r->k == K_NULL || r->k == K_UNDEF || r->k == K_INT) return;
    if (r->k == K_PARAM && paramKind(A.F, r->c) != P_OBJ) return;
    T b = a;
    bool idx = false;
    int stride = 0;
    int64_t off = 0;
    while (b != r) {
        if (b->k == K_ADDR) off += b->c;
        else { idx = true; if (!stride) stride = b->c; }
        b = b->a;
    }
    if (off < 8) return;
    TySet ts;
    if (auto *St = dyn_cast<StoreInst>(I); St && off >= 16 && ty->isPointerTy()) {
        T v = A.val(S, St->getValueOperand());
        TySet vs;
        if (v->k != K_INT && tySetOf(S, v, vs) && vs.count() == 1 && vs[127]) report("error-stored", A.F, I, "err:" + srcName(v), "an error result becomes an element: " + show(v));
        else instance("element-store", A.F, I, "");
    }
    if (!tySetOf(S, r, ts) || ts.count() > 60) {
        if (r->k == K_PARAM && off >= 16) {
            int w = DL->getTypeStoreSize(ty);
            bool deep = false;
            for (T x = a; x != r; x = x->a) if (x->k == K_LOAD) deep = true;
            if (!deep) join(REQ[{A.F, (int)r->c}], stride == 16 ? 16 : w);
        }
        return;
    }
    if (ts.count() == 1 && ts[127]) { report("error-value", A.F, I, "err:" + srcName(r), "an error result is used as a value: " + show(a)); return; }
    if (ts.count() == 1 && ts[126] && off >= 16) { report("null-value", A.F, I, "null:" + srcName(r), "payload of the null value: " + show(a)); return; }
    ts.reset(126);
    int n = ts.count();
    if (!n || n > 12) return;
    int w = DL->getTypeStoreSize(ty);
    if (off < 16) {
        if (idx || off != 8 || !viaObj) return;
        instance("atom-access", A.F, I, "");
        for (int i = 0; i < 256; i++) if (ts[i]) {
            int8_t t = (int8_t)i;
            if (t >= 0) { if (w != 8 && t < 100) { report("width", A.F, I, tyName(t), "the length of a " + tyName(t) + " is accessed with " + std::to_string(w) + " bytes: " + show(a)); return; } continue; }
            int z = atomSize(t);
            if (z && z != w) { report("width", A.F, I, tyName(t), "a " + tyName(t) + " is accessed with " + std::to_string(w) + " bytes: " + show(a)); return; }
        }
        return;
    }
    instance("payload-access", A.F, I, "");
    for (int i = 0; i < 256; i++) if (ts[i]) {
        int8_t t = (int8_t)i;
        int z = elemSize(t);
        if (!z) continue;
        if (z != w && !(z == 16 && stride == 16)) { report("width", A.F, I, tyName(t), "elements of a " + tyName(t) + " vector are accessed with " + std::to_string(w) + " bytes: " + show(a)); return; }
    }
}

// ---- payloads handed to functions that access them as plain arrays
// element width a function uses through pointer parameter i: >0 the only width, 0 not accessed, -1 several or unknown
static std::map<std::pair<const Function *, unsigned>, int> PW;
static int rawWidth(const Function *F, unsigned i) {
    auto key = std::make_pair(F, i);
    auto it = PW.find(key);
    if (it != PW.end()) return it->second;
    PW[key] = 0;
    int w = 0;
    std::vector<std::pair<const Value *, int>> todo{{F->getArg(i), 0}};
    std::set<const Value *> seen{F->getArg(i)};
    while (!todo.empty() && w >= 0) {
        auto [v, st] = todo.back();
        todo.pop_back();
        for (auto *U : v->users()) {
            if (auto *L = dyn_cast<LoadInst>(U)) { int z = DL->getTypeStoreSize(L->getType()); join(w, st && st != z ? -1 : z); }
            else if (auto *S = dyn_cast<StoreInst>(U)) {
                if (S->getValueOperand() == v) { w = -1; continue; }
                int z = DL->getTypeStoreSize(S->getValueOperand()->getType());
                join(w, st && st != z ? -1 : z);
            } else if (auto *G = dyn_cast<GetElementPtrInst>(U)) {
                if (G->getPointerOperand() != v) continue;
                Type *et = G->getSourceElementType();
                if (et->isStructTy()) { w = -1; continue; }
                int z = DL->getTypeStoreSize(et);
                if (et->isArrayTy() && z != 16) { w = -1; continue; }
                if (et->isIntegerTy(8) && G->hasAllConstantIndices()) z = 0;
                if (seen.insert(G).second) todo.push_back({G, G->getNumIndices() > 1 ? -2 : (z ? z : st)});
            } else if (isa<PHINode>(U) || isa<SelectInst>(U)) { if (seen.insert(U).second) todo.push_back({U, st}); }
            else if (auto *C = dyn_cast<CallBase>(U)) {
                auto *g = dyn_cast<Function>(C->getCalledOperand()->stripPointerCasts());
                if (!g || g->isDeclaration() || g->isVarArg()) { if (!(g && g->isIntrinsic())) join(w, -1); continue; }
                for (unsigned k = 0; k < C->arg_size(); k++) if (C->getArgOperand(k) == v && k < g->arg_size()) join(w, rawWidth(g, k));
            } else if (isa<ICmpInst>(U)) {}
            else join(w, -1);
        }
    }
    return PW[key] = w;
}
static void checkObj(FnAnalysis &A, State &S, const Instruction *I, const Function *g, unsigned k, const Value *v) {
    T r = A.val(S, v);
    if (r != rootOf(r) && r->k == K_ADDR) return;
    auto it = REQ.find({g, (int)k});
    TySet ts;
    if (!tySetOf(S, r, ts) || ts.count() > 60) {
        if (it != REQ.end() && r->k == K_PARAM && paramKind(A.F, r->c) == P_OBJ) join(REQ[{A.F, (int)r->c}], it->second);
        return;
    }
    if (it == REQ.end() || it->second <= 0 || undecided(g->getName().str(), "width")) return;
    ts.reset(126);
    ts.reset(127);
    int n = ts.count();
    if (!n || n > 12) return;
    instance("vector-argument", A.F, I, "");
    for (int i = 0; i < 256; i++) if (ts[i]) {
        int z = elemSize((int8_t)i);
        if (z && z != it->second) {
            report("width", A.F, I, tyName((int8_t)i), "a " + tyName((int8_t)i) + " vector is handed to " + g->getName().str() + ", which accesses its elements with " + std::to_string(it->second) + " bytes without looking at its type: " + show(r));
            return;
        }
    }
}
static void checkRaw(FnAnalysis &A, State &S, const Instruction *I, const Function *g, unsigned k, const Value *v) {
    if (!v->getType()->isPointerTy() || g->isDeclaration() || k >= g->arg_size() || !g->getArg(k)->getType()->isPointerTy()) return;
    if (paramKind(g, k) == P_OBJ) { checkObj(A, S, I, g, k, v); return; }
    if (paramKind(g, k) != P_RAW) return;
    T a = A.val(S, v), r = rootOf(a);
    if (a == r || r->k == K_ALLOCA || r->k == K_GLOB || r->k == K_NULL || r->k == K_UNDEF || r->k == K_INT) return;
    if (r->k == K_PARAM && paramKind(A.F, r->c) != P_OBJ) return;
    int64_t off = 0;
    for (T b = a; b != r; b = b->a) if (b->k == K_ADDR) off += b->c; else if (b->k == K_LOAD) return;
    if (off < 16) return;
    int w = rawWidth(g, k);
    if (w <= 0) return;
    TySet ts;
    if (!tySetOf(S, r, ts)) return;
    ts.reset(126);
    int n = ts.count();
    if (!n || n > 12) return;
    instance("array-argument", A.F, I, "");
    for (int i = 0; i < 256; i++) if (ts[i]) {
        int z = elemSize((int8_t)i);
        if (z && z != w && z != 16) {
            report("width", A.F, I, tyName((int8_t)i), "elements of a " + tyName((int8_t)i) + " vector are handed to " + g->getName().str() + ", which accesses them with " + std::to_string(w) + " bytes: " + show(a));
            return;
        }
    }
}
// functions that keep the value they are given as an element
static const std::map<std::string, std::vector<int>> KEEPS = {{"push_obj", {1}}, {"ins_obj", {2}}, {"set_idx", {2}}, {"set_obj", {2}}, {"set_ids", {3}}, {"dict", {0, 1}}, {"table", {0, 1}}, {"enumerate", {0, 1}}};
static bool isErr(const State &S, T t) { TySet ts; return t->k != K_INT && tySetOf(S, t, ts) && ts.count() == 1 && ts[127]; }
static void ruleCall(FnAnalysis &A, State &S, const CallBase *C) {
    auto *g = dyn_cast<Function>(C->getCalledOperand()->stripPointerCasts());
    if (!g) return;
    std::string n = g->getName().str();
    auto it = KEEPS.find(n);
    if (it != KEEPS.end()) for (int k : it->second) if (k < (int)C->arg_size()) {
        T v = A.val(S, C->getArgOperand(k));
        TySet ts;
        instance("element-store", A.F, C, "");
        if (v->k != K_INT && tySetOf(S, v, ts) && ts.count() == 1 && ts[127])
            report("error-stored", A.F, C, "err:" + srcName(v), "an error result becomes part of a value (handed to " + n + "): " + show(v));
    }
    // operations hand an error they are given on; the result of an evaluation that failed must not reach them at all
    static const std::set<std::string> EVALS = {"unary_call", "binary_call", "vary_call", "call", "eval", "lambda_call", "eval_obj", "eval_str", "indirect-call"};
    if (n == "unary_call" || n == "binary_call" || n == "vary_call" || n == "vm_stack_push" || StringRef(n).starts_with("ray_")) for (unsigned k = 0; k < C->arg_size(); k++) {
        if (!C->getArgOperand(k)->getType()->isPointerTy()) continue;
        T v = A.val(S, C->getArgOperand(k));
        if (isErr(S, v) && (EVALS.count(srcName(v)) || StringRef(srcName(v)).starts_with("eval"))) report("error-operand", A.F, C, "err:" + srcName(v), "an error result is an operand of " + n + ": " + show(v));
    }
    if (n == "pool_add_task") {
        if (auto *f = dyn_cast<Function>(C->getArgOperand(1)->stripPointerCasts()))
            for (unsigned k = 3; k < C->arg_size(); k++) checkRaw(A, S, C, f, k - 3, C->getArgOperand(k));
    } else for (unsigned k = 0; k < C->arg_size(); k++) checkRaw(A, S, C, g, k, C->getArgOperand(k));
}

// ---- failures nobody looked at
void ruleOutcome(FnAnalysis &A, State &S, const CallBase *C) {
    if (!C->getType()->isPointerTy()) return;
    auto it = S.env.find(C);
    if (it == S.env.end()) return;
    if (A.reporting) instance("call-outcome", A.F, C, "");
    if (!isErr(S, it->second)) return;
    auto *g = dyn_cast<Function>(C->getCalledOperand()->stripPointerCasts());
    // updates in place: the container stays in its slot, and these fail only for operands no caller passes
    static const std::set<std::string> INPLACE = {"push_obj", "push_raw", "push_sym", "ins_obj", "ins_raw", "ins_sym", "set_idx", "remove_idx"};
    if (g && (g->getName().starts_with("err_") || INPLACE.count(g->getName().str()))) return;
    if (it->second->v != C) return;
    S.pend.insert(C);
}
static void unpend(FnAnalysis &A, State &S, const Value *v) {
    if (!v->getType()->isPointerTy()) return;
    T t = A.val(S, v);
    if (auto *x = rootOf(t)->v) S.pend.erase(x);
}
void rulePending(FnAnalysis &A, State &S, const Instruction *I) {
    if (auto *R = dyn_cast<ReturnInst>(I)) {
        if (R->getReturnValue()) unpend(A, S, R->getReturnValue());
        if (S.pend.empty()) return;
        if (R->getReturnValue() && R->getReturnValue()->getType()->isPointerTy() && isErr(S, A.val(S, R->getReturnValue()))) return;
        if (A.reporting) for (auto *c : S.pend) { auto *C = cast<CallBase>(c); auto *g = dyn_cast<Function>(C->getCalledOperand()->stripPointerCasts());
            report("error-ignored", A.F, C, std::string("err:") + (g ? g->getName().str() : "indirect-call"), "failure of " + (g ? g->getName().str() : std::string("an indirect call")) + " is not looked at"); }
        return;
    }
    if (I->isTerminator()) {
        for (unsigned i = 0; i < I->getNumSuccessors(); i++) for (auto &P : I->getSuccessor(i)->phis()) if (A.headerPhis.count(&P) || A.flagPhis.count(&P)) unpend(A, S, P.getIncomingValueForBlock(I->getParent()));
        return;
    }
    if (isa<GetElementPtrInst>(I) || isa<CastInst>(I) || isa<SelectInst>(I)) return;
    if (auto *C = dyn_cast<CallBase>(I)) {
        auto *g = dyn_cast<Function>(C->getCalledOperand()->stripPointerCasts());
        if (g && g->getName() == "drop_obj") return;
    }
    for (auto &u : I->operands()) unpend(A, S, u.get());
}
void ruleInst(FnAnalysis &A, State &S, const Instruction *I) {
    if (auto *C = dyn_cast<CallBase>(I)) ruleCall(A, S, C);
    else ruleWidth(A, S, I);
}
