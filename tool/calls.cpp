// Calls the compiler does not check: tasks handed to the pool, calls through function pointers, formatted text.
#include "lintutil.h"
#include "llvm/IR/Dominators.h"
using namespace lu;
namespace {
char kindOf(Type *t) { return t->isPointerTy() ? 'p' : t->isIntegerTy() ? 'i' : t->isDoubleTy() || t->isFloatTy() ? 'f' : 'o'; }
// a pointer parameter that is only ever used as a number
bool numeric(const Argument *a) {
    if (!a->getType()->isPointerTy() || a->use_empty()) return false;
    for (auto *u : a->users()) if (!isa<PtrToIntInst>(u)) { auto *c = dyn_cast<ICmpInst>(u); if (!c) return false; }
    return true;
}
void tasks() {
    // what the dispatcher can call
    std::map<int64_t, unsigned> arms;
    auto *D = M->getFunction("pool_call_task_fn");
    if (D) for (auto &B : *D) if (auto *sw = dyn_cast<SwitchInst>(B.getTerminator())) for (auto &c : sw->cases()) for (auto &I : *c.getCaseSuccessor()) if (auto *C = dyn_cast<CallBase>(&I)) if (!calleeOf(C)) {
        arms[c.getCaseValue()->getSExtValue()] = C->arg_size();
        instance("task-dispatch", D, C, std::to_string(c.getCaseValue()->getSExtValue()));
        if ((int64_t)C->arg_size() != c.getCaseValue()->getSExtValue()) report("task-dispatch", D, C, "arm" + std::to_string(c.getCaseValue()->getSExtValue()), "a task of " + std::to_string(c.getCaseValue()->getSExtValue()) + " arguments is called with " + std::to_string(C->arg_size()));
        // argument i is element i of the stored arguments
        for (unsigned i = 0; i < C->arg_size(); i++) {
            auto *l = dyn_cast<LoadInst>(C->getArgOperand(i));
            if (!l) continue;
            int64_t off = -1;
            if (auto *g = dyn_cast<GEPOperator>(l->getPointerOperand())) { APInt a(64, 0); if (g->accumulateConstantOffset(*DL, a)) off = a.getSExtValue(); } else off = 0;
            if (off >= 0 && off != (int64_t)i * 8) report("task-dispatch", D, C, "arm" + std::to_string(C->arg_size()), "argument " + std::to_string(i + 1) + " is taken from slot " + std::to_string(off / 8 + 1));
        }
    }
    for (auto &F : *M) for (auto &I : instructions(F)) {
        auto *C = dyn_cast<CallBase>(&I);
        auto *f = C ? calleeOf(C) : nullptr;
        if (!f || f->getName() != "pool_add_task" || C->arg_size() < 3) continue;
        auto ts = targetsOf(C->getArgOperand(1));
        auto *n = dyn_cast<ConstantInt>(C->getArgOperand(2));
        unsigned va = C->arg_size() - 3;
        std::string site = ts.fs.size() == 1 ? (*ts.fs.begin())->getName().str() : "task";
        instance("task-call", &F, C, site);
        if (!n) { report("task-arguments", &F, C, site, "the number of task arguments is not a constant"); continue; }
        if (n->getSExtValue() != va) report("task-arguments", &F, C, site, "declares " + std::to_string(n->getSExtValue()) + " task arguments and passes " + std::to_string(va));
        if (!arms.empty() && !arms.count(n->getSExtValue())) report("task-arguments", &F, C, site, "tasks of " + std::to_string(n->getSExtValue()) + " arguments are not dispatched");
        for (unsigned i = 0; i < va; i++) {
            Type *t = C->getArgOperand(3 + i)->getType();
            bool narrow = !(t->isPointerTy() || t->isIntegerTy(64));
            if (narrow && t->isIntegerTy()) { narrow = ts.fs.empty() || !ts.all; for (auto *g : ts.fs) if (i >= g->arg_size() || !g->getArg(i)->getType()->isIntegerTy() || g->getArg(i)->getType()->getIntegerBitWidth() > t->getIntegerBitWidth()) narrow = true; }
            if (narrow) { report("task-arguments", &F, C, site, "task argument " + std::to_string(i + 1) + " does not fill its slot (only part of it is passed)"); }
        }
        if (!ts.all && ts.fs.empty()) COUNT["task-unresolved"]++;
        for (auto *t : ts.fs) {
            instance("task-target", &F, C, t->getName().str());
            if (t->arg_size() != va) { report("task-signature", &F, C, t->getName().str(), t->getName().str() + " takes " + std::to_string(t->arg_size()) + " arguments, the task has " + std::to_string(va)); continue; }
            if (!t->getReturnType()->isPointerTy()) report("task-signature", &F, C, t->getName().str(), t->getName().str() + " does not return a value, the pool collects one");
            for (unsigned i = 0; i < va; i++) {
                const Value *v = C->getArgOperand(3 + i);
                const Value *o = v;
                if (auto *c = dyn_cast<Operator>(v)) if (c->getOpcode() == Instruction::IntToPtr) o = c->getOperand(0);
                auto *p = t->getArg(i);
                char want = numeric(p) ? 'i' : kindOf(p->getType()), have = kindOf(o->getType());
                if (want == 'f' || want == 'o') { report("task-signature", &F, C, t->getName().str(), "argument " + std::to_string(i + 1) + " of " + t->getName().str() + " cannot be passed through a task"); continue; }
                if (isa<ConstantPointerNull>(o) || isa<ConstantInt>(o) || p->use_empty()) continue;
                if (want != have) report("task-signature", &F, C, t->getName().str(), "argument " + std::to_string(i + 1) + " of " + t->getName().str() + " is a " + (want == 'p' ? "pointer" : "number") + ", the task passes a " + (have == 'p' ? "pointer" : "number"));
            }
        }
    }
}
// task functions called at once, with their arguments in an array
void direct() {
    for (auto &F : *M) for (auto &I : instructions(F)) {
        auto *C = dyn_cast<CallBase>(&I);
        auto *f = C ? calleeOf(C) : nullptr;
        if (!f || f->getName() != "pool_call_task_fn" || C->arg_size() != 3) continue;
        auto *n = dyn_cast<ConstantInt>(C->getArgOperand(1));
        auto *al = dyn_cast<AllocaInst>(getUnderlyingObject(C->getArgOperand(2)));
        if (!n || !al) continue;
        std::map<int64_t, std::vector<const StoreInst *>> st;
        DominatorTree DT(F);
        for (auto &J : instructions(F)) if (auto *s = dyn_cast<StoreInst>(&J)) {
            if (getUnderlyingObject(s->getPointerOperand()) != al) continue;
            APInt a(64, 0);
            auto *p = s->getPointerOperand();
            if (p->stripAndAccumulateConstantOffsets(*DL, a, true) != al) { st.clear(); n = nullptr; break; }
            if (DT.dominates(s, C)) st[a.getSExtValue() / 8].push_back(s);
        }
        if (!n) continue;
        auto ts = targetsOf(C->getArgOperand(0));
        std::string site = ts.fs.size() == 1 ? (*ts.fs.begin())->getName().str() : "task";
        instance("task-direct", &F, C, site);
        for (int64_t i = 0; i < n->getSExtValue(); i++) if (!st.count(i)) report("task-arguments", &F, C, site, "argument " + std::to_string(i + 1) + " of the task is not set");
        for (auto *t : ts.fs) {
            if ((int64_t)t->arg_size() != n->getSExtValue()) { report("task-signature", &F, C, t->getName().str(), t->getName().str() + " takes " + std::to_string(t->arg_size()) + " arguments, the task has " + std::to_string(n->getSExtValue())); continue; }
            for (auto &p : st) if (p.first >= 0 && p.first < (int64_t)t->arg_size()) {
                const StoreInst *s = p.second[0];
                for (auto *q : p.second) if (DT.dominates(s, q)) s = q;
                const Value *o = s->getValueOperand();
                if (auto *c = dyn_cast<Operator>(o)) if (c->getOpcode() == Instruction::IntToPtr) o = c->getOperand(0);
                auto *a = t->getArg(p.first);
                char want = numeric(a) ? 'i' : kindOf(a->getType()), have = kindOf(o->getType());
                if (isa<Constant>(o) || a->use_empty() || want == have) continue;
                report("task-signature", &F, C, t->getName().str(), "argument " + std::to_string(p.first + 1) + " of " + t->getName().str() + " is a " + (want == 'p' ? "pointer" : "number") + ", the task passes a " + (have == 'p' ? "pointer" : "number"));
            }
        }
    }
}
// lists of values with their count
void counted() {
    for (auto &F : *M) for (auto &I : instructions(F)) {
        auto *C = dyn_cast<CallBase>(&I);
        auto *f = C ? calleeOf(C) : nullptr;
        if (!f || !f->isVarArg() || f->isDeclaration() || f->arg_size() != 1 || !f->getArg(0)->getType()->isIntegerTy(64)) continue;
        unsigned n = C->arg_size() - 1;
        instance("counted-call", &F, C, f->getName().str());
        auto *k = dyn_cast<ConstantInt>(C->getArgOperand(0));
        if (!k || k->getSExtValue() != n) report("counted-arguments", &F, C, f->getName().str(), "passes " + std::to_string(n) + " values to " + f->getName().str() + (k ? " and declares " + std::to_string(k->getSExtValue()) : " with a count that is not a constant"));
        for (unsigned i = 1; i < C->arg_size(); i++) if (!C->getArgOperand(i)->getType()->isPointerTy()) report("counted-arguments", &F, C, f->getName().str(), "value " + std::to_string(i) + " of " + f->getName().str() + " is not a pointer");
    }
}
void pointers() {
    for (auto &F : *M) for (auto &I : instructions(F)) {
        auto *C = dyn_cast<CallBase>(&I);
        if (!C || C->isInlineAsm() || calleeOf(C) || F.getName() == "pool_call_task_fn") continue;
        auto ts = targetsOf(C->getCalledOperand());
        if (ts.fs.empty()) continue;
        for (auto *t : ts.fs) {
            instance("pointer-call", &F, C, t->getName().str());
            bool bad = !t->isVarArg() && C->arg_size() > t->arg_size();
            if (!bad) for (unsigned i = 0; i < t->arg_size() && i < C->arg_size(); i++) { Type *a = C->getArgOperand(i)->getType(), *b = t->getArg(i)->getType(); if (kindOf(a) == 'f' || kindOf(b) == 'f' ? a != b : (a->isIntegerTy() && b->isIntegerTy() && a->getIntegerBitWidth() < b->getIntegerBitWidth())) bad = true; }
            if (!bad && !I.use_empty()) { Type *a = I.getType(), *b = t->getReturnType(); if (b->isVoidTy() || (kindOf(a) == 'f') != (kindOf(b) == 'f') || (a->isIntegerTy() && b->isIntegerTy() && a->getIntegerBitWidth() > b->getIntegerBitWidth())) bad = true; }
            if (bad) report("call-signature", &F, C, t->getName().str(), "calls " + t->getName().str() + " with arguments it does not take");
        }
    }
}
// ---------------------------------------------------------------- formatted text
std::map<const Function *, int> FMT;  // functions whose parameter is a format
int fmtOf(const Function *f) {
    static const std::map<std::string, int> EXT = {{"printf", 0}, {"fprintf", 1}, {"sprintf", 1}, {"snprintf", 2}, {"dprintf", 1}, {"vprintf", 0}, {"vfprintf", 1}, {"vsprintf", 1}, {"vsnprintf", 2}, {"syslog", 1}, {"__isoc99_sscanf", -1}};
    if (!f) return -1;
    if (f->isDeclaration()) { auto it = EXT.find(f->getName().str()); return it == EXT.end() ? -1 : it->second; }
    auto it = FMT.find(f);
    return it == FMT.end() ? -1 : it->second;
}
bool strConst(const Value *v, std::string &s) {
    auto *g = dyn_cast<GlobalVariable>(v->stripPointerCasts());
    if (!g || !g->isConstant() || !g->hasInitializer()) return false;
    if (isa<ConstantAggregateZero>(g->getInitializer())) { s = ""; return true; }
    auto *d = dyn_cast<ConstantDataArray>(g->getInitializer());
    if (!d || !d->isString()) return false;
    s = d->getAsString().str();
    auto z = s.find('\0');
    if (z != std::string::npos) s.resize(z);
    return true;
}
void strings(const Value *v, std::vector<std::string> &out, bool &all, const Function *F, std::set<const Value *> &seen) {
    if (!seen.insert(v).second) return;
    std::string s;
    if (strConst(v, s)) { out.push_back(s); return; }
    if (auto *p = dyn_cast<PHINode>(v)) { for (auto &u : p->incoming_values()) strings(u, out, all, F, seen); return; }
    if (auto *q = dyn_cast<SelectInst>(v)) { strings(q->getTrueValue(), out, all, F, seen); strings(q->getFalseValue(), out, all, F, seen); return; }
    if (auto *l = dyn_cast<LoadInst>(v)) {
        auto *g = dyn_cast<GlobalVariable>(getUnderlyingObject(l->getPointerOperand()));
        if (g && g->isConstant() && g->hasInitializer()) { std::vector<const Constant *> todo = {g->getInitializer()}; bool any = false; while (!todo.empty()) { auto *c = todo.back(); todo.pop_back(); if (strConst(c, s)) { out.push_back(s); any = true; } else if (isa<ConstantAggregate>(c)) for (auto &o : c->operands()) todo.push_back(cast<Constant>(o)); } if (any) return; }
    }
    if (auto *a = dyn_cast<Argument>(v)) {
        bool any = false;
        for (auto *u : a->getParent()->users()) { auto *C = dyn_cast<CallBase>(u); if (C && C->getCalledOperand()->stripPointerCasts() == a->getParent() && a->getArgNo() < C->arg_size()) { any = true; strings(C->getArgOperand(a->getArgNo()), out, all, F, seen); } else all = false; }
        if (any) return;
    }
    all = false;
}
// the arguments a format takes: i 32-bit, l 64-bit, p pointer, f floating
bool parseFmt(const std::string &s, std::string &out) {
    for (size_t i = 0; i < s.size(); i++) {
        if (s[i] != '%') continue;
        if (++i >= s.size()) return false;
        if (s[i] == '%') continue;
        while (i < s.size() && strchr("-+ #0'", s[i])) i++;
        if (i < s.size() && s[i] == '*') { out += 'i'; i++; } else while (i < s.size() && isdigit(s[i])) i++;
        if (i < s.size() && s[i] == '.') { i++; if (i < s.size() && s[i] == '*') { out += 'i'; i++; } else while (i < s.size() && isdigit(s[i])) i++; }
        int l = 0;
        while (i < s.size() && strchr("hlLqjzt", s[i])) { if (s[i] == 'l' || s[i] == 'j' || s[i] == 'z' || s[i] == 't' || s[i] == 'q') l++; i++; }
        if (i >= s.size()) return false;
        if (strchr("diouxXc", s[i])) out += l ? 'l' : 'i';
        else if (strchr("fFeEgGaA", s[i])) out += 'f';
        else if (s[i] == 's') out += 's';
        else if (s[i] == 'p') out += 'p';
        else if (s[i] == 'm') {}
        else return false;
    }
    return true;
}
void formats() {
    for (int round = 0; round < 4; round++) for (auto &F : *M) if (!F.isDeclaration()) for (auto &I : instructions(F)) if (auto *C = dyn_cast<CallBase>(&I)) {
        auto *f = calleeOf(C);
        int k = fmtOf(f);
        if (k < 0 || (unsigned)k >= C->arg_size()) continue;
        bool fwd = f->isVarArg() == false;  // takes the argument list of its caller
        if (auto *a = dyn_cast<Argument>(C->getArgOperand(k))) { bool vl = F.isVarArg(); for (auto &p : F.args()) if (p.getType()->isPointerTy()) for (unsigned i = k + 1; i < C->arg_size(); i++) if (C->getArgOperand(i) == &p) vl = true; if (fwd && vl) FMT[&F] = a->getArgNo(); }
    }
    for (auto &F : *M) for (auto &I : instructions(F)) {
        auto *C = dyn_cast<CallBase>(&I);
        auto *f = C ? calleeOf(C) : nullptr;
        int k = fmtOf(f);
        if (k < 0 || (unsigned)k >= C->arg_size()) continue;
        auto it = FMT.find(&F);
        if (!f->isVarArg()) { if (it != FMT.end() && isa<Argument>(C->getArgOperand(k))) continue; }
        std::vector<std::string> fs;
        bool all = true;
        std::set<const Value *> seen;
        strings(C->getArgOperand(k), fs, all, &F, seen);
        instance("format", &F, C, fs.empty() ? f->getName().str() : fs[0]);
        if (!all) { report("format-not-constant", &F, C, f->getName().str(), "text that is not a constant is used as the format of " + f->getName().str()); continue; }
        if (!f->isVarArg()) continue;
        for (auto &s : fs) {
            std::string w;
            if (!parseFmt(s, w)) { report("format-arguments", &F, C, f->getName().str(), "format \"" + s + "\" is malformed"); continue; }
            unsigned n = C->arg_size() - f->arg_size();
            if (w.size() > n) { report("format-arguments", &F, C, f->getName().str(), "format \"" + s + "\" takes " + std::to_string(w.size()) + " arguments, " + std::to_string(n) + " are passed"); continue; }
            if (w.size() < n && fs.size() == 1) report("format-arguments", &F, C, f->getName().str(), "format \"" + s + "\" takes " + std::to_string(w.size()) + " arguments, " + std::to_string(n) + " are passed");
            for (size_t i = 0; i < w.size(); i++) {
                Type *t = C->getArgOperand(f->arg_size() + i)->getType();
                bool ok = w[i] == 'i' ? t->isIntegerTy(32) : w[i] == 'l' ? t->isIntegerTy(64) : w[i] == 'f' ? t->isDoubleTy() : t->isPointerTy();
                if (!ok) report("format-arguments", &F, C, f->getName().str(), "argument " + std::to_string(i + 1) + " of format \"" + s + "\" has another type than its conversion");
            }
        }
    }
}
}
void runCalls() { tasks(); direct(); counted(); pointers(); formats(); }
