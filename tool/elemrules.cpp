// V01: element-wise operations compute the same whatever the shape of their operands, element by element, and keep nulls
#include "elem.h"
#include "lintutil.h"
namespace {
using namespace el;
struct TyI { int tag; const char *name; unsigned w; bool fp; bool null; };
static const TyI TYPES[] = {{1, "b8", 8, false, false}, {2, "u8", 8, false, false}, {3, "i16", 16, false, true}, {4, "i32", 32, false, true}, {5, "i64", 64, false, true}, {6, "symbol", 64, false, false}, {7, "date", 32, false, true}, {8, "time", 32, false, true}, {9, "timestamp", 64, false, true}, {10, "f64", 64, true, true}, {11, "guid", 128, false, false}, {20, "enum", 64, false, false}};
static const TyI *ty(int t) { if (t < 0) t = -t; for (auto &x : TYPES) if (x.tag == t) return &x; return nullptr; }
static std::string tname(int t) { auto *x = ty(t); return x ? (t > 0 ? std::string(x->name) + " vector" : std::string(x->name) + " atom") : std::to_string(t); }

struct Case { Lits lits; E val = nullptr; std::map<E, E> fixed; const Instruction *I = nullptr; };
struct Arm {
    enum { NONE, VALUE, ERR, UNKNOWN } kind = NONE;
    std::vector<Case> cs;
    std::set<int> tags;          // of atoms returned
    bool vec = false;
    unsigned w = 0;
    std::string why;
    const Instruction *at = nullptr;
    std::vector<std::pair<const Instruction *, std::string>> index;   // what is wrong with the places
};
static bool isTrueLit(E e) { return e->k == N::OP && e->w == 1; }
// truth values stored as numbers: one case per outcome
static void splitBool(Case c, std::vector<Case> &out, int d = 0) {
    E v = c.val;
    E b = nullptr;
    bool neg = false;
    if (v && d < 4) {
        if (v->k == N::OP && v->op == "zext" && v->a[0]->w == 1) b = v->a[0];
        else if (v->k == N::SUM && v->c == 1 && v->t.size() == 1 && v->t[0].first == -1 && v->t[0].second->op == "zext" && v->t[0].second->a[0]->w == 1) b = v->t[0].second->a[0], neg = true;
    }
    while (b && b->op == "not") { b = b->a[0]; neg = !neg; }
    if (!b || !isTrueLit(b)) { out.push_back(c); return; }
    for (bool t : {true, false}) {
        Case n = c;
        auto it = c.lits.find(b);
        if (it != c.lits.end() && it->second != t) continue;
        n.lits[b] = t;
        n.val = konst(t != neg, v->w);
        out.push_back(n);
    }
}
static E shiftless(E e, E K, E off);
struct Sig { const Function *F; int x, y, len, off, out; };

static std::map<std::string, Sig> SIGS;
static Arm swapped(const Arm &a);
static Arm arm(const Sig &g, int tx, int ty_, int depth = 0) {
    Spec sp;
    E px = leaf("px", 64), py = leaf("py", 64), po = leaf("out", 64), len = leaf("len", 64), off = leaf("off", 64);
    sp.args.resize(g.F->arg_size());
    sp.args[g.x] = px;
    sp.objs.push_back({px, tx, 'X'});
    if (g.y >= 0) { sp.args[g.y] = py; sp.objs.push_back({py, ty_, 'Y'}); }
    if (g.len >= 0) sp.args[g.len] = len;
    if (g.off >= 0) sp.args[g.off] = off;
    if (g.out >= 0) sp.args[g.out] = po;
    sp.len = len;
    Arm A;
    sp.stopAt = [](const std::string &n) { return SIGS.count(n) > 0; };
    auto ps = evaluate(g.F, sp);
    // handed on to another operation, with the operands as they are or exchanged
    if (ps.size() == 1 && ps[0].lits.empty() && !ps[0].calls.empty() && SIGS.count(ps[0].calls.back().first) && depth < 3 && g.y >= 0) {
        const Sig &h = SIGS[ps[0].calls.back().first];
        auto &a = ps[0].calls.back().second;
        auto at = [&](int i) { return i >= 0 && i < (int)a.size() ? a[i] : nullptr; };
        if (h.y >= 0 && at(h.len) == len && at(h.off) == off && at(h.out) == po) {
            if (at(h.x) == px && at(h.y) == py) return arm(h, tx, ty_, depth + 1);
            if (at(h.x) == py && at(h.y) == px) return swapped(arm(h, ty_, tx, depth + 1));
        }
        A.kind = Arm::UNKNOWN; A.why = "handed on"; A.at = ps[0].at;
        return A;
    }
    for (auto &p : ps) if (!p.calls.empty() && SIGS.count(p.calls.back().first)) { A.kind = Arm::UNKNOWN; A.why = "handed on"; A.at = p.at; return A; }
    size_t nIter = 0, nRet = 0, nErr = 0;
    std::set<const BasicBlock *> loops;
    for (auto &p : ps) {
        if (p.kind == Path::BAD) { A.kind = Arm::UNKNOWN; A.why = p.why; A.at = p.at; return A; }
        if (p.kind == Path::RET && p.ret && p.ret->k == N::L && p.ret->op == "ERR") nErr++;
        else if (p.kind == Path::RET) nRet++;
        else nIter++;
    }
    if (nErr == ps.size()) { A.kind = Arm::ERR; return A; }
    E start = add(off, konst(0, 64));
    if (nIter) {
        A.vec = true;
        std::set<E> bad;
        for (auto &p : ps) {
            if (p.kind != Path::ITER) continue;
            std::vector<const el::Store *> st;
            for (auto &s : p.st) if (mentions(s.addr, po)) st.push_back(&s);
            if (st.empty()) { A.kind = Arm::UNKNOWN; A.why = "round without a store"; A.at = p.at; return A; }
            // the rounds
            E first = konst(0, 64), last = nullptr;
            bool known = p.round != nullptr;
            for (auto &gd : p.guards) {
                E c = gd.atom;
                bool pos = gd.pos;
                if (c->op == "not") { c = c->a[0]; pos = !pos; }
                if (c->op == "slt" && pos) {       // a + K < b
                    E d = add(c->a[1], c->a[0], -1);
                    E e = add(d, p.round);
                    if (mentions(e, p.round)) { known = false; continue; }
                    last = e;
                } else if (c->op == "eq0" && !pos) {   // stride * K == distance
                    E d = c->a[0];
                    int64_t k = 0;
                    if (d->k == N::SUM) for (auto &t : d->t) if (t.second == p.round) k = t.first;
                    if (d == p.round) k = 1;
                    E rest = k ? add(d, scale(p.round, k), -1) : nullptr;
                    if (!k || mentions(rest, p.round)) { known = false; continue; }
                    rest = scale(rest, -1);
                    bool div = true;
                    std::vector<std::pair<int64_t, E>> t;
                    if (rest->k == N::SUM) { for (auto &q : rest->t) { div &= q.first % k == 0; t.push_back({q.first / k, q.second}); } div &= (int64_t)rest->c % k == 0; last = sum(64, t, (uint64_t)((int64_t)rest->c / k)); }
                    else if (k == 1) last = rest;
                    else if (k == -1) last = scale(rest, -1);
                    else div = false;
                    if (!div) { known = false; continue; }
                } else known = false;
            }
            if (!last) known = false;
            for (auto *s : st) {
                E d = add(s->addr, konst(16, 64), -1);
                d = add(d, po, -1);
                unsigned b = s->w / 8;
                E idx = nullptr;
                if (d->k == N::SUM && b) { bool ok = true; std::vector<std::pair<int64_t, E>> t; for (auto &q : d->t) { ok &= q.first % (int64_t)b == 0; t.push_back({q.first / (int64_t)b, q.second}); } if (ok && (int64_t)d->c % (int64_t)b == 0) idx = sum(64, t, (uint64_t)((int64_t)d->c / (int64_t)b)); }
                else if (b == 1) idx = d;
                if (!idx || mentions(idx, po)) { A.kind = Arm::UNKNOWN; A.why = "place of a result"; A.at = s->I; return A; }
                A.w = s->w;
                for (auto &r : p.rd) {
                    if (r.idx == idx) continue;
                    if (st.size() > 1) { bool any = false; E di = add(r.idx, idx, -1); any = isC(di) && sval(di) > -64 && sval(di) < 64; if (any) continue; }
                    A.index.push_back({r.I, std::string(r.who == 'X' ? "the left" : "the right") + " operand's element " + str(r.idx) + " makes result element " + str(idx)});
                }
                if (known && st.size() == 1) {
                    E lo = subst(idx, {{p.round, konst(0, 64)}}), hi = subst(idx, {{p.round, add(last, konst(1, 64), -1)}});
                    E wantHi = add(add(off, leaf("len", 64)), konst(1, 64), -1);
                    bool up = lo == off && hi == wantHi, down = hi == off && lo == wantHi;
                    if (!up && !down) A.index.push_back({s->I, "result elements " + str(lo) + " .. " + str(hi) + " are computed instead of off .. (off + len - 1)"});
                }
                Case c;
                c.lits = p.lits;
                for (auto it = c.lits.begin(); it != c.lits.end();) if (mentions(it->first, p.round) || mentions(it->first, leaf("len", 64)) || mentions(it->first, off)) it = c.lits.erase(it); else ++it;
                c.fixed = p.fixed;
                c.val = s->val;
                if (c.val && g.off >= 0 && p.round) {
                    E sh = shiftless(c.val, p.round, off);
                    for (auto &l : c.lits) if (!sh) sh = shiftless(l.first, p.round, off);
                    if (sh) A.index.push_back({s->I, "the value of a result element depends on " + str(sh) + ", which does not start where the part does"});
                }
                c.I = s->I;
                if (!c.val) { A.kind = Arm::UNKNOWN; A.why = "value of a result"; A.at = s->I; return A; }
                splitBool(c, A.cs);
            }
        }
        A.kind = Arm::VALUE;
        return A;
    }
    for (auto &p : ps) {
        if (p.ret && p.ret->k == N::L && p.ret->op == "ERR") { A.kind = Arm::UNKNOWN; A.why = "error on some values"; return A; }
        Case c;
        c.lits = p.lits;
        c.fixed = p.fixed;
        if (p.ret == px && tx < 0) { A.tags.insert(tx); c.val = leaf("X", ty(tx)->w); c.I = p.at; splitBool(c, A.cs); A.w = ty(tx)->w; continue; }
        if (!p.ret || p.ret->k != N::OP || p.ret->op != "atom") { A.kind = Arm::UNKNOWN; A.why = "result"; return A; }
        for (auto &s : p.st) if (add(s.addr, p.ret, -1) == konst(8, 64)) { c.val = s.val; c.I = s.I; A.w = s.w; }
        if (!c.val) { A.kind = Arm::UNKNOWN; A.why = "value of the result"; return A; }
        A.tags.insert(-(int)(int8_t)sval(p.ret->a[0]));
        splitBool(c, A.cs);
    }
    A.kind = A.cs.empty() ? Arm::UNKNOWN : Arm::VALUE;
    return A;
}
// comparisons that cannot both be as said
static bool contradict(const Lits &a, const std::map<E, E> &fa, const Lits &b, const std::map<E, E> &fb) {
    for (auto &p : a) { auto it = b.find(p.first); if (it != b.end() && it->second != p.second) return true; }
    for (auto &p : fa) { auto it = fb.find(p.first); if (it != fb.end() && it->second != p.second) return true; }
    for (auto &p : b) { E v = subst(p.first, fa); if (isC(v) && (v->c != 0) != p.second) return true; }
    for (auto &p : a) { E v = subst(p.first, fb); if (isC(v) && (v->c != 0) != p.second) return true; }
    // the same two numbers: equal and less
    auto less = [](const Lits &l, const Lits &m) {
        for (auto &p : l) {
            if (!p.second || p.first->k != N::OP || (p.first->op != "slt" && p.first->op != "ult" && p.first->op != "folt")) continue;
            for (auto &q : m) {
                if (!q.second || q.first->k != N::OP) continue;
                if (q.first->op == "eq0" && !p.first->a[0]->fp) { E d = add(p.first->a[0], p.first->a[1], -1); if (d == q.first->a[0] || scale(d, -1) == q.first->a[0]) return true; }
                if (q.first->op == p.first->op && q.first->a[0] == p.first->a[1] && q.first->a[1] == p.first->a[0]) return true;
                if (q.first->op == "foeq" && p.first->op == "folt" && ((q.first->a[0] == p.first->a[0] && q.first->a[1] == p.first->a[1]) || (q.first->a[0] == p.first->a[1] && q.first->a[1] == p.first->a[0]))) return true;
            }
        }
        return false;
    };
    return less(a, b) || less(b, a);
}
static bool hasUnknown(E e) {
    if (e->k == N::L && (e->op == "undef" || e->op.compare(0, 6, "result") == 0 || e->op.compare(0, 3, "acc") == 0 || e->op.compare(0, 5, "local") == 0)) return true;
    if (e->k == N::OP && e->op == "load") return true;
    for (auto &p : e->t) if (hasUnknown(p.second)) return true;
    for (auto *a : e->a) if (hasUnknown(a)) return true;
    return false;
}
static E isNullF(E v) {  // a stored f64 that is null is one value
    if (isC(v) && v->w == 64 && (v->c & 0x7FF0000000000000ULL) == 0x7FF0000000000000ULL && (v->c & 0xFFFFFFFFFFFFFULL)) return konst(0x7ff8000000000000ULL, 64);
    return v;
}
// one of two ordinary (not null) numbers is less, equal, or greater: what a comparison says then (bit 0: less, 1: equal, 2: greater), or -1
static bool from(E e, bool left) {
    if (e->k == N::L) return e->op == (left ? "X" : "Y") || e->op == (left ? "&X" : "&Y") || e->op == (left ? "px" : "py");
    for (auto &p : e->t) if (from(p.second, left)) return true;
    for (auto *a : e->a) if (from(a, left)) return true;
    return false;
}
static int atomIn(E a, int sc, const std::map<E, E> &cmpv) {   // sc: -1 less, 0 equal, 1 greater
    a = subst(a, cmpv);
    if (isC(a)) return a->c != 0;
    if (a->k != N::OP) return -1;
    if (a->op == "not") { int v = atomIn(a->a[0], sc, cmpv); return v < 0 ? v : !v; }
    if (a->op == "eq0") {
        E d = a->a[0];
        bool x = from(d, true), y = from(d, false);
        if (x && y) { if (d->k != N::SUM || d->t.size() != 2 || d->t[0].first != -d->t[1].first || d->c) return -1; return sc == 0; }
        // null tests: not null
        if (d->k == N::SUM && d->t.size() == 1 && d->w >= 16 && d->c == 1ULL << (d->w - 1)) return 0;
        if (d->k == N::SUM && d->t.size() == 1 && d->t[0].second->op == "and") return 0;      // exponent of a null f64
        if (d->k == N::OP && d->op == "and") return 0;
        return -1;
    }
    if (a->op == "isnan" || a->op == "funo") return 0;
    if (a->op == "slt" || a->op == "ult" || a->op == "folt" || a->op == "fole" || a->op == "foeq") {
        bool x0 = from(a->a[0], true), y0 = from(a->a[0], false), x1 = from(a->a[1], true), y1 = from(a->a[1], false);
        if (a->op == "foeq" && x0 != y0 && x1 != y1 && x0 != x1) return sc == 0;
        if (x0 && !y0 && y1 && !x1) return sc < 0 || (sc == 0 && a->op == "fole");
        if (y0 && !x0 && x1 && !y1) return sc > 0 || (sc == 0 && a->op == "fole");
    }
    return -1;
}
static void callsIn(E e, const char *n, std::set<E> &out) {
    if (e->k == N::OP && e->op == n) out.insert(e);
    for (auto &p : e->t) callsIn(p.second, n, out);
    for (auto *a : e->a) callsIn(a, n, out);
}
static int orderOf(const Arm &a, const Instruction *&at) {
    int sig = 0;
    for (int sc : {-1, 0, 1}) {
        int res = -1;
        for (auto &c : a.cs) {
            std::map<E, E> m;
            for (auto &l : c.lits) { std::set<E> cs; callsIn(l.first, "call:memcmp", cs); for (E e : cs) { bool xy = e->a[0] == leaf("&X", 64); m[e] = konst((uint64_t)(int64_t)(xy ? sc : -sc), e->w); } }
            bool in = true, unk = false;   // what does not compare the two may be either
            for (auto &l : c.lits) { int v = atomIn(l.first, sc, m); if (v < 0 && l.first->k == N::OP && l.first->a.size() == 2 && (isC(l.first->a[0]) || isC(l.first->a[1]))) in = false; /* a null against an ordinary number */ else if (v < 0) unk |= from(l.first, true) && from(l.first, false); else if ((v != 0) != l.second) in = false; }
            if (!in) continue;
            if (unk || !isC(c.val) || c.val->c > 1) return -1;
            if (res >= 0 && res != (int)c.val->c) return -1;
            res = (int)c.val->c;
            at = c.I ? c.I : at;
        }
        if (res < 0) return -1;
        if (res) sig |= 1 << (sc + 1);
    }
    return sig;
}
static const char *orderName(int s) { static const char *n[] = {"never", "<", "=", "<=", ">", "<>", ">=", "always"}; return n[s & 7]; }
// sums in which the round counts but not the place the part starts at
static E shiftless(E e, E K, E off) {
    if (e->k == N::SUM) { int64_t k = 0, o = 0; for (auto &p : e->t) { if (p.second == K) k = p.first; if (p.second == off) o = p.first; } if (k != o) return e; }
    else if (e == K) return e;
    for (auto &p : e->t) if (p.second != K) if (E r = shiftless(p.second, K, off)) return r;
    for (auto *a : e->a) if (E r = shiftless(a, K, off)) return r;
    return nullptr;
}
// two arms compute different values for the same operands (map: values of the second from those of the first)
static bool differ(const Arm &a, const Arm &b, std::string &why, const Instruction *&at, bool complement = false, bool fp = false, bool *unk = nullptr) {
    for (auto &p : a.cs)
        for (auto &q : b.cs) {
            if (contradict(p.lits, p.fixed, q.lits, q.fixed)) continue;
            auto f = p.fixed;
            f.insert(q.fixed.begin(), q.fixed.end());
            E u = subst(p.val, f), v = subst(q.val, f);
            if (fp) { u = isNullF(u); v = isNullF(v); }
            if (complement) v = isC(v) ? konst(!v->c, v->w) : v;
            if (u == v) continue;
            if (hasUnknown(u) || hasUnknown(v)) { if (unk) *unk = true; continue; }
            bool lu = false;
            for (auto *l : {&p.lits, &q.lits}) for (auto &x : *l) lu |= hasUnknown(x.first);
            if (lu) { if (unk) *unk = true; continue; }
            why = str(u) + " and " + str(v);
            at = q.I;
            return true;
        }
    return false;
}
static E swapXY(E e) {
    std::map<E, E> m;
    for (unsigned w : {8u, 16u, 32u, 64u}) { m[leaf("X", w)] = leaf("Y", w); m[leaf("Y", w)] = leaf("X", w); }
    m[leaf("px", 64)] = leaf("py", 64);
    m[leaf("py", 64)] = leaf("px", 64);
    m[leaf("&X", 64)] = leaf("&Y", 64);
    m[leaf("&Y", 64)] = leaf("&X", 64);
    return subst(e, m);
}
static Arm swapped(const Arm &a) {
    Arm r = a;
    for (auto &c : r.cs) {
        Lits l;
        for (auto &p : c.lits) { E e = swapXY(p.first); bool s = p.second; while (e->op == "not") { e = e->a[0]; s = !s; } if (!isC(e)) l[e] = s; }
        c.lits = l;
        c.val = swapXY(c.val);
        std::map<E, E> f;
        for (auto &p : c.fixed) f[swapXY(p.first)] = p.second;
        c.fixed = f;
    }
    return r;
}
static E nullOf(const TyI *t) { return t->fp ? konst(0x7ff8000000000000ULL, 64) : konst(1ULL << (t->w - 1), t->w); }

// the type of the vector a mapping operation makes for operands of these types
static std::set<int> vectorType(const Function *mapper, const Function *op, int opArg, int xArg, int yArg, int tx, int ty_) {
    Spec sp;
    E px = leaf("px", 64), py = leaf("py", 64);
    sp.args.resize(mapper->arg_size());
    sp.args[opArg] = leaf("@" + op->getName().str(), 64);
    sp.args[xArg] = px;
    sp.objs.push_back({px, tx, 'X'});
    if (yArg >= 0) { sp.args[yArg] = py; sp.objs.push_back({py, ty_, 'Y'}); }
    sp.stopAt = [](const std::string &n) { return n.empty() || n == "vector" || n == "pool_prepare" || n == "pool_chunk_aligned"; };
    std::set<int> r;
    for (auto &p : evaluate(mapper, sp)) {
        if (p.kind == Path::BAD) continue;
        if (!p.calls.empty() && p.calls.back().first == "vector" && p.calls.back().second.size() && p.calls.back().second[0]) { E t = p.calls.back().second[0]; if (isC(t)) r.insert((int)(int8_t)sval(t)); else r.insert(-1); }
    }
    return r;
}
struct MapUse { const Function *mapper; int op, x, y; };
static std::vector<MapUse> mappers(const Function *F) {
    std::vector<MapUse> r;
    std::set<std::pair<const Function *, int>> seen;
    for (auto *U : F->users()) {
        auto *C = dyn_cast<CallBase>(U);
        if (!C) continue;
        auto *G = lu::calleeOf(C);
        if (!G || G->isDeclaration()) continue;
        for (unsigned i = 0; i < C->arg_size() && i < G->arg_size(); i++) {
            if (C->getArgOperand(i)->stripPointerCasts() != F || !seen.insert({G, i}).second) continue;
            bool calls = false;
            for (auto &B : *G) for (auto &I : B) if (auto *D = dyn_cast<CallBase>(&I)) calls |= D->getCalledOperand() == G->getArg(i);
            if (!calls) continue;
            MapUse m{G, (int)i, -1, -1};
            for (unsigned j = 0; j < G->arg_size(); j++) if (j != i && G->getArg(j)->getType()->isPointerTy()) { if (m.x < 0) m.x = j; else if (m.y < 0) m.y = j; }
            if (m.x >= 0) r.push_back(m);
        }
    }
    return r;
}
// obj (obj [, obj], len, offset [, out])
static bool signature(const Function *F, Sig &s) {
    if (F->isDeclaration() || !F->getReturnType()->isPointerTy()) return false;
    std::string k;
    for (auto &a : F->args()) k += a.getType()->isPointerTy() ? 'p' : a.getType()->isIntegerTy(64) ? 'i' : '?';
    if (k == "ppiip") s = {F, 0, 1, 2, 3, 4};
    else if (k == "piip") s = {F, 0, -1, 1, 2, 3};
    else return false;
    // it looks at the type of its operands
    for (int o : {s.x, s.y}) if (o >= 0 && paramKind(F, o) != P_OBJ) return false;
    return true;
}
static std::string opName(const Function *F) { return F->getName().str(); }
}
void runElem() {
    bool dbg = getenv("RA_ELEM");
    std::map<std::string, std::map<std::pair<int, int>, Arm>> all;
    for (auto &F : *M) { Sig s; if (signature(&F, s) && !mappers(&F).empty()) SIGS[opName(&F)] = s; }
    for (auto &F : *M) {
        Sig s;
        if (!signature(&F, s)) continue;
        auto ms = mappers(&F);
        if (ms.empty()) continue;
        auto &arms = all[opName(&F)];
        instance("elem-operation", &F, nullptr, opName(&F));
        std::vector<int> tags;
        for (auto &t : TYPES) { if (t.tag != 20) tags.push_back(-t.tag); tags.push_back(t.tag); }
        for (int x : tags) {
            if (s.y < 0) { arms[{x, 0}] = arm(s, x, 0); continue; }
            for (int y : tags) arms[{x, y}] = arm(s, x, y);
        }
        for (auto &p : arms) {
            Arm &a = p.second;
            std::string what = tname(p.first.first) + (s.y >= 0 ? ", " + tname(p.first.second) : "");
            if (dbg && a.kind != Arm::ERR) { fprintf(stderr, "%s %s kind=%d %s%s\n", opName(&F).c_str(), what.c_str(), a.kind, a.vec ? "vec " : "", a.why.c_str()); for (auto &c : a.cs) { fprintf(stderr, "    %s  when", str(c.val).c_str()); for (auto &l : c.lits) fprintf(stderr, " %s%s", l.second ? "" : "!", str(l.first).c_str()); fprintf(stderr, "\n"); } }
            if (a.kind == Arm::UNKNOWN) instance("elem-undecided", &F, a.at, what + ": " + a.why);
            if (a.kind != Arm::VALUE) continue;
            instance("elem-arm", &F, a.cs[0].I, what);
            for (auto &i : a.index) report("elem-index", &F, i.first, what, opName(&F) + " of " + what + ": " + i.second);
        }
        // shapes
        for (auto &p : arms) {
            int x = p.first.first, y = p.first.second;
            if (x > 0 || y > 0) continue;
            std::vector<std::pair<int, int>> sh = {{x, y}, {x, -y}, {-x, y}, {-x, -y}};
            if (s.y < 0) sh = {{x, 0}, {-x, 0}};
            const std::pair<int, int> *ref = nullptr;
            for (auto &q : sh) {
                Arm &b = arms[q];
                if (b.kind != Arm::VALUE) continue;
                if (!ref) { ref = &q; continue; }
                Arm &a = arms[*ref];
                std::string why;
                const Instruction *at = nullptr;
                bool fp = (a.tags.size() == 1 && ty(*a.tags.begin()) && ty(*a.tags.begin())->fp), unk = false;
                std::string w1 = tname(ref->first) + (s.y >= 0 ? ", " + tname(ref->second) : ""), w2 = tname(q.first) + (s.y >= 0 ? ", " + tname(q.second) : "");
                instance("elem-pair", &F, b.cs[0].I, w1 + " / " + w2);
                if (a.w != b.w) { report("elem-shape", &F, b.cs[0].I, w2, opName(&F) + ": " + w1 + " makes " + std::to_string(a.w) + "-bit results, " + w2 + " makes " + std::to_string(b.w) + "-bit ones"); continue; }
                if (differ(a, b, why, at, false, fp, &unk)) report("elem-shape", &F, at, w2, opName(&F) + ": " + w1 + " and " + w2 + " compute different values for the same elements: " + why);
                else if (unk) instance("elem-undecided", &F, at, w2 + ": operands not followed");
            }
        }
        // comparisons say the same of every type
        std::map<int, int> votes;
        std::map<std::pair<int, int>, std::pair<int, const Instruction *>> ord;
        if (s.y >= 0)
            for (auto &p : arms) {
                if (p.second.kind != Arm::VALUE) continue;
                const Instruction *at = nullptr;
                int o = orderOf(p.second, at);
                if (o < 0) continue;
                ord[p.first] = {o, at};
                votes[o]++;
            }
        int role = -1;
        for (auto &v : votes) if (role < 0 || v.second > votes[role]) role = v.first;
        if (role >= 0 && votes[role] >= 10)
            for (auto &o : ord) {
                std::string what = tname(o.first.first) + ", " + tname(o.first.second);
                instance("elem-order", &F, o.second.second, what + " " + orderName(o.second.first));
                if (o.second.first != role) report("elem-order", &F, o.second.second, what, opName(&F) + " is true of numbers when left " + orderName(role) + " right, but of " + what + " when left " + orderName(o.second.first) + " right");
            }
        // operations that do not depend on the order of their operands
        if (s.y >= 0) {
            int yes = 0;
            std::vector<std::pair<std::pair<int, int>, std::pair<std::string, const Instruction *>>> no;
            for (auto &p : arms) {
                if (p.first.first > p.first.second) continue;
                auto it = arms.find({p.first.second, p.first.first});
                if (it == arms.end() || p.second.kind != Arm::VALUE || it->second.kind != Arm::VALUE) continue;
                std::string why;
                const Instruction *at = nullptr;
                bool unk = false;
                Arm sw = swapped(p.second);
                if (p.second.w != it->second.w || differ(sw, it->second, why, at, false, true, &unk)) no.push_back({it->first, {why, at}});
                else if (!unk) yes++;
            }
            if (yes >= 20 && (int)no.size() * 4 < yes) {
                instance("elem-commutes", &F, nullptr, std::to_string(yes));
                for (auto &n : no) report("elem-commutes", &F, n.second.second, tname(n.first.first) + ", " + tname(n.first.second), opName(&F) + " does not depend on the order of its operands, but for " + tname(n.first.first) + ", " + tname(n.first.second) + " it does: " + n.second.first);
            }
        }
        // result types and nulls
        bool cmp = true;
        for (auto &p : arms) if (p.second.kind == Arm::VALUE) for (auto &c : p.second.cs) if (!isC(c.val) || c.val->c > 1 || c.val->w != 8) cmp = false;
        for (auto &p : arms) {
            Arm &a = p.second;
            int x = p.first.first, y = p.first.second;
            if (a.kind != Arm::VALUE) continue;
            std::string what = tname(x) + (s.y >= 0 ? ", " + tname(y) : "");
            std::set<int> rt;
            if (!a.vec) { for (int t : a.tags) rt.insert(-t); }
            else {
                for (auto &m : ms) for (int t : vectorType(m.mapper, &F, m.op, m.x, s.y >= 0 ? m.y : -1, x, y)) rt.insert(t);
                if (dbg) { fprintf(stderr, "TYPE %s %s:", opName(&F).c_str(), what.c_str()); for (int t : rt) fprintf(stderr, " %d", t); fprintf(stderr, "\n"); }
                if (rt.size() == 1 && *rt.begin() > 0) {
                    int t = *rt.begin();
                    instance("elem-type", &F, a.cs[0].I, what + " -> " + tname(t));
                    if (ty(t) && ty(t)->w != a.w) report("elem-type", &F, a.cs[0].I, what, opName(&F) + " of " + what + " fills a " + tname(t) + " with " + std::to_string(a.w) + "-bit elements");
                    // the type the same operation on atoms has
                    auto it = arms.find({x < 0 ? x : -x, y < 0 ? y : -y});
                    if (it != arms.end() && it->second.kind == Arm::VALUE && !it->second.vec && it->second.tags.size() == 1 && *it->second.tags.begin() != -t)
                        report("elem-type", &F, a.cs[0].I, what, opName(&F) + " of " + what + " makes a " + tname(t) + ", the same operation on atoms makes a " + tname(*it->second.tags.begin()));
                }
            }
            if (cmp || rt.size() != 1 || *rt.begin() <= 0) continue;
            auto *R = ty(*rt.begin());
            if (!R || !R->null) continue;
            for (int side = 0; side < (s.y >= 0 ? 2 : 1); side++) {
                auto *T = ty(side ? y : x);
                if (!T || !T->null) continue;
                instance("elem-null", &F, a.cs[0].I, what);
                std::map<E, E> f = {{leaf(side ? "Y" : "X", T->w), nullOf(T)}};
                for (auto &c : a.cs) {
                    bool out = false;
                    for (auto &l : c.lits) { E v = subst(l.first, f); if (isC(v) && (v->c != 0) != l.second) out = true; }
                    if (out) continue;
                    E v = isNullF(subst(subst(c.val, c.fixed), f));
                    if (R->fp ? v == nullOf(R) : v == nullOf(R)) continue;
                    if (hasUnknown(v)) continue;
                    report("elem-null", &F, c.I, what, opName(&F) + " of " + what + ": a null " + (side ? "right" : "left") + " operand gives " + str(v) + " instead of null");
                    break;
                }
            }
        }
    }
}
