#include "engine.h"
#include "rules.h"
#include <algorithm>
#include <sstream>

// ------------------------------------------------------------------ globals
Module *M;
const DataLayout *DL;
std::map<const Function *, Summary> SUM;
std::vector<Report> REPORTS;
std::set<std::string> REPORT_KEYS;
Config CFG;

// ------------------------------------------------------------------ terms
static std::map<std::tuple<int, const Term *, const Term *, int64_t, const Value *, unsigned>, T> TT;
static std::vector<std::set<T, TLess>> LEAVES;
const std::set<T, TLess> &leaves(T t) { return LEAVES[t->id]; }
static T mk(Kind k, T a, T b, int64_t c, const Value *v, unsigned w) {
    auto key = std::make_tuple((int)k, a, b, c, v, w);
    auto it = TT.find(key);
    if (it != TT.end()) return it->second;
    Term *t = new Term{k, a, b, c, v, w, (int)LEAVES.size()};
    std::set<T, TLess> l;
    if (a) l.insert(leaves(a).begin(), leaves(a).end());
    if (b) l.insert(leaves(b).begin(), leaves(b).end());
    if (k == K_FRESH || k == K_OLD || k == K_PARAM || k == K_ALLOCA) l.insert(t);
    LEAVES.push_back(l);
    TT[key] = t;
    return t;
}
T tInt(int64_t c, unsigned w) {
    if (w < 64) c = (int64_t)((uint64_t)c << (64 - w)) >> (64 - w);
    return mk(K_INT, 0, 0, c, 0, w);
}
T tNull() { return mk(K_NULL, 0, 0, 0, 0, 64); }
T tGlob(const Value *v) { return mk(K_GLOB, 0, 0, 0, v, 64); }
T tParam(int i, unsigned w) { return mk(K_PARAM, 0, 0, i, 0, w); }
T tFresh(const Value *v, unsigned w) { return mk(K_FRESH, 0, 0, 0, v, w); }
void noteEqual(State &S, T f, T o);
T tOut(const Value *v, int n) { return mk(K_FRESH, 0, 0, n + 1, v, 64); }  // content a call left in its n-th slot argument
T tOld(const Value *v, unsigned w) { return mk(K_OLD, 0, 0, 0, v, w); }
T tOldOut(const Value *v, int n) { return mk(K_OLD, 0, 0, n + 1, v, 64); }
T tAlloca(const Value *v) { return mk(K_ALLOCA, 0, 0, 0, v, 64); }
T tUndef() { return mk(K_UNDEF, 0, 0, 0, 0, 64); }
T tLoad(T a, unsigned w) { return mk(K_LOAD, a, 0, 0, 0, w); }
T tAddr(T base, int64_t off) {
    if (off == 0) return base;
    if (base->k == K_ADDR) return tAddr(base->a, base->c + off);
    return mk(K_ADDR, base, 0, off, 0, 64);
}
T tIdx(T base, T idx, int64_t sz) {
    if (idx->k == K_INT) return tAddr(base, idx->c * sz);
    return mk(K_IDX, base, idx, sz, 0, 64);
}
T tBin(int op, T a, T b, unsigned w) {
    if (a->k == K_INT && b->k == K_INT) {
        APInt x(w, (uint64_t)a->c, true), y(w, (uint64_t)b->c, true);
        switch (op) {
            case Instruction::Add: return tInt((x + y).getSExtValue(), w);
            case Instruction::Sub: return tInt((x - y).getSExtValue(), w);
            case Instruction::Mul: return tInt((x * y).getSExtValue(), w);
            case Instruction::And: return tInt((x & y).getSExtValue(), w);
            case Instruction::Or: return tInt((x | y).getSExtValue(), w);
            case Instruction::Xor: return tInt((x ^ y).getSExtValue(), w);
            case Instruction::Shl: if (y.ult(w)) return tInt(x.shl(y).getSExtValue(), w); break;
            case Instruction::LShr: if (y.ult(w)) return tInt(x.lshr(y).getSExtValue(), w); break;
            case Instruction::AShr: if (y.ult(w)) return tInt(x.ashr(y).getSExtValue(), w); break;
            case Instruction::SDiv: if (y != 0 && !(y.isAllOnes())) return tInt(x.sdiv(y).getSExtValue(), w); break;
            case Instruction::SRem: if (y != 0 && !(y.isAllOnes())) return tInt(x.srem(y).getSExtValue(), w); break;
        }
    }
    // canonicalise x - c => x + (-c); (x + c1) + c2 => x + (c1+c2)
    if (op == Instruction::Sub && b->k == K_INT && b->c != INT64_MIN) return tBin(Instruction::Add, a, tInt(-b->c, w), w);
    if (op == Instruction::Add && a->k == K_INT) std::swap(a, b);
    if (op == Instruction::Add && b->k == K_INT) {
        if (b->c == 0) return a;
        if (a->k == K_BIN && a->c == Instruction::Add && a->b->k == K_INT && a->w == w)
            return tBin(Instruction::Add, a->a, tInt((int64_t)((uint64_t)a->b->c + (uint64_t)b->c), w), w);
    }
    if ((op == Instruction::Sub) && a == b) return tInt(0, w);
    return mk(K_BIN, a, b, op, 0, w);
}
T tCast(int op, T a, unsigned w) {
    if (op == Instruction::BitCast || op == Instruction::PtrToInt || op == Instruction::IntToPtr) {
        if (op == Instruction::IntToPtr && a->k == K_INT && a->c == 0) return tNull();
        return a;
    }
    if (a->k == K_INT) {
        if (op == Instruction::ZExt) {
            uint64_t u = (uint64_t)a->c;
            if (a->w < 64) u &= ((1ULL << a->w) - 1);
            return tInt((int64_t)u, w);
        }
        if (op == Instruction::SExt || op == Instruction::Trunc) return tInt(a->c, w);
    }
    if ((op == Instruction::SExt || op == Instruction::ZExt) && a->k == K_CAST && a->c == Instruction::ZExt && a->w > a->a->w) return tCast(Instruction::ZExt, a->a, w);
    if (op == Instruction::SExt && a->k == K_CAST && a->c == Instruction::SExt) return tCast(Instruction::SExt, a->a, w);
    if (op == Instruction::Trunc && a->k == K_CAST && (a->c == Instruction::SExt || a->c == Instruction::ZExt)) {
        if (a->a->w == w) return a->a;
        if (a->a->w > w) return tCast(Instruction::Trunc, a->a, w);
    }
    return mk(K_CAST, a, 0, op, 0, w);
}
T tCmp(int pred, T a, T b) { return mk(K_CMP, a, b, pred, 0, 1); }
T rootOf(T t) {
    while (t->k == K_ADDR || t->k == K_IDX) t = t->a;
    return t;
}
T subst(T t, std::function<T(T)> f) {
    T r = f(t);
    if (r) return r;
    if (!t->a && !t->b) return t;
    T a = t->a ? subst(t->a, f) : nullptr, b = t->b ? subst(t->b, f) : nullptr;
    if (a == t->a && b == t->b) return t;
    switch (t->k) {
        case K_ADDR: return tAddr(a, t->c);
        case K_IDX: return tIdx(a, b, t->c);
        case K_LOAD: return tLoad(a, t->w);
        case K_BIN: return tBin(t->c, a, b, t->w);
        case K_CAST: return tCast(t->c, a, t->w);
        case K_CMP: return tCmp(t->c, a, b);
        default: return t;
    }
}
T tSubstLeaf(T t, T from, T to) {
    if (!leaves(t).count(from)) return t;
    return subst(t, [&](T x) -> T { return x == from ? to : nullptr; });
}
std::string show(T t) {
    std::string s;
    raw_string_ostream o(s);
    switch (t->k) {
        case K_INT: o << t->c; break;
        case K_NULL: o << "null"; break;
        case K_GLOB: if (t->v->hasName()) o << "@" << t->v->getName(); else o << "@c"; break;
        case K_PARAM: o << "arg" << t->c; break;
        case K_FRESH: case K_OLD: {
            o << (t->k == K_OLD ? "old:" : "");
            if (auto *I = dyn_cast<Instruction>(t->v)) {
                if (auto *C = dyn_cast<CallInst>(I)) {
                    if (C->getCalledFunction()) o << C->getCalledFunction()->getName(); else o << "call";
                } else o << I->getOpcodeName();
                if (I->getDebugLoc()) o << "@" << I->getDebugLoc().getLine();
            }
            break;
        }
        case K_ALLOCA: o << "local"; break;
        case K_UNDEF: o << "?"; break;
        case K_ADDR: o << "(" << show(t->a) << "+" << t->c << ")"; break;
        case K_IDX: o << show(t->a) << "[" << show(t->b) << "*" << t->c << "]"; break;
        case K_LOAD: o << "*" << show(t->a); break;
        case K_BIN: o << "(" << show(t->a) << " " << Instruction::getOpcodeName(t->c) << " " << show(t->b) << ")"; break;
        case K_CAST: o << "(" << Instruction::getOpcodeName(t->c) << t->w << " " << show(t->a) << ")"; break;
        case K_CMP: o << "(" << show(t->a) << " " << CmpInst::getPredicateName((CmpInst::Predicate)t->c) << " " << show(t->b) << ")"; break;
    }
    return o.str();
}

// ------------------------------------------------------------------ debug-info helpers
static const DIType *stripTD(const DIType *t) {
    while (t) {
        if (auto *d = dyn_cast<DIDerivedType>(t)) {
            unsigned g = d->getTag();
            if (g == dwarf::DW_TAG_typedef || g == dwarf::DW_TAG_const_type || g == dwarf::DW_TAG_volatile_type || g == dwarf::DW_TAG_restrict_type) {
                t = d->getBaseType();
                continue;
            }
        }
        break;
    }
    return t;
}
static PK classify(const DIType *t) {
    t = stripTD(t);
    if (!t) return P_OTHER;
    auto *d = dyn_cast<DIDerivedType>(t);
    if (!d || d->getTag() != dwarf::DW_TAG_pointer_type) return P_OTHER;
    const DIType *e = stripTD(d->getBaseType());
    if (!e) return P_RAW;
    if (auto *c = dyn_cast<DICompositeType>(e)) {
        if (c->getName() == "obj_t") return P_OBJ;
        return P_RAW;
    }
    if (auto *d2 = dyn_cast<DIDerivedType>(e))
        if (d2->getTag() == dwarf::DW_TAG_pointer_type) {
            const DIType *e2 = stripTD(d2->getBaseType());
            if (e2 && isa<DICompositeType>(e2) && cast<DICompositeType>(e2)->getName() == "obj_t") return P_SLOT;
        }
    return P_RAW;
}
static std::map<const Function *, std::vector<PK>> PKS;
static const std::vector<PK> &pks(const Function *F) {
    auto it = PKS.find(F);
    if (it != PKS.end()) return it->second;
    std::vector<PK> v;
    if (auto *sp = F->getSubprogram()) {
        auto ta = sp->getType()->getTypeArray();
        for (unsigned i = 0; i < ta.size(); i++) v.push_back(classify(ta[i]));
    }
    return PKS[F] = v;
}
PK paramKind(const Function *F, int i) {
    auto &v = pks(F);
    return i + 1 < (int)v.size() ? v[i + 1] : P_OTHER;
}
PK retKind(const Function *F) {
    auto &v = pks(F);
    return v.size() ? v[0] : P_OTHER;
}
std::string fileOf(const Function *F) {
    if (auto *sp = F->getSubprogram()) return sp->getFilename().str();
    return "?";
}
int lineOf(const Instruction *I) {
    if (I->getDebugLoc()) return I->getDebugLoc().getLine();
    return 0;
}

// ------------------------------------------------------------------ facts
static Fact getFact(const State &S, T t) {
    auto it = S.facts.find(t);
    return it == S.facts.end() ? Fact() : it->second;
}
static int64_t wmin(unsigned w) { return w >= 64 ? INT64_MIN : -(1LL << (w - 1)); }
static int64_t wmax(unsigned w) { return w >= 64 ? INT64_MAX : (1LL << (w - 1)) - 1; }
static bool addOv(int64_t a, int64_t b, int64_t *r) { return __builtin_add_overflow(a, b, r); }
void rangeOf(const State &S, T t, int64_t &lo, int64_t &hi) {
    if (t->k == K_INT) { lo = hi = t->c; return; }
    lo = wmin(t->w); hi = wmax(t->w);
    if (t->w == 1) { lo = -1; hi = 0; }
    if (t->k == K_CAST) {
        int64_t l, h;
        rangeOf(S, t->a, l, h);
        if (t->c == Instruction::SExt) { lo = l; hi = h; }
        else if (t->c == Instruction::ZExt) {
            if (t->a->w == 1) { lo = 0; hi = 1; }
            else if (l >= 0) { lo = l; hi = h; }
            else { lo = 0; hi = t->a->w >= 63 ? INT64_MAX : (1LL << t->a->w) - 1; }
        } else if (t->c == Instruction::Trunc) {
            if (l >= wmin(t->w) && h <= wmax(t->w)) { lo = l; hi = h; }
        }
    } else if (t->k == K_BIN) {
        int64_t al, ah, bl, bh, x, y;
        rangeOf(S, t->a, al, ah);
        rangeOf(S, t->b, bl, bh);
        switch (t->c) {
            case Instruction::Add:
                if (!addOv(al, bl, &x) && !addOv(ah, bh, &y) && x >= wmin(t->w) && y <= wmax(t->w)) { lo = x; hi = y; }
                break;
            case Instruction::Sub:
                if (!__builtin_sub_overflow(al, bh, &x) && !__builtin_sub_overflow(ah, bl, &y) && x >= wmin(t->w) && y <= wmax(t->w)) { lo = x; hi = y; }
                break;
            case Instruction::And:
                if (bl >= 0) { lo = 0; hi = bh; }
                if (al >= 0) { lo = 0; hi = std::min(hi, ah); }
                break;
            case Instruction::Or:
                if (bl == bh && bl > 0 && al >= 0) lo = bl;
                if (bl >= 0 && al >= 0 && lo < 0) lo = 0;
                break;
            case Instruction::URem:
                if (bl == bh && bl > 0) { lo = 0; hi = bl - 1; }
                break;
            case Instruction::SRem:
                if (bl == bh && bl > 0) { hi = bl - 1; lo = al >= 0 ? 0 : -(bl - 1); }
                else if (bl > 0 && bh < INT64_MAX) { hi = bh - 1; lo = al >= 0 ? 0 : -(bh - 1); }
                break;
            case Instruction::SDiv:
            case Instruction::UDiv:
                if (bl == bh && bl > 0 && al >= 0) { lo = al / bl; hi = ah / bl; }
                else if (bl > 0 && al >= 0) { lo = 0; hi = ah; }
                break;
            case Instruction::LShr:
                if (bl == bh && bl > 0 && bl < 63) {
                    if (al >= 0) { lo = al >> bl; hi = ah >> bl; }
                    else { lo = 0; hi = (int64_t)(((t->w >= 64) ? ~0ULL : ((1ULL << t->w) - 1)) >> bl); }
                }
                break;
            case Instruction::AShr:
                if (bl == bh && bl >= 0 && bl < 63) { lo = al >> bl; hi = ah >> bl; }
                break;
            case Instruction::Shl:
                if (bl == bh && bl >= 0 && bl < 31 && al >= 0 && ah < (1LL << 31) && (ah << bl) <= wmax(t->w)) { lo = al << bl; hi = ah << bl; }
                break;
            case Instruction::Mul:
                if (al >= 0 && bl >= 0 && !__builtin_mul_overflow(ah, bh, &y) && y <= wmax(t->w)) { lo = al * bl; hi = y; }
                break;
        }
    }
    auto it = S.facts.find(t);
    if (it != S.facts.end()) {
        const Fact &f = it->second;
        lo = std::max(lo, f.lo);
        hi = std::min(hi, f.hi);
        if (f.hasTy && f.ty.any()) {
            int64_t l = 127, h = -128;
            for (int i = 0; i < 256; i++) if (f.ty[i]) { l = std::min<int64_t>(l, (int8_t)i); h = std::max<int64_t>(h, (int8_t)i); }
            lo = std::max(lo, l); hi = std::min(hi, h);
        }
        while (f.ne.count(lo) && lo < hi) lo++;
        while (f.ne.count(hi) && lo < hi) hi--;
    }
}
static bool setFact(State &S, T t, const Fact &f) {  // false: contradiction
    if (f.hasTy && f.ty.none()) return false;
    if (f.lo > f.hi) return false;
    if (f.lo == f.hi && f.ne.count(f.lo)) return false;
    if (f.trivial()) S.facts.erase(t); else S.facts[t] = f;
    return true;
}
static bool refineRange(State &S, T t, int64_t lo, int64_t hi) {
    if (t->k == K_INT) return t->c >= lo && t->c <= hi;
    if (t->k == K_NULL) return lo <= 0 && hi >= 0;
    int64_t l, h;
    rangeOf(S, t, l, h);
    if (hi < l || lo > h) return false;
    if (t->k == K_CAST) {
        if (t->c == Instruction::SExt) return refineRange(S, t->a, std::max(lo, wmin(t->a->w)), std::min(hi, wmax(t->a->w)));
        if (t->c == Instruction::ZExt && t->a->w > 1) {
            int64_t al, ah;
            rangeOf(S, t->a, al, ah);
            if (al >= 0 || hi <= wmax(t->a->w)) {
                if (lo < 0) lo = 0;
                return refineRange(S, t->a, lo, std::min(hi, wmax(t->a->w)));
            }
        }
    }
    if (t->k == K_BIN && t->c == Instruction::Add && t->b->k == K_INT && t->b->c != INT64_MIN) {
        int64_t nl = INT64_MIN, nh = INT64_MAX, x;
        bool ok = true;
        int64_t al, ah;
        rangeOf(S, t->a, al, ah);
        if (addOv(al, t->b->c, &x) || addOv(ah, t->b->c, &x)) ok = false;
        if (ok) {
            if (lo > INT64_MIN && !addOv(lo, -t->b->c, &x)) nl = x;
            if (hi < INT64_MAX && !addOv(hi, -t->b->c, &x)) nh = x;
            if (nl > nh) return false;
            return refineRange(S, t->a, std::max(nl, wmin(t->w)), std::min(nh, wmax(t->w)));
        }
    }
    Fact f = getFact(S, t);
    f.lo = std::max(f.lo, lo);
    f.hi = std::min(f.hi, hi);
    if (t->w == 8) {
        TySet m;
        for (int i = 0; i < 256; i++) if ((int8_t)i >= lo && (int8_t)i <= hi) m.set(i);
        f.ty = f.hasTy ? (f.ty & m) : m;
        f.hasTy = true;
    }
    return setFact(S, t, f);
}
static bool assumeNeConst(State &S, T t, int64_t c) {
    if (t->k == K_INT) return t->c != c;
    if (t->k == K_NULL) return c != 0;
    if (t->k == K_CAST && t->c == Instruction::SExt) return assumeNeConst(S, t->a, c);
    if (t->k == K_CAST && t->c == Instruction::ZExt && t->a->w > 1) {
        if (t->a->w < 64 && (c < 0 || c >= (1LL << t->a->w))) return true;
        return assumeNeConst(S, t->a, tInt(c, t->a->w)->c);
    }
    if (t->k == K_BIN && t->c == Instruction::Add && t->b->k == K_INT)
        return assumeNeConst(S, t->a, tInt((int64_t)((uint64_t)c - (uint64_t)t->b->c), t->w)->c);
    if (t->k == K_BIN && t->c == Instruction::Or && t->b->k == K_BIN && t->b->c == Instruction::Shl && t->b->b->k == K_INT) {
        // packed pair: only useful when one half is already known
        int64_t k = t->b->b->c, l, h;
        rangeOf(S, t->a, l, h);
        int64_t m = (1LL << k) - 1;
        if (l == h && l == (c & m)) return assumeNeConst(S, t->b->a, c >> k);
        rangeOf(S, t->b->a, l, h);
        if (l == h && l == (c >> k)) return assumeNeConst(S, t->a, c & m);
        return true;
    }
    Fact f = getFact(S, t);
    if (t->w == 8) {
        if (!f.hasTy) { f.hasTy = true; f.ty.set(); }
        f.ty.reset((uint8_t)c);
        return setFact(S, t, f);
    }
    if (f.ne.size() < 24) f.ne.insert(c);
    if (f.lo == c && f.lo < f.hi) f.lo++;
    if (f.hi == c && f.lo < f.hi) f.hi--;
    return setFact(S, t, f);
}
static bool assumeEqConst(State &S, T t, int64_t c) {
    if (t->k == K_INT) return t->c == c;
    if (t->k == K_CAST && t->c == Instruction::SExt) {
        if (c < wmin(t->a->w) || c > wmax(t->a->w)) return false;
        return assumeEqConst(S, t->a, c);
    }
    if (t->k == K_CAST && t->c == Instruction::ZExt && t->a->w > 1) {
        if (t->a->w < 64 && (c < 0 || c >= (1LL << t->a->w))) return false;
        return assumeEqConst(S, t->a, tInt(c, t->a->w)->c);
    }
    if (t->k == K_BIN && t->c == Instruction::Or && t->b->k == K_BIN && t->b->c == Instruction::Shl && t->b->b->k == K_INT) {
        int64_t k = t->b->b->c;
        int64_t m = (1LL << k) - 1;
        return assumeEqConst(S, t->a, c & m) && assumeEqConst(S, t->b->a, c >> k);
    }
    Fact f = getFact(S, t);
    if (f.ne.count(c)) return false;
    if (!refineRange(S, t, c, c)) return false;
    return true;
}
static bool isNonNull(const State &S, T t) {
    if (t->k == K_GLOB || t->k == K_ALLOCA) return true;
    if (t->k == K_ADDR || t->k == K_IDX) return true;  // field of some object
    auto it = S.facts.find(t);
    return it != S.facts.end() && (it->second.ne.count(0) || it->second.lo > 0 || it->second.hi < 0);
}
static const char *SING[2] = {"__NULL_OBJ", "__ERR_OBJ"};
static int singIdx(T t) {
    if (t->k != K_GLOB || !t->v->hasName()) return -1;
    for (int i = 0; i < 2; i++) if (t->v->getName() == SING[i]) return i;
    return -1;
}
static const int SINGTY[2] = {126, 127};
T tyTerm(T o) { return tLoad(tAddr(o, 2), 8); }
T lookupTy(const State &S, T o) {
    auto it = S.mem.find(tAddr(o, 2));
    if (it != S.mem.end()) return it->second;
    return tyTerm(o);
}
// the possible values of an integer term computed from a type whose possible values are known
static bool setOfTerm(const State &S, T t, TySet &out, int depth = 0) {
    if (depth > 6) return false;
    if (t->k == K_INT) { if (t->c < -128 || t->c > 255) return false; out.reset(); out.set((uint8_t)t->c); return true; }
    auto it = S.facts.find(t);
    if (it != S.facts.end() && it->second.hasTy) { out = it->second.ty; return true; }
    if (t->k == K_CAST) return (t->c == Instruction::SExt || t->c == Instruction::Trunc) && setOfTerm(S, t->a, out, depth + 1);
    if (t->k == K_BIN && (t->c == Instruction::Sub || t->c == Instruction::Add)) {
        TySet x, y;
        if (!setOfTerm(S, t->a, x, depth + 1) || !setOfTerm(S, t->b, y, depth + 1)) return false;
        if (x.count() * y.count() > 4096) return false;
        out.reset();
        for (int i = 0; i < 256; i++) if (x[i]) for (int j = 0; j < 256; j++) if (y[j]) out.set((uint8_t)(t->c == Instruction::Sub ? i - j : i + j));
        return true;
    }
    return false;
}
bool tySetOf(const State &S, T o, TySet &out) {
    int s = singIdx(o);
    if (s >= 0) { out.reset(); out.set(SINGTY[s]); return true; }
    T t = lookupTy(S, o);
    if (t->k == K_INT) { out.reset(); out.set((uint8_t)t->c); return true; }
    if (t->k != K_LOAD && setOfTerm(S, t, out)) return true;
    // look through casts of 8-bit terms
    while (t->k == K_CAST && t->c != Instruction::Trunc) t = t->a;
    if (t->k == K_CAST && t->c == Instruction::Trunc) {
        int64_t l, h;
        rangeOf(S, t->a, l, h);
        if (l >= -128 && h <= 127 && h - l < 256) {
            out.reset();
            for (int64_t i = l; i <= h; i++) out.set((uint8_t)i);
            return true;
        }
        return false;
    }
    auto it = S.facts.find(t);
    if (it != S.facts.end() && it->second.hasTy) { out = it->second.ty; return true; }
    // a table is a list of its column names (a symbol vector) and its columns (a list)
    if (t->k == K_LOAD && t->a->k == K_ADDR && t->a->c == 2 && t->a->a->k == K_LOAD && t->a->a->a->k == K_ADDR && (t->a->a->a->c == 16 || t->a->a->a->c == 24)) {
        TySet ts;
        if (tySetOf(S, t->a->a->a->a, ts)) {
            ts.reset(98);
            if (ts.none()) { out.reset(); out.set(t->a->a->a->c == 16 ? 6 : 0); return true; }
        }
    }
    if (t->k != K_LOAD) {
        int64_t l, h;
        rangeOf(S, t, l, h);
        if (l > -128 || h < 127) {
            out.reset();
            for (int64_t i = std::max<int64_t>(l, -128); i <= std::min<int64_t>(h, 127); i++) out.set((uint8_t)i);
            return true;
        }
    }
    return false;
}
bool isSingleton(const State &S, T o) {
    if (singIdx(o) >= 0) return true;
    TySet ts;
    if (tySetOf(S, o, ts)) {
        ts.reset(126); ts.reset(127);
        if (ts.none()) return true;
    }
    return false;
}
static bool isOwnedFresh(T t) { return (t->k == K_FRESH || t->k == K_OLD) && isa<CallBase>(t->v); }

// evaluate comparison: -1 unknown
static int evalCmp(const State &S, int pred, T a, T b);
int evalBool(const State &S, T t) {
    if (t->k == K_INT) return t->c != 0;
    if (t->k == K_CMP) return evalCmp(S, t->c, t->a, t->b);
    if (t->k == K_BIN && t->w == 1) {
        int x = evalBool(S, t->a), y = evalBool(S, t->b);
        if (t->c == Instruction::Xor && x >= 0 && y >= 0) return x ^ y;
        if (t->c == Instruction::And) { if (x == 0 || y == 0) return 0; if (x == 1 && y == 1) return 1; }
        if (t->c == Instruction::Or) { if (x == 1 || y == 1) return 1; if (x == 0 && y == 0) return 0; }
        return -1;
    }
    if (t->k == K_CAST && t->c == Instruction::Trunc) {
        int64_t l, h;
        rangeOf(S, t->a, l, h);
        if (l == h) return l & 1;
    }
    auto it = S.facts.find(t);
    if (it != S.facts.end()) {
        if (it->second.lo == it->second.hi) return it->second.lo != 0;
        if (it->second.ne.count(0)) return 1;
    }
    return -1;
}
static int evalCmp(const State &S, int pred, T a, T b) {
    if (a == b) {
        switch (pred) {
            case CmpInst::ICMP_EQ: case CmpInst::ICMP_SLE: case CmpInst::ICMP_SGE: case CmpInst::ICMP_ULE: case CmpInst::ICMP_UGE: return 1;
            case CmpInst::ICMP_NE: case CmpInst::ICMP_SLT: case CmpInst::ICMP_SGT: case CmpInst::ICMP_ULT: case CmpInst::ICMP_UGT: return 0;
            default: return -1;
        }
    }
    if (pred < CmpInst::FIRST_ICMP_PREDICATE) return -1;
    // bool re-tests: (zext i1 c) != 0
    if ((pred == CmpInst::ICMP_NE || pred == CmpInst::ICMP_EQ) && b->k == K_INT && a->k == K_CAST && a->a->w == 1) {
        int v = evalBool(S, a->a);
        if (v >= 0) {
            int64_t av = a->c == Instruction::SExt ? -v : v;
            bool eq = av == b->c;
            return pred == CmpInst::ICMP_EQ ? eq : !eq;
        }
        return -1;
    }
    if (pred == CmpInst::ICMP_EQ || pred == CmpInst::ICMP_NE) {
        int eq = -1;
        auto isP = [](T t) { return t->k == K_NULL || t->k == K_GLOB || t->k == K_ALLOCA; };
        T x = a, y = b;
        if (isP(x) && !isP(y)) std::swap(x, y);
        if (isP(x) && isP(y)) eq = x == y;
        else if ((rootOf(x)->k == K_ALLOCA) != (rootOf(y)->k == K_ALLOCA) && [&] { T o = rootOf(x)->k == K_ALLOCA ? y : x; return o->k == K_PARAM || isOwnedFresh(o); }()) eq = 0;
        else if (y->k == K_NULL) {
            if (isNonNull(S, x)) eq = 0;
            else { auto it = S.facts.find(x); if (it != S.facts.end() && it->second.lo == 0 && it->second.hi == 0) eq = 1; }
        } else if (y->k == K_GLOB && singIdx(y) < 0 && isOwnedFresh(x) && ((S.cnt.count(x) && S.cnt.find(x)->second > 0) || (S.sto.count(x) && !isSingleton(S, x)))) {
            eq = 0;  // an object this activation owns is not a static one
        } else if (singIdx(y) >= 0) {
            if (isSingleton(S, x)) {
                TySet ts;
                if (singIdx(x) >= 0) eq = x == y;
                else if (tySetOf(S, x, ts)) {
                    ts.reset(126); 
                    TySet t2; tySetOf(S, x, t2);
                    if (t2.count() == 1) eq = t2[SINGTY[singIdx(y)]];
                }
            } else {
                TySet ts;
                if (tySetOf(S, x, ts) && !ts[SINGTY[singIdx(y)]]) eq = 0;
                // an object held here whose header was rewritten in place is a real object
                auto hd = S.mem.find(tAddr(x, 2));
                if (eq < 0 && isOwnedFresh(x) && S.cnt.count(x) && S.cnt.find(x)->second > 0 && hd != S.mem.end() && hd->second->k == K_UNDEF) eq = 0;
            }
            auto it = S.facts.find(x);
            if (eq < 0 && it != S.facts.end() && it->second.lo == 0 && it->second.hi == 0) eq = 0;
        } else if (x->w >= 64 && (isOwnedFresh(x) || isOwnedFresh(y)) && x->k != K_INT && y->k != K_INT) {
            // a freshly created object is distinct from anything that existed before it
            T f = isOwnedFresh(x) ? x : y, o = f == x ? y : x;
            auto it = S.cnt.find(f);
            if (it != S.cnt.end() && it->second > 0 && (o->k == K_PARAM || o->k == K_LOAD || isOwnedFresh(o)) && !leaves(o).count(f) && !isSingleton(S, f)) {
                TySet ts;
                if (tySetOf(S, f, ts) && (ts[126] || ts[127])) {} else eq = 0;
            }
        }
        if (eq < 0 && x->w <= 64 && y->k != K_GLOB) {
            int64_t al, ah, bl, bh;
            rangeOf(S, x, al, ah);
            rangeOf(S, y, bl, bh);
            if (ah < bl || bh < al) eq = 0;
            else if (al == ah && bl == bh && (x->k != K_CAST || true)) eq = 1;
            if (eq < 0 && y->k == K_INT) {
                T z = x; int64_t c = y->c;
                while (z->k == K_CAST && (z->c == Instruction::SExt || z->c == Instruction::ZExt) && z->a->w > 1) {
                    if (z->c == Instruction::ZExt) { if (c < 0 || (z->a->w < 64 && c >= (1LL << z->a->w))) { eq = 0; break; } c = tInt(c, z->a->w)->c; }
                    else if (c < wmin(z->a->w) || c > wmax(z->a->w)) { eq = 0; break; }
                    z = z->a;
                }
                if (eq < 0) {
                    auto it = S.facts.find(z);
                    if (it != S.facts.end()) {
                        if (it->second.ne.count(c)) eq = 0;
                        if (it->second.hasTy && z->w == 8 && !it->second.ty[(uint8_t)c]) eq = 0;
                    }
                }
            }
        }
        if (eq < 0) {
            T p = x, q = y;
            if (p->id > q->id) std::swap(p, q);
            if (S.rels.count({CmpInst::ICMP_EQ, p, q})) eq = 1;
            else if (S.rels.count({CmpInst::ICMP_NE, p, q})) eq = 0;
            else if (S.rels.count({CmpInst::ICMP_SLT, p, q}) || S.rels.count({CmpInst::ICMP_SLT, q, p})) eq = 0;
        }
        if (eq < 0) return -1;
        return pred == CmpInst::ICMP_EQ ? eq : !eq;
    }
    int64_t al, ah, bl, bh;
    rangeOf(S, a, al, ah);
    rangeOf(S, b, bl, bh);
    auto lt = [&](T x, T y, int64_t xl, int64_t xh, int64_t yl, int64_t yh, bool uns) -> int {
        if (uns && (xl < 0 || yl < 0)) {
            if (S.rels.count({CmpInst::ICMP_ULT, x, y})) return 1;
            if (S.rels.count({CmpInst::ICMP_ULE, y, x})) return 0;
            return -1;
        }
        if (xh < yl) return 1;
        if (xl >= yh) return 0;
        if (S.rels.count({CmpInst::ICMP_SLT, x, y}) || (uns && S.rels.count({CmpInst::ICMP_ULT, x, y}))) return 1;
        if (S.rels.count({CmpInst::ICMP_SLE, y, x}) || S.rels.count({CmpInst::ICMP_SLT, y, x})) return 0;
        T p = x, q = y;
        if (p->id > q->id) std::swap(p, q);
        if (S.rels.count({CmpInst::ICMP_EQ, p, q})) return 0;
        return -1;
    };
    int r = -1;
    switch (pred) {
        case CmpInst::ICMP_SLT: return lt(a, b, al, ah, bl, bh, false);
        case CmpInst::ICMP_SGT: return lt(b, a, bl, bh, al, ah, false);
        case CmpInst::ICMP_SGE: r = lt(a, b, al, ah, bl, bh, false); return r < 0 ? r : !r;
        case CmpInst::ICMP_SLE: r = lt(b, a, bl, bh, al, ah, false); return r < 0 ? r : !r;
        case CmpInst::ICMP_ULT: return lt(a, b, al, ah, bl, bh, true);
        case CmpInst::ICMP_UGT: return lt(b, a, bl, bh, al, ah, true);
        case CmpInst::ICMP_UGE: r = lt(a, b, al, ah, bl, bh, true); return r < 0 ? r : !r;
        case CmpInst::ICMP_ULE: r = lt(b, a, bl, bh, al, ah, true); return r < 0 ? r : !r;
    }
    return -1;
}
static bool assumeCmp(State &S, int pred, T a, T b);
bool assumeBool(State &S, T t, bool v) {
    int e = evalBool(S, t);
    if (e >= 0) return e == (int)v;
    if (t->k == K_CMP) {
        int p = t->c;
        if (!v) p = CmpInst::getInversePredicate((CmpInst::Predicate)p);
        return assumeCmp(S, p, t->a, t->b);
    }
    if (t->k == K_BIN && t->w == 1) {
        if (t->c == Instruction::Xor && t->b->k == K_INT) return assumeBool(S, t->a, v ^ (t->b->c != 0));
        if (t->c == Instruction::And && v) return assumeBool(S, t->a, true) && assumeBool(S, t->b, true);
        if (t->c == Instruction::Or && !v) return assumeBool(S, t->a, false) && assumeBool(S, t->b, false);
        return true;
    }
    if (t->k == K_CAST && t->c == Instruction::Trunc) return true;
    Fact f = getFact(S, t);
    f.lo = f.hi = v ? -1 : 0;
    return setFact(S, t, f);
}
static bool assumeCmp(State &S, int pred, T a, T b) {
    if (pred < CmpInst::FIRST_ICMP_PREDICATE) return true;
    switch (pred) {  // normalise
        case CmpInst::ICMP_SGT: return assumeCmp(S, CmpInst::ICMP_SLT, b, a);
        case CmpInst::ICMP_SGE: return assumeCmp(S, CmpInst::ICMP_SLE, b, a);
        case CmpInst::ICMP_UGT: return assumeCmp(S, CmpInst::ICMP_ULT, b, a);
        case CmpInst::ICMP_UGE: return assumeCmp(S, CmpInst::ICMP_ULE, b, a);
    }
    if (pred == CmpInst::ICMP_EQ || pred == CmpInst::ICMP_NE) {
        bool eq = pred == CmpInst::ICMP_EQ;
        if (a->k == K_INT || a->k == K_NULL || (a->k == K_GLOB && b->k != K_NULL && b->k != K_INT)) std::swap(a, b);
        if (b->k == K_INT && a->k == K_CAST && a->a->w == 1) {
            int64_t one = a->c == Instruction::SExt ? -1 : 1;
            if (b->c == 0) return assumeBool(S, a->a, !eq);
            if (b->c == one) return assumeBool(S, a->a, eq);
            return true;
        }
        if (b->k == K_INT) {
            if (a->k == K_BIN && (a->c == Instruction::And) && a->b->k == K_INT && b->c == 0) {
                // flag test: remember it as a fact about the masked term
            }
            return eq ? assumeEqConst(S, a, b->c) : assumeNeConst(S, a, b->c);
        }
        if (b->k == K_NULL) {
            Fact f = getFact(S, a);
            if (eq) { if (isNonNull(S, a)) return false; f.lo = f.hi = 0; }
            else { if (f.lo == 0 && f.hi == 0) return false; f.ne.insert(0); }
            return setFact(S, a, f);
        }
        int s = singIdx(b);
        if (s >= 0) {
            T ty = lookupTy(S, a);
            if (eq) {
                Fact f = getFact(S, a);
                f.ne.insert(0);
                setFact(S, a, f);
                return assumeEqConst(S, ty, SINGTY[s]);
            }
            return assumeNeConst(S, ty, SINGTY[s]);
        }
        if (eq && a->w == 64 && b->w == 64 && (isOwnedFresh(a) || isOwnedFresh(b))) {
            // an object created here equals an older one: both are one of the static objects
            T f = isOwnedFresh(a) ? a : b, o = f == a ? b : a;
            noteEqual(S, f, o);
            auto it = S.cnt.find(f);
            TySet ts, sing;
            sing.set(126); sing.set(127);
            if (it != S.cnt.end() && it->second > 0 && (o->k == K_PARAM || o->k == K_LOAD) && !leaves(o).count(f) && tySetOf(S, f, ts)) {
                ts &= sing;
                if (ts.none()) return false;
                Fact n = getFact(S, tyTerm(f));
                n.hasTy = true;
                n.ty = ts;
                if (lookupTy(S, f) == tyTerm(f)) setFact(S, tyTerm(f), n);
                if (lookupTy(S, o) == tyTerm(o)) setFact(S, tyTerm(o), n);
            }
        }
        T p = a, q = b;
        if (p->id > q->id) std::swap(p, q);
        S.rels.insert({pred, p, q});
        if (eq && a->w <= 64 && b->w <= 64) {
            int64_t l, h;
            rangeOf(S, b, l, h);
            if (!refineRange(S, a, l, h)) return false;
            rangeOf(S, a, l, h);
            if (!refineRange(S, b, l, h)) return false;
        }
        return true;
    }
    int64_t al, ah, bl, bh;
    rangeOf(S, a, al, ah);
    rangeOf(S, b, bl, bh);
    bool strict = pred == CmpInst::ICMP_SLT || pred == CmpInst::ICMP_ULT;
    bool uns = pred == CmpInst::ICMP_ULT || pred == CmpInst::ICMP_ULE;
    if (uns) {
        if (bl >= 0) {  // a <u b, b >= 0  =>  0 <= a
            if (!refineRange(S, a, 0, strict ? bh - (bh > 0 ? 1 : 0) : bh)) return false;
        }
        if (a->k != K_INT && b->k != K_INT) S.rels.insert({pred, a, b});
        rangeOf(S, a, al, ah);
        if (al < 0 || bl < 0) return true;
    }
    if (strict) {
        if (bh != INT64_MIN && !refineRange(S, a, INT64_MIN, bh - 1)) return false;
        rangeOf(S, a, al, ah);
        if (al != INT64_MAX && !refineRange(S, b, al + 1, INT64_MAX)) return false;
    } else {
        if (!refineRange(S, a, INT64_MIN, bh)) return false;
        rangeOf(S, a, al, ah);
        if (!refineRange(S, b, al, INT64_MAX)) return false;
    }
    if (a->k != K_INT && b->k != K_INT) S.rels.insert({(int)(strict ? CmpInst::ICMP_SLT : CmpInst::ICMP_SLE), a, b});
    return true;
}

// ------------------------------------------------------------------ analysis of one function
void report(const std::string &rule, const Function *F, const Instruction *I, const std::string &site, const std::string &msg) {
    Report r;
    r.rule = rule;
    r.func = F->getName().str();
    r.file = fileOf(F);
    r.line = I ? lineOf(I) : 0;
    r.site = site;
    r.msg = msg;
    r.key = rule + "|" + r.func + "|" + site;
    std::string k = r.key + "|" + std::to_string(r.line);
    if (REPORT_KEYS.insert(k).second) REPORTS.push_back(r);
}

FnAnalysis::FnAnalysis(const Function *F) : F(F), DT(*const_cast<Function *>(F)), LI(DT) {
    computeLiveness();
    for (auto &B : *F) {
        bool tail = isa<ReturnInst>(B.getTerminator());
        int n = 0;
        for (auto &I : B) {
            if (isa<PHINode>(I) || isa<ReturnInst>(I) || isa<DbgInfoIntrinsic>(I)) continue;
            n++;
        }
        if (tail && n <= 2) retBlocks.insert(&B);
        // flag phis in loop headers
        if (auto *L = LI.getLoopFor(&B))
            if (L->getHeader() == &B)
                for (auto &P : B.phis()) {
                    std::set<const Value *> seen;
                    std::function<bool(const Value *)> allConst = [&](const Value *v) -> bool {
                        if (isa<Constant>(v)) return true;
                        if (!seen.insert(v).second) return true;
                        if (auto *p = dyn_cast<PHINode>(v)) {
                            for (auto &u : p->incoming_values()) if (!allConst(u)) return false;
                            return true;
                        }
                        return false;
                    };
                    if (allConst(&P) && P.getType()->isIntegerTy()) flagPhis.insert(&P);
                    headerPhis.insert(&P);
                }
    }
}
void FnAnalysis::computeLiveness() {
    bool ch = true;
    std::map<const BasicBlock *, std::set<const Value *>> use, def;
    auto isv = [](const Value *v) { return isa<Instruction>(v) || isa<Argument>(v); };
    for (auto &B : *F) {
        auto &u = use[&B], &d = def[&B];
        for (auto &I : B) {
            if (isa<DbgInfoIntrinsic>(I)) continue;
            if (!isa<PHINode>(I))
                for (auto &op : I.operands())
                    if (isv(op) && !d.count(op)) u.insert(op);
            d.insert(&I);
        }
    }
    while (ch) {
        ch = false;
        for (auto &B : llvm::reverse(*F)) {
            std::set<const Value *> out;
            for (auto *s : successors(&B)) {
                for (auto *v : liveIn[s]) out.insert(v);
                for (auto &P : s->phis()) {
                    auto *v = P.getIncomingValueForBlock(&B);
                    if (isv(v)) out.insert(v);
                }
            }
            std::set<const Value *> in = use[&B];
            for (auto *v : out) if (!def[&B].count(v)) in.insert(v);
            if (in != liveIn[&B]) { liveIn[&B] = in; ch = true; }
            liveOut[&B] = out;
        }
    }
}
unsigned widthOf(Type *t) {
    if (t->isIntegerTy()) return std::min(64u, t->getIntegerBitWidth());
    if (t->isPointerTy()) return 64;
    if (t->isVoidTy()) return 0;
    return 128;  // fp / vector / struct : opaque
}
T FnAnalysis::val(State &S, const Value *v) {
    if (auto *ci = dyn_cast<ConstantInt>(v)) return ci->getBitWidth() <= 64 ? tInt(ci->getSExtValue(), ci->getBitWidth()) : tGlob(v);
    if (isa<ConstantPointerNull>(v)) return tNull();
    if (isa<UndefValue>(v)) return tUndef();
    if (auto *ce = dyn_cast<ConstantExpr>(v)) {
        if (ce->isCast()) return tCast(ce->getOpcode(), val(S, ce->getOperand(0)), widthOf(ce->getType()));
        if (auto *g = dyn_cast<GEPOperator>(ce)) return gep(S, g);
        return tGlob(v);
    }
    if (isa<Constant>(v)) return tGlob(v);
    if (auto *a = dyn_cast<Argument>(v)) return tParam(a->getArgNo(), widthOf(a->getType()));
    auto it = S.env.find(v);
    if (it != S.env.end()) return it->second;
    return tFresh(v, widthOf(v->getType()));
}
T FnAnalysis::gep(State &S, const GEPOperator *g) {
    T t = val(S, g->getPointerOperand());
    int64_t off = 0;
    for (auto gti = gep_type_begin(g), e = gep_type_end(g); gti != e; ++gti) {
        const Value *ix = gti.getOperand();
        if (StructType *st = gti.getStructTypeOrNull()) {
            off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
        } else {
            int64_t sz = DL->getTypeAllocSize(gti.getIndexedType());
            T i = val(S, ix);
            while (i->k == K_CAST && (i->c == Instruction::SExt)) i = i->a;
            if (i->k == K_INT) off += i->c * sz;
            else {
                t = tAddr(t, off);
                off = 0;
                t = tIdx(t, i, sz);
            }
        }
    }
    return tAddr(t, off);
}
bool FnAnalysis::liveAfter(const Value *v, const Instruction *I) {
    if (isa<Argument>(v)) return true;
    if (liveOut[I->getParent()].count(v)) return true;
    for (auto *u : v->users()) {
        auto *ui = dyn_cast<Instruction>(u);
        if (ui && !isa<PHINode>(ui) && ui->getParent() == I->getParent() && (ui == I || I->comesBefore(ui))) return true;
    }
    return false;
}
template <class MapT> static void substMapKeys(MapT &m, T from, T to) {
    MapT n;
    for (auto &p : m) n[tSubstLeaf(p.first, from, to)] = p.second;
    m.swap(n);
}
void FnAnalysis::dropTerm(State &S, T t) {
    for (auto it = S.facts.begin(); it != S.facts.end();) if (leaves(it->first).count(t)) it = S.facts.erase(it); else ++it;
    for (auto it = S.rels.begin(); it != S.rels.end();) if (leaves(it->a).count(t) || leaves(it->b).count(t)) it = S.rels.erase(it); else ++it;
    for (auto it = S.mem.begin(); it != S.mem.end();) {
        if (leaves(it->first).count(t)) it = S.mem.erase(it);
        else { if (leaves(it->second).count(t)) it->second = tUndef(); ++it; }
    }
    for (auto it = S.cnt.begin(); it != S.cnt.end();) if (leaves(it->first).count(t)) it = S.cnt.erase(it); else ++it;
    for (auto it = S.org.begin(); it != S.org.end();) if (leaves(it->first).count(t) || leaves(it->second).count(t)) it = S.org.erase(it); else ++it;
    for (auto *s : {&S.rel, &S.unt, &S.sto, &S.uni, &S.tru, &S.own})
        for (auto it = s->begin(); it != s->end();) if (leaves(*it).count(t)) it = s->erase(it); else ++it;
}
static void substAll(State &S, T from, T to, const Value *except) {
    for (auto &p : S.env) if (p.first != except) p.second = tSubstLeaf(p.second, from, to);
    substMapKeys(S.facts, from, to);
    substMapKeys(S.cnt, from, to);
    {
        std::map<T, T, TLess> n;
        for (auto &p : S.mem) n[tSubstLeaf(p.first, from, to)] = tSubstLeaf(p.second, from, to);
        S.mem.swap(n);
    }
    if (!S.org.empty()) {
        std::map<T, T, TLess> n;
        for (auto &p : S.org) n[tSubstLeaf(p.first, from, to)] = tSubstLeaf(p.second, from, to);
        S.org.swap(n);
    }
    std::set<Rel> r;
    for (auto &q : S.rels) {
        T a = tSubstLeaf(q.a, from, to), b = tSubstLeaf(q.b, from, to);
        if ((q.p == CmpInst::ICMP_EQ || q.p == CmpInst::ICMP_NE) && a->id > b->id) std::swap(a, b);
        r.insert({q.p, a, b});
    }
    S.rels.swap(r);
    for (auto *s : {&S.rel, &S.unt, &S.sto, &S.uni, &S.tru, &S.own}) {
        std::set<T, TLess> n;
        for (auto t : *s) n.insert(tSubstLeaf(t, from, to));
        s->swap(n);
    }
}
// instruction I is about to (re)define FRESH(I)
void FnAnalysis::redefine(State &S, const Instruction *I) {
    redefineTerm(S, I, tFresh(I, widthOf(I->getType())), tOld(I, widthOf(I->getType())));
}
void FnAnalysis::redefineTerm(State &S, const Instruction *I, T t, T o) {
    bool held = false, any = false;
    for (auto &p : S.env) {
        if (!leaves(p.second).count(t)) continue;
        any = true;
        if (p.first != I && liveAfter(p.first, I)) held = true;
    }
    for (auto &p : S.mem) if (leaves(p.second).count(t) || leaves(p.first).count(t)) { any = true; if (rootOf(p.first)->k == K_ALLOCA && leaves(p.second).count(t)) held = true; }
    if (!any && !S.cnt.count(t) && S.facts.empty() && S.rels.empty()) return;
    if (held) {
        auto it = S.cnt.find(o);
        if (it != S.cnt.end() && it->second > 0) leakAt(S, o, I, "lost when the loop repeats");
        dropTerm(S, o);
        substAll(S, t, o, I);
    } else {
        auto it = S.cnt.find(t);
        if (it != S.cnt.end() && it->second > 0) leakAt(S, t, I, "lost when the loop repeats");
        dropTerm(S, t);
    }
    // values now dead may still mention t: drop them
    for (auto it = S.env.begin(); it != S.env.end();) if (leaves(it->second).count(t)) it = S.env.erase(it); else ++it;
}
void FnAnalysis::leakAt(State &S, T t, const Instruction *I, const char *how) {
    if (!reporting || isSingleton(S, t) || S.unt.count(t)) return;
    auto f = S.facts.find(t);
    if (f != S.facts.end() && f->second.lo == 0 && f->second.hi == 0) return;
    ruleLeak(*this, S, t, I, how);
}
void FnAnalysis::addCnt(State &S, T t, int d, const Instruction *I, bool release) {
    if (t->k == K_NULL || t->k == K_INT || t->k == K_UNDEF || t->k == K_ALLOCA) return;
    if (t->k == K_GLOB) return;
    if (S.unt.count(t)) { return; }
    if (isSingleton(S, t)) return;
    if (d < 0 && t->k != K_PARAM && t->k != K_FRESH && t->k != K_OLD && t->k != K_LOAD) return;
    if (release && S.rel.count(t)) { if (reporting) ruleDouble(*this, S, t, I); return; }
    if (d < 0 && release && isOwnedFresh(t) && !(S.cnt.count(t) && S.cnt[t] > 0))
        for (auto &p : S.mem) if (p.second == t && p.first->k == K_PARAM) { S.unt.insert(t); return; }  // releases the reference held by the caller's slot
    int &c = S.cnt[t];
    c += d;
    if (d < 0 && c < 0 && isOwnedFresh(t) && owned(t)) {
        if (reporting) ruleOver(*this, S, t, I, release);
        c = 0;
        S.unt.insert(t);
    }
    if (d < 0 && !release) S.sto.insert(t);
    if (release && !S.sto.count(t) && (c < 0 || (c == 0 && isOwnedFresh(t) && owned(t)))) S.rel.insert(t);
    if (c < -3) c = -3;
    if (c > 8) c = 8;
    if (c == 0) S.cnt.erase(t);
}
bool FnAnalysis::owned(T t) { return ownedFresh.count(t->v); }
// a slot the caller passed in: only calls it is passed on to change what it holds
static bool callerSlot(const Function *F, T a) {
    T r = a->k == K_ADDR ? a->a : a;
    return r->k == K_PARAM && paramKind(F, r->c) == P_SLOT;
}
// memory clobber by an opaque call
void FnAnalysis::clobber(State &S, const std::vector<T> &escaped) {
    for (auto it = S.mem.begin(); it != S.mem.end();) {
        T r = rootOf(it->first);
        bool kill;
        if (r->k == K_ALLOCA) {
            kill = false;
            for (T e : escaped) if (rootOf(e) == r) kill = true;
            if (S.esc.count(r)) kill = true;
        } else {
            bool header = it->first->k == K_ADDR && it->first->c == 2;
            kill = !header && !callerSlot(F, it->first);
        }
        if (kill) it = S.mem.erase(it); else ++it;
    }
    S.clob = true;
    for (T e : escaped) if (rootOf(e)->k == K_ALLOCA) S.esc.insert(rootOf(e));
}
static bool isHeaderAddr(T a) { return a->k == K_ADDR && (a->c == 2 || a->c == 8); }
T FnAnalysis::loadMem(State &S, T addr, unsigned w, const Instruction *I) {
    auto it = S.mem.find(addr);
    if (it != S.mem.end() && it->second->k != K_UNDEF && (it->second->w == w || it->second->k == K_NULL || it->second->k == K_GLOB)) return it->second;
    T r = rootOf(addr);
    bool dirty = it != S.mem.end() || (r->k == K_ALLOCA) || (S.clob && !isHeaderAddr(addr) && !callerSlot(F, addr));
    if (w > 64) return tFresh(I, w);
    if (!dirty) return tLoad(addr, w);
    T t = tFresh(I, w);
    S.mem[addr] = t;
    return t;
}
void FnAnalysis::storeMem(State &S, T addr, T v, const Instruction *I, Type *ty) {
    T r = rootOf(addr);
    // invalidate may-aliasing variable-index entries of the same root
    int64_t sz = DL->getTypeStoreSize(ty);
    for (auto it = S.mem.begin(); it != S.mem.end();) {
        T k = it->first;
        bool kill = false;
        if (k != addr) {
            T kr = rootOf(k);
            if (kr == r) {
                if (k->k == K_IDX || addr->k == K_IDX || (k->k == K_ADDR && k->a->k == K_IDX) || (addr->k == K_ADDR && addr->a->k == K_IDX)) {
                    // payload index writes do not alias header fields
                    bool kh = k->k == K_ADDR && k->a == r && k->c < 16, ah = addr->k == K_ADDR && addr->a == r && addr->c < 16;
                    kill = !(kh || ah || k == r || addr == r);
                    if (r->k == K_ALLOCA) kill = true;
                } else {
                    int64_t ko = k->k == K_ADDR ? k->c : 0, ao = addr->k == K_ADDR ? addr->c : 0;
                    int64_t ks = (it->second->w + 7) / 8;
                    kill = ko < ao + sz && ao < ko + ks;
                }
            }
        }
        if (kill) { it->second = tUndef(); }
        ++it;
    }
    if (v->w > 64) v = tUndef();
    noteWrite(S, addr, I);
    // ownership transfer
    if ((ty->isPointerTy() || (v->w == 64 && S.cnt.count(v))) && !isWeakStore(I) && r->k != K_ALLOCA && (addr->k == K_IDX || !(r->k == K_FRESH && rawAlloc.count(r->v) && S.cnt.count(r)))) {
        T old = nullptr;
        auto it = S.mem.find(addr);
        if (it != S.mem.end()) old = it->second;
        if (v->k == K_PARAM || v->k == K_FRESH || v->k == K_OLD || v->k == K_LOAD) {
            if (!(old == v)) {
                if ((v->k == K_FRESH || v->k == K_OLD) && rawAlloc.count(v->v)) containerEscape(S, v, I);
                ruleStore(*this, S, addr, v, I);
                addCnt(S, v, -1, I, false);
            }
        }
    }
    S.mem[addr] = v;
    dropFactsOnLoad(S, addr);
}
void FnAnalysis::dropFactsOnLoad(State &S, T addr) { (void)S; (void)addr; }
void FnAnalysis::containerEscape(State &S, T c, const Instruction *I) {
    std::vector<T> vs;
    for (auto &p : S.mem) if (rootOf(p.first) == c) vs.push_back(p.second);
    for (T v : vs) if (v != c && ((S.cnt.count(v) && S.cnt[v] > 0) || (v->k == K_PARAM && paramKind(F, v->c) == P_OBJ))) addCnt(S, v, -1, I, false);
}
static std::string stKey(const State &S) {
    std::ostringstream o;
    for (auto &p : S.env) { o << p.second->id; if ((p.second->k == K_FRESH || p.second->k == K_OLD) && p.first->getType()->isPointerTy() && !S.cnt.count(p.second) && !S.rel.count(p.second) && isSingleton(S, p.second)) o << "s"; o << ","; }
    o << "|";
    for (auto &p : S.cnt) o << p.first->id << ":" << p.second << ",";
    o << "|";
    for (auto t : S.rel) o << t->id << ",";
    o << "|";
    for (auto t : S.unt) o << t->id << ",";
    o << "|";
    for (auto &p : S.ctr) o << p.first << "=" << p.second << ",";
    o << "|";
    for (auto &p : S.mem) if (rootOf(p.first)->k == K_ALLOCA) o << p.first->id << ">" << p.second->id << ",";
    o << "|";
    // null-/singleton-ness of tracked terms is part of the property state
    for (auto &p : S.cnt) {
        o << (isSingleton(S, p.first) ? 's' : '-');
        auto f = S.facts.find(p.first);
        o << (f != S.facts.end() && f->second.lo == 0 && f->second.hi == 0 ? 'n' : '-');
        if (f != S.facts.end() && p.first->w <= 32) o << (f->second.hi < 0 ? 'm' : '-');
    }
    for (auto *v : S.pend) o << "!" << (const void *)v;
    for (auto &e : keyExtra(S)) o << e << ";";
    return o.str();
}
// join s into d; returns true when d changed
static bool joinState(State &d, const State &s, int round) {
    bool ch = false;
    for (auto it = d.facts.begin(); it != d.facts.end();) {
        auto j = s.facts.find(it->first);
        Fact n;
        if (j != s.facts.end()) {
            const Fact &a = it->second, &b = j->second;
            if (a.hasTy && b.hasTy) { n.hasTy = true; n.ty = a.ty | b.ty; if (n.ty.all()) { n.hasTy = false; } }
            n.lo = std::min(a.lo, b.lo);
            n.hi = std::max(a.hi, b.hi);
            if (round > 4) { if (n.lo != a.lo) n.lo = INT64_MIN; if (n.hi != a.hi) n.hi = INT64_MAX; }
            for (auto x : a.ne) if (b.ne.count(x) || x < b.lo || x > b.hi) n.ne.insert(x);
            for (auto x : b.ne) if (x < a.lo || x > a.hi) n.ne.insert(x);
        }
        if (!(n == it->second)) ch = true;
        if (n.trivial()) it = d.facts.erase(it); else { it->second = n; ++it; }
    }
    for (auto it = d.rels.begin(); it != d.rels.end();) {
        bool keep = s.rels.count(*it);
        if (!keep) keep = evalCmp(s, it->p, it->a, it->b) == 1;
        if (!keep) { it = d.rels.erase(it); ch = true; } else ++it;
    }
    for (auto &p : d.mem) {
        auto j = s.mem.find(p.first);
        T o = j == s.mem.end() ? nullptr : j->second;
        if (o != p.second && p.second->k != K_UNDEF) { p.second = tUndef(); ch = true; }
    }
    for (auto &p : s.mem) if (!d.mem.count(p.first)) { d.mem[p.first] = tUndef(); ch = true; }
    if (s.clob && !d.clob) { d.clob = true; ch = true; }
    for (auto m : {&State::uni, &State::tru, &State::own})
        for (auto it = (d.*m).begin(); it != (d.*m).end();) if (!(s.*m).count(*it)) { it = (d.*m).erase(it); ch = true; } else ++it;
    for (auto it = d.org.begin(); it != d.org.end();) { auto j = s.org.find(it->first); if (j == s.org.end() || j->second != it->second) it = d.org.erase(it); else ++it; }
    for (auto t : s.sto) if (d.sto.insert(t).second) ch = true;
    for (auto t : s.esc) if (d.esc.insert(t).second) ch = true;
    return ch;
}
void FnAnalysis::prune(State &S, const BasicBlock *B) {
    auto &li = liveIn[B];
    std::set<T, TLess> live;
    for (auto it = S.env.begin(); it != S.env.end();) {
        bool keep = li.count(it->first) || (isa<PHINode>(it->first) && cast<Instruction>(it->first)->getParent() == B);
        if (!keep) it = S.env.erase(it);
        else { live.insert(leaves(it->second).begin(), leaves(it->second).end()); ++it; }
    }
    for (auto &p : S.cnt) live.insert(leaves(p.first).begin(), leaves(p.first).end());
    auto isLive = [&](T t) {
        for (T l : leaves(t)) if (l->k != K_PARAM && l->k != K_ALLOCA && !live.count(l)) return false;
        return true;
    };
    bool ch = true;
    std::set<T, TLess> keepMem;
    while (ch) {
        ch = false;
        for (auto &p : S.mem) if (!keepMem.count(p.first) && isLive(p.first)) {
            keepMem.insert(p.first);
            live.insert(leaves(p.second).begin(), leaves(p.second).end());
            ch = true;
        }
    }
    for (auto it = S.mem.begin(); it != S.mem.end();) if (!keepMem.count(it->first)) it = S.mem.erase(it); else ++it;
    for (auto it = S.facts.begin(); it != S.facts.end();) if (!isLive(it->first)) it = S.facts.erase(it); else ++it;
    for (auto it = S.org.begin(); it != S.org.end();) if (!isLive(it->first) || !isLive(it->second)) it = S.org.erase(it); else ++it;
    for (auto it = S.rels.begin(); it != S.rels.end();) if (!isLive(it->a) || !isLive(it->b)) it = S.rels.erase(it); else ++it;
    for (auto *s : {&S.rel, &S.unt, &S.sto, &S.uni, &S.tru, &S.own})
        for (auto it = s->begin(); it != s->end();) if (!isLive(*it)) it = s->erase(it); else ++it;
}
void FnAnalysis::enterEdge(State S, const BasicBlock *from, const BasicBlock *to) {
    // phis
    std::vector<std::pair<const PHINode *, T>> upd;
    for (auto &P : to->phis()) {
        const Value *in = P.getIncomingValueForBlock(from);
        T t = val(S, in);
        if (headerPhis.count(&P) && !flagPhis.count(&P)) {
            bool keep = P.getType()->isPointerTy() && (t->k == K_PARAM || ((t->k == K_LOAD || t->k == K_FRESH) && S.cnt.count(t) && S.cnt[t] > 0) || t->k == K_NULL || t->k == K_GLOB || ((t->k == K_FRESH || t->k == K_OLD) && isa<CallBase>(t->v)));
            if (!keep) {
                T nt = tFresh(&P, widthOf(P.getType()));
                upd.push_back({&P, nt});
                continue;
            }
        }
        if (t->w == 1 && t->k != K_INT) {}
        upd.push_back({&P, t});
    }
    // facts carried onto fresh header phis (evaluate before redefinition)
    std::vector<std::tuple<T, int64_t, int64_t, bool>> carry;
    for (auto &u : upd) if (u.second->k == K_FRESH && u.second->v == u.first) {
        T in = val(S, u.first->getIncomingValueForBlock(from));
        int64_t l = INT64_MIN, h = INT64_MAX;
        if (in->w <= 64 && u.first->getType()->isIntegerTy()) rangeOf(S, in, l, h);
        carry.push_back({u.second, l, h, u.first->getType()->isPointerTy() && isNonNull(S, in)});
    }
    for (auto &u : upd) if (u.second->k == K_FRESH && u.second->v == u.first) {
        redefinePhi(S, u.first, upd);
    }
    for (auto &u : upd) S.env[u.first] = u.second;
    for (auto &c : carry) {
        if (std::get<0>(c)->w <= 64) {
            Fact f;
            int64_t l = std::get<1>(c), h = std::get<2>(c);
            if (std::get<3>(c)) f.ne.insert(0);
            if (l > wmin(std::get<0>(c)->w)) f.lo = l;
            if (h < wmax(std::get<0>(c)->w)) f.hi = h;
            if (!f.trivial()) S.facts[std::get<0>(c)] = f;
        }
    }
    prune(S, to);
    std::string k = stKey(S);
    if (retBlocks.count(to)) { S.retFrom = from; k += "@" + std::to_string((uintptr_t)from); }
    auto &bs = states[to];
    auto it = bs.find(k);
    if (it == bs.end()) {
        if (bs.size() >= CFG.maxStates) { incomplete = true; return; }
        Entry e;
        e.S = S;
        e.round = 0;
        bs[k] = e;
        work.push_back({to, k});
    } else {
        it->second.round++;
        if (joinState(it->second.S, S, it->second.round)) work.push_back({to, k});
    }
}
void FnAnalysis::redefinePhi(State &S, const PHINode *P, std::vector<std::pair<const PHINode *, T>> &upd) {
    T t = tFresh(P, widthOf(P->getType()));
    T o = tOld(P, t->w);
    bool held = false;
    auto *B = P->getParent();
    for (auto &p : S.env) if (p.first != P && liveIn[B].count(p.first) && leaves(p.second).count(t)) held = true;
    for (auto &u : upd) if (u.first != P && u.second != t && leaves(u.second).count(t)) held = true;
    for (auto &p : S.mem) if (rootOf(p.first)->k == K_ALLOCA && leaves(p.second).count(t)) held = true;
    if (held) {
        dropTerm(S, o);
        substAll(S, t, o, P);
        for (auto &u : upd) if (u.first != P && u.second != t) u.second = tSubstLeaf(u.second, t, o);
    } else dropTerm(S, t);
}
void FnAnalysis::run() {
    State S0;
    initState(*this, S0);
    const BasicBlock *E = &F->getEntryBlock();
    prune(S0, E);
    states[E][stKey(S0)] = {S0, 0};
    work.push_back({E, stKey(S0)});
    reporting = false;
    int steps = 0;
    while (!work.empty()) {
        auto w = work.front();
        work.pop_front();
        if (++steps > CFG.maxSteps) { incomplete = true; break; }
        auto &bs = states[w.first];
        State S = bs[w.second].S;
        execBlock(S, w.first);
    }
    const char *tr = getenv("RA_TRACE");
    bool trace = tr && F->getName() == tr;
    // reporting pass over the fixpoint
    reporting = true;
    outs.clear();
    for (auto &B : *F) {
        auto it = states.find(&B);
        if (it == states.end()) continue;
        auto cp = it->second;
        for (auto &e : cp) {
            nstates++;
            State S = e.second.S;
            if (trace) {
                errs() << "-- block ";
                for (auto &I : B) if (I.getDebugLoc()) { errs() << I.getDebugLoc().getLine(); break; }
                for (auto &p : S.env) if (p.first->getType()->isPointerTy() && (isa<PHINode>(p.first) || isa<CallBase>(p.first))) { errs() << " "; p.first->printAsOperand(errs(), false); errs() << "=" << show(p.second) << (isSingleton(S, p.second) ? "*" : ""); }
                errs() << " | mem"; for (auto &p : S.mem) if (rootOf(p.first)->k == K_ALLOCA) errs() << " " << show(p.first) << ">" << show(p.second);
                errs() << " | cnt"; for (auto &p : S.cnt) errs() << " " << show(p.first) << ":" << p.second;
                errs() << " | rel"; for (auto t : S.rel) errs() << " " << show(t);
                errs() << " | unt"; for (auto t : S.unt) errs() << " " << show(t);
                errs() << " | own"; for (auto t : S.own) errs() << " " << show(t); errs() << " | org"; for (auto &p : S.org) errs() << " " << show(p.first) << "<" << show(p.second);
                for (auto &p : S.ctr) errs() << " " << p.first << "=" << p.second;
                for (auto &p : S.facts) if (p.second.hasTy) errs() << " type(" << show(p.first) << "):" << p.second.ty.count();
                errs() << "\n";
            }
            execBlock(S, &B);
        }
    }
}
void FnAnalysis::edge(State S, const BasicBlock *from, const BasicBlock *to) {
    if (reporting) return;
    enterEdge(std::move(S), from, to);
}
void FnAnalysis::execBlock(State S, const BasicBlock *B) {
    execFrom(std::move(S), B, B->begin());
}
void FnAnalysis::execFrom(State S, const BasicBlock *B, BasicBlock::const_iterator it) {
    for (; it != B->end(); ++it) {
        const Instruction *I = &*it;
        if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
        if (!S.pend.empty()) rulePending(*this, S, I);
        if (I->isTerminator()) {
            terminator(S, I);
            return;
        }
        if (auto *C = dyn_cast<CallBase>(I)) {
            std::vector<State> outs;
            if (!call(S, C, outs)) return;  // does not return
            for (auto &o : outs) ruleOutcome(*this, o, C);
            if (outs.size() == 1) { S = std::move(outs[0]); continue; }
            auto nx = std::next(it);
            for (auto &o : outs) execFrom(o, B, nx);
            return;
        }
        step(S, I);
    }
}
void FnAnalysis::step(State &S, const Instruction *I) {
    if (reporting) ruleInst(*this, S, I);
    if (auto *A = dyn_cast<AllocaInst>(I)) { S.env[I] = tAlloca(A); return; }
    if (auto *L = dyn_cast<LoadInst>(I)) {
        T a = val(S, L->getPointerOperand());
        T r = rootOf(a);
        if (reporting && S.rel.count(r)) ruleUAF(*this, S, r, I);
        unsigned w = widthOf(L->getType());
        // decide whether this load needs a fresh name before renaming old instances
        T t = loadMem(S, a, w, I);
        if (t->k == K_FRESH && t->v == I) {
            S.mem.erase(a);
            redefine(S, I);
            T a2 = val(S, L->getPointerOperand());
            t = tFresh(I, w);
            if (w <= 64 && !leaves(a2).count(t)) { S.mem[a2] = t; if (L->getType()->isPointerTy() && r->k != K_ALLOCA) S.org[t] = a2; }
        }
        S.env[I] = t;
        ruleLoad(*this, S, I, a, t);
        return;
    }
    if (auto *St = dyn_cast<StoreInst>(I)) {
        T a = val(S, St->getPointerOperand());
        T v = val(S, St->getValueOperand());
        T r = rootOf(a);
        if (reporting && S.rel.count(r)) ruleUAF(*this, S, r, I);
        storeMem(S, a, v, I, St->getValueOperand()->getType());
        return;
    }
    if (auto *G = dyn_cast<GetElementPtrInst>(I)) { S.env[I] = gep(S, cast<GEPOperator>(G)); return; }
    if (auto *C = dyn_cast<CastInst>(I)) {
        if (widthOf(I->getType()) <= 64 && widthOf(C->getOperand(0)->getType()) <= 64 &&
            (isa<SExtInst>(I) || isa<ZExtInst>(I) || isa<TruncInst>(I) || isa<BitCastInst>(I) || isa<PtrToIntInst>(I) || isa<IntToPtrInst>(I))) {
            S.env[I] = tCast(C->getOpcode(), val(S, C->getOperand(0)), widthOf(I->getType()));
            return;
        }
    }
    if (auto *C = dyn_cast<ICmpInst>(I)) {
        S.env[I] = tCmp(C->getPredicate(), val(S, C->getOperand(0)), val(S, C->getOperand(1)));
        return;
    }
    if (auto *Bo = dyn_cast<BinaryOperator>(I)) {
        if (I->getType()->isIntegerTy() && widthOf(I->getType()) <= 64) {
            T a = val(S, Bo->getOperand(0)), b = val(S, Bo->getOperand(1));
            S.env[I] = tBin(Bo->getOpcode(), a, b, widthOf(I->getType()));
            return;
        }
    }
    if (auto *Se = dyn_cast<SelectInst>(I)) {
        int e = evalBool(S, val(S, Se->getCondition()));
        if (e >= 0) { S.env[I] = val(S, e ? Se->getTrueValue() : Se->getFalseValue()); return; }
    }
    if (auto *Fz = dyn_cast<FreezeInst>(I)) { S.env[I] = val(S, Fz->getOperand(0)); return; }
    if (isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I)) {
        T a = val(S, I->getOperand(0));
        noteWrite(S, a, I);
        T r = rootOf(a);
        if (reporting && S.rel.count(r)) ruleUAF(*this, S, r, I);
        S.mem[a] = tUndef();
        // publication: the new value may now be owned by the shared structure
        if (auto *X = dyn_cast<AtomicCmpXchgInst>(I)) { T v = val(S, X->getNewValOperand()); if (S.cnt.count(v) && v->k != K_PARAM) { S.cnt.erase(v); S.unt.insert(v); } }
    }
    if (!I->getType()->isVoidTy()) {
        redefine(S, I);
        S.env[I] = tFresh(I, widthOf(I->getType()));
    }
}
void FnAnalysis::terminator(State &S, const Instruction *I) {
    const BasicBlock *B = I->getParent();
    if (reporting) ruleInst(*this, S, I);
    if (auto *Br = dyn_cast<BranchInst>(I)) {
        if (Br->isUnconditional()) { edge(S, B, Br->getSuccessor(0)); return; }
        T c = val(S, Br->getCondition());
        for (int k = 0; k < 2; k++) {
            State N = S;
            if (assumeBool(N, c, k == 0)) edge(std::move(N), B, Br->getSuccessor(k));
        }
        return;
    }
    if (auto *Sw = dyn_cast<SwitchInst>(I)) {
        T c = val(S, Sw->getCondition());
        State D = S;
        bool dok = true;
        // cases sharing a successor are joined
        std::map<const BasicBlock *, std::vector<State>> by;
        std::vector<const BasicBlock *> order;
        for (auto &cs : Sw->cases()) {
            int64_t v = cs.getCaseValue()->getSExtValue();
            State N = S;
            if (evalCmp(N, CmpInst::ICMP_EQ, c, tInt(v, c->w)) != 0 && assumeEqConst(N, c, v)) {
                auto *s = cs.getCaseSuccessor();
                if (!by.count(s)) order.push_back(s);
                by[s].push_back(std::move(N));
            }
            if (dok) dok = assumeNeConst(D, c, v);
        }
        for (auto *s : order)
            for (auto &n : by[s]) edge(std::move(n), B, s);
        if (dok) edge(std::move(D), B, Sw->getDefaultDest());
        return;
    }
    if (auto *R = dyn_cast<ReturnInst>(I)) {
        if (reporting) ruleReturn(*this, S, R);
        return;
    }
    if (auto *IB = dyn_cast<IndirectBrInst>(I)) {
        for (unsigned i = 0; i < IB->getNumSuccessors(); i++) edge(S, B, IB->getSuccessor(i));
        return;
    }
}
