#include "elem.h"
#include <cmath>
#include "lintutil.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Operator.h"
namespace el {
static std::map<std::string, std::unique_ptr<N>> TAB;
static uint64_t mask(uint64_t v, unsigned w) { return w >= 64 ? v : v & ((1ULL << w) - 1); }
static E intern(N n) {
    std::string k = std::to_string(n.k) + "/" + std::to_string(n.w) + (n.fp ? "f" : "i") + "/" + std::to_string(n.c) + "/" + n.op;
    for (auto &p : n.t) k += "/" + std::to_string(p.first) + "*" + std::to_string(p.second->id);
    for (auto *a : n.a) k += "," + std::to_string(a->id);
    auto &s = TAB[k];
    if (!s) { n.id = (int)TAB.size(); s.reset(new N(n)); }
    return s.get();
}
E konst(uint64_t v, unsigned w, bool fp) { N n; n.k = N::C; n.w = w; n.fp = fp; n.c = mask(v, w); return intern(n); }
E leaf(const std::string &s, unsigned w, bool fp) { N n; n.k = N::L; n.w = w; n.fp = fp; n.op = s; return intern(n); }
static double dval(E e) { if (e->w == 32) { float f; uint32_t u = (uint32_t)e->c; memcpy(&f, &u, 4); return f; } double d; memcpy(&d, &e->c, 8); return d; }
static E fconst(double d, unsigned w) {
    if (d != d) return konst(w == 32 ? 0x7fc00000u : 0x7ff8000000000000ULL, w, true);
    if (w == 32) { float f = (float)d; uint32_t u; memcpy(&u, &f, 4); return konst(u, 32, true); }
    uint64_t u; memcpy(&u, &d, 8); return konst(u, 64, true);
}
static bool isNaN(E e) { return isC(e) && e->fp && dval(e) != dval(e); }
int64_t sval(E e) { return e->w >= 64 ? (int64_t)e->c : (int64_t)(e->c << (64 - e->w)) >> (64 - e->w); }
static int64_t smask(int64_t v, unsigned w) { return w >= 64 ? v : (int64_t)((uint64_t)v << (64 - w)) >> (64 - w); }
E sum(unsigned w, std::vector<std::pair<int64_t, E>> t, uint64_t c) {
    std::map<int, std::pair<int64_t, E>> m;
    std::function<void(E, int64_t)> put = [&](E e, int64_t k) {
        if (isC(e)) { c += (uint64_t)k * e->c; return; }
        if (e->k == N::SUM) { c += (uint64_t)k * e->c; for (auto &p : e->t) put(p.second, (int64_t)((uint64_t)p.first * (uint64_t)k)); return; }
        auto &x = m[e->id];
        x.second = e;
        x.first = (int64_t)((uint64_t)x.first + (uint64_t)k);
    };
    for (auto &p : t) put(p.second, p.first);
    N n; n.k = N::SUM; n.w = w; n.c = mask(c, w);
    for (auto &p : m) { int64_t k = w == 1 ? p.second.first & 1 : smask(p.second.first, w); if (k) n.t.push_back({k, p.second.second}); }
    if (n.t.empty()) return konst(c, w);
    if (n.t.size() == 1 && n.t[0].first == 1 && !n.c) return n.t[0].second;
    if (w == 1 && n.t.size() == 1) return op("not", 1, false, {n.t[0].second});
    return intern(n);
}
E add(E a, E b, int64_t kb) { return sum(a->w, {{1, a}, {kb, b}}, 0); }
E scale(E a, int64_t k) { return sum(a->w, {{k, a}}, 0); }
E mul(E a, E b) {
    if (isC(a)) std::swap(a, b);
    if (isC(b)) return scale(a, (int64_t)b->c);
    for (int i = 0; i < 2; i++, std::swap(a, b))
        if (a->k == N::SUM && !a->fp && (a->t.size() > 1 || a->c)) {
            E r = scale(b, (int64_t)a->c);
            for (auto &p : a->t) r = add(r, mul(p.second, b), p.first);
            return r;
        }
    auto factors = [](E e, int64_t &k) { std::vector<E> v; if (e->k == N::SUM && e->t.size() == 1 && !e->c) { k *= e->t[0].first; e = e->t[0].second; } if (e->k == N::OP && e->op == "prod") v = e->a; else v = {e}; return v; };
    int64_t k = 1;
    auto v = factors(a, k), u = factors(b, k);
    v.insert(v.end(), u.begin(), u.end());
    std::sort(v.begin(), v.end(), [](E p, E q) { return p->id < q->id; });
    N n; n.k = N::OP; n.w = a->w; n.op = "prod"; n.a = v;
    return scale(intern(n), k);
}
E trunc(E a, unsigned w) {
    if (a->w == w) return a;
    if (isC(a)) return konst(a->c, w);
    if (a->k == N::SUM) { std::vector<std::pair<int64_t, E>> t; for (auto &p : a->t) t.push_back({p.first, trunc(p.second, w)}); return sum(w, t, a->c); }
    if (a->k == N::OP && (a->op == "sext" || a->op == "zext")) {
        E x = a->a[0];
        if (x->w == w) return x;
        if (x->w > w) return trunc(x, w);
        return ext(x, w, a->op == "sext");
    }
    if (a->k == N::OP && a->op == "trunc") return trunc(a->a[0], w);
    if (a->k == N::OP && a->op == "prod") { E r = nullptr; for (auto *x : a->a) { E y = trunc(x, w); r = r ? mul(r, y) : y; } return r; }
    if (a->k == N::OP && (a->op == "and" || a->op == "or" || a->op == "xor")) return op(a->op, w, false, {trunc(a->a[0], w), trunc(a->a[1], w)});
    N n; n.k = N::OP; n.w = w; n.op = "trunc"; n.a = {a};
    return intern(n);
}
E ext(E a, unsigned w, bool sgn) {
    if (a->w == w) return a;
    if (isC(a)) return konst(sgn ? (uint64_t)sval(a) : a->c, w);
    if (a->k == N::OP && a->op == "zext") return ext(a->a[0], w, false);
    if (a->k == N::OP && a->op == "sext" && sgn) return ext(a->a[0], w, true);
    N n; n.k = N::OP; n.w = w; n.op = sgn ? "sext" : "zext"; n.a = {a};
    return intern(n);
}
static bool isExt(E e) { return e->k == N::OP && (e->op == "sext" || e->op == "zext"); }
// range of an expression as a signed number
static void srange(E e, __int128 &lo, __int128 &hi) {
    unsigned w = e->w > 64 ? 64 : e->w;
    lo = -((__int128)1 << (w - 1)); hi = ((__int128)1 << (w - 1)) - 1;
    if (isC(e)) { lo = hi = sval(e); return; }
    if (e->k == N::OP && e->op == "sext") srange(e->a[0], lo, hi);
    else if (e->k == N::OP && e->op == "zext") { lo = 0; hi = ((__int128)1 << e->a[0]->w) - 1; }
    else if (e->k == N::SUM) {
        __int128 l = sval(konst(e->c, w)), h = l;
        for (auto &p : e->t) { __int128 a, b; srange(p.second, a, b); if (p.first < 0) std::swap(a, b); l += a * p.first; h += b * p.first; }
        if (l >= lo && h <= hi) { lo = l; hi = h; }
    }
}
static E memcmpE(unsigned w, std::vector<E> a) {   // its sign is all that counts
    N n; n.k = N::OP; n.w = w; n.op = "call:memcmp";
    bool sw = a[0]->id > a[1]->id;
    if (sw) std::swap(a[0], a[1]);
    n.a = a;
    E r = intern(n);
    return sw ? scale(r, -1) : r;
}
E op(const std::string &o, unsigned w, bool fp, std::vector<E> a) {
    if (o == "call:memcmp" && a.size() == 3) return memcmpE(w, a);
    if (o == "xor" && w == 1) return sum(1, {{1, a[0]}, {1, a[1]}}, 0);
    if (o == "not") { if (isC(a[0])) return konst(!a[0]->c, 1); if (a[0]->k == N::OP && a[0]->op == "not") return a[0]->a[0]; }
    bool allC = true;
    for (auto *x : a) allC &= isC(x);
    if (o == "bc") {
        if (a[0]->fp == fp) return a[0];
        if (isC(a[0])) return konst(a[0]->c, w, fp);
        if (a[0]->k == N::OP && a[0]->op == "bc") return a[0]->a[0];
    }
    if (o == "and" || o == "or" || o == "xor" || o == "fadd" || o == "fmul") { if (a[0]->id > a[1]->id) std::swap(a[0], a[1]); }
    if (fp || o == "fptosi" || o == "fptoui") {
        for (auto *x : a) if (x->fp && isNaN(x) && fp && o != "bc") return fconst(NAN, w);
        if (allC) {
            if (o == "fadd") return fconst(dval(a[0]) + dval(a[1]), w);
            if (o == "fsub") return fconst(dval(a[0]) - dval(a[1]), w);
            if (o == "fmul") return fconst(dval(a[0]) * dval(a[1]), w);
            if (o == "fdiv") return fconst(dval(a[0]) / dval(a[1]), w);
            if (o == "fneg") return fconst(-dval(a[0]), w);
            if (o == "sitofp") return fconst((double)sval(a[0]), w);
            if (o == "uitofp") return fconst((double)a[0]->c, w);
        }
        if (o == "sitofp" && a[0]->k == N::OP && a[0]->op == "sext") return op(o, w, fp, {a[0]->a[0]});
        if (o == "sitofp" && a[0]->k == N::OP && a[0]->op == "zext") return op("uitofp", w, fp, {a[0]->a[0]});
        if (o == "uitofp" && a[0]->k == N::OP && a[0]->op == "zext") return op(o, w, fp, {a[0]->a[0]});
        if (o == "fneg" && a[0]->k == N::OP && a[0]->op == "fneg") return a[0]->a[0];
    } else {
        if (o == "and" && isC(a[0])) std::swap(a[0], a[1]);
        if (o == "and" && isC(a[1]) && a[1]->c == 0) return a[1];
        if (o == "and" && isC(a[1]) && a[1]->c == mask(~0ULL, w)) return a[0];
        if (o == "and" && isC(a[1]) && a[0]->k == N::OP && a[0]->op == "zext" && mask(a[1]->c, a[0]->a[0]->w) == mask(~0ULL, a[0]->a[0]->w)) return a[0];
        if (o == "or" || o == "xor") { if (isC(a[0])) std::swap(a[0], a[1]); if (isC(a[1]) && !a[1]->c) return a[0]; }
        if (o == "xor" && isC(a[1]) && a[1]->c == mask(~0ULL, w) && w > 1) return sum(w, {{-1, a[0]}}, ~0ULL);
        if ((o == "and" || o == "or") && a[0] == a[1]) return a[0];
        if (o == "xor" && a[0] == a[1]) return konst(0, w);
        if (allC && a.size() == 2 && w <= 64) {
            uint64_t x = a[0]->c, y = a[1]->c;
            int64_t sx = sval(a[0]), sy = sval(a[1]);
            if (o == "and") return konst(x & y, w);
            if (o == "or") return konst(x | y, w);
            if (o == "xor") return konst(x ^ y, w);
            if (o == "shl" && y < w) return konst(x << y, w);
            if (o == "lshr" && y < w) return konst(x >> y, w);
            if (o == "ashr" && y < w) return konst((uint64_t)(sx >> y), w);
            if (o == "udiv" && y) return konst(x / y, w);
            if (o == "urem" && y) return konst(x % y, w);
            if (o == "sdiv" && sy && !(sy == -1)) return konst((uint64_t)(sx / sy), w);
            if (o == "srem" && sy && !(sy == -1)) return konst((uint64_t)(sx % sy), w);
        }
        if (o == "shl" && isC(a[1]) && a[1]->c < 63) return scale(a[0], (int64_t)1 << a[1]->c);
        if ((o == "sdiv" || o == "srem") && isExt(a[0]) && isExt(a[1]) && a[0]->op == a[1]->op && a[0]->op == "zext") {
            unsigned m = std::max(a[0]->a[0]->w, a[1]->a[0]->w);
            return ext(op(o == "sdiv" ? "udiv" : "urem", m, false, {ext(a[0]->a[0], m, false), ext(a[1]->a[0], m, false)}), w, false);
        }
        if ((o == "sdiv" || o == "udiv") && isC(a[1]) && a[1]->c == 1) return a[0];
    }
    N n; n.k = N::OP; n.w = w; n.fp = fp; n.op = o; n.a = a;
    return intern(n);
}
static E boolC(bool b) { return konst(b, 1); }
E cmpE(E a, E b, const std::string &p0, bool &sign) {
    std::string p = p0;
    sign = true;
    if (a->fp) {
        if (p == "ogt") { std::swap(a, b); p = "olt"; }
        else if (p == "oge") { std::swap(a, b); p = "ole"; }
        else if (p == "une") { sign = false; p = "oeq"; }
        else if (p == "uge") { sign = false; p = "olt"; }
        else if (p == "ugt") { sign = false; p = "ole"; }
        else if (p == "ult") { sign = false; std::swap(a, b); p = "ole"; }
        else if (p == "ule") { sign = false; std::swap(a, b); p = "olt"; }
        else if (p == "ord") { sign = false; p = "uno"; }
        if (p == "uno" && a == b) {  // the test of the bits
            E u = op("bc", a->w, false, {a});
            if (isC(u)) return boolC(isNaN(a));
            return op("isnan", 1, false, {u});
        }
        if (p == "oeq" && (a->id > b->id || isC(a)) && !isC(b)) std::swap(a, b);
        if (p[0] == 'o' && (isNaN(a) || isNaN(b))) return boolC(false);
        if (isC(a) && isC(b)) { double x = dval(a), y = dval(b); if (p == "oeq") return boolC(x == y); if (p == "olt") return boolC(x < y); if (p == "ole") return boolC(x <= y); }
        // exact conversions keep the order
        auto conv = [](E e) { return e->k == N::OP && (e->op == "sitofp" || e->op == "uitofp") ? e : nullptr; };
        if (a->w == 64 && conv(a) && isC(b)) {
            double d = dval(b);
            double lim = a->a[0]->w <= 32 ? 9.3e18 : 9e15;
            if (d > -lim && d < (lim > 9.2e18 ? 9.2e18 : lim) && d == (double)(int64_t)d && (a->op == "sitofp" || a->a[0]->w < 64)) {
                E x = ext(a->a[0], 64, a->op == "sitofp");
                return cmpE(x, konst((uint64_t)(int64_t)d, 64), p == "oeq" ? "eq" : p == "olt" ? "slt" : "sle", sign);
            }
        }
        return op("f" + p, 1, false, {a, b});
    }
    if (p == "ne") { p = "eq"; sign = false; }
    else if (p == "sgt") { std::swap(a, b); p = "slt"; }
    else if (p == "ugt") { std::swap(a, b); p = "ult"; }
    else if (p == "sge") { p = "slt"; sign = false; }
    else if (p == "uge") { p = "ult"; sign = false; }
    else if (p == "sle") { std::swap(a, b); p = "slt"; sign = false; }
    else if (p == "ule") { std::swap(a, b); p = "ult"; sign = false; }
    if (isC(a) && isC(b)) return boolC(p == "eq" ? a->c == b->c : p == "slt" ? sval(a) < sval(b) : a->c < b->c);
    if (a == b) return boolC(p == "eq");
    if (p == "eq" && a->k == N::L && b->k == N::L && a->op[0] == '@' && b->op[0] == '@') return boolC(false);   // two functions
    if (a->w <= 64 && p != "ult") {
        __int128 al, ah, bl, bh;
        srange(a, al, ah);
        srange(b, bl, bh);
        if (ah < bl) return boolC(p == "slt");
        if (bh < al) return boolC(false);
        if (p == "slt" && al >= bh) return boolC(false);
    }
    // comparison of extended values: on the values themselves
    auto narrow = [&](E e, unsigned w, bool sg) -> E {
        if (isExt(e) && e->a[0]->w == w && (e->op == "sext") == sg) return e->a[0];
        if (isExt(e) && e->a[0]->w < w && (e->op == "zext" || sg)) return ext(e->a[0], w, e->op == "sext");
        if (isC(e)) { E t = konst(e->c, w); if (ext(t, e->w, sg) == e) return t; }
        return nullptr;
    };
    for (E e : {a, b})
        if (isExt(e)) {
            bool sg = e->op == "sext";
            if (p == "ult" && sg) continue;
            E x = narrow(a, e->a[0]->w, sg), y = narrow(b, e->a[0]->w, sg);
            if (x && y) { bool s2; E r = cmpE(x, y, p == "slt" && !sg ? "ult" : p, s2); sign = sign == s2; return r; }
        }
    if (p == "eq") {
        E d = add(a, b, -1);
        // the exponent of a converted integer
        if (d->k == N::SUM && d->t.size() == 1 && d->c) {
            E x = d->t[0].second;
            if (x->k == N::OP && x->op == "and" && d->w == 64) for (int i = 0; i < 2; i++) if (isC(x->a[i]) && x->a[i]->c == 0x7FF0000000000000ULL && x->a[1 - i]->op == "bc" && (x->a[1 - i]->a[0]->op == "sitofp" || x->a[1 - i]->a[0]->op == "uitofp") && (add(a, x, -1) == konst(0, 64) ? b : a) == x->a[i]) return boolC(false);
        }
        if (isC(d)) return boolC(d->c == 0);
        if (d->k == N::SUM && d->t[0].first < 0) d = scale(d, -1);
        // a truth value compared with zero
        if (d->k == N::OP && d->op == "zext" && d->a[0]->w == 1) { sign = !sign; return d->a[0]; }
        if (d->k == N::SUM && d->t.size() == 1 && d->t[0].first == 1 && d->t[0].second->op == "zext" && d->t[0].second->a[0]->w == 1) { if (d->c == mask(~0ULL, d->w)) return d->t[0].second->a[0]; if (d->c) return boolC(false); }
        if (d->w == 1 && d->k == N::OP) { sign = !sign; return d; }
        return op("eq0", 1, false, {d});
    }
    if (p == "slt") {   // -c < 0
        auto neg = [](E e) { return e->k == N::SUM && e->t.size() == 1 && e->t[0].first == -1 && !e->c && e->t[0].second->op == "call:memcmp"; };
        if (neg(a) && isC(b) && !b->c) return cmpE(b, scale(a, -1), "slt", sign);
        if (neg(b) && isC(a) && !a->c) return cmpE(scale(b, -1), a, "slt", sign);
    }
    // x < 1 and the like on numbers known not negative are left as they are
    return op(p, 1, false, {a, b});
}
E subst(E e, const std::map<E, E> &m) {
    auto it = m.find(e);
    if (it != m.end()) return it->second;
    if (e->k == N::C || e->k == N::L) return e;
    if (e->k == N::SUM) { std::vector<std::pair<int64_t, E>> t; for (auto &p : e->t) t.push_back({p.first, subst(p.second, m)}); return sum(e->w, t, e->c); }
    std::vector<E> a;
    for (auto *x : e->a) a.push_back(subst(x, m));
    if (a == e->a) return e;
    bool s;
    auto neg = [&](E r, bool s) -> E { return s ? r : isC(r) ? boolC(!r->c) : op("not", 1, false, {r}); };
    if (e->op == "prod") { E r = a[0]; for (size_t i = 1; i < a.size(); i++) r = mul(r, a[i]); return r; }
    if (e->op == "trunc") return trunc(a[0], e->w);
    if (e->op == "sext" || e->op == "zext") return ext(a[0], e->w, e->op == "sext");
    if (e->op == "eq0") { E r = cmpE(a[0], konst(0, a[0]->w), "eq", s); return neg(r, s); }
    if (e->op == "slt" || e->op == "ult") { E r = cmpE(a[0], a[1], e->op, s); return neg(r, s); }
    if (e->op == "foeq" || e->op == "folt" || e->op == "fole" || e->op == "funo") { E r = cmpE(a[0], a[1], e->op.substr(1), s); return neg(r, s); }
    if (e->op == "isnan") { if (isC(a[0])) return boolC(isNaN(konst(a[0]->c, a[0]->w, true))); }
    if (e->op == "not") { if (isC(a[0])) return boolC(!a[0]->c); }
    return op(e->op, e->w, e->fp, a);
}
bool mentions(E e, E x) {
    if (e == x) return true;
    for (auto &p : e->t) if (mentions(p.second, x)) return true;
    for (auto *a : e->a) if (mentions(a, x)) return true;
    return false;
}
std::string str(E e, int d) {
    if (!e) return "-";
    if (d > 8) return "..";
    if (isC(e)) { if (e->fp) return isNaN(e) ? "null" : std::to_string(dval(e)); int64_t v = sval(e); if ((e->w == 64 && v == INT64_MIN) || (e->w == 32 && v == INT32_MIN) || (e->w == 16 && v == INT16_MIN)) return "null"; return std::to_string(v); }
    if (e->k == N::L) return e->op;
    std::string s;
    if (e->k == N::SUM) {
        for (auto &p : e->t) { if (!s.empty()) s += p.first < 0 ? " - " : " + "; else if (p.first < 0) s += "-"; int64_t k = p.first < 0 ? -p.first : p.first; if (k != 1) s += std::to_string(k) + "*"; s += str(p.second, d + 1); }
        if (e->c) { int64_t v = smask((int64_t)e->c, e->w); s += v < 0 ? " - " + std::to_string(-v) : " + " + std::to_string(v); }
        return "(" + s + ")";
    }
    s = e->op + "(";
    for (size_t i = 0; i < e->a.size(); i++) s += (i ? "," : "") + str(e->a[i], d + 1);
    return s + ")";
}

// ---- evaluation
namespace {
struct FI { std::unique_ptr<DominatorTree> DT; std::unique_ptr<LoopInfo> LI; size_t n = 0; };
static std::map<const Function *, FI> FIS;
static FI &info(const Function *F) {
    auto &f = FIS[F];
    if (!f.DT) { f.DT.reset(new DominatorTree(*const_cast<Function *>(F))); f.LI.reset(new LoopInfo(*f.DT)); for (auto &B : *F) f.n += B.size(); }
    return f;
}
struct Frame { const Function *F; const CallInst *call; };
struct St {
    std::map<std::pair<int, const Value *>, E> env;
    std::map<E, E> mem;             // locals
    Path p;
    std::vector<std::pair<const BasicBlock *, E>> rounds;  // open loops of the current frame
    int ncall = 0;
};
struct Ev {
    const Spec &sp;
    std::vector<Path> out;
    size_t steps = 0;
    bool over = false;
    Ev(const Spec &s) : sp(s) {}
    using Cont = std::function<void(St, E)>;

    void bad(St S, const Instruction *I, const std::string &why) { S.p.kind = Path::BAD; S.p.why = why; S.p.at = I; emit(S.p); }
    void emit(Path p) { if (out.size() < sp.maxPaths) out.push_back(p); else over = true; }

    static unsigned wd(Type *t) { return t->isPointerTy() ? 64 : t->isIntegerTy() || t->isFloatTy() || t->isDoubleTy() ? (unsigned)t->getPrimitiveSizeInBits() : 0; }
    E value(St &S, int fr, const Value *v) {
        if (auto *c = dyn_cast<ConstantInt>(v)) return c->getBitWidth() <= 64 ? konst(c->getZExtValue(), c->getBitWidth()) : nullptr;
        if (auto *c = dyn_cast<ConstantFP>(v)) { if (c->getType()->isX86_FP80Ty()) return nullptr; E k = konst(c->getValueAPF().bitcastToAPInt().getZExtValue(), wd(c->getType()), true); return isNaN(k) ? fconst(NAN, k->w) : k; }
        if (isa<ConstantPointerNull>(v)) return konst(0, 64);
        if (isa<UndefValue>(v)) return leaf("undef", wd(v->getType()) ? wd(v->getType()) : 64);
        if (auto *g = dyn_cast<GlobalValue>(v)) return leaf("@" + g->getName().str(), 64);
        if (auto *c = dyn_cast<ConstantExpr>(v)) {
            if (c->isCast()) return value(S, fr, c->getOperand(0));
            if (auto *g = dyn_cast<GEPOperator>(c)) return gep(S, fr, g);
            return nullptr;
        }
        auto it = S.env.find({fr, v});
        return it == S.env.end() ? nullptr : it->second;
    }
    E gep(St &S, int fr, const GEPOperator *g) {
        E r = value(S, fr, g->getPointerOperand());
        if (!r) return nullptr;
        MapVector<Value *, APInt> var;
        APInt c(64, 0);
        if (!g->collectOffset(*DL, 64, var, c)) return nullptr;
        r = sum(64, {{1, r}}, c.getZExtValue());
        for (auto &p : var) { E i = value(S, fr, p.first); if (!i) return nullptr; r = add(r, ext(i, 64, true), p.second.getSExtValue()); }
        return r;
    }
    // truth of an expression on the path, or -1; otherwise the atom and its sign
    int truth(St &S, E e, E &atom, bool &sign) {
        sign = true;
        for (;;) {
            e = subst(e, S.p.fixed);
            if (isC(e)) return (e->c != 0) == sign;
            if (e->k == N::OP && e->op == "not") { sign = !sign; e = e->a[0]; continue; }
            if (e->k == N::OP && e->op == "xor" && e->w == 1 && isC(e->a[1])) { if (e->a[1]->c) sign = !sign; e = e->a[0]; continue; }
            if (e->k == N::OP && e->op == "xor" && e->w == 1 && isC(e->a[0])) { if (e->a[0]->c) sign = !sign; e = e->a[1]; continue; }
            if (e->k == N::OP && e->op == "trunc" && e->w == 1 && isExt(e->a[0]) && e->a[0]->a[0]->w == 1) { e = e->a[0]->a[0]; continue; }
            break;
        }
        atom = e;
        auto it = S.p.lits.find(e);
        if (it != S.p.lits.end()) return it->second == sign;
        // both parts of the test for a null f64 known
        if (e->k == N::OP && e->op == "isnan") {
            E u = e->a[0];
            bool s1, s2;
            E q1 = cmpE(op("and", 64, false, {u, konst(0x7FF0000000000000ULL, 64)}), konst(0x7FF0000000000000ULL, 64), "eq", s1), q2 = cmpE(op("and", 64, false, {u, konst(0xFFFFFFFFFFFFFULL, 64)}), konst(0, 64), "eq", s2);
            auto i1 = S.p.lits.find(q1), i2 = S.p.lits.find(q2);
            if (i1 != S.p.lits.end() && (i1->second == s1) == false) return !sign;
            if (i2 != S.p.lits.end() && (i2->second == s2) == true) return !sign;
            if (i1 != S.p.lits.end() && i2 != S.p.lits.end()) return sign;
        }
        return -1;
    }
    static void learn(Path &p, E atom, bool v) {
        p.lits[atom] = v;
        if (v && atom->k == N::OP && atom->op == "eq0") {
            E d = atom->a[0];
            if (d->k == N::L) p.fixed[d] = konst(0, d->w);
            else if (d->k == N::SUM && d->t.size() == 1 && (d->t[0].first == 1 || d->t[0].first == -1) && d->t[0].second->k == N::L) p.fixed[d->t[0].second] = konst(d->t[0].first == 1 ? 0 - d->c : d->c, d->w);
        }
    }
    void decide(St S, E c, const std::function<void(St, bool)> &k) {
        E atom; bool sign;
        int t = truth(S, c, atom, sign);
        if (t >= 0) { k(S, t); return; }
        if (atom->k == N::OP && (atom->op == "and" || atom->op == "or") && atom->w == 1) {
            bool isAnd = atom->op == "and";
            E p = atom->a[0], q = atom->a[1];
            decide(S, p, [=](St S2, bool v) { if (v != isAnd) { k(S2, v == sign); return; } decide(S2, q, [=](St S3, bool u) { k(S3, u == sign); }); });
            return;
        }
        for (bool v : {true, false}) {
            St S2 = S;
            learn(S2.p, atom, v);
            k(S2, v == sign);
        }
    }
    E loadFrom(St &S, E addr, unsigned w, bool fp, const Instruction *I) {
        auto it = S.mem.find(addr);
        if (it != S.mem.end()) { E v = it->second; if (v->w == w) return v->fp == fp ? v : op("bc", w, fp, {v}); if (!v->fp && !fp && v->w > w) return trunc(v, w); return nullptr; }
        for (auto &o : sp.objs) {
            E d = add(addr, o.ptr, -1);
            if (mentions(d, o.ptr)) continue;
            if (o.tag && isC(d) && d->c == 2 && w == 8) return konst((uint8_t)o.tag, 8);
            if (!o.tag) continue;
            if (o.tag < 0 && isC(d) && d->c == 8) { E x = leaf(std::string(1, o.name), w); return fp ? op("bc", w, true, {x}) : x; }
            if (o.tag != 20 && (o.tag > 0 || (isC(d) && d->c >= 16))) {
                E i = add(d, konst(16, 64), -1);
                unsigned b = w / 8;
                bool ok = true;
                std::vector<std::pair<int64_t, E>> t;
                uint64_t c = 0;
                if (i->k == N::SUM) { for (auto &p : i->t) { ok &= p.first % (int64_t)b == 0; t.push_back({p.first / (int64_t)b, p.second}); } ok &= (int64_t)i->c % (int64_t)b == 0; c = (uint64_t)((int64_t)i->c / (int64_t)b); }
                else if (isC(i)) { ok = (int64_t)i->c >= 0 && i->c % b == 0; c = i->c / b; }
                else { ok = b == 1; t.push_back({1, i}); }
                if (!ok) break;
                S.p.rd.push_back({o.name, sum(64, t, c), w, I});
                E x = leaf(std::string(1, o.name), w);
                return fp ? op("bc", w, true, {x}) : x;
            }
        }
        E x = op("load", w, false, {addr});
        return fp ? op("bc", w, true, {x}) : x;
    }
    // an element's address handed to a function
    E elementAddr(St &S, E a, const Instruction *I) {
        for (auto &o : sp.objs) {
            if (!o.tag) continue;
            E d = add(a, o.ptr, -1);
            if (mentions(d, o.ptr)) continue;
            E i = add(d, konst(16, 64), -1);
            if (o.tag < 0) { if (isC(i) && i->c == 0) return leaf(std::string("&") + o.name, 64); continue; }
            bool ok = true;
            std::vector<std::pair<int64_t, E>> t;
            uint64_t c = 0;
            if (i->k == N::SUM) { for (auto &p : i->t) { ok &= p.first % 16 == 0; t.push_back({p.first / 16, p.second}); } ok &= i->c % 16 == 0; c = (uint64_t)((int64_t)i->c / 16); }
            else if (isC(i)) { ok = i->c == 0; }
            else ok = false;
            if (!ok || (o.tag != 11 && o.tag != -11)) continue;
            S.p.rd.push_back({o.name, sum(64, t, c), 128, I});
            return leaf(std::string("&") + o.name, 64);
        }
        return a;
    }
    static bool induction(const PHINode *P, const Loop *L, int64_t &step) {
        const Value *next = nullptr;
        for (unsigned i = 0; i < P->getNumIncomingValues(); i++)
            if (L->contains(P->getIncomingBlock(i))) { if (next && next != P->getIncomingValue(i)) return false; next = P->getIncomingValue(i); }
        if (auto *b = dyn_cast_or_null<BinaryOperator>(next)) {
            auto *c = dyn_cast<ConstantInt>(b->getOperand(1));
            if (b->getOpcode() == Instruction::Add && b->getOperand(0) == P && c) { step = c->getSExtValue(); return true; }
            if (b->getOpcode() == Instruction::Sub && b->getOperand(0) == P && c) { step = -c->getSExtValue(); return true; }
        }
        if (auto *g = dyn_cast_or_null<GetElementPtrInst>(next)) {
            APInt c(64, 0);
            if (g->getPointerOperand() == P && g->accumulateConstantOffset(*DL, c)) { step = c.getSExtValue(); return true; }
        }
        return false;
    }
    void go(St S, const Function *F, int fr, const BasicBlock *from, const BasicBlock *to, const Cont &k) {
        if (over || ++steps > sp.maxSteps) { over = true; return; }
        auto &fi = info(F);
        const Loop *L = fi.LI->getLoopFor(to);
        bool header = L && L->getHeader() == to;
        if (header && from && L->contains(from)) {
            if (fr != 0) { bad(S, to->getTerminator(), "loop in a helper"); return; }
            S.p.kind = Path::ITER;
            S.p.round = S.rounds.empty() ? nullptr : S.rounds.back().second;
            S.p.at = from->getTerminator();
            emit(S.p);
            return;
        }
        while (!S.rounds.empty() && fr == 0) { const Loop *RL = fi.LI->getLoopFor(S.rounds.back().first); if (RL && RL->contains(to)) break; S.rounds.pop_back(); }
        std::vector<std::pair<const PHINode *, E>> upd;
        E K = nullptr;
        if (header) { K = leaf("K" + std::to_string(info(F).LI->getLoopDepth(to)), 64); if (fr) { bad(S, to->getTerminator(), "loop in a helper"); return; } }
        for (auto &P : to->phis()) {
            E v = value(S, fr, P.getIncomingValueForBlock(from));
            if (header) {
                int64_t st;
                if (v && induction(&P, L, st)) v = sum(v->w, {{1, v}, {st, v->w == 64 ? K : trunc(K, v->w)}}, 0);
                else { unsigned w = wd(P.getType()); v = w ? leaf("acc" + std::to_string(upd.size()), w, P.getType()->isFloatingPointTy()) : nullptr; }
            }
            upd.push_back({&P, v});
        }
        for (auto &u : upd) { if (u.second) S.env[{fr, u.first}] = u.second; else S.env.erase({fr, u.first}); }
        if (header) S.rounds.push_back({to, K});
        exec(S, F, fr, to, to->getFirstNonPHI()->getIterator(), k);
    }
    void exec(St S, const Function *F, int fr, const BasicBlock *B, BasicBlock::const_iterator it, const Cont &k) {
        for (; it != B->end(); ++it) {
            if (over || ++steps > sp.maxSteps) { over = true; return; }
            const Instruction *I = &*it;
            E r = nullptr;
            auto V = [&](unsigned i) { return value(S, fr, I->getOperand(i)); };
            if (isa<DbgInfoIntrinsic>(I)) continue;
            if (auto *a = dyn_cast<AllocaInst>(I)) { S.env[{fr, a}] = leaf("local" + std::to_string(fr) + "." + std::to_string((uintptr_t)a % 1000003), 64); continue; }
            if (auto *R = dyn_cast<ReturnInst>(I)) { k(S, R->getReturnValue() ? value(S, fr, R->getReturnValue()) : nullptr); return; }
            if (auto *br = dyn_cast<BranchInst>(I)) {
                if (br->isUnconditional()) { go(S, F, fr, B, br->getSuccessor(0), k); return; }
                E c = value(S, fr, br->getCondition());
                if (!c) { bad(S, I, "condition"); return; }
                // the condition of a loop's rounds
                if (fr == 0 && !S.rounds.empty()) {
                    const Loop *L = info(F).LI->getLoopFor(S.rounds.back().first);
                    if (L && L->contains(B) && L->contains(br->getSuccessor(0)) != L->contains(br->getSuccessor(1)) && mentions(c, S.rounds.back().second)) {
                        for (int s : {0, 1}) { St S2 = S; S2.p.guards.push_back({c, s == 0}); go(S2, F, fr, B, br->getSuccessor(s), k); }
                        return;
                    }
                }
                decide(S, c, [&, this](St S2, bool v) { go(S2, F, fr, B, br->getSuccessor(v ? 0 : 1), k); });
                return;
            }
            if (auto *sw = dyn_cast<SwitchInst>(I)) {
                E c = value(S, fr, sw->getCondition());
                if (!c) { bad(S, I, "condition"); return; }
                c = subst(c, S.p.fixed);
                if (isC(c)) {
                    const BasicBlock *to = sw->getDefaultDest();
                    for (auto &cs : sw->cases()) if (cs.getCaseValue()->getZExtValue() == c->c) to = cs.getCaseSuccessor();
                    go(S, F, fr, B, to, k);
                    return;
                }
                std::set<const BasicBlock *> done;
                for (auto &cs : sw->cases()) { if (!done.insert(cs.getCaseSuccessor()).second) continue; bool sg; St S2 = S; E a = cmpE(c, konst(cs.getCaseValue()->getZExtValue(), c->w), "eq", sg); if (isC(a)) continue; learn(S2.p, a, sg); go(S2, F, fr, B, cs.getCaseSuccessor(), k); }
                if (!done.count(sw->getDefaultDest())) go(S, F, fr, B, sw->getDefaultDest(), k);
                return;
            }
            if (isa<UnreachableInst>(I)) return;
            if (auto *l = dyn_cast<LoadInst>(I)) {
                E a = V(0);
                unsigned w = wd(l->getType());
                if (!a || !w || w > 64) { S.env.erase({fr, I}); continue; }
                r = loadFrom(S, a, w, l->getType()->isFloatingPointTy(), I);
            } else if (auto *s = dyn_cast<StoreInst>(I)) {
                E a = V(1), v = V(0);
                unsigned w = wd(s->getValueOperand()->getType());
                if (!a) { bad(S, I, "store"); return; }
                if (v && v->fp) v = op("bc", v->w, false, {v});
                S.p.st.push_back({a, v, w, I});
                if (v && a->k == N::L) S.mem[a] = v; else if (v && a->k == N::SUM && a->t.size() == 1 && a->t[0].second->op.compare(0, 5, "local") == 0) S.mem[a] = v;
                continue;
            } else if (auto *b = dyn_cast<BinaryOperator>(I)) {
                E x = V(0), y = V(1);
                if (x && y) {
                    unsigned w = wd(I->getType());
                    switch (b->getOpcode()) {
                        case Instruction::Add: r = add(x, y); break;
                        case Instruction::Sub: r = add(x, y, -1); break;
                        case Instruction::Mul: r = mul(x, y); break;
                        default: if (w) r = op(I->getOpcodeName(), w, x->fp, {x, y});
                    }
                }
            } else if (isa<UnaryOperator>(I)) { E x = V(0); if (x) r = op("fneg", x->w, true, {x}); }
            else if (auto *c = dyn_cast<CmpInst>(I)) {
                E x = V(0), y = V(1);
                if (x && y) {
                    bool sg;
                    E e;
                    if (c->getPredicate() == CmpInst::FCMP_FALSE || c->getPredicate() == CmpInst::FCMP_TRUE) e = boolC(c->getPredicate() == CmpInst::FCMP_TRUE), sg = true;
                    else e = cmpE(x, y, CmpInst::getPredicateName(c->getPredicate()).str(), sg);
                    r = sg ? e : isC(e) ? boolC(!e->c) : op("not", 1, false, {e});
                }
            } else if (auto *c = dyn_cast<CastInst>(I)) {
                E x = V(0);
                unsigned w = wd(I->getType());
                if (x && w) switch (c->getOpcode()) {
                    case Instruction::Trunc: r = trunc(x, w); break;
                    case Instruction::SExt: r = ext(x, w, true); break;
                    case Instruction::ZExt: r = x->k == N::OP && x->op == "not" ? sum(w, {{-1, ext(x->a[0], w, false)}}, 1) : ext(x, w, false); break;
                    case Instruction::PtrToInt: case Instruction::IntToPtr: r = x; break;
                    case Instruction::BitCast: r = op("bc", w, I->getType()->isFloatingPointTy(), {x}); break;
                    case Instruction::SIToFP: r = op("sitofp", w, true, {x}); break;
                    case Instruction::UIToFP: r = op("uitofp", w, true, {x}); break;
                    case Instruction::FPToSI: r = op("fptosi", w, false, {x}); break;
                    case Instruction::FPToUI: r = op("fptoui", w, false, {x}); break;
                    default: r = op(I->getOpcodeName(), w, I->getType()->isFloatingPointTy(), {x});
                }
            } else if (auto *g = dyn_cast<GetElementPtrInst>(I)) r = gep(S, fr, cast<GEPOperator>(g));
            else if (auto *s = dyn_cast<SelectInst>(I)) {
                E c = V(0), x = V(1), y = V(2);
                if (!c || !x || !y) { bad(S, I, "selection"); return; }
                auto nx = std::next(it);
                decide(S, c, [&, this](St S2, bool v) { S2.env[{fr, I}] = v ? x : y; exec(S2, F, fr, B, nx, k); });
                return;
            } else if (auto *C = dyn_cast<CallInst>(I)) {
                const Function *G = lu::calleeOf(C);
                if (G && G->isIntrinsic()) {
                    auto id = G->getIntrinsicID();
                    if (id == Intrinsic::expect) r = V(0);
                    else if (I->getType()->isVoidTy()) { if (id == Intrinsic::memcpy || id == Intrinsic::memset || id == Intrinsic::memmove) S.p.calls.push_back({"mem", {}}); continue; }
                    else {
                        std::vector<E> a;
                        bool ok = wd(I->getType());
                        for (auto &x : C->args()) { a.push_back(value(S, fr, x)); ok &= a.back() != nullptr; }
                        if (ok) r = op("call:" + G->getName().str(), wd(I->getType()), I->getType()->isFloatingPointTy(), a);
                    }
                    if (r) S.env[{fr, I}] = r; else S.env.erase({fr, I});
                    continue;
                }
                std::vector<E> a;
                bool ok = true;
                for (auto &x : C->args()) { a.push_back(value(S, fr, x)); if (!a.back()) ok = false; }
                std::string n = G ? G->getName().str() : "";
                if (G && sp.stopAt && sp.stopAt(n)) { S.p.calls.push_back({n, a}); S.p.at = I; emit(S.p); return; }
                if (!G) {
                    E f = value(S, fr, C->getCalledOperand());
                    if (f && f->k == N::L && f->op[0] == '@') { G = M->getFunction(f->op.substr(1)); n = G ? G->getName().str() : n; }
                }
                if (!G && sp.stopAt && sp.stopAt("")) { S.p.calls.push_back({"", a}); S.p.at = I; emit(S.p); return; }
                if (n == "atom" && ok && isC(a[0])) { r = op("atom", 64, false, {a[0], konst((uint64_t)S.ncall++, 32)}); S.env[{fr, I}] = r; continue; }
                if (n.rfind("err_", 0) == 0) { S.env[{fr, I}] = leaf("ERR", 64); continue; }
                if (n == "clone_obj" && ok) { S.env[{fr, I}] = a[0]; continue; }
                if (n == "drop_obj") continue;
                if (G && !G->isDeclaration() && ok && fr < 6 && info(G).n < 60 && info(G).LI->empty() && !G->isVarArg()) {
                    auto nx = std::next(it);
                    St S2 = S;
                    int nf = fr + 1;
                    for (auto e = S2.env.lower_bound({nf, nullptr}); e != S2.env.end();) e = S2.env.erase(e);
                    for (unsigned i = 0; i < G->arg_size(); i++) if (i < a.size()) S2.env[{nf, G->getArg(i)}] = a[i];
                    auto rounds = S2.rounds;
                    exec(S2, G, nf, &G->getEntryBlock(), G->getEntryBlock().begin(), [&, this, rounds](St S3, E v) {
                        S3.rounds = rounds;
                        if (v) S3.env[{fr, I}] = v; else S3.env.erase({fr, I});
                        exec(S3, F, fr, B, nx, k);
                    });
                    return;
                }
                if (I->getType()->isVoidTy()) { S.p.calls.push_back({n.empty() ? "?" : n, a}); continue; }
                unsigned w = wd(I->getType());
                if (!ok || !w) { S.p.calls.push_back({n.empty() ? "?" : n, a}); S.env[{fr, I}] = leaf("result" + std::to_string(S.ncall++), w ? w : 64, I->getType()->isFloatingPointTy()); continue; }
                for (auto &x : a) x = elementAddr(S, x, I);
                bool pure = G && (G->onlyReadsMemory() || n == "memcmp" || n == "floor" || n == "ceil" || n == "fmod" || n == "round" || n == "str_cmp" || n == "sqrt" || n == "pow" || n == "log");
                S.p.calls.push_back({n, a});
                { if (!pure) a.push_back(konst((uint64_t)S.ncall++, 32)); r = op("call:" + n, w, I->getType()->isFloatingPointTy(), a); }
            }
            if (r) S.env[{fr, I}] = r; else S.env.erase({fr, I});
        }
    }
};
}
std::vector<Path> evaluate(const Function *F, const Spec &sp) {
    Ev ev(sp);
    St S;
    for (unsigned i = 0; i < F->arg_size() && i < sp.args.size(); i++) if (sp.args[i]) S.env[{0, F->getArg(i)}] = sp.args[i];
    ev.exec(S, F, 0, &F->getEntryBlock(), F->getEntryBlock().begin(), [&](St S2, E v) { S2.p.ret = v; S2.p.kind = Path::RET; ev.emit(S2.p); });
    if (ev.over) { Path p; p.kind = Path::BAD; p.why = "too many paths"; ev.out.push_back(p); }
    return ev.out;
}
}
