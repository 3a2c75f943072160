#pragma once
// Linear forms over named quantities, and a specialising evaluator of functions over them: every value is a linear form, an
// address (object + linear offset) or unknown; loops are summarised by the change of their variables per round. No solver.
#include "lintutil.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IR/Dominators.h"
#include <functional>
namespace af {
struct Lin {
    std::map<int, long long> c;
    long long k = 0;
    bool ok = true;
    Lin() {}
    Lin(long long v) : k(v) {}
    static Lin bad() { Lin l; l.ok = false; return l; }
    static Lin atom(int a) { Lin l; l.c[a] = 1; return l; }
    bool isConst() const { return ok && c.empty(); }
    bool operator==(const Lin &o) const { return ok == o.ok && (!ok || (k == o.k && c == o.c)); }
    bool operator<(const Lin &o) const { return std::tie(ok, k, c) < std::tie(o.ok, o.k, o.c); }
};
inline Lin operator+(const Lin &a, const Lin &b) { if (!a.ok || !b.ok) return Lin::bad(); Lin r = a; r.k += b.k; for (auto &p : b.c) if (!(r.c[p.first] += p.second)) r.c.erase(p.first); return r; }
inline Lin operator*(const Lin &a, long long m) { if (!a.ok) return a; Lin r; if (!m) return r; r.k = a.k * m; for (auto &p : a.c) r.c[p.first] = p.second * m; return r; }
inline Lin operator-(const Lin &a, const Lin &b) { return a + b * -1; }

enum AtomKind { AUnknown, AQty, ARead, AStr, AChild, AIter, AProg, ASum };
struct Atom { std::string name; AtomKind kind = AUnknown; bool nonneg = false; Lin off; int n = 0; /* read: offset, bytes */ Lin times; int inner = -1; /* sum */ };
struct Atoms {
    std::vector<Atom> v;
    std::map<std::string, int> ix;
    int get(const std::string &n, AtomKind k, bool nonneg) { auto it = ix.find(n); if (it != ix.end()) return it->second; v.push_back({n, k, nonneg, Lin(), 0, Lin(), -1}); return ix[n] = v.size() - 1; }
    int fresh(const std::string &n, AtomKind k, bool nonneg) { return get(n + "#" + std::to_string(v.size()), k, nonneg); }
    std::string str(const Lin &l) const {
        if (!l.ok) return "?";
        std::string s;
        for (auto &p : l.c) { if (!s.empty()) s += p.second > 0 ? "+" : ""; if (p.second == -1) s += "-"; else if (p.second != 1) s += std::to_string(p.second) + "*"; s += (v[p.first].kind == AIter || v[p.first].kind == AProg) ? std::string("round") : v[p.first].name; }
        if (l.k || s.empty()) s += (l.k >= 0 && !s.empty() ? "+" : "") + std::to_string(l.k);
        return s;
    }
};
enum BaseKind { BBuf, BCell, BObj, BNew, BErr, BText, BOther, BNull };
struct Base { BaseKind kind; std::string name; };
struct Val {
    enum K { Unk, Int, Ptr } k = Unk;
    Lin l;       // number, or offset
    int base = -1;
    static Val num(const Lin &x) { Val v; if (x.ok) { v.k = Int; v.l = x; } return v; }
    static Val ptr(int b, const Lin &o) { Val v; v.k = Ptr; v.base = b; v.l = o; return v; }
    bool operator==(const Val &o) const { return k == o.k && base == o.base && (k == Unk || l == o.l); }
    bool operator<(const Val &o) const { return std::tie(k, base, l) < std::tie(o.k, o.base, o.l); }
};
// what happens to the byte stream, and what a new object is filled with
struct Ev { enum K { Write, Fill, Loop } k = Write; Lin off, size; std::string what; Val val; int base = -1; Lin dst; std::vector<Ev> body; Lin times; };
struct State {
    std::map<const Value *, Val> env;
    std::map<std::pair<int, Lin>, std::pair<int, Val>> mem;
    std::vector<Lin> facts;  // each >= 0
    std::vector<Ev> evs;
    std::vector<const BasicBlock *> trail;
    std::set<int> failed;    // children whose decoding failed here
};
struct Outcome { State s; Val ret; };
}
