#pragma once
#include "rules.h"
#include <optional>
// Element-wise evaluation: a function is specialised to the type tags of its operands; loops are taken at a general round, values are
// hash-consed expressions (sums modulo 2^w, ordered products, normalised comparisons), paths carry the comparisons decided on them.
namespace el {
struct N;
using E = const N *;
struct N {
    enum K { C, L, SUM, OP } k;
    unsigned w = 0;
    bool fp = false;
    int id = 0;
    uint64_t c = 0;                           // C, constant of SUM
    std::string op;                           // L: name, OP: operation
    std::vector<std::pair<int64_t, E>> t;     // SUM
    std::vector<E> a;                         // OP
};
E konst(uint64_t v, unsigned w, bool fp = false);
E leaf(const std::string &n, unsigned w, bool fp = false);
E op(const std::string &n, unsigned w, bool fp, std::vector<E> a);
E sum(unsigned w, std::vector<std::pair<int64_t, E>> t, uint64_t c);
E add(E a, E b, int64_t kb = 1);
E scale(E a, int64_t k);
E mul(E a, E b);
E trunc(E a, unsigned w);
E ext(E a, unsigned w, bool sgn);
E cmpE(E a, E b, const std::string &p, bool &sign);   // literal: expression and whether it is meant positively
E subst(E e, const std::map<E, E> &m);
bool mentions(E e, E x);
std::string str(E e, int d = 0);
inline bool isC(E e) { return e->k == N::C; }
int64_t sval(E e);

using Lits = std::map<E, bool>;
struct Store { E addr, val; unsigned w; const Instruction *I; };
struct Read { char who; E idx; unsigned w; const Instruction *I; };
struct Guard { E atom; bool pos; };
struct Path {
    Lits lits;
    enum Kind { RET, ITER, BAD } kind = RET;
    E ret = nullptr;
    std::vector<Store> st;
    std::vector<Read> rd;
    std::vector<std::pair<std::string, std::vector<E>>> calls;
    std::vector<Guard> guards;    // conditions of the loop's rounds
    E round = nullptr;            // symbol of the round
    std::map<E, E> fixed;         // leaves that equal a constant on this path
    const Instruction *at = nullptr;
    std::string why;
};
struct Operand { E ptr = nullptr; int tag = 0; char name = 0; };  // tag 0: not an operand
struct Spec {
    std::vector<E> args;
    std::vector<Operand> objs;
    E len = nullptr;
    size_t maxPaths = 3000, maxSteps = 40000;
    std::function<bool(const std::string &)> stopAt;   // calls whose arguments are wanted: the path ends there
};
std::vector<Path> evaluate(const Function *F, const Spec &sp);
}
