// S01: size, encoding and decoding of every type agree.  S02: decoding stays within the bytes it was given.
#include "affine_eval.h"
using namespace lu;
namespace af {
static bool isErrMaker(StringRef n) { return n.starts_with("err_") && n != "err_code" && n != "err_msg" && n != "err_raw" && n != "err_user"; }
struct SEval : Eval {
    std::map<int, Lin> region;  // bytes available at offset 0 of a base
    const Function *size, *ser, *de, *subject = nullptr;
    int tag = 0;
    bool bounds = false;
    std::set<int> untypedLen;  // atoms: their value is not a length
    struct Obl { const Function *F; const Instruction *I; bool ok; std::string what, rule; };
    std::vector<Obl> obls;
    std::set<std::string> requested, extended;  // receive buffers: sizes asked for
    struct Framed { const Instruction *I; std::string len; Lin off; };
    std::vector<Framed> framed;
    SEval(Module *m) : Eval(m) { size = m->getFunction("size_obj"); ser = m->getFunction("ser_raw"); de = m->getFunction("de_raw"); }
    bool lenNonneg(int b) override { return !untypedLen.count(b); }
    bool unknown(const Lin &l) { if (!l.ok) return true; for (auto &p : l.c) if (A.v[p.first].kind == AUnknown) return true; return false; }
    void obl(const Instruction *I, bool ok, const std::string &rule, const std::string &what) { if (!silent && I) obls.push_back({I->getFunction(), I, ok, what, rule}); }
    void readObligation(State &s, const Val &p, const Lin &n, const Instruction *I) override {
        if (!bounds || silent || !I) return;
        auto it = region.find(p.base);
        if (it == region.end()) return;
        bool ok = n.ok && prove(s, p.l) && prove(s, it->second - p.l - n);
        if (!ok && (unknown(n) || unknown(p.l) || unknown(it->second))) { obls.push_back({I->getFunction(), I, true, "?", "undecided"}); return; }
        obl(I, ok, "read-beyond", "reads " + A.str(n) + " bytes at offset " + A.str(p.l) + " without knowing that the data reaches that far");
    }
    bool wantsInline(const Function *F, const std::vector<Val> &args) override {
        auto n = F->getName();
        if (n == "drop_obj" || n == "heap_free" || n == "resolve" || n.starts_with("eval") || n.starts_with("mmap_") || n.starts_with("fs_") || n.starts_with("runtime") || n.starts_with("pool") || n.starts_with("ray_") || n.starts_with("cmp_")) return false;
        bool any = args.empty();
        for (auto &a : args) if (a.k == Val::Ptr && (bases[a.base].kind == BBuf || bases[a.base].kind == BCell || bases[a.base].kind == BNew || bases[a.base].kind == BObj)) any = true;
        if (F->size() <= 4 && !F->getReturnType()->isVoidTy()) any = true;
        bool buf = false;
        for (auto &a : args) if (a.k == Val::Ptr && bases[a.base].kind == BBuf) buf = true;
        return any && F->size() < (buf ? 300u : 60u);
    }
    Val unknownResult(const CallBase *C, const Function *F) override {
        auto n = F ? F->getName() : "";
        if (F && C->getType()->isIntegerTy() && (F->isDeclaration() || n.starts_with("fs_") || n.starts_with("mmap_"))) return Val::num(Lin::atom(A.fresh(n.str() + "()", AQty, false)));
        return Eval::unknownResult(C, F);
    }
    std::string text(const Val &v) { return v.k == Val::Unk ? "?" : A.str(v.l); }
    int fresh(const std::string &n) { return newBase(BNew, n); }
    // how many bytes there are behind a pointer
    bool extent(State &s, const Val &p, Lin &out) {
        if (p.k != Val::Ptr) return false;
        auto it = region.find(p.base);
        if (it != region.end()) { out = it->second - p.l; return true; }
        if (bases[p.base].kind == BObj && untypedLen.count(p.base)) { out = Lin(16) - p.l; return true; }
        if (bases[p.base].kind == BObj) { Val l = load(s, Val::ptr(p.base, Lin(8)), Type::getInt64Ty(M->getContext()), nullptr); if (l.k == Val::Int) { out = l.l + Lin(16) - p.l; return true; } }
        return false;
    }
    bool contract(const CallBase *C, const Function *F, const std::vector<Val> &a, State &s, std::vector<Outcome> &out) override {
        auto n = F->getName();
        auto ret = [&](const Val &v) { Outcome o; o.s = s; o.ret = v; out.push_back(o); return true; };
        if (isErrMaker(n)) return ret(Val::ptr(errBase, Lin(0)));
        if (n == "err_raw" || n == "err_user") {
            if (n == "err_user" && a[0].k == Val::Ptr && bases[a[0].base].kind == BBuf && bounds) { int st = strAtom(a[0].l); Lin ext; if (extent(s, a[0], ext)) obl(C, prove(s, ext - Lin::atom(st) - Lin(1)), "read-beyond", "a text is used whose end may lie beyond the data"); }
            int b = fresh("made error"); s.mem[{b, Lin(2)}] = {1, Val::num(Lin(127))}; if (n == "err_raw") s.mem[{b, Lin(3)}] = {1, a[0]}; return ret(Val::ptr(b, Lin(0)));
        }
        if (n == "drop_obj" || n == "heap_free") return ret(Val());
        if (n == "clone_obj") return ret(a[0]);
        if (n == "heap_alloc") { int b = fresh("new"); if (a[0].k == Val::Int) region[b] = a[0].l; return ret(Val::ptr(b, Lin(0))); }
        if (n == "atom") { int b = fresh("new"); s.mem[{b, Lin(2)}] = {1, a[0].k == Val::Int ? Val::num(a[0].l * -1) : Val()}; return ret(Val::ptr(b, Lin(0))); }
        if (n == "vector") {
            int b = fresh("new");
            Val t = a[0];
            if (t.k == Val::Int && t.l.isConst()) { long long k = t.l.k; t = Val::num(Lin(k < 0 ? -k : k > 0 && k < 20 ? k : k == 20 ? 6 : 0)); }
            s.mem[{b, Lin(2)}] = {1, t};
            s.mem[{b, Lin(8)}] = {8, a[1]};
            if (a[1].k == Val::Int) region[b] = a[1].l + Lin(16);  // at least a byte for every element
            if (bounds && subject == de) {
                bool fromBuf = false;
                if (a[1].k == Val::Int) for (auto &p : a[1].l.c) if (A.v[p.first].kind == ARead) fromBuf = true;
                if (fromBuf) {
                    Lin total = region.count(0x7fffffff) ? region[0x7fffffff] : Lin::bad();
                    if (!unknown(a[1].l)) obl(C, prove(s, a[1].l) && total.ok && prove(s, total - a[1].l), "length-unchecked", "a vector of a length read from the data (" + text(a[1]) + ") is made without checking that it is not negative and not more than the data can hold");
                }
            }
            return ret(Val::ptr(b, Lin(0)));
        }
        if (n == "table" || n == "dict" || n == "lambda") {
            int b = fresh("new");
            s.mem[{b, Lin(2)}] = {1, Val::num(Lin(n == "table" ? 98 : n == "dict" ? 99 : 100))};
            s.mem[{b, Lin(16)}] = {8, a[0]}; s.mem[{b, Lin(24)}] = {8, a[1]};
            return ret(Val::ptr(b, Lin(0)));
        }
        if (n == "str_from_symbol") return ret(Val::ptr(namedBase(BText, "sym:" + text(a[0])), Lin(0)));
        if (n == "symbol_strlen") return ret(Val::num(Lin::atom(A.get("len:sym:" + text(a[0]), AQty, true))));
        if (n == "env_get_internal_id" && a[0].k == Val::Ptr) return ret(Val::num(Lin::atom(A.get("fid:" + bases[a[0].base].name, AQty, false))));
        if (n == "env_get_internal_name" && a[0].k == Val::Ptr) return ret(Val::ptr(namedBase(BText, "sym:fid:" + bases[a[0].base].name), Lin(0)));
        if (n == "err_code") return ret(Val::num(Lin::atom(A.get("errcode", AQty, true))));
        if (n == "err_msg") return ret(Val::ptr(namedBase(BText, "errmsg"), Lin(0)));
        if (n == "strlen" || n == "strnlen" || n == "str_len") {
            if (a[0].k != Val::Ptr) return false;
            if (bases[a[0].base].kind == BText) return ret(Val::num(Lin::atom(A.get("len:" + bases[a[0].base].name, AQty, true))));
            if (bases[a[0].base].kind != BBuf) return false;
            int st = strAtom(a[0].l);
            if (n == "strlen") { if (bounds) obl(C, false, "read-beyond", "looks for the end of a text without a limit"); }
            else if (a[1].k == Val::Int) { readObligation(s, a[0], a[1].l, C); s.facts.push_back(a[1].l - Lin::atom(st)); }
            return ret(Val::num(Lin::atom(st)));
        }
        if (n == "str_cpy" || n == "strcpy") {
            if (a[0].k != Val::Ptr || a[1].k != Val::Ptr || bases[a[0].base].kind != BBuf || bases[a[1].base].kind != BText) return false;
            Lin l = Lin::atom(A.get("len:" + bases[a[1].base].name, AQty, true));
            Ev e; e.off = a[0].l; e.size = l + Lin(1); e.val = a[1]; s.evs.push_back(e);
            return ret(n == "strcpy" ? a[0] : Val::num(l));
        }
        if (n == "symbols_intern" && a[0].k == Val::Ptr && bases[a[0].base].kind == BBuf) {
            readObligation(s, a[0], a[1].k == Val::Int ? a[1].l : Lin::bad(), C);
            int x = A.get("intern@" + A.str(a[0].l), AQty, false); A.v[x].off = a[0].l; A.v[x].n = -1;
            return ret(Val::num(Lin::atom(x)));
        }
        if (n == "env_get_internal_function" && a[0].k == Val::Ptr && bases[a[0].base].kind == BBuf) {
            if (bounds) { int st = strAtom(a[0].l); Lin ext; if (extent(s, a[0], ext)) obl(C, prove(s, ext - Lin::atom(st) - Lin(1)), "read-beyond", "a name is used whose end may lie beyond the data"); }
            int b = fresh("function");
            s.mem[{b, Lin(2)}] = {1, Val::num(Lin(tag))};
            return ret(Val::ptr(b, Lin(0)));
        }
        if (n == "mmap_file" || n == "mmap_file_shared") {
            int b = newBase(BBuf, "mapped");
            if (a[2].k == Val::Int) region[b] = a[2].l;
            Outcome o; o.s = s; o.ret = Val::ptr(b, Lin(0)); out.push_back(o);
            o.ret = Val::ptr(nullBase, Lin(0)); out.push_back(o);
            return true;
        }
        if (n == "poll_rx_buf_extend" || n == "poll_rx_buf_request") {
            if (!silent && a[2].k == Val::Int) { if (n == "poll_rx_buf_request") requested.insert(A.str(a[2].l)); else if (prove(s, a[2].l)) extended.insert(A.str(a[2].l)); }
            return false;
        }
        if (n == "maplist_data" && subject != F && subject != de) {
            int b = newBase(BBuf, "element");
            Lin z = Lin::atom(A.fresh("element size", AQty, true));
            region[b] = z;
            if (a[2].k == Val::Ptr) store(s, a[2], Val::num(z), 8, C);
            return ret(Val::ptr(b, Lin(0)));
        }
        if (F == size && a[0].k == Val::Ptr && (C->getFunction() == size || bounds)) { int x = A.get("S(" + bases[a[0].base].name + ")", AChild, true); if (!bounds) s.facts.push_back(Lin::atom(x) - Lin(1)); return ret(Val::num(Lin::atom(x))); }
        if (F == ser && a[0].k == Val::Ptr && a[1].k == Val::Ptr && subject == ser) {
            int x = A.get("S(" + bases[a[1].base].name + ")", AChild, true);
            s.facts.push_back(Lin::atom(x) - Lin(1));
            Ev e; e.off = a[0].l; e.size = Lin::atom(x); e.val = a[1]; e.what = "child"; s.evs.push_back(e);
            return ret(Val::num(Lin::atom(x)));
        }
        if (F == ser && bounds && subject != ser) {
            Lin ext;
            if (a[0].k == Val::Ptr && a[1].k == Val::Ptr && region.count(a[0].base) && extent(s, a[0], ext)) {
                Lin need = Lin::atom(A.get("S(" + bases[a[1].base].name + ")", AChild, true));
                bool prog = false;  // piece by piece
                for (auto &p : ext.c) if (A.v[p.first].kind == AProg) prog = true;
                if ((prog || unknown(ext)) && !prove(s, ext - need)) { if (!silent) obls.push_back({C->getFunction(), C, true, "?", "undecided"}); return ret(Val::num(need)); }
                obl(C, prove(s, ext - need) && prove(s, a[0].l), "write-beyond", "encodes a value of " + A.str(need) + " bytes into " + A.str(ext));
                return ret(Val::num(need));
            }
            if (!silent) obls.push_back({C->getFunction(), C, true, "?", "undecided"});
            return ret(Val::num(Lin::atom(A.fresh("encoded", AQty, true))));
        }
        if (F == de) {
            Val cur = a[0].k == Val::Ptr && a[1].k == Val::Ptr ? load(s, a[1], Type::getInt64Ty(M->getContext()), nullptr) : Val();
            Lin ext;
            if (bounds) {
                if (cur.k == Val::Int && extent(s, a[0], ext) && (unknown(cur.l) || unknown(ext)) && !(prove(s, ext - cur.l) && prove(s, cur.l) && prove(s, a[0].l))) { if (!silent) obls.push_back({C->getFunction(), C, true, "?", "undecided"}); }
                else if (cur.k == Val::Int && extent(s, a[0], ext)) obl(C, prove(s, ext - cur.l) && prove(s, cur.l) && prove(s, a[0].l), "length-drift", "decodes with a length of " + A.str(cur.l) + " where " + A.str(ext) + " bytes are left");
                else if (!silent && cur.k == Val::Int && a[0].k == Val::Ptr && bases[a[0].base].kind == BOther) framed.push_back({C, A.str(cur.l), a[0].l});
                else if (!silent && C->getFunction() == subject) obls.push_back({subject, C, true, "?", "undecided"});
            }
            if (a[0].k != Val::Ptr || a[1].k != Val::Ptr) { Outcome o; o.s = s; o.ret = Val(); out.push_back(o); return true; }
            int d = A.get("D@" + A.str(a[0].l), AChild, true);
            A.v[d].off = a[0].l; A.v[d].n = -2;
            for (int bad = 0; bad < 2; bad++) {
                Outcome o; o.s = s;
                Lin nl = cur.k == Val::Int ? cur.l - Lin::atom(d) : Lin::bad();
                if (nl.ok) { o.s.mem[{a[1].base, a[1].l}] = {8, Val::num(nl)}; o.s.facts.push_back(nl); }
                if (bad) { o.ret = Val::ptr(errBase, Lin(0)); out.push_back(o); continue; }
                o.s.facts.push_back(Lin::atom(d) - Lin(1));
                int b = namedBase(BObj, "child@" + A.str(a[0].l));
                int t = A.get("type of child@" + A.str(a[0].l), AQty, false);
                o.s.mem[{b, Lin(2)}] = {1, Val::num(Lin::atom(t))};
                o.s.facts.push_back(Lin(126) - Lin::atom(t)); o.s.facts.push_back(Lin::atom(t) + Lin(126));
                o.ret = Val::ptr(b, Lin(0));
                out.push_back(o);
            }
            return true;
        }
        return false;
    }
    // end of the events when each starts where the one before ended; bad otherwise
    Lin tile(const std::vector<Ev> &evs, Lin at, std::string &gap) {
        for (auto &e : evs) {
            if (e.k == Ev::Fill) continue;
            if (e.k == Ev::Loop && (e.what == "?" || !e.size.ok)) { if (e.body.empty() || e.body[0].k == Ev::Write || e.what == "?") { gap = "?"; return Lin::bad(); } continue; }
            if (e.k == Ev::Loop && !e.body.empty() && e.body[0].k == Ev::Fill) continue;
            if (e.off + e.size == at && e.k == Ev::Write) continue;  // written again
            if (!(e.off == at)) { gap = "offset " + A.str(e.off) + " is written after offset " + A.str(at); return Lin::bad(); }
            at = at + e.size;
        }
        return at;
    }
    void fields(const std::vector<Ev> &evs, std::map<std::string, const Ev *> &m) { for (auto &e : evs) { if (e.k == Ev::Loop) { if (!e.body.empty() && e.body[0].k == Ev::Write) { m["block@" + A.str(e.off)] = &e; fields(e.body, m); } } else if (e.k == Ev::Write) m.insert({A.str(e.off), &e}); } }
};
static const int TAGS[] = {-12, -11, -10, -9, -8, -7, -6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 20, 71, 72, 73, 74, 75, 77, 98, 99, 100, 101, 102, 103, 125, 126, 127};
static std::string tagName(int t) {
    static const char *n[] = {"LIST", "B8", "U8", "I16", "I32", "I64", "SYMBOL", "DATE", "TIME", "TIMESTAMP", "F64", "GUID", "C8"};
    int a = abs(t);
    std::string s = a <= 12 ? n[a] : a == 20 ? "ENUM" : a == 98 ? "TABLE" : a == 99 ? "DICT" : a == 100 ? "LAMBDA" : a == 101 ? "UNARY" : a == 102 ? "BINARY" : a == 103 ? "VARY" : a == 126 ? "NULL" : a == 127 ? "ERR" : "type " + std::to_string(a);
    return t < 0 ? s + " atom" : a <= 12 && a ? s + " vector" : s;
}
struct Side { bool ok = false; std::string why; std::vector<Outcome> outs; };
static Side runOne(SEval &E, const Function *F, int tag, int which) {
    State s;
    std::vector<Val> args;
    E.subject = F; E.tag = tag; E.gaveUp = false; E.steps = 0;
    int x = E.namedBase(BObj, "x");
    if (which != 2) s.mem[{x, Lin(2)}] = {1, Val::num(Lin(tag))};
    if (tag < 0 && which != 2) E.untypedLen.insert(x); else E.untypedLen.erase(x);
    if (which == 0) args = {Val::ptr(x, Lin(0))};
    int buf = E.newBase(BBuf, "buf");
    if (which == 1) args = {Val::ptr(buf, Lin(0)), Val::ptr(x, Lin(0))};
    if (which == 2) {
        int cell = E.newBase(BCell, "len");
        int N = E.A.get("N", AQty, false);
        s.mem[{cell, Lin(0)}] = {8, Val::num(Lin::atom(N))};
        s.mem[{buf, Lin(0)}] = {1, Val::num(Lin(tag))};
        E.region[buf] = Lin::atom(N);
        E.region[0x7fffffff] = Lin::atom(N);
        args = {Val::ptr(buf, Lin(0)), Val::ptr(cell, Lin(0))};
    }
    Side r;
    r.outs = E.call(F, args, s);
    r.ok = !E.gaveUp; r.why = E.why;
    if (E.gaveUp) E.stack.clear();
    return r;
}
static Val at(const State &s, int b, long o) { auto it = s.mem.find({b, Lin(o)}); return it == s.mem.end() ? Val() : it->second.second; }
static int cellBase(SEval &E, const State &s) { int r = -1; for (auto &m : s.mem) if (E.bases[m.first.first].kind == BCell && E.bases[m.first.first].name == "len") r = m.first.first; return r; }

// not comparable: computed in a way that is not followed, or summed from the last element to the first
static bool vague(SEval &E, int a) {
    auto &q = E.A.v[a];
    if (q.kind == AUnknown) return true;
    if (q.kind != ASum) return false;
    auto &n = q.name;
    for (size_t i = n.find("round"); i != std::string::npos; i = n.find("round", i + 1)) { size_t j = i; while (j && (isdigit(n[j - 1]) || n[j - 1] == '*')) j--; if (j && n[j - 1] == '-') return true; }
    return false;
}
static void agreement(Module *M, const char *dump) {
    SEval proto(M);
    if (!proto.size || !proto.ser || !proto.de) return;
    for (int tag : TAGS) {
        SEval E(M);
        Side sz = runOne(E, E.size, tag, 0), se = runOne(E, E.ser, tag, 1), de = runOne(E, E.de, tag, 2);
        auto *I0 = &*E.size->getEntryBlock().begin();
        const Instruction *at0 = nullptr;
        (void)I0;
        auto line = [&](const Function *F) { for (auto &B : *F) for (auto &I : B) if (I.getDebugLoc()) { at0 = &I; return at0; } return (const Instruction *)&*F->getEntryBlock().begin(); };
        if (!sz.ok || !se.ok || !de.ok) { instance("serde-undecided", E.ser, nullptr, tagName(tag) + ": " + E.why); if (dump) errs() << "UNDECIDED " << tagName(tag) << " " << sz.why << "/" << se.why << "/" << de.why << "\n"; continue; }
        // what a type's size is, what is written, what is consumed
        std::vector<Lin> sizes;
        for (auto &o : sz.outs) if (o.ret.k == Val::Int && !(o.ret.l == Lin(0))) sizes.push_back(o.ret.l);
        struct W { Lin total, ret; const State *s; std::string gap; };
        std::vector<W> ws;
        for (auto &o : se.outs) { if (o.ret.k != Val::Int) { ws.push_back({Lin::bad(), Lin::bad(), &o.s, "?"}); continue; } if (o.ret.l == Lin(0)) continue; W w; w.ret = o.ret.l; w.s = &o.s; w.total = E.tile(o.s.evs, Lin(0), w.gap); ws.push_back(w); }
        struct R { Lin used; const State *s; int base; };
        std::vector<R> rs;
        for (auto &o : de.outs) {
            if (o.ret.k != Val::Ptr || o.ret.base == E.errBase || E.bases[o.ret.base].name.rfind("child@", 0) == 0) continue;
            int c = cellBase(E, o.s);
            Val n = at(o.s, c, 0);
            rs.push_back({n.k == Val::Int ? Lin::atom(E.A.get("N", AQty, false)) - n.l : Lin::bad(), &o.s, o.ret.base});
        }
        if (dump) {
            errs() << "== " << tagName(tag) << "\n";
            for (auto &l : sizes) errs() << "  size " << E.A.str(l) << "\n";
            for (auto &w : ws) { errs() << "  ser ret " << E.A.str(w.ret) << " writes " << E.A.str(w.total) << " " << w.gap << ":"; for (auto &e : w.s->evs) errs() << " [" << (e.k == Ev::Loop ? "loop " : e.k == Ev::Fill ? "fill " : "") << E.A.str(e.off) << " +" << E.A.str(e.size) << " " << e.what << "]"; errs() << "\n"; }
            for (auto &r : rs) errs() << "  de used " << E.A.str(r.used) << " -> " << E.bases[r.base].name << "\n";
        }
        if (sizes.empty() && ws.empty() && rs.empty()) continue;
        std::string tn = tagName(tag);
        instance("serde-type", E.ser, nullptr, tn);
        auto rep = [&](const char *rule, const Function *F, const std::string &msg) { report(rule, F, line(F), tn, msg); };
        if (sizes.empty() || ws.empty() || rs.empty()) {
            std::string has, not_;
            (sizes.empty() ? not_ : has) += " size_obj"; (ws.empty() ? not_ : has) += " ser_raw"; (rs.empty() ? not_ : has) += " de_raw";
            rep("serde-arm", sizes.empty() ? E.size : ws.empty() ? E.ser : E.de, "values of type " + tn + " are handled by" + has + " but not by" + not_);
            continue;
        }
        bool undecided = false;
        for (auto &w : ws) {
            if (!w.ret.ok || (!w.total.ok && w.gap == "?")) { undecided = true; continue; }
            if (!w.total.ok) { rep("serde-layout", E.ser, "the encoding of " + tn + " is not contiguous: " + w.gap); continue; }
            if (!(w.total == w.ret)) rep("serde-layout", E.ser, "encoding " + tn + " writes " + E.A.str(w.total) + " bytes and returns " + E.A.str(w.ret));
            bool found = false, anyBad = false;
            for (auto &l : sizes) { if (l == w.total) found = true; for (auto &p : l.c) if (vague(E, p.first)) anyBad = true; }
            for (auto &p : w.total.c) if (vague(E, p.first)) anyBad = true;
            if (!found && anyBad) { undecided = true; continue; }
            if (!found) rep("serde-size", E.size, "size_obj gives " + E.A.str(sizes[0]) + " bytes for " + tn + ", ser_raw writes " + E.A.str(w.total));
            // each element is taken from its own place
            std::function<void(const std::vector<Ev> &)> sources = [&](const std::vector<Ev> &evs) {
                for (auto &e : evs) {
                    if (e.k == Ev::Loop) { if (e.what != "?") sources(e.body); continue; }
                    if (e.k != Ev::Write || e.val.k != Val::Ptr || e.what == "child" || E.bases[e.val.base].kind != BObj || E.bases[e.val.base].name != "x") continue;
                    if (tag > 0 && tag <= 20 && e.off.ok && !(e.off == Lin(2))) { if (!(e.val.l - Lin(16) == e.off - Lin(10))) rep("serde-value", E.ser, "encoding " + tn + " takes what it writes at offset " + E.A.str(e.off) + " from offset " + E.A.str(e.val.l) + " of the value"); }
                }
            };
            sources(w.s->evs);
            // first byte is the type
            const Ev *e0 = w.s->evs.empty() ? nullptr : &w.s->evs[0];
            if (e0 && e0->val.k == Val::Int && e0->val.l.isConst() && !(e0->val.l == Lin(tag))) rep("serde-layout", E.ser, "the encoding of " + tn + " does not start with its type");
        }
        for (auto &l : sizes) { bool f = false, bad = false; for (auto &w : ws) { if (w.total == l) f = true; if (!w.total.ok) bad = true; } if (!f && !bad && sizes.size() > ws.size()) rep("serde-size", E.size, "size_obj gives " + E.A.str(l) + " bytes for " + tn + ", ser_raw never writes that many"); }
        // decoding, in terms of what was written
        std::set<size_t> matched;
        for (auto &r : rs) {
            if (!r.used.ok) { undecided = true; continue; }
            bool any = false, bad = false;
            std::string shown;
            for (size_t wi = 0; wi < ws.size(); wi++) {
                auto &w = ws[wi];
                if (!w.total.ok) { bad = true; continue; }
                std::map<std::string, const Ev *> fs;
                E.fields(w.s->evs, fs);
                std::map<int, Lin> sub;
                auto apply = [&](Lin l) { for (int k = 0; k < 6; k++) { Lin o = l; for (auto &p : o.c) { auto it = sub.find(p.first); if (it != sub.end()) l = Eval::subst(l, p.first, it->second); } if (o == l) break; } return l; };
                bool ch = true;
                for (int round = 0; ch && round < 8; round++) {
                    ch = false;
                    for (size_t a = 0; a < E.A.v.size(); a++) {
                        if (sub.count(a)) continue;
                        Atom q = E.A.v[a];
                        bool isD = q.n == -2;
                        if (q.kind == ARead || q.kind == AStr || isD) {
                            auto it = fs.find(E.A.str(apply(q.off)));
                            if (it == fs.end()) continue;
                            auto *e = it->second;
                            if (isD) { if (e->what == "child") { sub[a] = e->size; ch = true; } }
                            else if (q.kind == AStr) { if (e->val.k == Val::Ptr && E.bases[e->val.base].kind == BText) { sub[a] = e->size - Lin(1); ch = true; } }
                            else if (e->size == Lin(q.n) && e->val.k == Val::Int) { sub[a] = e->val.l; ch = true; }
                        } else if (q.kind == ASum && q.inner >= 0 && (sub.count(q.inner) || !(apply(q.times) == q.times))) {
                            Lin t = apply(q.times), in = apply(Lin::atom(q.inner)), z;
                            if (t == q.times && in == Lin::atom(q.inner)) continue;
                            z = t * in.k;
                            for (auto &p : in.c) { int y = E.A.get("sum{" + E.A.str(t) + "}(" + E.A.v[p.first].name + ")", ASum, E.A.v[p.first].nonneg); E.A.v[y].times = t; E.A.v[y].inner = p.first; z = z + Lin::atom(y) * p.second; }
                            if (z == Lin::atom(a)) continue;
                            sub[a] = z; ch = true;
                        }
                    }
                }
                Lin u = apply(r.used);
                shown = E.A.str(u);
                for (auto &p : u.c) if (vague(E, p.first) || E.A.v[p.first].kind == AIter) bad = true;
                for (auto &p : w.total.c) if (vague(E, p.first)) bad = true;
                if (!(u == w.total)) continue;
                any = true; matched.insert(wi);
                // the value that comes back
                if (tag == 127) {
                    Val v = at(*r.s, r.base, 3);
                    if (v.k == Val::Int && v.l.c.size() == 1) { auto &q = E.A.v[v.l.c.begin()->first]; auto it = fs.find(E.A.str(q.off)); if (q.kind == ARead && (it == fs.end() || !(it->second->size == Lin(q.n)))) rep("serde-value", E.de, "decoding " + tn + " takes the code from offset " + E.A.str(q.off)); }
                    continue;
                }
                if (E.bases[r.base].kind != BNew || E.bases[r.base].name == "function") continue;
                Val t = at(*r.s, r.base, 2);
                if (t.k == Val::Int && t.l.isConst() && !(t.l == Lin(tag))) rep("serde-value", E.de, "decoding " + tn + " returns a value of type " + tagName(t.l.k));
                if (tag < 0) {
                    Val v = at(*r.s, r.base, 8);
                    if (tag == -11) continue;  // kept behind the header
                    if (v.k == Val::Int && v.l.isConst()) rep("serde-value", E.de, "decoding " + tn + " returns a fixed value");
                    else if (v.k == Val::Int && v.l.c.size() == 1) {
                        auto &q = E.A.v[v.l.c.begin()->first];
                        auto it = fs.find(E.A.str(q.off));
                        if (q.kind == ARead && it != fs.end() && !(it->second->size == Lin(q.n))) rep("serde-value", E.de, "decoding " + tn + " reads " + std::to_string(q.n) + " bytes where " + E.A.str(it->second->size) + " were written");
                        if (q.kind == ARead && it == fs.end()) rep("serde-value", E.de, "decoding " + tn + " reads its value at offset " + E.A.str(q.off) + " where no value was written");
                    }
                } else if (tag >= 0 && tag <= 20) {
                    Val n = at(*r.s, r.base, 8);
                    int x = E.namedBase(BObj, "x");
                    State tmp; Val want = E.load(tmp, Val::ptr(x, Lin(8)), Type::getInt64Ty(M->getContext()), nullptr);
                    if (n.k == Val::Int) { Lin nn = apply(n.l); bool unk = false; for (auto &p : nn.c) if (E.A.v[p.first].kind != AQty) unk = true; if (!unk && !(nn == want.l)) rep("serde-value", E.de, "decoding " + tn + " makes a vector of " + E.A.str(nn) + " elements for " + E.A.str(want.l)); }
                    const Ev *fill = nullptr;
                    for (auto &e : r.s->evs) if ((e.k == Ev::Fill && e.base == r.base) || (e.k == Ev::Loop && (e.what == "?" || (!e.body.empty() && e.body[0].k == Ev::Fill && e.body[0].base == r.base)))) fill = &e;
                    for (auto &e : r.s->evs) if (e.k == Ev::Loop && e.what != "?" && !e.body.empty()) for (auto &b : e.body) {
                        if (b.k != Ev::Fill || b.base != r.base || !b.dst.ok) continue;
                        bool fine = b.dst.k == 16 && b.dst.c.size() == 1;
                        for (auto &p : b.dst.c) fine = fine && E.A.v[p.first].kind == AIter && p.second > 0;
                        bool down = false; for (auto &p : b.off.c) if (E.A.v[p.first].kind == AIter && p.second < 0) down = true;
                        if (!fine && !down && !E.unknown(b.dst)) rep("serde-value", E.de, "decoding " + tn + " puts its elements at offset " + E.A.str(b.dst));
                    }
                    if (!fill) rep("serde-value", E.de, "decoding " + tn + " does not fill in the elements");
                    else if (fill->k == Ev::Fill) {
                        Lin so = apply(fill->off), sz2 = apply(fill->size);
                        auto b = fs.find("block@" + E.A.str(so)); auto d = fs.find(E.A.str(so));
                        const Ev *src = b != fs.end() ? b->second : d != fs.end() ? d->second : nullptr;
                        if (!(fill->dst == Lin(16))) rep("serde-value", E.de, "decoding " + tn + " fills in its elements at the wrong place");
                        if (!src) rep("serde-value", E.de, "decoding " + tn + " takes its elements from offset " + E.A.str(so) + " where none were written");
                        else if (!(src->size == sz2)) rep("serde-value", E.de, "decoding " + tn + " takes " + E.A.str(sz2) + " bytes of elements where " + E.A.str(src->size) + " were written");
                    }
                } else if (tag == 98 || tag == 99 || tag == 100) {
                    for (int k = 0; k < 2; k++) {
                        Val v = at(*r.s, r.base, 16 + 8 * k);
                        if (v.k != Val::Ptr || E.bases[v.base].name.rfind("child@", 0)) continue;
                        // which child was written there
                        for (auto &q : E.A.v) if (q.n == -2 && E.bases[v.base].name == "child@" + E.A.str(q.off)) {
                            auto it = fs.find(E.A.str(apply(q.off)));
                            if (it == fs.end() || it->second->val.k != Val::Ptr) continue;
                            std::string from = E.bases[it->second->val.base].name;
                            int first = tag == 100 ? 24 : 16;
                            std::string want = "x." + std::to_string(first + 8 * k), other = "x." + std::to_string(first + 8 - 8 * k);
                            if (from == other && from != want) rep("serde-value", E.de, "decoding " + tn + " exchanges its parts");
                        }
                    }
                }
            }
            if (!any && bad) { undecided = true; continue; }
            if (!any) rep("serde-consumed", E.de, "decoding " + tn + " uses up " + shown + " bytes where " + E.A.str(ws[0].total) + " were written");
        }
        for (size_t i = 0; i < ws.size(); i++) if (!matched.count(i) && ws[i].total.ok && !undecided && !matched.empty()) rep("serde-consumed", E.de, "what was written as " + E.A.str(ws[i].total) + " bytes for " + tn + " is not decoded as such");
        if (undecided) instance("serde-undecided", E.ser, nullptr, tn);
        else instance("serde-decided", E.ser, nullptr, tn);
    }
}
static bool declaredObj(const Function *F, unsigned i) {
    auto *sp = F->getSubprogram();
    if (!sp || !sp->getType()) return true;
    auto ts = sp->getType()->getTypeArray();
    if (i + 1 >= ts.size()) return true;
    auto *d = dyn_cast_or_null<DIDerivedType>(ts[i + 1]);
    while (d && d->getName() != "obj_p" && d->getTag() != dwarf::DW_TAG_pointer_type) d = dyn_cast_or_null<DIDerivedType>(d->getBaseType());
    if (d && d->getName() == "obj_p") return true;
    auto *t = d ? dyn_cast_or_null<DICompositeType>(d->getBaseType()) : nullptr;
    return t && t->getName() == "obj_t";
}
static void boundsOf(Module *M, const char *dump) {
    auto *de = M->getFunction("de_raw");
    if (!de) return;
    std::map<std::pair<const Instruction *, std::string>, std::pair<bool, std::string>> res;
    auto collect = [&](SEval &E) { for (auto &o : E.obls) { auto &r = res.insert({{o.I, o.rule}, {true, ""}}).first->second; if (!o.ok && r.first) { r.first = false; r.second = o.what + (o.rule == "undecided" ? "" : " (" + tagName(E.tag) + ")"); } } };
    for (int tag : TAGS) {
        SEval E(M);
        E.bounds = true;
        Side d = runOne(E, de, tag, 2);
        if (!d.ok) { instance("bounds-undecided", de, nullptr, tagName(tag) + ": " + E.why); continue; }
        instance("bounds-type", de, nullptr, tagName(tag));
        for (auto &o : d.outs) {
            int c = cellBase(E, o.s);
            Val n = at(o.s, c, 0);
            if (n.k != Val::Int || o.ret.k != Val::Ptr || o.ret.base == E.errBase) continue;
            if (!E.prove(o.s, n.l) && !E.unknown(n.l)) { const Instruction *I = &*de->getEntryBlock().begin(); report("length-drift", de, I, tagName(tag), "after decoding " + tagName(tag) + " the remaining length can be negative (" + E.A.str(n.l) + ")"); }
        }
        collect(E);
    }
    // the functions that hand data to the decoder
    std::set<const Function *> users, parts;
    std::set<std::string> requested, extended;
    std::vector<SEval::Framed> framed;
    if (auto *f = M->getFunction("maplist_data")) users.insert(f);
    for (const char *n : {"de_raw", "ser_raw", "maplist_data", "poll_rx_buf_extend"}) if (auto *f = M->getFunction(n)) { for (auto *u : f->users()) if (auto *C = dyn_cast<CallBase>(u)) users.insert(C->getFunction()); }
    users.erase(de); users.erase(M->getFunction("ser_raw"));
    // parts of the coder itself are seen through it
    for (bool ch = true; ch;) {
        ch = false;
        for (auto *U : users) {
            bool part = !U->use_empty();
            for (auto *u : U->users()) { auto *C = dyn_cast<CallBase>(u); if (!C || calleeOf(C) != U) { part = false; break; } auto *c = C->getFunction(); if (c != de && c != M->getFunction("ser_raw") && !parts.count(c) && c != U) part = false; }
            if (part) { parts.insert(U); users.erase(U); ch = true; break; }
        }
    }
    for (auto *F : users) {
        bool any = false;
        for (int tag : TAGS) {
            SEval E(M);
            E.bounds = true; E.subject = F; E.tag = tag;
            State s; std::vector<Val> args; bool typed = false;
            for (auto &a : F->args()) {
                if (a.getType()->isPointerTy() && !declaredObj(F, a.getArgNo())) args.push_back(Val::ptr(E.newBase(BOther, "p" + std::to_string(a.getArgNo())), Lin(0)));
                else if (a.getType()->isPointerTy()) { int b = E.newBase(BObj, "p" + std::to_string(a.getArgNo())); args.push_back(Val::ptr(b, Lin(0))); if (!typed) { typed = true; s.mem[{b, Lin(2)}] = {1, Val::num(Lin(tag))}; if (tag < 0 || tag > 77) E.untypedLen.insert(b); else if (tag < 20) E.region.erase(b); } }
                else if (a.getType()->isIntegerTy()) args.push_back(Val::num(Lin::atom(E.A.fresh("a", AQty, false))));
                else args.push_back(Val());
            }
            auto outs = E.call(F, args, s);
            if (F->getName() == "maplist_data" && !E.gaveUp) for (auto &o : outs) {  // the bytes it hands out lie in the object
                if (o.ret.k != Val::Ptr || o.ret.base == E.nullBase || args[2].k != Val::Ptr) continue;
                Val z = at(o.s, args[2].base, 0); Lin ext;
                if (z.k != Val::Int || !E.extent(o.s, o.ret, ext) || E.unknown(ext) || E.unknown(z.l)) continue;
                for (auto &B : *F) for (auto &I : B) if (isa<ReturnInst>(I)) E.obl(&I, E.prove(o.s, ext - z.l) && E.prove(o.s, o.ret.l - Lin(16)) && E.prove(o.s, z.l), "length-drift", "gives out " + E.A.str(z.l) + " bytes at offset " + E.A.str(o.ret.l) + " where " + E.A.str(ext) + " are");
            }
            if (E.gaveUp) { if (dump) errs() << "GAVEUP " << F->getName() << " " << tagName(tag) << " " << E.why << "\n"; }
            any |= !E.obls.empty() || !E.framed.empty() || !E.extended.empty();
            for (auto &f : E.framed) framed.push_back(f);
            requested.insert(E.requested.begin(), E.requested.end()); extended.insert(E.extended.begin(), E.extended.end());
            collect(E);
            if (!typed) break;
        }
        instance(any ? "bounds-user" : "bounds-user-undecided", F, nullptr, F->getName().str());
    }
    for (auto &f : framed) {
        bool sized = extended.count(f.len), placed = f.off.isConst() && f.off.k >= 32 && requested.count(std::to_string(f.off.k - 32));
        auto &r = res.insert({{f.I, "framing"}, {true, ""}}).first->second;
        if (!sized || !placed) { r.first = false; r.second = !sized ? "a received message is decoded with a length (" + f.len + ") that no step before has received into the buffer" : "a received message is decoded from offset " + std::to_string(f.off.k - 32) + " of its buffer, which is not where it starts"; }
    }
    for (auto &p : res) {
        auto *I = p.first.first;
        if (p.first.second == "undecided") { instance("bounds-undecided", I->getFunction(), I, "call"); continue; }
        instance("bounds-read", I->getFunction(), I, p.first.second);
        std::string site = p.first.second;
        if (auto *C = dyn_cast<CallBase>(I)) if (auto *f = calleeOf(C)) site = f->getName().str();
        if (isa<LoadInst>(I)) site = "load";
        if (!p.second.first) report(p.first.second, I->getFunction(), I, site, p.second.second);
    }
}
}
void runSerde() {
    const char *d = getenv("RA_SERDE");
    af::agreement(M, d);
    af::boundsOf(M, d);
}
