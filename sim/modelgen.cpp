// Generator of well-formed programs for the reference model.
#include "model.hpp"

namespace sim::model {
namespace {

struct Var { std::string name; std::string t; char kind; }; // kind: p l c g

struct Fn { std::string name; std::vector<std::string> params; std::string ret; std::vector<std::string> generics; };

// "U:N+1" under N -> "8" or "M" or "M+2"
std::string subst(const std::string& t, const std::vector<std::pair<std::string, std::string>>& m)
{
    if (t.compare(0, 2, "U:") != 0 || isdigit(t[2])) return t;
    std::string n = t.substr(2);
    int add = 0;
    if (auto p = n.find('+'); p != std::string::npos) { add = std::stoi(n.substr(p + 1)); n = n.substr(0, p); }
    for (auto& [from, to] : m)
        if (from == n) {
            std::string base = to;
            if (auto p = base.find('+'); p != std::string::npos) { add += std::stoi(base.substr(p + 1)); base = base.substr(0, p); }
            if (isdigit(base[0])) return "U:" + std::to_string(std::stoi(base) + add);
            return "U:" + base + (add ? "+" + std::to_string(add) : "");
        }
    return t;
}
bool is_u(const std::string& t) { return t[0] == 'U'; }
std::string width_of(const std::string& t) { return t.substr(2); }

struct Gen {
    Rng& r;
    const Gen_Options& o;
    Program prog;
    std::vector<Fn> fns;          // functions that may be called (defined so far)
    std::vector<Var> env;
    std::vector<std::string> consts; // names of global Int constants usable as widths
    std::vector<std::pair<std::string, std::string>> global_consts; // name, type
    std::string ret;
    int loops = 0, counter = 0, budget = 0;
    bool const_only = false;      // only constants may be used
    std::string current;          // the function that is generated

    std::string fresh(const char* p) { return p + std::to_string(counter++); }
    // Variable names are drawn from a small pool, so that different scopes use the same names.
    std::string var_name()
    {
        static const std::vector<std::string> pool { "a", "b", "c", "d", "e", "acc", "i", "j", "tmp", "res", "mask", "x0", "x1", "y2", "n" };
        for (int k = 0; k < 6; ++k) {
            const std::string& s = r.pick(pool);
            bool used = false;
            for (auto& v : env) if (v.name == s) used = true;
            if (!used) return s;
        }
        return fresh("v");
    }
    std::string width()
    {
        static const std::vector<int> w { 1, 2, 3, 4, 5, 7, 8, 8, 9, 15, 16, 17, 31, 32, 32, 33, 63, 64, 65, 100, 126, 127, 128 };
        static const std::vector<int> small { 2, 3, 4, 8, 8 };
        return std::to_string(r.pick(o.widths_mode == 1 ? small : w));
    }
    std::string some_type(bool local)
    {
        switch (r.below(5)) {
        case 0: return "B";
        case 1: case 2: return "I";
        default:
            if (local) {
                for (auto& v : env) if (v.kind == 'g' && r.chance(2, 3)) return "U:" + v.name + (r.chance(1, 6) ? "+1" : "");
                for (auto& v : env) if (is_u(v.t) && r.chance(1, 2)) return v.t;
            }
            if (!consts.empty() && r.chance(1, 8)) return "U:" + r.pick(consts);
            return "U:" + width();
        }
    }
    bool usable(const Var& v) { return !const_only || v.kind == 'c' || v.kind == 'g'; }
    X var(const std::string& n) { return node("v", { atom(n) }); }
    X num(u64 n) { return node("i", { atom(std::to_string(n)) }); }

    X literal(const std::string& t)
    {
        if (t == "B") return node("b", { atom(r.chance(1, 2) ? "1" : "0") });
        u64 v = r.below(6) == 0 ? r.next() >> r.below(60) : r.below(12);
        if (t == "I") {
            X l = num(r.chance(1, 3) ? v & 0xffff : v % 12);
            if (r.chance(1, 40)) l = node("i", { atom(show128(i128((u128(1) << r.below(127)) - r.below(2)))) });
            return r.chance(1, 4) ? node("neg", { l }) : l;
        }
        // a Uint literal has to fit: numeric widths are known here, others are at least 1
        u64 max = 1;
        if (isdigit(width_of(t)[0])) { int w = std::stoi(width_of(t)); max = w >= 63 ? ~u64(0) >> 1 : (u64(1) << w) - 1; }
        else max = r.chance(3, 4) ? 1 : 3;
        if (r.chance(1, 5)) v = max - (r.chance(1, 2) ? 0 : 1);
        if (v > max && !(o.failing && r.chance(1, 12))) v %= max + 1;
        return node("as", { num(v), atom(t) });
    }
    X leaf(const std::string& t)
    {
        std::vector<X> c;
        for (auto& v : env) if (v.t == t && usable(v)) { c.push_back(var(v.name)); c.push_back(var(v.name)); }
        for (auto& [n, ct] : global_consts) if (ct == t) c.push_back(var(n));
        if (c.empty() || r.chance(1, 4)) return literal(t);
        return r.pick(c);
    }
    // an operand of type t; an Int in place of a Uint is converted implicitly
    X operand(const std::string& t, int d)
    {
        if (is_u(t) && r.chance(1, 4)) {
            u64 max = isdigit(width_of(t)[0]) ? (std::stoi(width_of(t)) >= 4 ? 15 : 1) : 1;
            return num(r.below(max + 1));
        }
        return expr(t, d);
    }
    X cond(int d) { return expr("B", d); }
    X comparison(int d)
    {
        static const std::vector<std::string> all { "==", "!=", "<", ">", "<=", ">=" };
        std::string t = pick_type();
        std::string op = t == "B" ? (r.chance(1, 2) ? "==" : "!=") : r.pick(all);
        if (r.chance(1, 5) && is_u(t)) return node(op, { operand(t, d), expr(t, d) });
        return node(op, { expr(t, d), operand(t, d) });
    }
    std::string pick_type()
    {
        std::vector<std::string> c;
        for (auto& v : env) if (usable(v)) { c.push_back(v.t); c.push_back(v.t); }
        c.push_back("I");
        c.push_back("U:8");
        if (r.chance(1, 6)) c.push_back("B");
        return r.pick(c);
    }
    X expr(const std::string& t, int d)
    {
        if (d <= 0 || --budget <= 0) return leaf(t);
        if (o.calls && !fns.empty() && r.chance(1, 6))
            if (auto c = call(t, d - 1)) return *c;
        if (r.chance(1, 7)) return node("if", { r.chance(1, 4) && is_u(t) ? operand(t, d - 1) : expr(t, d - 1), cond(d - 1), is_u(t) ? expr(t, d - 1) : expr(t, d - 1) });
        if (t == "B") {
            switch (r.below(8)) {
            case 0: return node("not", { expr("B", d - 1) });
            case 1: case 2: return node(r.chance(1, 2) ? "&&" : "||", { expr("B", d - 1), expr("B", d - 1) });
            case 3: return leaf("B");
            default: return comparison(d - 1);
            }
        }
        if (t == "I") {
            switch (r.below(9)) {
            case 0: return node(r.chance(1, 3) ? "pos" : "neg", { expr(t, d - 1) });
            case 1: return node("*", { expr(t, d - 2), expr(t, d - 2) });
            case 2: return node(r.chance(1, 2) ? "/" : "%", { expr(t, d - 1), divisor(t, d - 1) });
            case 3: return leaf(t);
            default: return node(r.chance(1, 2) ? "+" : "-", { expr(t, d - 1), expr(t, d - 1) });
            }
        }
        switch (r.below(12)) {
        case 0: return node(r.chance(1, 2) ? "inv" : r.chance(1, 2) ? "neg" : "pos", { expr(t, d - 1) });
        case 1: return node(r.chance(1, 2) ? "/" : "%", { expr(t, d - 1), divisor(t, d - 1) });
        case 2: case 3: return node(r.chance(1, 2) ? "<<" : ">>", { expr(t, d - 1), shift(t, d - 1) });
        case 4: return leaf(t);
        case 5: return node("as", { expr(r.chance(1, 2) ? t : "I", o.failing ? d - 1 : 0), atom(t) });
        default: {
            static const std::vector<std::string> ops { "+", "-", "*", "&", "|", "^" };
            const std::string& op = r.pick(ops);
            if (r.chance(1, 2)) return node(op, { operand(t, d - 1), expr(t, d - 1) });
            return node(op, { expr(t, d - 1), operand(t, d - 1) });
        }
        }
    }
    X divisor(const std::string& t, int d)
    {
        if (o.failing && r.chance(1, 6)) return expr(t, d);
        if (is_u(t)) return r.chance(1, 2) ? num(1) : node("|", { expr(t, d), num(1) });
        return num(1 + r.below(9));
    }
    X shift(const std::string& t, int d)
    {
        if (o.failing && r.chance(1, 6)) return expr(t, d);
        bool numeric = isdigit(width_of(t)[0]);
        if (numeric) {
            int w = std::stoi(width_of(t));
            if (w >= 4 && r.chance(1, 2)) return node("%", { expr(t, d), num(u64(std::min(w, 15))) }); // (the divisor fits)
            return num(r.below(u64(w == 1 ? 1 : w < 8 ? 2 : w)));
        }
        return num(r.chance(2, 3) ? 0 : 1);
    }
    std::optional<X> call(const std::string& t, int d)
    {
        for (int tries = 0; tries < 4; ++tries) {
            const Fn& f = r.pick(fns);
            std::vector<std::pair<std::string, std::string>> m;
            bool ok = true;
            for (auto& g : f.generics) {
                if (f.name == current) { m.push_back({ g, g }); continue; }
                // a width for every generic name: from a type that is around
                std::vector<std::string> c;
                for (auto& v : env) if (is_u(v.t) && usable(v)) c.push_back(width_of(v.t));
                if (is_u(t)) c.push_back(width_of(t));
                if (c.empty() || r.chance(1, 4)) c.push_back(width());
                m.push_back({ g, r.pick(c) });
            }
            if (subst(f.ret, m) != t) continue;
            std::vector<X> a { atom(f.name) };
            std::set<std::string> bound;
            for (auto& p : f.params) {
                std::string pt = subst(p, m);
                if (is_u(pt) && isdigit(width_of(pt)[0]) && std::stoi(width_of(pt)) > 128) ok = false;
                if (!ok) break;
                bool deduces = pt != p && p.find('+') == std::string::npos;
                a.push_back(deduces ? expr(pt, d) : operand(pt, d));
            }
            if (ok) return node("call", std::move(a));
        }
        return std::nullopt;
    }
    // ---- statements
    void block(std::vector<X>& out, int n, int depth)
    {
        std::size_t mark = env.size();
        for (int i = 0; i < n; ++i) statement(out, depth);
        env.resize(mark);
    }
    X blk(int n, int depth)
    {
        std::vector<X> s;
        block(s, n, depth);
        return node("blk", std::move(s));
    }
    void statement(std::vector<X>& out, int depth)
    {
        budget = 14;
        const int d = o.depth;
        u64 k = r.below(100);
        if (o.many_asserts && r.chance(1, 3)) k = 85;
        if (k < 26) {
            std::string t = some_type(true), n = var_name();
            if (r.chance(1, 12)) {
                out.push_back(node("let", { atom(n), atom(t) }));
                env.push_back({ n, t, 'u' });
                // assigned on the way, mostly
                if (o.failing && depth > 0 && r.chance(1, 3)) {
                    X c = cond(2);
                    std::vector<X> kids { c, node("blk", { node("set", { atom(n), expr_without(t, n) }) }) };
                    if (r.chance(1, 3)) kids.push_back(blk(1, depth - 1));
                    out.push_back(node("ifs", std::move(kids)));
                }
                else if (!(o.failing && r.chance(1, 8))) out.push_back(node("set", { atom(n), expr_without(t, n) }));
                env.back().kind = 'l';
                return;
            }
            bool typed = r.chance(1, 2);
            X e = typed && is_u(t) ? operand(t, d) : expr(t, d);
            out.push_back(node("let", { atom(n), atom(typed ? t : "_"), e }));
            env.push_back({ n, t, 'l' });
        }
        else if (k < 34) {
            std::string t = some_type(true), n = var_name();
            const_only = true;
            X e = is_u(t) && r.chance(1, 2) ? literal(t) : expr(t, 2);
            const_only = false;
            out.push_back(node("const", { atom(n), atom(r.chance(1, 2) ? t : "_"), e }));
            env.push_back({ n, t, 'c' });
        }
        else if (k < 54) {
            std::vector<Var> c;
            for (auto& v : env) if (v.kind == 'l') c.push_back(v);
            if (c.empty()) return;
            Var v = r.pick(c);
            out.push_back(node("set", { atom(v.name), operand(v.t, d) }));
        }
        else if (k < 66 && depth > 0) {
            X c = cond(d);
            std::vector<X> kids { c, blk(1 + int(r.below(2)), depth - 1) };
            if (r.chance(1, 2)) {
                budget = 10;
                if (r.chance(1, 3)) kids.push_back(node("ifs", { cond(d), blk(1, depth - 1), blk(1, depth - 1) }));
                else kids.push_back(blk(1 + int(r.below(2)), depth - 1));
            }
            out.push_back(node("ifs", std::move(kids)));
        }
        else if (k < 76 && depth > 0 && o.loops) {
            // a counted loop
            std::string i = var_name();
            bool u = r.chance(1, 4);
            out.push_back(node("let", { atom(i), atom(u ? "U:8" : "_"), num(0) }));
            env.push_back({ i, u ? "U:8" : "I", 'k' }); // (not assigned by generated code)
            X inc = node("set", { atom(i), node("+", { var(i), num(1) }) });
            X c = node("<", { var(i), num(1 + r.below(6)) });
            if (r.chance(1, 5)) { budget = 6; c = node("&&", { c, cond(1) }); }
            std::vector<X> body;
            ++loops;
            std::size_t mark = env.size();
            bool inc_first = r.chance(1, 2);
            if (inc_first) body.push_back(inc);
            for (u64 n = 1 + r.below(3); n > 0; --n) statement(body, depth - 1);
            if (r.chance(1, 3)) { budget = 8; body.push_back(node("ifs", { cond(2), node("blk", { node(inc_first && r.chance(1, 2) ? "cont" : "brk", {}) }) })); }
            if (r.chance(1, 2)) statement(body, depth - 1);
            if (!inc_first) body.push_back(inc);
            env.resize(mark);
            --loops;
            out.push_back(node("while", { c, node("blk", std::move(body)) }));
        }
        else if (k < 82 && depth > 0) {
            // an early return under a condition
            X c = cond(d);
            std::vector<X> body;
            if (ret == "V") body.push_back(node("ret", {}));
            else body.push_back(node("ret", { operand(ret, d) }));
            out.push_back(node("ifs", { c, node("blk", std::move(body)) }));
        }
        else if (k < 92 && o.asserts) {
            X c = r.chance(1, 2) ? comparison(2) : expr("B", 2);
            if (o.many_asserts) {
                const u64 form = r.below(10);
                auto simple = [&] { X v = leaf(pick_type()); return node(r.chance(2, 3) ? "==" : "!=", { v, v }); };
                if (form < 4) c = comparison(int(r.below(3)));
                else if (form < 6) {
                    // the value of a comparison, through a variable
                    std::string n = var_name();
                    out.push_back(node("let", { atom(n), atom("_"), comparison(1) }));
                    env.push_back({ n, "B", 'l' });
                    c = var(n);
                }
                else if (form < 7) c = node(r.chance(1, 2) ? "&&" : "||", { comparison(1), comparison(1) });
                else if (form < 8) c = node("if", { comparison(1), cond(1), comparison(1) });
                else if (form < 9) c = simple();
                else if (!fns.empty()) { if (auto b = call("B", 1)) c = *b; }
            }
            else if (!o.failing || r.chance(1, 2)) {
                // mostly true
                X v = leaf(pick_type());
                c = r.chance(1, 2) ? node("==", { v, v }) : r.chance(1, 2) ? node("||", { c, node("==", { v, v }) }) : node("if", { node("==", { v, v }), c, node("==", { v, v }) });
            }
            out.push_back(node("assert", { c }));
        }
        else if (k < 95 && o.static_asserts) {
            const_only = true;
            X v = leaf("I");
            X c = r.chance(1, 2) ? node(">=", { v, v }) : node("||", { node("==", { v, v }), cond(1) });
            const_only = false;
            out.push_back(node("sassert", { c }));
        }
        else if (k < 98 && !fns.empty() && o.calls) {
            const Fn& f = r.pick(fns);
            (void)f;
            std::string t = some_type(true);
            auto c = call(r.chance(1, 2) ? f.ret : t, 2);
            if (!c) return;
            out.push_back(node("do", c->k));
        }
        else if (depth > 0) out.push_back(blk(1 + int(r.below(2)), depth - 1));
    }
    X expr_without(const std::string& t, const std::string& n)
    {
        (void)n;
        auto k = env.back();
        env.pop_back();
        X e = expr(t, o.depth);
        env.push_back(k);
        return e;
    }
    void constant()
    {
        std::string n = fresh("K");
        bool is_int = r.chance(1, 2);
        std::string t = is_int ? "I" : some_type(false);
        const_only = true;
        budget = 10;
        X e = t == "I" && r.chance(1, 2) ? num(1 + r.below(20)) : is_u(t) && r.chance(1, 2) ? literal(t) : expr(t, 2);
        const_only = false;
        if (e.a == "i" && t == "I") consts.push_back(n);
        prog.push_back(node("const", { atom(n), atom(r.chance(1, 2) ? t : "_"), e }));
        global_consts.push_back({ n, t });
    }
    // A requires-clause, which holds for some of the widths (or for the constants that are around).
    X requirement(const Fn& f)
    {
        std::vector<X> c;
        for (auto& g : f.generics) c.push_back(var(g));
        for (auto& [n, t] : global_consts) if (t == "I") c.push_back(var(n));
        if (c.empty()) return atom("_");
        auto one = [&]() -> X {
            X v = r.pick(c);
            if (r.chance(1, 5)) v = node("+", { v, r.pick(c) });
            switch (r.below(6)) {
            case 0: return node(r.chance(1, 2) ? "==" : "!=", { node("%", { v, num(1 + r.below(8)) }), num(0) });
            case 1: return node(r.chance(1, 2) ? ">=" : ">", { v, num(r.below(12)) });
            case 2: return node(r.chance(1, 2) ? "<=" : "<", { v, num(r.pick(std::vector<u64> { 8, 20, 32, 33, 64, 100, 128 })) });
            case 3: return node("!=", { v, num(r.pick(std::vector<u64> { 8, 13, 1, 127 })) });
            default: return node(r.chance(1, 2) ? "<=" : ">=", { v, r.pick(c) });
            }
        };
        X e = one();
        if (r.chance(1, 4)) e = node(r.chance(1, 2) ? "&&" : "||", { e, one() });
        if (r.chance(1, 8)) e = node("not", { e });
        return e;
    }
    void function()
    {
        Fn f;
        f.name = fresh("f");
        env.clear();
        std::vector<X> params;
        bool generic = o.generics && r.chance(2, 5);
        if (generic) {
            f.generics.push_back("N");
            if (r.chance(1, 4)) f.generics.push_back("M");
            if (f.generics.size() == 2 && r.chance(1, 4)) f.generics.push_back("L");
        }
        int np = int(r.below(4));
        if (generic) np = std::max<int>(np, int(f.generics.size()));
        for (auto& g : f.generics) env.push_back({ g, "I", 'g' });
        static const std::vector<std::string> pnames { "x", "y", "z", "w" };
        for (int i = 0; i < np; ++i) {
            std::string t = i < int(f.generics.size()) ? "U:" + f.generics[std::size_t(i)]
                : generic && r.chance(1, 3)            ? "U:" + r.pick(f.generics) + (r.chance(1, 3) ? "+1" : "")
                                                       : some_type(false);
            f.params.push_back(t);
            params.push_back(node(pnames[std::size_t(i)], { atom(t) }));
            env.push_back({ pnames[std::size_t(i)], t, 'p' });
        }
        u64 k = r.below(10);
        f.ret = k == 0 ? "V" : generic && k < 5 ? "U:" + r.pick(f.generics) + (r.chance(1, 6) ? "+1" : "") : k < 8 && np ? r.pick(f.params) : some_type(false);
        ret = f.ret;
        current = f.name;
        const bool recursive = r.chance(u64(o.recursion), 100);
        if (recursive) { fns.push_back(f); fns.push_back(f); }
        X req = atom("_");
        if (o.requirements && r.chance(u64(o.requirements), 100)) req = requirement(f);
        else if (generic && r.chance(1, 4)) req = node(">=", { var("N"), num(1) });
        std::vector<X> body;
        std::size_t mark = env.size();
        for (int i = 0, n = 1 + int(r.below(u64(o.statements))); i < n; ++i) statement(body, 2);
        budget = 16;
        if (f.ret != "V") {
            auto give = [&] { budget = 10; return node("blk", { node("ret", { operand(f.ret, o.depth) }) }); };
            switch (r.below(10)) {
            case 0: body.push_back(node("ifs", { cond(o.depth), give(), give() })); break;
            case 1: body.push_back(node("ifs", { cond(2), give(), node("ifs", { cond(2), give(), give() }) })); break;
            case 2:
                if (o.loops) { body.push_back(node("while", { node("b", { atom("1") }), give() })); break; }
                [[fallthrough]];
            default: body.push_back(node("ret", { operand(f.ret, o.depth) }));
            }
        }
        else if (r.chance(1, 3)) body.push_back(node("ret", {}));
        env.resize(mark);
        X fn = node("fn", { atom(f.name), { true, "", params }, atom(f.ret), req, node("blk", std::move(body)) });
        // callers may come before the functions they call
        if (r.chance(1, 4) && !prog.empty() && global_consts.empty()) prog.insert(prog.begin(), fn);
        else prog.push_back(fn);
        current.clear();
        if (recursive) fns.pop_back();
        else fns.push_back(f);
        // functions which call each other
        if (fns.size() > 1 && r.chance(u64(o.recursion), 100))
            for (auto& d : prog) {
                if (d.a != "fn" || d.k[0].a == f.name || !r.chance(1, 2)) continue;
                std::vector<X> a { atom(f.name) };
                env.clear();
                bool ok = true;
                for (auto& p : f.params) {
                    std::string pt = p;
                    for (auto& g : f.generics) pt = subst(pt, { { g, r.chance(1, 2) ? "8" : width() } });
                    if (is_u(pt) && isdigit(width_of(pt)[0]) && std::stoi(width_of(pt)) > 128) ok = false;
                    if (ok) a.push_back(literal(pt));
                }
                if (!ok) continue;
                X s = node("do", a);
                if (r.chance(1, 2)) s = node("ifs", { node("b", { atom("0") }), node("blk", { s }) });
                d.k[4].k.insert(d.k[4].k.begin(), s);
                break;
            }
    }
};
} // namespace

Program generate(Rng& r, const Gen_Options& o)
{
    for (int tries = 0;; ++tries) {
        Gen g { r, o, {}, {}, {}, {}, {}, {} };
        for (u64 n = r.below(3); n > 0; --n) g.constant();
        int nf = 1 + int(r.below(u64(o.functions)));
        for (int i = 0; i < nf; ++i) {
            g.env.clear();
            g.function();
        }
        Analysis a = analyze(g.prog);
        if (a.valid && (o.failing || !a.reject) && !a.maybe_reject) return g.prog;
        if (tries > 40) {
            X p;
            parse_x("(fn f0 ((x I)) I _ (blk (ret (+ (v x) (i 1)))))", p);
            return { p };
        }
    }
}

void add_constants(Rng& r, Program& p, bool failing)
{
    Gen_Options o;
    o.failing = failing;
    Gen g { r, o, p, {}, {}, {}, {}, {} };
    g.counter = 1000;
    for (auto& d : p)
        if (d.a == "fn") {
            Fn f;
            f.name = d.k[0].a;
            for (auto& q : d.k[1].k) {
                const std::string& t = q.k[0].a;
                f.params.push_back(t);
                if (is_u(t) && !isdigit(t[2]) && t.find('+') == std::string::npos) {
                    std::string n = width_of(t);
                    bool known = false;
                    for (auto& x : f.generics) known |= x == n;
                    for (auto& e : p) if (e.a != "sassert" && e.k[0].a == n) known = true;
                    if (!known) f.generics.push_back(n);
                }
            }
            f.ret = d.k[2].a;
            g.fns.push_back(f);
        }
    Analysis a = analyze(p);
    if (!a.valid || a.reject) return;
    auto type_text = [](Ty t) { return t.k == 'U' ? "U:" + std::to_string(t.w) : std::string(1, t.k); };
    for (auto& [n, v] : a.constants) g.global_consts.push_back({ n, type_text(v.t) });
    for (int n = 1 + int(r.below(8)); n > 0; --n) {
        g.const_only = true;
        g.budget = 14;
        X d;
        if (r.chance(1, 2)) {
            std::string t = r.chance(1, 3) && !g.fns.empty() ? r.pick(g.fns).ret : g.some_type(false);
            if (t == "V" || (is_u(t) && !isdigit(t[2]))) t = "U:8";
            X e = g.expr(t, 3);
            if (r.chance(1, 2) && !g.fns.empty()) if (auto c = g.call(t, 2)) e = *c;
            d = node("const", { atom(g.fresh("K")), atom(r.chance(1, 2) ? t : "_"), e });
        }
        else {
            X e = g.expr("B", 3);
            if (!g.global_consts.empty() && r.chance(1, 2)) {
                auto& [name, t] = r.pick(g.global_consts);
                auto it = a.constants.find(name);
                if (it != a.constants.end() && it->second.t.k != 'B' && it->second.v >= 0) {
                    static const std::vector<std::string> ops { "==", "==", "<=", ">=", "!=", "<", ">" };
                    i128 x = it->second.v + (failing && r.chance(1, 4) && it->second.v < 100 ? 1 : 0);
                    e = node(r.pick(ops), { node("v", { atom(name) }), lit(x) });
                    if (r.chance(1, 3)) e = node(r.chance(1, 2) ? "||" : "&&", { e, g.comparison(1) });
                }
            }
            d = node("sassert", { e });
        }
        Program q = p;
        // anywhere behind the constants that are there, mostly at the end
        q.push_back(d);
        Analysis b = analyze(q);
        if (!b.valid || b.maybe_reject || (b.reject && !(failing && r.chance(1, 3)))) continue;
        p = std::move(q);
        if (b.reject) return;
        a = b;
        if (d.a == "const") g.global_consts.push_back({ d.k[0].a, type_text(b.constants[d.k[0].a].t) });
    }
}

Val random_value(Rng& r, Ty t)
{
    Val v { t, 0, nullptr };
    u128 x = u128(r.next()) << 64 | r.next();
    switch (t.k) {
    case 'B': v.v = i128(x & 1); break;
    case 'I':
        v.v = i128(r.chance(1, 3) ? r.below(4) : r.chance(1, 2) ? x & 0xff : x & 0xffffff);
        if (r.chance(1, 3)) v.v = -v.v;
        if (r.chance(1, 40)) v.v = i128(x >> r.below(120));
        break;
    case 'U': {
        u128 m = t.w >= 128 ? ~u128(0) : (u128(1) << t.w) - 1;
        u64 k = r.below(6);
        v.v = i128((k == 0 ? u128(0) : k == 1 ? m : k == 2 ? u128(r.below(8)) : k == 3 ? u128(1) << r.below(u64(t.w)) : x >> r.below(127)) & m);
        break;
    }
    }
    return v;
}

void add_forces(Rng& r, Program& p, int percent)
{
    Analysis a = analyze(p);
    if (!a.valid || a.reject) return;
    Program add;
    int n = 0;
    for (auto& d : p) {
        if (d.a != "fn" || !r.chance(u64(percent), 100)) continue;
        bool gen = is_generic(p, d);
        for (int copies = gen ? 1 + int(r.below(2)) : 1; copies > 0; --copies) {
            for (int tries = 0; tries < 6; ++tries) {
                std::vector<int> widths;
                if (gen) {
                    std::size_t count = 0;
                    static const std::vector<int> w { 1, 2, 5, 8, 13, 16, 32, 63, 64, 100, 127, 128 };
                    std::set<std::string> names;
                    for (auto& q : d.k[1].k) {
                        const std::string& t = q.k[0].a;
                        if (t.compare(0, 2, "U:") == 0 && !isdigit(t[2]) && t.find('+') == std::string::npos) {
                            std::string g = t.substr(2);
                            bool global = false;
                            for (auto& e : p) if (e.a == "const" && e.k[0].a == g) global = true;
                            if (!global) names.insert(g);
                        }
                    }
                    count = names.size();
                    for (std::size_t i = 0; i < count; ++i) widths.push_back(r.pick(w));
                }
                Signature s = signature(p, a.constants, d, widths);
                if (!s.ok || s.ret.k == 'V') continue;
                std::vector<X> args { d.k[0] };
                std::vector<Val> vals;
                for (auto& t : s.params) {
                    Val v = random_value(r, t);
                    vals.push_back(v);
                    if (t.k == 'B') args.push_back(node("b", { atom(v.v ? "1" : "0") }));
                    else if (t.k == 'I') args.push_back(lit(v.v));
                    else {
                        if (v.v < 0) { v.v = 1; vals.back() = v; } // (no literal is that large)
                        args.push_back(node("as", { lit(v.v), atom("U:" + std::to_string(t.w)) }));
                    }
                }
                Result res = call(p, a.constants, d.k[0].a, vals, 20000);
                if (res.err != Err::none) continue;
                X c = node("const", { atom("force" + std::to_string(n++)), atom("_"), node("call", args) });
                Program q = p;
                for (auto& x : add) q.push_back(x);
                q.push_back(c);
                Analysis b = analyze(q);
                if (!b.valid || b.reject || b.maybe_reject) continue;
                add.push_back(c);
                break;
            }
        }
    }
    for (auto& x : add) p.push_back(std::move(x));
}
} // namespace sim::model
