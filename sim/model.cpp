#include "model.hpp"
#include <algorithm>
#include <stdexcept>

namespace sim::model {

// ---------------------------------------------------------------- S-expressions
static bool parse_at(std::string_view s, std::size_t& i, X& out, int depth)
{
    while (i < s.size() && (s[i] == ' ' || s[i] == '\n')) ++i;
    if (i >= s.size() || depth > 200) return false;
    if (s[i] == ')') return false;
    if (s[i] == '(') {
        ++i;
        out = { true, {}, {} };
        bool first = true;
        for (;;) {
            while (i < s.size() && s[i] == ' ') ++i;
            if (i >= s.size()) return false;
            if (s[i] == ')') { ++i; return true; }
            X x;
            if (!parse_at(s, i, x, depth + 1)) return false;
            if (first && !x.list) out.a = x.a;
            else { if (first) out.a = ""; out.k.push_back(std::move(x)); }
            first = false;
        }
    }
    std::size_t b = i;
    while (i < s.size() && s[i] != ' ' && s[i] != '(' && s[i] != ')') ++i;
    out = { false, std::string(s.substr(b, i - b)), {} };
    return true;
}
bool parse_x(std::string_view s, X& out)
{
    std::size_t i = 0;
    return parse_at(s, i, out, 0);
}
std::string print_x(const X& x)
{
    if (!x.list) return x.a;
    std::string r = "(" + x.a;
    for (auto& k : x.k) {
        if (r.size() > 1) r += ' ';
        r += print_x(k);
    }
    return r + ")";
}
std::string showu128(u128 u)
{
    if (u == 0) return "0";
    std::string r;
    while (u) { r.insert(r.begin(), char('0' + int(u % 10))); u /= 10; }
    return r;
}
std::string show128(i128 v) { return v < 0 ? "-" + showu128(-u128(v)) : showu128(u128(v)); }
static i128 read128(const std::string& s)
{
    u128 r = 0;
    bool neg = false;
    for (char c : s) {
        if (c == '-') neg = true;
        else if (c >= '0' && c <= '9') r = r * 10 + u128(c - '0');
    }
    return neg ? i128(-r) : i128(r);
}
X lit(i128 v)
{
    if (v < 0) return node("neg", { node("i", { atom(showu128(-u128(v))) }) });
    return node("i", { atom(show128(v)) });
}

// ---------------------------------------------------------------- basics
std::string Ty::show() const
{
    switch (k) {
    case 'V': return "Void";
    case 'B': return "Bool";
    case 'I': return "Int";
    }
    return "Uint(" + std::to_string(w) + ")";
}
std::string show_val(const Val& v) { return v.t.show() + " " + (v.t.k == 'U' ? showu128(u128(v.v)) : show128(v.v)); }
const char* err_name(Err e)
{
    static const char* n[] = { "none", "assertion_fail", "division_by_zero", "shift_too_much", "int_to_uint_range_error", "load_uninitialized", "overflow", "unspecified", "fuel" };
    return n[int(e)];
}

namespace {

struct Invalid : std::runtime_error { using runtime_error::runtime_error; };
struct Fail {
    Err err;
    bool in_call = false;
    std::shared_ptr<const Comparison> must, may;
};
struct Reject_Ex { Reject r; };

u128 mask(int w) { return w >= 128 ? ~u128(0) : (u128(1) << w) - 1; }
bool is_cmp(const std::string& s) { return s == "==" || s == "!=" || s == "<" || s == ">" || s == "<=" || s == ">="; }
bool is_logic(const std::string& s) { return s == "&&" || s == "||"; }
bool is_arith(const std::string& s) { return s == "+" || s == "-" || s == "*" || s == "/" || s == "%"; }
bool is_bitwise(const std::string& s) { return s == "&" || s == "|" || s == "^" || s == "<<" || s == ">>"; }
bool is_unary(const std::string& s) { return s == "neg" || s == "pos" || s == "not" || s == "inv"; }
bool is_binary(const std::string& s) { return is_cmp(s) || is_logic(s) || is_arith(s) || is_bitwise(s); }

Ty common(Ty a, Ty b)
{
    if (a == b) return a;
    if (a.k == 'I' && b.k == 'U') return b;
    if (a.k == 'U' && b.k == 'I') return a;
    throw Invalid("no common type");
}
bool convertible(Ty a, Ty b) { return a == b || (a.k == 'I' && b.k == 'U'); }
Val convert(const Val& v, Ty t)
{
    if (v.t == t) return v;
    if (!convertible(v.t, t)) throw Invalid("conversion");
    if (v.v < 0 || (u128(v.v) & ~mask(t.w)) != 0) throw Fail { Err::range };
    return { t, v.v, nullptr };
}
Ty type_unary(const std::string& op, Ty t)
{
    bool ok = t.k == 'B' ? op == "not" : t.k == 'I' ? op == "neg" || op == "pos" : t.k == 'U' ? op != "not" : false;
    if (!ok) throw Invalid("operand of " + op);
    return t;
}
Ty type_binary(const std::string& op, Ty a, Ty b)
{
    if (a.k == 'V' || b.k == 'V') throw Invalid("void operand");
    Ty c = common(a, b);
    bool ok = false;
    if (c.k == 'B') ok = op == "==" || op == "!=" || is_logic(op);
    if (c.k == 'I') ok = is_arith(op) || is_cmp(op);
    if (c.k == 'U') ok = is_arith(op) || is_cmp(op) || is_bitwise(op);
    if (!ok) throw Invalid("operands of " + op);
    return is_cmp(op) || is_logic(op) ? Ty { 'B' } : c;
}
Val eval_unary(const std::string& op, const Val& v)
{
    type_unary(op, v.t);
    if (op == "pos") return { v.t, v.v, nullptr };
    if (op == "not") return { v.t, v.v ^ 1, nullptr };
    if (v.t.k == 'I') {
        i128 r;
        if (__builtin_sub_overflow(i128(0), v.v, &r)) throw Fail { Err::overflow };
        return { v.t, r, nullptr };
    }
    return { v.t, i128((op == "neg" ? -u128(v.v) : ~u128(v.v)) & mask(v.t.w)), nullptr };
}
// (not && and ||)
Val eval_binary(const std::string& op, const Val& l0, const Val& r0)
{
    Ty t = type_binary(op, l0.t, r0.t);
    Ty c = common(l0.t, r0.t);
    Val l = convert(l0, c), r = convert(r0, c);
    if (is_cmp(op)) {
        bool b;
        if (c.k == 'U') {
            u128 x = u128(l.v), y = u128(r.v);
            b = op == "==" ? x == y : op == "!=" ? x != y : op == "<" ? x < y : op == ">" ? x > y : op == "<=" ? x <= y : x >= y;
        }
        else {
            i128 x = l.v, y = r.v;
            b = op == "==" ? x == y : op == "!=" ? x != y : op == "<" ? x < y : op == ">" ? x > y : op == "<=" ? x <= y : x >= y;
        }
        return { t, b, std::make_shared<Comparison>(Comparison { op, l0.v, r0.v }) };
    }
    if (op == "/" || op == "%") {
        if (r.v == 0) throw Fail { Err::division_by_zero };
        if (c.k == 'U') return { t, i128(op == "/" ? u128(l.v) / u128(r.v) : u128(l.v) % u128(r.v)), nullptr };
        if (r.v == -1) {
            i128 n;
            if (__builtin_sub_overflow(i128(0), l.v, &n)) throw Fail { Err::overflow };
            return { t, op == "/" ? n : 0, nullptr };
        }
        return { t, op == "/" ? l.v / r.v : l.v % r.v, nullptr };
    }
    if (c.k == 'I') {
        i128 x;
        bool o = op == "+" ? __builtin_add_overflow(l.v, r.v, &x) : op == "-" ? __builtin_sub_overflow(l.v, r.v, &x) : __builtin_mul_overflow(l.v, r.v, &x);
        if (o) throw Fail { Err::overflow };
        return { t, x, nullptr };
    }
    u128 x = u128(l.v), y = u128(r.v), z;
    if (op == "<<" || op == ">>") {
        if (y >= u128(c.w)) throw Fail { Err::shift_too_much };
        z = op == "<<" ? x << int(y) : x >> int(y);
    }
    else z = op == "+" ? x + y : op == "-" ? x - y : op == "*" ? x * y : op == "&" ? x & y : op == "|" ? x | y : x ^ y;
    return { t, i128(z & mask(c.w)), nullptr };
}

using Bound = std::vector<std::pair<std::string, int>>;

// The width of a type: a number, a bound name or constant, or name+number.
template <typename Lookup>
Ty read_type(const X& t, Lookup&& lookup)
{
    if (t.list || t.a.empty()) throw Invalid("type");
    char k = t.a[0];
    if (t.a.size() == 1 && (k == 'V' || k == 'B' || k == 'I')) return { k, 0 };
    if (t.a.size() < 3 || k != 'U' || t.a[1] != ':') throw Invalid("type");
    std::string w = t.a.substr(2);
    i128 add = 0;
    if (auto p = w.find('+'); p != std::string::npos) { add = read128(w.substr(p + 1)); w = w.substr(0, p); }
    i128 base = !w.empty() && isdigit(w[0]) ? read128(w) : lookup(w);
    i128 r = base + add;
    if (r <= 0 || r > 128) throw Reject_Ex { { "width_invalid" } };
    return { 'U', int(r) };
}
std::string generic_name(const X& t)
{
    if (t.list || t.a.size() < 3 || t.a.compare(0, 2, "U:") != 0 || isdigit(t.a[2]) || t.a.find('+') != std::string::npos) return "";
    return t.a.substr(2);
}

struct Interp {
    const Program& prog;
    const std::map<std::string, Val>& globals;
    u64 fuel, used = 0;
    struct Var { std::string name; Ty t; Val v; int state = 0; }; // state: 0 set, 1 uninitialised, 2 unspecified
    struct Frame { std::vector<Var> vars; std::set<const X*> seen; Ty ret; bool returned = false; Val result; int jump = 0; };
    int depth = 0;

    void tick() { if (++used > fuel) throw Fail { Err::fuel }; }
    [[noreturn]] void raise(Fail f) { f.in_call = depth > 0; throw f; }

    Var* find(Frame& f, const std::string& n)
    {
        for (std::size_t i = f.vars.size(); i-- > 0;) if (f.vars[i].name == n) return &f.vars[i];
        return nullptr;
    }
    Ty type(const X& t, Frame& f)
    {
        return read_type(t, [&](const std::string& n) -> i128 {
            if (Var* v = find(f, n)) return v->v.v;
            if (auto g = globals.find(n); g != globals.end()) return g->second.v;
            throw Invalid("width name " + n);
        });
    }
    Ty static_type(const X& e, Frame& f)
    {
        const std::string& h = e.a;
        if (h == "i") return { 'I' };
        if (h == "b" || h == "not" || is_cmp(h) || is_logic(h)) return { 'B' };
        if (h == "v") {
            if (Var* v = find(f, e.k.at(0).a)) return v->t;
            if (auto g = globals.find(e.k.at(0).a); g != globals.end()) return g->second.t;
            throw Invalid("name");
        }
        if (is_unary(h)) return static_type(e.k.at(0), f);
        if (is_binary(h)) return common(static_type(e.k.at(0), f), static_type(e.k.at(1), f));
        if (h == "if") return common(static_type(e.k.at(0), f), static_type(e.k.at(2), f));
        if (h == "as") return type(e.k.at(1), f);
        if (h == "call") {
            const X* fn = find_function(prog, e.k.at(0).a);
            if (!fn) throw Invalid("call");
            Frame g;
            std::vector<Ty> ts;
            for (std::size_t i = 1; i < e.k.size(); ++i) ts.push_back(static_type(e.k[i], f));
            bind(g, *fn, ts);
            return type(fn->k.at(2), g);
        }
        throw Invalid("expression " + h);
    }
    // binds the generic widths
    void bind(Frame& g, const X& fn, const std::vector<Ty>& ts)
    {
        auto& ps = fn.k.at(1).k;
        for (std::size_t i = 0; i < ps.size() && i < ts.size(); ++i) {
            std::string n = generic_name(ps[i].k.at(0));
            if (n.empty() || globals.count(n) || find(g, n)) continue;
            g.vars.push_back({ n, { 'I' }, { { 'I' }, ts[i].w, nullptr } });
        }
    }
    Val eval(const X& e, Frame& f)
    {
        tick();
        const std::string& h = e.a;
        try {
            if (h == "i") return { { 'I' }, read128(e.k.at(0).a), nullptr };
            if (h == "b") return { { 'B' }, e.k.at(0).a == "1", nullptr };
            if (h == "v") {
                if (Var* v = find(f, e.k.at(0).a)) {
                    if (v->state == 1) throw Fail { Err::uninitialized };
                    if (v->state == 2) throw Fail { Err::unspecified };
                    return v->v;
                }
                if (auto g = globals.find(e.k.at(0).a); g != globals.end()) return g->second;
                throw Invalid("name " + e.k[0].a);
            }
            if (is_unary(h)) return eval_unary(h, eval(e.k.at(0), f));
            if (is_logic(h)) {
                Val l = eval(e.k.at(0), f);
                if (l.v == (h == "||")) return l;
                return eval(e.k.at(1), f);
            }
            if (is_binary(h)) {
                Val l = eval(e.k.at(0), f);
                Val r = eval(e.k.at(1), f);
                return eval_binary(h, l, r);
            }
            if (h == "if") {
                Ty t = common(static_type(e.k.at(0), f), static_type(e.k.at(2), f));
                Val c = eval(e.k.at(1), f);
                return convert(eval(c.v ? e.k[0] : e.k[2], f), t);
            }
            if (h == "as") {
                Ty t = type(e.k.at(1), f);
                return convert(eval(e.k.at(0), f), t);
            }
            if (h == "call") {
                const X* fn = find_function(prog, e.k.at(0).a);
                if (!fn) throw Invalid("call");
                std::vector<Val> args;
                for (std::size_t i = 1; i < e.k.size(); ++i) args.push_back(eval(e.k[i], f));
                return run(*fn, args, true);
            }
        } catch (Fail& x) {
            if (depth > 0) x.in_call = true;
            throw;
        }
        throw Invalid("expression " + h);
    }
    Val run(const X& fn, std::vector<Val> args, bool convert_args)
    {
        Frame g;
        std::vector<Ty> ts;
        for (auto& a : args) ts.push_back(a.t);
        bind(g, fn, ts);
        auto& ps = fn.k.at(1).k;
        if (ps.size() != args.size()) throw Invalid("arguments");
        for (std::size_t i = 0; i < ps.size(); ++i) {
            Ty t = type(ps[i].k.at(0), g);
            if (convert_args) args[i] = convert(args[i], t);
            else if (!(args[i].t == t)) throw Invalid("argument type");
            g.vars.push_back({ ps[i].a, t, args[i] });
        }
        g.ret = type(fn.k.at(2), g);
        if (++depth > 60) throw Invalid("recursion");
        block(fn.k.at(4), g);
        --depth;
        if (!g.returned) {
            if (g.ret.k != 'V') throw Invalid("no return");
            return { { 'V' }, 0, nullptr };
        }
        return g.result;
    }
    void block(const X& b, Frame& f)
    {
        std::size_t n = f.vars.size();
        for (auto& s : b.k) {
            stmt(s, f);
            if (f.returned || f.jump) break;
        }
        f.vars.resize(n);
    }
    void stmt(const X& s, Frame& f)
    {
        tick();
        const std::string& h = s.a;
        try {
            if (h == "let" || h == "const") {
                if (s.k.size() == 2) {
                    f.vars.push_back({ s.k[0].a, type(s.k[1], f), {}, f.seen.count(&s) ? 2 : 1 });
                    f.seen.insert(&s);
                    return;
                }
                Val v = eval(s.k.at(2), f);
                if (s.k[1].a != "_") v = convert(v, type(s.k[1], f));
                f.vars.push_back({ s.k[0].a, v.t, v });
                return;
            }
            if (h == "set") {
                Val v = eval(s.k.at(1), f);
                Var* x = find(f, s.k.at(0).a);
                if (!x) throw Invalid("set");
                x->v = convert(v, x->t);
                x->state = 0;
                return;
            }
            if (h == "ret") {
                f.result = s.k.empty() ? Val { { 'V' }, 0, nullptr } : convert(eval(s.k[0], f), f.ret);
                f.returned = true;
                return;
            }
            if (h == "ifs") {
                if (eval(s.k.at(0), f).v) block(s.k.at(1), f);
                else if (s.k.size() > 2) { if (s.k[2].a == "ifs") stmt(s.k[2], f); else block(s.k[2], f); }
                return;
            }
            if (h == "while") {
                while (eval(s.k.at(0), f).v) {
                    block(s.k.at(1), f);
                    if (f.returned) return;
                    if (f.jump == 1) { f.jump = 0; break; }
                    f.jump = 0;
                }
                return;
            }
            if (h == "brk") { f.jump = 1; return; }
            if (h == "cont") { f.jump = 2; return; }
            if (h == "blk") { block(s, f); return; }
            if (h == "do") { eval(node("call", s.k), f); return; }
            if (h == "assert") {
                Val c = eval(s.k.at(0), f);
                if (!c.v) throw Fail { Err::assert_fail, depth > 0, is_cmp(s.k[0].a) ? c.from : nullptr, c.from };
                return;
            }
            if (h == "sassert") return;
        } catch (Fail& x) {
            if (depth > 0) x.in_call = true;
            throw;
        }
        throw Invalid("statement " + h);
    }
};

// ---------------------------------------------------------------- static rules
struct Elab {
    const Program& prog;
    Analysis& out;
    struct Sym { std::string name; char kind; Ty t; std::optional<Val> v; };
    struct St { Ty t; std::optional<Val> v; bool weak = false; }; // weak: known, though a part that is not needed is unknown
    enum { shallow = 1, full = 2, ce = 3 };
    struct Inst { std::vector<int> widths; int level = 0; };
    std::map<std::string, std::vector<Inst>> insts; // in order of creation; non-generic: one without widths
    std::vector<std::pair<const X*, std::vector<int>>> stack;
    std::set<std::string> global_names;
    u64 total_fuel = 300000;

    struct Env {
        std::vector<Sym> syms;
        Ty ret;
        int loops = 0;
        bool in_function = false;
    };
    Sym* find(Env& env, const std::string& n)
    {
        for (std::size_t i = env.syms.size(); i-- > 0;) if (env.syms[i].name == n) return &env.syms[i];
        return nullptr;
    }
    void declare(Env& env, Sym s)
    {
        if (find(env, s.name) || global_names.count(s.name) || s.name == "assert") throw Invalid("redefinition of " + s.name);
        env.syms.push_back(std::move(s));
    }
    Ty type(const X& t, Env& env)
    {
        return read_type(t, [&](const std::string& n) -> i128 {
            if (Sym* s = find(env, n)) {
                if (!s->v || s->t.k != 'I') throw Invalid("width is no Int constant");
                return s->v->v;
            }
            if (auto g = out.constants.find(n); g != out.constants.end()) {
                if (g->second.t.k != 'I') throw Invalid("width is no Int");
                return g->second.v;
            }
            throw Invalid("width name " + n);
        });
    }
    [[noreturn]] void reject_eval(Err e, bool call, std::shared_ptr<const Comparison> must = nullptr, std::shared_ptr<const Comparison> may = nullptr)
    {
        if (e == Err::fuel || e == Err::overflow || e == Err::unspecified) throw Invalid(std::string("constant evaluation: ") + err_name(e));
        throw Reject_Ex { { call && e == Err::uninitialized ? "execution_error" : "evaluation_error", e, call, std::move(must), std::move(may) } };
    }
    // Interp over known values only
    template <typename F>
    std::optional<Val> fold(F&& f, bool constant)
    {
        try {
            return f();
        } catch (Fail& x) {
            if (constant) reject_eval(x.err, false);
            if (x.err == Err::overflow) throw Invalid("overflow while folding");
            return std::nullopt;
        }
    }
    St expr(const X& e, Env& env, int level, bool constant)
    {
        const std::string& h = e.a;
        if (h == "i") {
            const std::string& d = e.k.at(0).a;
            if (d.empty() || d.size() > 38 || d[0] == '-') throw Invalid("literal");
            for (char c : d) if (!isdigit(c)) throw Invalid("literal");
            return { { 'I' }, Val { { 'I' }, read128(d), nullptr } };
        }
        if (h == "b") return { { 'B' }, Val { { 'B' }, e.k.at(0).a == "1", nullptr } };
        if (h == "v") {
            const std::string& n = e.k.at(0).a;
            if (Sym* s = find(env, n)) {
                if (constant && !s->v) throw Invalid("not a constant");
                return { s->t, s->v };
            }
            if (auto g = out.constants.find(n); g != out.constants.end()) return { g->second.t, g->second };
            throw Invalid("name " + n);
        }
        if (is_unary(h)) {
            St s = expr(e.k.at(0), env, level, constant);
            Ty t = type_unary(h, s.t);
            return { t, s.v ? fold([&] { return eval_unary(h, *s.v); }, constant) : std::nullopt, s.weak };
        }
        if (is_binary(h)) {
            St l = expr(e.k.at(0), env, level, constant);
            bool rc = constant;
            if (constant && is_logic(h)) {
                if (l.t.k != 'B') throw Invalid("logical operand");
                if (l.v->v == (h == "||")) rc = false;
            }
            St r = expr(e.k.at(1), env, level, rc);
            Ty t = type_binary(h, l.t, r.t);
            if (is_logic(h)) {
                const bool weak = l.weak || r.weak || !r.v;
                if (l.v && l.v->v == (h == "||")) return { t, *l.v, weak };
                if (l.v && r.v) return { t, *r.v, weak };
                return { t, std::nullopt };
            }
            if (!l.v || !r.v) return { t, std::nullopt };
            return { t, fold([&] { return eval_binary(h, *l.v, *r.v); }, constant), l.weak || r.weak };
        }
        if (h == "if") {
            St c = expr(e.k.at(1), env, level, constant);
            if (c.t.k != 'B') throw Invalid("condition");
            bool lc = constant, rc = constant;
            if (constant) (c.v->v ? rc : lc) = false;
            St l = expr(e.k.at(0), env, level, lc);
            St r = expr(e.k.at(2), env, level, rc);
            if (l.t.k == 'V' || r.t.k == 'V') throw Invalid("void operand");
            Ty t = common(l.t, r.t);
            if (!c.v) return { t, std::nullopt };
            auto& s = c.v->v ? l : r;
            if (!s.v) return { t, std::nullopt };
            return { t, fold([&] { return convert(*s.v, t); }, constant), c.weak || l.weak || r.weak || !l.v || !r.v };
        }
        if (h == "as") {
            St s = expr(e.k.at(0), env, level, constant);
            Ty t = type(e.k.at(1), env);
            if (!convertible(s.t, t) || s.t.k == 'V') throw Invalid("conversion");
            return { t, s.v ? fold([&] { return convert(*s.v, t); }, constant) : std::nullopt, s.weak };
        }
        if (h == "call") return call_expr(e, env, level, constant);
        throw Invalid("expression " + h);
    }
    St call_expr(const X& e, Env& env, int level, bool constant)
    {
        const X* fn = find_function(prog, e.k.at(0).a);
        if (!fn) throw Invalid("call of " + e.k[0].a);
        if (find(env, e.k[0].a)) throw Invalid("call");
        auto& ps = fn->k.at(1).k;
        if (e.k.size() - 1 != ps.size()) throw Invalid("number of arguments");
        std::vector<St> args;
        for (std::size_t i = 1; i < e.k.size(); ++i) {
            args.push_back(expr(e.k[i], env, level, constant));
            if (args.back().t.k == 'V') throw Invalid("void argument");
        }
        std::vector<int> widths;
        if (is_generic(prog, *fn)) {
            std::set<std::string> bound;
            for (std::size_t i = 0; i < ps.size(); ++i) {
                std::string n = generic_name(ps[i].k.at(0));
                if (n.empty() || global_names.count(n) || !bound.insert(n).second) continue;
                if (args[i].t.k != 'U') throw Invalid("deduction");
                widths.push_back(args[i].t.w);
            }
            // What a generic function means that calls itself with other widths is not specified.
            if (!stack.empty() && stack.back().first == fn && stack.back().second != widths) throw Invalid("recursion with other widths");
            out.instances.insert({ fn->k.at(0).a, widths });
        }
        int inner = constant || level == ce ? ce : shallow;
        function(*fn, widths, inner);
        Env sig = signature_env(*fn, widths);
        std::vector<Val> vals;
        std::size_t pi = sig.syms.size() - ps.size();
        for (std::size_t i = 0; i < ps.size(); ++i) {
            Ty t = sig.syms[pi + i].t;
            if (!convertible(args[i].t, t)) throw Invalid("argument type");
            if (constant) vals.push_back(*fold([&] { return convert(*args[i].v, t); }, true));
        }
        if (!constant) return { sig.ret, std::nullopt };
        Interp in { prog, out.constants, std::min<u64>(total_fuel, 60000) };
        Val v;
        std::optional<Fail> failed;
        try {
            v = in.run(*fn, vals, false);
        } catch (Fail& x) {
            failed = x;
        }
        total_fuel -= std::min(total_fuel, in.used);
        if (failed) reject_eval(failed->err, true, failed->must, failed->may);
        return { sig.ret, v };
    }
    Env signature_env(const X& fn, const std::vector<int>& widths)
    {
        Env env;
        env.in_function = true;
        auto& ps = fn.k.at(1).k;
        std::size_t wi = 0;
        std::set<std::string> bound;
        for (auto& p : ps) {
            std::string n = generic_name(p.k.at(0));
            if (n.empty() || global_names.count(n) || bound.count(n)) continue;
            if (wi >= widths.size()) throw Invalid("widths");
            bound.insert(n);
            if (find(env, n)) throw Invalid("generic name");
            env.syms.push_back({ n, 'g', { 'I' }, Val { { 'I' }, widths[wi++], nullptr } });
        }
        for (auto& p : ps) {
            Ty t = type(p.k.at(0), env);
            if (t.k == 'V') throw Invalid("void parameter");
            declare(env, { p.a, 'p', t, std::nullopt });
        }
        env.ret = type(fn.k.at(2), env);
        return env;
    }
    Inst& instance(const X& fn, const std::vector<int>& widths)
    {
        auto& v = insts[fn.k.at(0).a];
        for (auto& i : v) if (i.widths == widths) return i;
        v.push_back({ widths, 0 });
        return v.back();
    }
    void function(const X& fn, const std::vector<int>& widths, int level)
    {
        if (level == ce)
            for (auto& [f, w] : stack) if (f == &fn && w == widths) throw Reject_Ex { { "codegen_call_to_unanalyzed" } };
        if (instance(fn, widths).level >= level) return;
        if (stack.size() > 40) throw Invalid("recursion");
        stack.push_back({ &fn, widths });
        struct Pop { decltype(stack)& s; ~Pop() { s.pop_back(); } } pop { stack };
        Env env = signature_env(fn, widths);
        if (instance(fn, widths).level < shallow) {
            if (fn.k.at(3).a != "_") {
                Env sig = env;
                St r = expr(fn.k[3], sig, ce, true);
                if (r.t.k != 'B') throw Invalid("requires");
                if (!r.v->v) throw Reject_Ex { { "requires_clause_not_satisfied" } };
            }
            instance(fn, widths).level = shallow;
        }
        if (level < full) return;
        bool ends = block(fn.k.at(4), env, level);
        if (!ends && env.ret.k != 'V') throw Invalid("missing return");
        instance(fn, widths).level = level;
        if (level == ce) out.compiled.insert({ fn.k.at(0).a, widths });
    }
    // returns true if control cannot reach the end
    bool block(const X& b, Env& env, int level)
    {
        if (b.a != "blk" || !b.list) throw Invalid("block");
        std::size_t n = env.syms.size();
        bool ends = false;
        for (auto& s : b.k) {
            if (stmt(s, env, level)) ends = true;
        }
        env.syms.resize(n);
        return ends;
    }
    bool stmt(const X& s, Env& env, int level)
    {
        const std::string& h = s.a;
        if (h == "let" || h == "const") {
            bool c = h == "const";
            Ty t;
            std::optional<Val> v;
            // the name is not visible in its own type and initializer
            if (s.k.size() == 2) {
                if (c || s.k[1].a == "_") throw Invalid("let");
                t = type(s.k[1], env);
            }
            else {
                if (s.k.size() != 3) throw Invalid("let");
                if (s.k[1].a != "_") t = type(s.k[1], env);
                St i = expr(s.k[2], env, c ? int(ce) : level, c);
                if (s.k[1].a == "_") t = i.t;
                if (!convertible(i.t, t)) throw Invalid("initializer");
                if (c) v = fold([&] { return convert(*i.v, t); }, true);
            }
            if (t.k == 'V') throw Invalid("void variable");
            if (v) v->from = nullptr;
            declare(env, { s.k.at(0).a, c ? 'c' : 'l', t, v });
            return false;
        }
        if (h == "set") {
            Sym* x = find(env, s.k.at(0).a);
            if (!x || x->kind != 'l') throw Invalid("assignment");
            St e = expr(s.k.at(1), env, level, false);
            x = find(env, s.k.at(0).a);
            if (!convertible(e.t, x->t)) throw Invalid("assignment type");
            return false;
        }
        if (h == "ret") {
            if (s.k.empty()) { if (env.ret.k != 'V') throw Invalid("return"); return true; }
            if (env.ret.k == 'V') throw Invalid("return of a value");
            St e = expr(s.k[0], env, level, false);
            if (!convertible(e.t, env.ret)) throw Invalid("return type");
            return true;
        }
        if (h == "ifs") {
            if (expr(s.k.at(0), env, level, false).t.k != 'B') throw Invalid("condition");
            bool a = block(s.k.at(1), env, level), b = false;
            if (s.k.size() > 2) b = s.k[2].a == "ifs" ? stmt(s.k[2], env, level) : block(s.k[2], env, level);
            return a && b;
        }
        if (h == "while") {
            if (expr(s.k.at(0), env, level, false).t.k != 'B') throw Invalid("condition");
            ++env.loops;
            block(s.k.at(1), env, level);
            --env.loops;
            return false;
        }
        if (h == "brk" || h == "cont") { if (!env.loops) throw Invalid("jump"); return true; }
        if (h == "blk") return block(s, env, level);
        if (h == "do") { call_expr(node("call", s.k), env, level, false); return false; }
        if (h == "assert") {
            St e = expr(s.k.at(0), env, level, false);
            if (e.t.k != 'B') throw Invalid("assert");
            // How much is folded outside of constant expressions is not specified.
            if (e.v && !e.v->v && e.weak) throw Invalid("assertion that may be folded");
            if (e.v && !e.v->v) throw Reject_Ex { { "evaluation_error", Err::assert_fail } };
            return false;
        }
        if (h == "sassert") { static_assertion(s, env); return false; }
        throw Invalid("statement " + h);
    }
    void static_assertion(const X& s, Env& env)
    {
        St e = expr(s.k.at(0), env, ce, true);
        if (e.t.k != 'B') throw Invalid("static_assert");
        if (!e.v->v) throw Reject_Ex { { "static_assertion_failed", Err::none, false, is_cmp(s.k[0].a) ? e.v->from : nullptr, e.v->from } };
    }
    struct Names {
        Elab& e;
        std::set<std::string> consts {};
        std::vector<std::string> local {};
        bool known(const std::string& n) { return consts.count(n) || std::find(local.begin(), local.end(), n) != local.end(); }
        void type(const X& t)
        {
            if (t.list || t.a.empty()) throw Invalid("type");
            if (t.a.size() < 3 || t.a[0] != 'U' || isdigit(t.a[2])) return;
            std::string w = t.a.substr(2);
            if (!known(w.substr(0, w.find('+')))) throw Invalid("width name");
        }
        void declare(const std::string& n)
        {
            if (known(n) || e.global_names.count(n) || n == "assert" || n.empty()) throw Invalid("redefinition");
            local.push_back(n);
        }
        void walk(const X& x)
        {
            if (!x.list) return;
            if (x.a == "i" || x.a == "b") {
                const std::string& d = x.k.at(0).a;
                if (d.empty() || d.size() > 38) throw Invalid("literal");
                for (char c : d) if (!isdigit(c)) throw Invalid("literal");
                return;
            }
            if (x.a == "v") { if (!known(x.k.at(0).a)) throw Invalid("name"); return; }
            if (x.a == "as") { walk(x.k.at(0)); type(x.k.at(1)); return; }
            if (x.a == "let" || x.a == "const") {
                if (x.k.size() < 2 || x.k.size() > 3 || (x.k.size() == 2 && (x.a == "const" || x.k[1].a == "_"))) throw Invalid("declaration");
                if (x.k[1].a != "_") type(x.k[1]);
                if (x.k.size() == 3) walk(x.k[2]);
                declare(x.k[0].a);
                return;
            }
            if (x.a == "set") { if (std::find(local.begin(), local.end(), x.k.at(0).a) == local.end()) throw Invalid("name"); walk(x.k.at(1)); return; }
            if (x.a == "call" || x.a == "do") {
                const X* f = find_function(e.prog, x.k.at(0).a);
                if (!f || f->k[1].k.size() + 1 != x.k.size()) throw Invalid("call");
                for (std::size_t i = 1; i < x.k.size(); ++i) walk(x.k[i]);
                return;
            }
            const std::size_t n = local.size();
            for (auto& k : x.k) walk(k);
            if (x.a == "blk") local.resize(n);
        }
        void run()
        {
            for (auto& d : e.prog) {
                local.clear();
                if (d.a == "sassert") { walk(d.k.at(0)); continue; }
                if (d.a == "const") {
                    if (d.k.size() != 3) throw Invalid("const");
                    if (d.k[1].a != "_") type(d.k[1]);
                    walk(d.k[2]);
                    consts.insert(d.k[0].a);
                    continue;
                }
                for (auto& q : d.k.at(1).k) {
                    std::string n = generic_name(q.k.at(0));
                    if (!n.empty() && !known(n)) {
                        if (e.global_names.count(n)) throw Invalid("width name");
                        local.push_back(n);
                    }
                }
                for (auto& q : d.k[1].k) { type(q.k[0]); declare(q.a); }
                type(d.k.at(2));
                if (d.k.at(3).a != "_") walk(d.k[3]);
                walk(d.k.at(4));
            }
        }
    };
    void run()
    {
        for (auto& d : prog) {
            if (d.a == "sassert") continue;
            if (d.a != "fn" && d.a != "const") throw Invalid("declaration");
            if (!global_names.insert(d.k.at(0).a).second) throw Invalid("redefinition");
            if (d.a == "fn" && (d.k.size() != 5 || d.k[4].a != "blk" || !d.k[4].list)) throw Invalid("function");
        }
        // names of everything, even where nothing is elaborated
        Names { *this }.run();
        try {
            for (auto& d : prog) {
                if (d.a == "const") {
                    Env env;
                    if (d.k.size() != 3) throw Invalid("const");
                    Ty t {};
                    if (d.k[1].a != "_") t = type(d.k[1], env);
                    St e = expr(d.k[2], env, ce, true);
                    if (d.k[1].a == "_") t = e.t;
                    if (t.k == 'V' || !convertible(e.t, t)) throw Invalid("constant");
                    Val v = *fold([&] { return convert(*e.v, t); }, true);
                    v.from = nullptr;
                    out.constants[d.k[0].a] = v;
                }
                else if (d.a == "sassert") { Env env; static_assertion(d, env); }
                else if (is_generic(prog, d)) {
                    for (std::size_t i = 0; i < insts[d.k[0].a].size(); ++i)
                        function(d, std::vector<int>(insts[d.k[0].a][i].widths), full);
                }
                else function(d, {}, full);
            }
            // instances that were created after their function was looked at
            for (bool more = true; more;) {
                more = false;
                for (auto& d : prog) {
                    if (d.a != "fn" || !is_generic(prog, d)) continue;
                    for (std::size_t i = 0; i < insts[d.k[0].a].size(); ++i) {
                        if (insts[d.k[0].a][i].level >= full) continue;
                        more = true;
                        function(d, std::vector<int>(insts[d.k[0].a][i].widths), full);
                    }
                }
            }
        } catch (Reject_Ex& r) {
            out.reject = r.r;
        }
        // uninstantiated generic functions have to make sense with some width, for the printers
        for (auto& d : prog)
            if (d.a == "fn" && is_generic(prog, d) && !out.reject && insts[d.k[0].a].empty()) {
                auto saved = out;
                try {
                    std::vector<int> w;
                    std::set<std::string> bound;
                    for (auto& p : d.k.at(1).k) {
                        std::string n = generic_name(p.k.at(0));
                        if (!n.empty() && !global_names.count(n) && bound.insert(n).second) w.push_back(32);
                    }
                    function(d, w, full);
                } catch (Reject_Ex&) {
                    stack.clear();
                }
                out = saved;
            }
    }
};

} // namespace

const X* find_function(const Program& p, const std::string& fn)
{
    for (auto& d : p) if (d.a == "fn" && d.list && d.k.size() == 5 && d.k[0].a == fn) return &d;
    return nullptr;
}
bool is_generic(const Program& p, const X& fn)
{
    for (auto& q : fn.k.at(1).k) {
        if (q.k.empty()) return false;
        std::string n = generic_name(q.k[0]);
        if (n.empty()) continue;
        bool global = false;
        for (auto& d : p) if (!d.k.empty() && d.k[0].a == n && d.a != "sassert") global = true;
        if (!global) return true;
    }
    return false;
}
Analysis analyze(const Program& p, const std::vector<Instance>& extra)
{
    Analysis a;
    try {
        for (auto& d : p)
            if (d.a == "fn") {
                if (d.k.size() != 5 || d.k[0].list) throw Invalid("function");
                for (auto& q : d.k[1].k) if (!q.list || q.k.size() != 1) throw Invalid("parameter");
                if (d.k[1].list && !d.k[1].a.empty()) throw Invalid("parameters");
            }
        Elab e { p, a, {}, {}, {} };
        for (auto& x : extra)
            if (const X* f = find_function(p, x.fn)) e.instance(*f, x.widths);
        e.run();
        a.valid = true;
    } catch (Invalid& x) {
        a.why = x.what();
    } catch (Reject_Ex& x) {
        a.why = "late rejection " + x.r.code;
    } catch (Fail& x) {
        a.why = std::string("evaluation ") + err_name(x.err);
    } catch (std::out_of_range&) {
        a.why = "malformed";
    }
    return a;
}
Result call(const Program& p, const std::map<std::string, Val>& constants, const std::string& fn, const std::vector<Val>& args, u64 fuel)
{
    Result r;
    Interp in { p, constants, fuel };
    try {
        const X* f = find_function(p, fn);
        if (!f) throw Invalid("no function");
        r.val = in.run(*f, args, false);
    } catch (Fail& x) {
        r.err = x.err;
        r.must = x.must;
        r.may = x.may;
        r.in_call = x.in_call;
    } catch (Invalid& x) {
        r.err = Err::unspecified;
    } catch (Reject_Ex&) {
        r.err = Err::unspecified;
    } catch (std::out_of_range&) {
        r.err = Err::unspecified;
    }
    r.steps = in.used;
    return r;
}
Signature signature(const Program& p, const std::map<std::string, Val>& constants, const X& fn, const std::vector<int>& widths)
{
    Signature s;
    try {
        Analysis a;
        a.constants = constants;
        Elab e { p, a, {}, {}, {} };
        for (auto& d : p) if (d.a != "sassert" && !d.k.empty()) e.global_names.insert(d.k[0].a);
        auto env = e.signature_env(fn, widths);
        for (auto& y : env.syms) {
            if (y.kind == 'g') s.bound.push_back({ y.name, int(y.v->v) });
            else s.params.push_back(y.t);
        }
        s.ret = env.ret;
        s.ok = s.bound.size() == widths.size();
    } catch (...) {
    }
    return s;
}

// ---------------------------------------------------------------- source text
namespace {
struct Printer {
    u64 style;
    std::string out;
    Rng rng;
    explicit Printer(u64 s) : style(s), rng(s) { }

    std::string type(const X& t)
    {
        switch (t.a.empty() ? 'V' : t.a[0]) {
        case 'V': return "Void";
        case 'B': return "Bool";
        case 'I': return "Int";
        }
        std::string w = t.a.substr(std::min<std::size_t>(2, t.a.size()));
        if (auto p = w.find('+'); p != std::string::npos) return "Uint(" + w.substr(0, p) + " + " + w.substr(p + 1) + ")";
        return "Uint(" + (!w.empty() && w[0] >= '0' && w[0] <= '9' ? number(w) : w) + ")";
    }
    std::string number(const std::string& d)
    {
        u128 v = u128(read128(d));
        int base = style ? int(rng.below(8)) : 0;
        if (base > 3 || v >> 120) return showu128(v);
        static const char* dig = "0123456789abcdef";
        int b = base == 1 ? 16 : base == 2 ? 2 : base == 3 ? 8 : 10;
        if (b == 10) return showu128(v);
        std::string s;
        while (v) { s.insert(s.begin(), dig[int(v % u128(b))]); v /= u128(b); }
        if (s.empty()) s = "0";
        return (b == 16 ? "0x" : b == 2 ? "0b" : "0") + s;
    }
    bool simple(const X& e) { return e.a == "i" || e.a == "b" || e.a == "v" || e.a == "call"; }
    // How much may stand somewhere without parentheses: operators cannot be chained, except arithmetic
    // inside of a comparison, and if-expressions behind 'else'.
    enum { postfix, prefix, arithmetic, comparison, binary, chain, conversion };
    int kind(const X& e)
    {
        const std::string& h = e.a;
        if (simple(e)) return postfix;
        if (h == "neg" || h == "pos" || h == "not" || h == "inv") return prefix;
        if (h == "+" || h == "-" || h == "*" || h == "/" || h == "%") return arithmetic;
        if (h == "==" || h == "!=" || h == "<" || h == ">" || h == "<=" || h == ">=") return comparison;
        if (h == "if") return chain;
        if (h == "as") return conversion;
        return binary;
    }
    std::string sub(const X& e, int most = postfix)
    {
        if (simple(e) || (style % 4 && kind(e) <= most && rng.chance(style % 4, 4))) return expr(e);
        return "(" + expr(e) + ")";
    }
    std::string args(const X& e)
    {
        std::string r = e.k.at(0).a + "(";
        for (std::size_t i = 1; i < e.k.size(); ++i) r += (i > 1 ? ", " : "") + expr(e.k[i]);
        return r + ")";
    }
    std::string expr(const X& e)
    {
        const std::string& h = e.a;
        if (h == "i") return number(e.k.at(0).a);
        if (h == "b") return e.k.at(0).a == "1" ? "true" : "false";
        if (h == "v") return e.k.at(0).a;
        if (h == "call") return args(e);
        if (h == "neg") return "-" + sub(e.k.at(0));
        if (h == "pos") return "+" + sub(e.k.at(0));
        if (h == "not") return "!" + sub(e.k.at(0));
        if (h == "inv") return "~" + sub(e.k.at(0));
        if (h == "if") return sub(e.k.at(0), binary) + " if " + sub(e.k.at(1), binary) + " else " + sub(e.k.at(2), chain);
        if (h == "as") return sub(e.k.at(0), prefix) + " as " + type(e.k.at(1));
        const int operand = kind(e) == comparison ? arithmetic : prefix;
        const std::string left = sub(e.k.at(0), operand);
        return left + " " + h + " " + sub(e.k.at(1), operand);
    }
    void line(int ind, const std::string& s) { out += std::string(std::size_t(ind) * 4, ' ') + s + "\n"; }
    void block(const X& b, int ind) { for (auto& s : b.k) stmt(s, ind); }
    std::string binding(const X& s)
    {
        std::string r = s.a + " " + s.k.at(0).a;
        if (s.k.size() > 1 && s.k[1].a != "_") r += ": " + type(s.k[1]);
        if (s.k.size() > 2) r += " = " + expr(s.k[2]);
        return r + ";";
    }
    void stmt(const X& s, int ind)
    {
        const std::string& h = s.a;
        if (h == "let" || h == "const") line(ind, binding(s));
        else if (h == "set") line(ind, s.k.at(0).a + " = " + expr(s.k.at(1)) + ";");
        else if (h == "ret") line(ind, s.k.empty() ? "return;" : "return " + expr(s.k[0]) + ";");
        else if (h == "ifs") {
            std::string head = "if " + expr(s.k.at(0)) + " {";
            for (const X* p = &s;;) {
                line(ind, head);
                block(p->k.at(1), ind + 1);
                if (p->k.size() <= 2) break;
                if (p->k[2].a == "ifs") { p = &p->k[2]; head = "} else if " + expr(p->k.at(0)) + " {"; continue; }
                line(ind, "} else {");
                block(p->k[2], ind + 1);
                break;
            }
            line(ind, "}");
        }
        else if (h == "while") { line(ind, "while " + expr(s.k.at(0)) + " {"); block(s.k.at(1), ind + 1); line(ind, "}"); }
        else if (h == "brk") line(ind, "break;");
        else if (h == "cont") line(ind, "continue;");
        else if (h == "blk") { line(ind, "{"); block(s, ind + 1); line(ind, "}"); }
        else if (h == "do") line(ind, args(s) + ";");
        else if (h == "assert") line(ind, "assert(" + expr(s.k.at(0)) + ");");
        else if (h == "sassert") line(ind, "static_assert(" + expr(s.k.at(0)) + ");");
    }
    void decl(const X& d)
    {
        if (d.a == "const") { line(0, binding(d)); return; }
        if (d.a == "sassert") { line(0, "static_assert(" + expr(d.k.at(0)) + ");"); return; }
        std::string h = "function " + d.k.at(0).a + "(";
        bool sep = false;
        for (auto& p : d.k.at(1).k) { h += (sep ? ", " : "") + p.a + ": " + type(p.k.at(0)); sep = true; }
        h += ") -> " + type(d.k.at(2));
        if (d.k.at(3).a != "_") h += "\n    requires " + expr(d.k[3]);
        line(0, h);
        line(0, "{");
        block(d.k.at(4), 1);
        line(0, "}");
        out += "\n";
    }
};
} // namespace
std::string to_source(const Program& p, u64 style)
{
    Printer pr(style);
    for (auto& d : p) pr.decl(d);
    if (!(style >> 2 & 1)) return pr.out;
    // other spacing, and comments, which mean nothing
    static const std::vector<std::string> between { "  ", "\t", " /**/ ", " /*/ x */ ", " /***/ ", " /* // */ ", "\t/* /* \" } 1 */\t", " /* a\n */ " };
    static const std::vector<std::string> behind { " ", "\t", " // ; {", "//", " ///* x", " // \"" , "/**/", "\n", "\r" };
    auto word = [](char c) { return std::isalnum(static_cast<unsigned char>(c)) || c == '_'; };
    std::string out;
    for (std::size_t i = 0; i < pr.out.size(); ++i) {
        const char c = pr.out[i];
        const bool inside = i > 0 && i + 1 < pr.out.size() && pr.out[i - 1] != ' ' && pr.out[i - 1] != '\n' && pr.out[i + 1] != ' ';
        if (c == ' ' && inside) {
            if (pr.rng.chance(1, 24)) out += pr.rng.pick(between);
            else if (pr.rng.chance(1, 4) && !(word(pr.out[i - 1]) && word(pr.out[i + 1]))) continue;
            else out += c;
        }
        else if (c == '\n' && pr.rng.chance(1, 16)) out += pr.rng.pick(behind) + "\n";
        else out += c;
    }
    return out;
}

// ---------------------------------------------------------------- plans and shrinking
void plan_program(Plan& plan, const Program& p)
{
    for (auto& d : p) plan.add("decl", { print_x(d) });
}
bool plan_read_program(const Plan& plan, Program& p)
{
    p.clear();
    for (auto* l : plan.all("decl")) {
        X x;
        if (!parse_x(l->str(0), x) || !x.list) return false;
        p.push_back(std::move(x));
    }
    return true;
}
static void shrink_x(const X& x, const std::function<void(X)>& emit)
{
    if (!x.list) return;
    if (x.a == "i" && !x.k.empty()) {
        i128 v = read128(x.k[0].a);
        for (i128 w : { i128(0), i128(1), v / 2, v - 1 }) if (w < v && w >= 0) emit(lit(w));
        return;
    }
    if (x.a != "fn" && x.a != "blk" && x.a != "call" && x.a != "do" && x.a != "i" && x.a != "v" && x.a != "b")
        for (auto& k : x.k) if (k.list) emit(k);
    if (x.a == "blk" || x.a == "" || x.a == "ifs")
        for (std::size_t i = x.k.size(); i-- > 0;) { X y = x; y.k.erase(y.k.begin() + long(i)); emit(std::move(y)); }
    if (x.a == "fn" && x.k.size() == 5 && x.k[3].a != "_") { X y = x; y.k[3] = atom("_"); emit(std::move(y)); }
    static const std::set<std::string> exprs { "neg", "pos", "not", "inv", "if", "as", "call", "v" };
    if (exprs.count(x.a) || is_binary(x.a)) { emit(node("i", { atom("0") })); emit(node("i", { atom("1") })); emit(node("b", { atom("0") })); emit(node("b", { atom("1") })); }
    for (std::size_t i = 0; i < x.k.size(); ++i)
        shrink_x(x.k[i], [&](X r) { X y = x; y.k[i] = std::move(r); emit(std::move(y)); });
}
std::vector<Plan> shrink_program(const Plan& p)
{
    std::vector<Plan> r;
    for (std::size_t i = 0; i < p.lines.size(); ++i) {
        if (p.lines[i].key != "decl") continue;
        X x;
        if (!parse_x(p.lines[i].str(0), x)) continue;
        shrink_x(x, [&](X y) {
            if (r.size() > 3000) return;
            Plan q = p;
            q.lines[i].args[0] = print_x(y);
            r.push_back(std::move(q));
        });
    }
    return r;
}
} // namespace sim::model
