// P18: an accepted program never fails because of a type, in any history of requests and calls.
#include "compiled.hpp"
#include "bms/instantiate.hpp"
#include <algorithm>

namespace sim {
using namespace model;
namespace {

// --- programs that may or may not be well-typed ----------------------------------------------------
bool is_expr(const X& x)
{
    static const std::set<std::string> heads { "i", "b", "v", "neg", "pos", "not", "inv", "+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>",
                                               "&&", "||", "==", "!=", "<", ">", "<=", ">=", "if", "as", "call" };
    return x.list && heads.count(x.a);
}
bool is_binary(const X& x)
{
    static const std::set<std::string> ops { "+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "&&", "||", "==", "!=", "<", ">", "<=", ">=" };
    return x.list && x.k.size() == 2 && ops.count(x.a);
}
void collect(X& x, std::vector<X*>& exprs, std::vector<X*>& blocks, std::vector<X*>& types)
{
    if (!x.list) return;
    if (is_expr(x)) {
        exprs.push_back(&x);
        if (x.a == "as") types.push_back(&x.k[1]);
        if (x.a == "i" || x.a == "b" || x.a == "v") return;
    }
    if (x.a == "blk") blocks.push_back(&x);
    if ((x.a == "let" || x.a == "const") && x.k.size() >= 3) types.push_back(&x.k[1]);
    if (x.a == "fn") {
        for (auto& q : x.k[1].k) types.push_back(&q.k[0]);
        if (x.k[2].a != "V") types.push_back(&x.k[2]);
        collect(x.k[3], exprs, blocks, types);
        collect(x.k[4], exprs, blocks, types);
        return;
    }
    for (auto& k : x.k) collect(k, exprs, blocks, types);
}
std::string any_type(Rng& r)
{
    static const std::vector<std::string> ts { "B", "I", "I", "U:1", "U:7", "U:8", "U:8", "U:32", "U:64", "U:128", "U:3" };
    return r.pick(ts);
}
X any_leaf(Rng& r, const std::vector<X*>& exprs)
{
    if (!exprs.empty() && r.chance(2, 3)) {
        const X& e = *r.pick(exprs);
        if (e.a == "i" || e.a == "b" || e.a == "v" || r.chance(1, 3)) return e;
    }
    switch (r.below(4)) {
    case 0: return node("b", { atom(r.chance(1, 2) ? "1" : "0") });
    case 1: return node("as", { node("i", { atom(N(r.range(0, 1))) }), atom(any_type(r)) });
    default: return node("i", { atom(N(r.range(0, 300))) });
    }
}
void mutate(Rng& r, Program& prog)
{
    std::vector<std::size_t> fns;
    for (std::size_t i = 0; i < prog.size(); ++i) if (prog[i].a == "fn" || r.chance(1, 4)) fns.push_back(i);
    if (fns.empty()) return;
    X& d = prog[r.pick(fns)];
    std::vector<X*> exprs, blocks, types;
    collect(d, exprs, blocks, types);
    static const std::vector<std::string> bin { "+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "&&", "||", "==", "!=", "<", ">", "<=", ">=" };
    static const std::vector<std::string> un { "neg", "pos", "not", "inv" };
    switch (r.below(13)) {
    case 0: case 1:
        if (!exprs.empty()) { X l = any_leaf(r, exprs); *r.pick(exprs) = l; }
        break;
    case 2: {
        std::vector<X*> b;
        for (X* e : exprs) if (is_binary(*e)) b.push_back(e);
        if (!b.empty()) r.pick(b)->a = r.pick(bin);
        break;
    }
    case 3:
        if (!types.empty()) r.pick(types)->a = any_type(r);
        break;
    case 4: {
        // (the type of a variable is that of what it is initialized with)
        std::vector<X*> t;
        for (X* x : types) if (x->a != "_") t.push_back(x);
        for (X* b : blocks)
            for (auto& s : b->k)
                if ((s.a == "let" || s.a == "const") && s.k.size() == 3 && s.k[1].a != "_" && r.chance(1, 2)) { s.k[1].a = "_"; return; }
        break;
    }
    case 5: {
        if (exprs.empty()) break;
        X* e = r.pick(exprs);
        X old = *e, leaf = any_leaf(r, exprs);
        switch (r.below(5)) {
        case 0: *e = node("as", { old, atom(any_type(r)) }); break;
        case 1: *e = node(r.pick(un), { old }); break;
        case 2: *e = node("if", { old, node("b", { atom("1") }), leaf }); break;
        case 3: *e = node("if", { leaf, any_leaf(r, exprs), old }); break;
        default: *e = r.chance(1, 2) ? node(r.pick(bin), { old, leaf }) : node(r.pick(bin), { leaf, old });
        }
        break;
    }
    case 6: case 7: {
        if (blocks.empty()) break;
        X* b = r.pick(blocks);
        X leaf = any_leaf(r, exprs);
        std::vector<std::string> vars;
        for (X* bl : blocks) for (auto& s : bl->k) if (s.a == "let") vars.push_back(s.k[0].a);
        X s;
        if (!vars.empty() && r.chance(2, 3)) s = node("set", { atom(r.pick(vars)), leaf });
        else if (r.chance(1, 2)) s = node("let", { atom("q" + N(r.range(0, 9))), atom(r.chance(1, 2) ? "_" : any_type(r)), leaf });
        else s = node("assert", { leaf });
        b->k.insert(b->k.begin() + long(b->k.empty() ? 0 : r.below(b->k.size())), s);
        break;
    }
    case 8: {
        // a call with other arguments
        std::vector<X*> c;
        for (X* e : exprs) if (e->a == "call" && e->k.size() > 1) c.push_back(e);
        if (c.empty()) break;
        X* e = r.pick(c);
        X leaf = any_leaf(r, exprs);
        e->k[1 + r.below(e->k.size() - 1)] = leaf;
        break;
    }
    case 9: case 10: case 11: {
        // a choice that is made at run time between something else and what is there
        std::vector<X> vars;
        for (X* e : exprs) if (e->a == "v") vars.push_back(*e);
        if (exprs.empty() || vars.empty()) break;
        std::vector<X*> rets;
        for (X* b : blocks)
            for (auto& q : b->k) if (q.a == "ret" && !q.k.empty()) rets.push_back(&q.k[0]);
        X* e = !rets.empty() && r.chance(1, 2) ? r.pick(rets) : r.pick(exprs);
        X old = *e, other = r.chance(2, 3) ? r.pick(vars) : any_leaf(r, exprs);
        X cond = node(r.chance(1, 2) ? "!=" : "<", { r.pick(vars), node("i", { atom(N(r.range(0, 3))) }) });
        *e = r.chance(1, 2) ? node("if", { old, cond, other }) : node("if", { other, cond, old });
        break;
    }
    default: {
        std::vector<X*> b;
        for (X* e : exprs) if (is_binary(*e) || e->a == "if") b.push_back(e);
        if (b.empty()) break;
        X* e = r.pick(b);
        std::swap(e->k[0], e->k[e->k.size() - 1]);
    }
    }
}

Plan generate(Rng& r, u64)
{
    Plan p;
    Gen_Options o;
    o.failing = r.chance(1, 3);
    if (r.chance(1, 6)) o.recursion = 15;
    o.functions = 2 + int(r.below(4));
    o.statements = 2 + int(r.below(5));
    o.depth = 2 + int(r.below(2));
    o.static_asserts = false;
    o.widths_mode = int(r.below(2));
    Program prog;
    for (int tries = 0; tries < 4; ++tries) {
        prog = model::generate(r, o);
        if (analyze(prog).valid) break;
    }
    if (r.chance(1, 2)) add_forces(r, prog, int(r.below(100)));
    for (u64 n = r.chance(1, 12) ? 0 : 1 + r.below(3); n > 0; --n) mutate(r, prog);
    plan_program(p, prog);
    p.add("style", { N(i64(r.below(1000))) });
    static const std::vector<int> widths { 1, 2, 3, 5, 8, 8, 8, 13, 16, 32, 33, 63, 64, 65, 100, 127, 128 };
    auto fault = [&](std::vector<std::string> a) {
        if (r.chance(1, 4)) for (i64 x : { i64(r.range(0, 999)), i64(r.chance(2, 3) ? 1 : r.range(2, 6)), r.range(0, 2) }) a.push_back(N(x));
        return a;
    };
    if (r.chance(1, 2)) p.add("analyze", fault({}));
    for (int n = int(r.below(4)); n > 0; --n) p.add("inst", fault({ N(r.range(0, 20)), N(r.pick(widths)) }));
    p.add("analyze");
    p.add("compile", { N(r.range(0, 999)) });
    for (int n = 6 + int(r.below(20)); n > 0; --n) {
        const std::string m = N(r.range(0, 1));
        switch (r.below(10)) {
        case 0: p.add("reset", { m }); break;
        case 1: case 2: p.add("step", { m, N(r.range(1, 60)) }); break;
        case 3: p.add("fault", { m, N(r.range(1, 10)), N(r.chance(3, 4) ? 1 : r.range(2, 4)), N(r.range(0, 2)) }); break;
        case 4: p.add("finish", { m }); break;
        default:
            p.add("start", { m, N(r.range(0, 1000)), N(i64(r.next() >> 40)) });
            if (r.chance(1, 2)) p.add("finish", { m });
        }
    }
    return p;
}

bool in_range(const bms::Concrete_Value& v)
{
    if (v.type.type() == bms::Type_Type::Bool) return v.int_value == 0 || v.int_value == 1;
    if (v.type.type() == bms::Type_Type::Uint && v.type.width() < 128) return v.int_value >= 0 && (v.int_value >> v.type.width()) == 0;
    return true;
}
bool type_failure(const bms::Execution_Error& e)
{
    using enum bms::Execution_Error_Code;
    switch (e.code) {
    case load_uninitialized: case infinite_loop: return false; // not a matter of types
    case pop_call: return false;
    case evaluation: return e.evaluation_error == bms::Evaluation_Error_Code::type_error;
    default: return true;
    }
}

struct Machine {
    Sim_Resource mem;
    std::optional<bms::Virtual_Machine> vm;
    bool busy = false;
    std::string what;
    bms::Concrete_Type want = bms::Concrete_Type::Void;
    u64 cycles = 0;
    Heap_Arm fault {};
};

struct Target { const bms::ast::Function* f; const bms::ast::Some_Node* node; bm::Size at; };

Outcome execute(const Plan& p)
{
    Outcome o;
    Program prog;
    if (!plan_read_program(p, prog)) return o;
    Compiled c(to_source(prog, u64(p.num("style", 0))));
    doing("parsing");
    if (c.parse() != Loaded::ok) { count("not parsed"); o.sig = "rejected"; return o; }
    bool analysed = false, named = false;
    std::string sig;
    int done = 0;
    // A call while analysing must not fail with a type error either.
    auto check_rejection = [&](const char* what) {
        if (!c.error) return;
        const auto code = c.error->code();
        if (code == bms::Analysis_Error_Code::execution_error) {
            bms::Execution_Error e { c.error->execution_error(), bms::Debug_Info {} };
            if (type_failure(e)) fail(o, "compile-time-type-failure", std::string(what) + ": a call in a constant expression fails with " + show_error(*c.error) + "\n" + c.source);
        }
    };
    auto names = [&] {
        doing("name lookup");
        Loaded l = c.guarded([&] {
            c.error.reset();
            c.analyzed.emplace(*c.parsed, "file.bms", &c.mem);
            if (auto r = bms::resolve_annotations(*c.analyzed, *c.parsed); !r) { c.error = r.error(); return Loaded::names; }
            if (auto r = bms::analyze_name_lookup(*c.analyzed, &c.tmp); !r) { c.error = r.error(); return Loaded::names; }
            return Loaded::ok;
        });
        named = true;
        return l == Loaded::ok;
    };
    u64 last_attempts[3] { 60, 30, 30 };
    auto arm = [&](const Line& l, std::size_t at) {
        if (l.args.size() <= at + 2) return false;
        const int scope = int(u64(l.num(at + 2)) % 3);
        heap_arm(1 + u64(l.num(at)) * last_attempts[scope] / 1000, u64(std::max<i64>(1, l.num(at + 1))), scope);
        return true;
    };
    std::vector<Target> targets;
    std::unique_ptr<Machine> ms[2];
    auto run = [&](std::size_t mi, u64 limit) {
        if (!ms[mi]) return;
        Machine& m = *ms[mi];
        std::optional<bms::Execution_Error> err;
        while (m.busy && limit-- > 0 && !o.violation && !err) {
            bool oom = false;
            if (++m.cycles > 4000) { m.busy = false; count("endless call given up"); return; }
            if (m.fault.on) heap_arm_swap(m.fault);
            try {
                Sut s;
                if (auto r = m.vm->cycle(); !r) err = r.error();
            } catch (const std::bad_alloc&) {
                oom = true;
            } catch (const bm::Assertion_Error& e) {
                Harness h;
                heap_disarm();
                fail(o, "internal-error", m.what + ": internal error " + std::string(e.message) + " in " + e.location.function_name() + "\n" + c.source);
                return;
            }
            if (m.fault.on) {
                m.fault = heap_arm_swap({});
                if (m.fault.injected && m.fault.n == 0 && m.fault.burst == 0) m.fault.on = false;
            }
            if (oom) count("step repeated after an allocation failure");
        }
        if (!err) return;
        m.busy = false;
        m.fault = {};
        ++done;
        sig += char('a' + int(err->code));
        g_log.add(m.what + " " + show_error(*err));
        if (type_failure(*err)) { fail(o, "type-failure", m.what + " fails with " + show_error(*err) + "\n" + c.source); return; }
        if (err->code != bms::Execution_Error_Code::pop_call) { count("call ended by a failure the language has"); return; }
        count("completed call");
        const auto n = m.vm->stack_size();
        if (n != 1) { fail(o, "stack", m.what + " leaves " + N(i64(n)) + " values on the stack\n" + c.source); return; }
        bms::Concrete_Value v;
        { Sut s; v = m.vm->pop(); }
        if (v.type != m.want) fail(o, "wrong-type", m.what + " gives " + show_value(v) + ", declared is " + show_type(m.want) + "\n" + c.source);
        else if (!in_range(v)) fail(o, "out-of-range", m.what + " gives " + show_value(v) + " outside of its type\n" + c.source);
    };
    for (const Line& l : p.lines) {
        if (o.violation) break;
        if (l.key == "decl" || l.key == "style") continue;
        if (!named && !names()) { count("rejected by name lookup"); o.sig = "rejected"; return o; }
        if (l.key == "inst") {
            std::vector<std::string> gs;
            for (auto& d : prog) if (d.a == "fn") gs.push_back(d.k[0].a);
            if (gs.empty()) continue;
            const std::string name = gs[u64(l.num(0)) % gs.size()];
            const int w = int(l.num(1));
            if (w < 1 || w > 128) continue;
            doing("instantiation");
            bool armed = arm(l, 2);
            Loaded r = c.guarded([&] {
                auto n = c.analyzed->find_global_function_node(name);
                if (!n) return Loaded::names;
                auto* node = const_cast<bms::ast::Some_Node*>(*n);
                auto& fn = bm::get<bms::ast::Function>(*node);
                if (!fn.is_generic) return Loaded::names;
                return bms::instantiate_function(*c.analyzed, &c.tmp, node, fn, w) ? Loaded::ok : Loaded::rejected;
            });
            if (armed) { const u64 n = heap_disarm(); count("allocation failure while instantiating", n); }
            if (r == Loaded::endless) { o.sig = "endless"; return o; }
            if (r == Loaded::internal) { count("internal error"); o.sig = "internal"; return o; } // (known limits; P12's subject)
        }
        else if (l.key == "analyze") {
            doing("analysis");
            bool armed = arm(l, 0);
            const u64 a1 = heap_attempts(own_heap), a2 = heap_attempts(own_resource);
            Loaded r = c.guarded([&] {
                c.error.reset();
                if (auto r = bms::analyze_semantics(*c.analyzed, &c.tmp); !r) { c.error = r.error(); return Loaded::rejected; }
                return Loaded::ok;
            });
            if (armed) { const u64 n = heap_disarm(); count("allocation failure during analysis", n); }
            else { last_attempts[1] = heap_attempts(own_heap) - a1; last_attempts[2] = heap_attempts(own_resource) - a2; last_attempts[0] = last_attempts[1] + last_attempts[2]; }
            g_log.add(std::string("analysis ") + loaded_name(r));
            if (r == Loaded::out_of_memory) continue;
            if (r == Loaded::endless) { o.sig = "endless"; return o; }
            if (r == Loaded::internal) { count("internal error"); o.sig = "internal"; return o; }
            if (r == Loaded::rejected) { count("rejected"); check_rejection("analysis"); o.sig = "rejected"; return o; }
            count("accepted");
            analysed = true;
        }
        else if (l.key == "compile" && analysed && !ms[0]) {
            // Everything that is analysed gets code, callees first.
            doing("code generation");
            for (auto& m : ms) {
                m = std::make_unique<Machine>();
                Sut s;
                m->vm.emplace(&m->mem);
                m->vm->add_instructions(c.analyzed->get_vm().instructions());
            }
            std::vector<bms::ast::Some_Node*> open;
            {
                auto add = [&](auto& self, bms::ast::Some_Node* n) -> void {
                    auto* f = bm::get_if<bms::ast::Function>(n);
                    if (!f) return;
                    if (!f->is_generic && f->analysis_so_far >= bm::Analysis_Level::full) open.push_back(n);
                    for (auto& i : f->instances) self(self, i.handle);
                };
                for (auto* child : bms::ast::get_children(*c.analyzed->get_root())) add(add, child);
            }
            for (bool more = true; more && !o.violation;) {
                more = false;
                for (auto it = open.begin(); it != open.end();) {
                    auto& f = bm::get<bms::ast::Function>(**it);
                    bool ok = false;
                    bm::Size at = 0;
                    std::string error;
                    try {
                        Sut s;
                        std::pmr::vector<bms::Instruction> code(&ms[0]->mem);
                        auto r = bms::generate_code(code, *it);
                        ok = bool(r);
                        if (ok) for (auto& m : ms) at = m->vm->add_instructions(code);
                        if (ok && f.vm_address == bms::ast::Function::invalid_vm_address) f.vm_address = at;
                    } catch (const bm::Assertion_Error&) {
                        Harness h;
                        ok = false;
                    }
                    if (!ok) { ++it; continue; } // (calls what has no code yet)
                    targets.push_back({ &f, *it, at });
                    it = open.erase(it);
                    more = true;
                }
            }
            count("functions compiled", targets.size());
            count("functions without code", open.size());
        }
        else if (!ms[0]) continue;
        else if (l.key == "reset") {
            Machine& m = *ms[l.num(0) & 1];
            m.busy = false;
            m.fault = {};
            Sut s;
            m.vm->reset();
        }
        else if (l.key == "step") run(l.num(0) & 1, u64(std::max<i64>(1, l.num(1))));
        else if (l.key == "finish") run(l.num(0) & 1, ~u64(0));
        else if (l.key == "fault") {
            Machine& m = *ms[l.num(0) & 1];
            m.fault = {};
            if (!m.busy) continue;
            m.fault.n = u64(std::max<i64>(1, l.num(1)));
            m.fault.burst = u64(std::max<i64>(1, l.num(2)));
            m.fault.scope = int(u64(l.num(3)) % 3);
            m.fault.on = true;
        }
        else if (l.key == "start") {
            if (targets.empty()) continue;
            Machine& m = *ms[l.num(0) & 1];
            const Target& t = targets[u64(l.num(1)) % targets.size()];
            Rng r(u64(l.num(2)));
            std::vector<Val> vals;
            std::vector<bms::Concrete_Value> args;
            bool fine = true;
            auto type_of = [&](const bms::ast::Some_Node* n) -> std::optional<bms::Concrete_Type> {
                auto* ty = bm::get_if<bms::ast::Type>(n);
                if (!ty || !ty->concrete_type()) return std::nullopt;
                return *ty->concrete_type();
            };
            std::optional<bms::Concrete_Type> ret;
            std::vector<bms::Concrete_Type> ptypes;
            {
                for (auto& q : t.f->get_parameters()) {
                    auto ty = type_of(q.get_type_node());
                    if (!ty) { fine = false; break; }
                    ptypes.push_back(*ty);
                }
                ret = type_of(t.f->get_return_type_node());
            }
            if (!fine || !ret) { count("no declared type"); continue; }
            for (auto& ty : ptypes) {
                Ty mt = ty.type() == bms::Type_Type::Bool ? Ty { 'B', 0 } : ty.type() == bms::Type_Type::Int ? Ty { 'I', 0 } : Ty { 'U', int(ty.width()) };
                if (ty.type() == bms::Type_Type::Void) { fine = false; break; }
                vals.push_back(random_value(r, mt));
                args.push_back(to_value(vals.back()));
            }
            if (!fine) continue;
            m.what = "call of " + std::string(t.f->get_name()) + "(" + print_vals(vals) + ")";
            m.want = *ret;
            m.busy = true;
            m.cycles = 0;
            m.fault = {};
            Sut s;
            m.vm->reset();
            m.vm->jump_to(t.at);
            for (auto& v : args) m.vm->push(v);
        }
        if (!heap_errors().empty()) fail(o, "heap-misuse", heap_errors());
    }
    for (std::size_t i = 0; i < 2 && !o.violation; ++i) run(i, ~u64(0));
    {
        Sut s;
        for (auto& m : ms) if (m) m->vm.reset();
    }
    o.nontrivial = analysed && done > 1;
    o.sig = sig + hex64(hash_bytes(c.source));
    return o;
}
SIM_REGISTER({ "P18", generate, execute, shrink_program });
} // namespace
} // namespace sim
