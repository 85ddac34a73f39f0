// P09: compile-time evaluation and instantiation agree with the language in any order.
#include "compiled.hpp"
#include "bms/instantiate.hpp"
#include <algorithm>

namespace sim {
using namespace model;
namespace {

std::size_t generic_count(const Program& p, const X& f)
{
    std::set<std::string> names;
    for (auto& q : f.k[1].k) {
        const std::string& t = q.k[0].a;
        if (t.compare(0, 2, "U:") == 0 && !isdigit(t[2]) && t.find('+') == std::string::npos) {
            std::string g = t.substr(2);
            bool global = false;
            for (auto& e : p) if (e.a != "sassert" && e.k[0].a == g) global = true;
            if (!global) names.insert(g);
        }
    }
    return names.size();
}

Plan generate(Rng& r, u64)
{
    Plan p;
    Gen_Options o;
    o.failing = r.chance(1, 2);
    if (r.chance(1, 4)) o.recursion = 20;
    o.functions = 2 + int(r.below(4));
    o.statements = 2 + int(r.below(5));
    o.depth = 2 + int(r.below(2));
    o.widths_mode = int(r.below(2));
    if (r.chance(1, 3)) o.requirements = 40;
    Program prog;
    for (int tries = 0; tries < 6; ++tries) {
        prog = model::generate(r, o);
        add_forces(r, prog, int(r.below(100)));
        bool generic = false;
        for (auto& d : prog) if (d.a == "fn" && is_generic(prog, d)) generic = true;
        if (generic || r.chance(1, 4)) break;
    }
    if (r.chance(1, 3)) add_constants(r, prog, o.failing);
    plan_program(p, prog);
    p.add("style", { N(i64(r.below(1000))) });
    std::vector<const X*> gs;
    for (auto& d : prog) if (d.a == "fn" && is_generic(prog, d)) gs.push_back(&d);
    static const std::vector<int> widths { 1, 2, 3, 5, 8, 8, 8, 13, 16, 32, 33, 63, 64, 65, 100, 127, 128 };
    static const std::vector<int> bad { 0, -1, 129, 1000, -128 };
    auto fault = [&](std::vector<std::string> a) {
        if (r.chance(1, 4)) for (i64 x : { i64(r.range(0, 999)), i64(r.chance(2, 3) ? 1 : r.range(2, 6)), r.range(0, 2) }) a.push_back(N(x));
        return a;
    };
    for (int n = 3 + int(r.below(12)); n > 0; --n) {
        switch (gs.empty() ? r.below(2) : r.below(8)) {
        case 0: p.add("semantics", fault({})); break;
        case 1: if (r.chance(1, 4)) p.add("fresh"); else p.add("semantics"); break;
        case 2: p.add("all", fault({ N(r.pick(widths)) })); break;
        case 3: {
            const X& f = *r.pick(gs);
            p.add("call", { f.k[0].a, N(i64(r.next() >> 40)) });
            break;
        }
        default: {
            const X& f = *r.pick(gs);
            std::vector<int> w;
            for (std::size_t i = 0; i < generic_count(prog, f); ++i) w.push_back(r.chance(1, 20) ? r.pick(bad) : r.pick(widths));
            p.add("inst", fault({ f.k[0].a, print_widths(w) }));
        }
        }
    }
    p.add("semantics");
    for (auto* f : gs) p.add("call", { f->k[0].a, N(i64(r.next() >> 40)) });
    return p;
}

Outcome execute(const Plan& p)
{
    Outcome o;
    Program prog;
    if (!plan_read_program(p, prog)) return o;
    Analysis base = analyze(prog);
    if (!base.valid) { o.sig = "invalid"; count(("reference: " + base.why).c_str()); return o; }
    Compiled c(to_source(prog, u64(p.num("style", 0))));
    doing("parsing");
    if (Loaded l = c.parse(); l != Loaded::ok) {
        fail(o, "not-parsed", std::string("the program is ") + loaded_name(l) + "\n" + c.source);
        return o;
    }
    std::vector<Instance> extra;       // explicit instances made so far
    bool named = false, analysed = false, failed_attempt = false, kept_after_failure = false;
    int events = 0;
    std::string sig;
    auto names = [&] {
        doing("name lookup");
        Loaded l = c.guarded([&] {
            c.error.reset();
            c.analyzed.emplace(*c.parsed, "file.bms", &c.mem);
            if (auto r = bms::resolve_annotations(*c.analyzed, *c.parsed); !r) { c.error = r.error(); return Loaded::names; }
            if (auto r = bms::analyze_name_lookup(*c.analyzed, &c.tmp); !r) { c.error = r.error(); return Loaded::names; }
            return Loaded::ok;
        });
        named = true;
        analysed = kept_after_failure = false;
        extra.clear();
        if (l != Loaded::ok) fail(o, "name-lookup", std::string("a valid program is ") + loaded_name(l) + (c.error ? " " + show_error(*c.error) : "") + c.detail + "\n" + c.source);
    };
    auto history = [&] {
        std::string r = " (explicit instances:";
        for (auto& e : extra) r += " " + e.fn + "<" + print_widths(e.widths) + ">";
        return r + (analysed ? "; analysed before" : "") + (failed_attempt ? "; after failed attempts" : "") + ")\n" + c.source;
    };
    u64 last_attempts[3] { 60, 30, 30 };
    auto arm = [&](const Line& l, std::size_t at) {
        if (l.args.size() <= at + 2) return false;
        const int scope = int(u64(l.num(at + 2)) % 3);
        heap_arm(1 + u64(l.num(at)) * last_attempts[scope] / 1000, u64(std::max<i64>(1, l.num(at + 1))), scope);
        return true;
    };
    // The state of the program has to be what the reference says.
    auto check_state = [&](const Analysis& want) {
        for (auto& [name, v] : want.constants) {
            if (o.violation) return;
            bms::Concrete_Value got;
            bool known = false;
            {
                Sut s;
                if (auto r = c.analyzed->find_global_constant(name); r && (*r)->const_value() && (*r)->const_value()->is_known()) {
                    got = (*r)->const_value()->concrete_value();
                    known = true;
                }
            }
            if (!known) fail(o, "constant-unknown", "constant " + name + " has no known value" + history());
            else if (!same_value(got, v)) fail(o, "wrong-constant", "constant " + name + " is " + show_value(got) + ", the language says " + show_val(v) + history());
        }
        for (auto& d : prog) {
            if (d.a != "fn" || !is_generic(prog, d) || o.violation) continue;
            Sut s;
            auto r = c.analyzed->find_global_function(d.k[0].a);
            if (!r) { Harness h; fail(o, "lost-function", "function " + d.k[0].a + " is not found" + history()); return; }
            std::map<std::vector<int>, int> have;
            for (auto& i : (*r)->instances) have[std::vector<int>(i.widths.begin(), i.widths.end())]++;
            Harness h;
            for (auto& [w, n] : have) if (n > 1) fail(o, "duplicate-instance", "function " + d.k[0].a + " has " + N(n) + " instances with widths " + print_widths(w) + history());
            auto needs = [&](const Instance& i, const char* why) {
                if (i.fn == d.k[0].a && !have.count(i.widths)) fail(o, "missing-instance", "function " + i.fn + " has no instance with widths " + print_widths(i.widths) + " (" + why + ")" + history());
            };
            for (auto& i : want.instances) needs(i, "a call needs it");
            for (auto& i : extra) needs(i, "it was instantiated explicitly");
        }
    };
    auto instantiate = [&](const Line& l, const X& f, std::vector<int> w, std::size_t at) {
        // how the request is spelled must not matter
        const bool one = !w.empty() && std::all_of(w.begin(), w.end(), [&](int x) { return x == w[0]; }) && (hash_bytes(l.str(0)) & 1);
        Signature s = signature(prog, base.constants, f, w);
        bool good = true;
        for (int x : w) good = good && x >= 1 && x <= 128;
        (void)s;
        bool ok = false, oom = false;
        std::string error, internal;
        std::vector<int> got;
        doing("instantiation");
        bool armed = arm(l, at);
        const u64 a1 = heap_attempts(own_heap), a2 = heap_attempts(own_resource);
        std::vector<int> copy = w;
        try {
            Sut sut;
            auto n = c.analyzed->find_global_function_node(f.k[0].a);
            auto* node = const_cast<bms::ast::Some_Node*>(*n);
            auto& fn = bm::get<bms::ast::Function>(*node);
            std::optional<bm::Result<const bms::ast::Function::Instance*, bms::Analysis_Error>> res;
            res.emplace(one ? bms::instantiate_function(*c.analyzed, &c.tmp, node, fn, w[0]) : bms::instantiate_function(*c.analyzed, &c.tmp, node, fn, std::span<const int>(copy)));
            auto& r = *res;
            Harness h;
            heap_disarm();
            if (r) { ok = true; got.assign((*r)->widths.begin(), (*r)->widths.end()); }
            else error = show_error(r.error());
        } catch (const std::bad_alloc&) {
            oom = true;
        } catch (const bm::Assertion_Error& e) {
            internal = std::string(e.message) + " in " + e.location.function_name();
        }
        Harness h;
        if (armed) { const u64 n = heap_disarm(); count("allocation failure while instantiating", n); }
        else if (!oom) { last_attempts[1] = heap_attempts(own_heap) - a1; last_attempts[2] = heap_attempts(own_resource) - a2; last_attempts[0] = last_attempts[1] + last_attempts[2]; }
        g_log.add("inst " + f.k[0].a + " " + print_widths(w) + (ok ? " ok" : oom ? " oom" : error));
        if (!internal.empty()) { fail(o, "internal-error", "instantiation of " + f.k[0].a + " with " + print_widths(w) + ": " + internal + history()); return false; }
        if (oom) { failed_attempt = true; sig += 'o'; return false; }
        if (!ok) {
            failed_attempt = true;
            sig += 'r';
            count("instantiation refused");
            if (good) fail(o, "refused-instance", "instantiation of " + f.k[0].a + " with " + print_widths(w) + " is refused: " + error + history());
            return false;
        }
        if (got != w) fail(o, "wrong-instance", "instantiation of " + f.k[0].a + " with " + print_widths(w) + " gives the instance with " + print_widths(got) + history());
        sig += 'i';
        count("explicit instantiation");
        Instance i { f.k[0].a, w };
        if (std::find(extra.begin(), extra.end(), i) == extra.end()) extra.push_back(i);
        return true;
    };
    // A request with impossible widths succeeds or fails right away; later, analysis has to reject it.
    for (const Line& l : p.lines) {
        if (o.violation) break;
        if (l.key == "decl" || l.key == "style") continue;
        if (!named) names();
        if (o.violation) break;
        ++events;
        if (l.key == "fresh") {
            count("started over");
            names();
        }
        else if (l.key == "inst") {
            const X* f = find_function(prog, l.str(0));
            auto w = read_widths(l.str(1));
            if (!f || !is_generic(prog, *f) || w.size() != generic_count(prog, *f)) continue;
            instantiate(l, *f, w, 2);
        }
        else if (l.key == "all") {
            const int w = int(l.num(0, 8));
            if (w < 1 || w > 128) continue;
            bool ok = false, oom = false;
            std::string error;
            doing("instantiation of everything");
            bool armed = arm(l, 1);
            try {
                Sut sut;
                auto r = bms::instantiate_all(*c.analyzed, &c.tmp, w);
                Harness h;
                heap_disarm();
                if (r) ok = true;
                else error = show_error(r.error());
            } catch (const std::bad_alloc&) {
                oom = true;
            } catch (const bm::Assertion_Error& e) {
                error = std::string(e.message) + " in " + e.location.function_name();
            }
            Harness h;
            if (armed) { const u64 n = heap_disarm(); count("allocation failure while instantiating", n); }
            if (!ok && !oom) fail(o, "refused-instance", "instantiation of everything with " + N(w) + ": " + error + history());
            failed_attempt |= oom;
            sig += ok ? 'a' : 'o';
            g_log.add(ok ? "all" : "all oom");
            // (after an exhausted memory, some of the instances may exist)
            for (auto& d : prog) {
                if (d.a != "fn" || !is_generic(prog, d)) continue;
                Instance i { d.k[0].a, std::vector<int>(generic_count(prog, d), w) };
                if (ok || c.function_node(i.fn, i.widths))
                    if (std::find(extra.begin(), extra.end(), i) == extra.end()) extra.push_back(i);
            }
        }
        else if (l.key == "semantics") {
            const Analysis want = analyze(prog, extra);
            if (!want.valid) { count(("reference: " + want.why).c_str()); o.sig = "invalid"; break; }
            bm::Size code0;
            { Sut s; code0 = c.analyzed->get_vm().instruction_count(); }
            doing("analysis");
            bool armed = arm(l, 0);
            Loaded r = c.guarded([&] {
                c.error.reset();
                if (auto r = bms::analyze_semantics(*c.analyzed, &c.tmp); !r) { c.error = r.error(); return Loaded::rejected; }
                return Loaded::ok;
            });
            if (armed) { const u64 n = heap_disarm(); count("allocation failure during analysis", n); }
            g_log.add(std::string("semantics ") + loaded_name(r));
            sig += char('A' + int(r));
            if (r == Loaded::out_of_memory) { failed_attempt = true; count("analysis ended by a failed allocation"); if (l.num(0) % 4 == 0) names(); else kept_after_failure = true; continue; }
            if (r == Loaded::endless) { o.sig = "endless"; break; }
            if (r == Loaded::internal) { fail(o, "internal-error", "analysis: " + c.detail + history()); break; }
            if (r == Loaded::ok) {
                count("accepted analysis");
                if (want.reject) {
                    fail(o, "not-rejected", "analysis accepts the program, the language says " + want.reject->code + " " + err_name(want.reject->eval) + history());
                    break;
                }
                check_state(want);
                const bool again = analysed;
                analysed = true;
                // Repeating it changes nothing.
                if (again && !o.violation) {
                    bm::Size code1, code2;
                    Sut s;
                    code1 = c.analyzed->get_vm().instruction_count();
                    auto r2 = bms::analyze_semantics(*c.analyzed, &c.tmp);
                    code2 = c.analyzed->get_vm().instruction_count();
                    Harness h;
                    if (!r2) fail(o, "repeated-analysis", "repeating an analysis that succeeded fails: " + show_error(r2.error()) + history());
                    else if (code1 != code2) fail(o, "repeated-analysis", "repeating an analysis that succeeded adds code" + history());
                    else check_state(want);
                }
                (void)code0;
            }
            else {
                count("rejected analysis");
                const bms::Analysis_Error& e = *c.error;
                const std::string got = std::string(bms::analysis_error_code_name(e.code()));
                if (!want.reject) {
                    if (!want.maybe_reject) fail(o, "wrongly-rejected", "analysis rejects the program with " + show_error(e) + history());
                }
                // An interrupted analysis has made instances, which may make another of the errors the first one.
                else if (kept_after_failure) count("rejected after an interrupted analysis");
                else if (got != want.reject->code) fail(o, "other-rejection", "analysis rejects the program with " + show_error(e) + ", the language says " + want.reject->code + " " + err_name(want.reject->eval) + history());
                if (o.violation || want.maybe_reject) break;
                // Asking again does not make it valid.
                doing("repeated analysis");
                std::optional<bms::Analysis_Error> second;
                Loaded again = c.guarded([&] {
                    if (auto r = bms::analyze_semantics(*c.analyzed, &c.tmp); !r) { second = r.error(); return Loaded::rejected; }
                    return Loaded::ok;
                });
                if (again == Loaded::internal) fail(o, "internal-error", "repeated analysis of a rejected program: " + c.detail + history());
                if (again == Loaded::ok) fail(o, "accepted-again", "analysis rejects the program with " + show_error(e) + " and accepts it when it is repeated" + history());
                break; // a rejected program is not used any further
            }
        }
        else if (l.key == "call") {
            const X* f = find_function(prog, l.str(0));
            if (!analysed || !f) continue;
            Rng r(u64(l.num(1)));
            std::vector<Instance> is;
            if (!is_generic(prog, *f)) is.push_back({ l.str(0), {} });
            for (auto& i : extra) if (i.fn == l.str(0)) is.push_back(i);
            for (auto& i : base.instances) if (i.fn == l.str(0)) is.push_back(i);
            for (auto& i : is) {
                if (o.violation) break;
                auto* node = c.function_node(i.fn, i.widths);
                if (!node || bm::get<bms::ast::Function>(*node).analysis_so_far < bm::Analysis_Level::full) continue;
                Signature s = signature(prog, base.constants, *f, i.widths);
                if (!s.ok) continue;
                Sim_Resource mem;
                std::optional<bms::Virtual_Machine> vm;
                bm::Size at = 0;
                bool ok = false;
                try {
                    Sut sut;
                    vm.emplace(&mem);
                    vm->add_instructions(c.analyzed->get_vm().instructions());
                    at = vm->instruction_count();
                    ok = bool(bms::generate_code(vm->instructions(), node)); // (not if it calls what is not compiled)
                } catch (const bm::Assertion_Error&) {
                    Harness h;
                    ok = false;
                }
                for (int n = 0; ok && n < 4 && !o.violation; ++n) {
                    std::vector<Val> vals;
                    for (auto& t : s.params) vals.push_back(random_value(r, t));
                    const Result want = call(prog, base.constants, i.fn, vals, 20000);
                    if (want.err == Err::fuel || want.err == Err::unspecified || want.err == Err::overflow) continue;
                    std::optional<bms::Execution_Error> err;
                    bms::Concrete_Value v;
                    bm::Size size;
                    {
                        Sut sut;
                        vm->reset();
                        vm->jump_to(at);
                        for (auto& x : vals) vm->push(to_value(x));
                        for (u64 k = 0; k < 200 * want.steps + 5000 && !err; ++k) if (auto res = vm->cycle(); !res) err = res.error();
                        size = vm->stack_size();
                        if (err && err->code == bms::Execution_Error_Code::pop_call && size == 1) v = vm->pop();
                    }
                    count("call of an instance");
                    const bool fine = err && (want.err == Err::none ? err->code == bms::Execution_Error_Code::pop_call && size == 1 && same_value(v, want.val) : same_failure(*err, want.err));
                    if (!fine)
                        fail(o, "instance-behaves-differently", "call of " + i.fn + "<" + print_widths(i.widths) + ">(" + print_vals(vals) + ") gives " + (!err ? "no result" : err->code == bms::Execution_Error_Code::pop_call ? show_value(v) : show_error(*err)) + ", the language says " + (want.err == Err::none ? show_val(want.val) : err_name(want.err)) + history());
                }
                Sut sut;
                vm.reset();
            }
        }
        if (!heap_errors().empty()) fail(o, "heap-misuse", heap_errors());
    }
    o.nontrivial = events > 1;
    if (o.sig.empty()) o.sig = sig + hex64(hash_bytes(c.source));
    return o;
}
SIM_REGISTER({ "P09", generate, execute, shrink_program });
} // namespace
} // namespace sim
