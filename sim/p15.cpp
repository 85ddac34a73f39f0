// P15: regenerating the source language gives an equivalent program, whatever was generated before.
#include "compiled.hpp"
#include "bmd/codegen/code_language.hpp"
#include "bmd/codegen/codegen.hpp"
#include "bms/instantiate.hpp"
#include <algorithm>

namespace sim {
using namespace model;
namespace bmd = bit_manipulation::bmd;
namespace {

bmd::Code_Options options_of(i64 n)
{
    bmd::Code_Options o;
    if (n & 1) { o.indent_char = '\t'; o.indent_size = 1; }
    if (n & 2) o.indent_size = std::size_t(n >> 8 & 3);
    o.break_after_function = n >> 3 & 1;
    o.break_after_if = n >> 4 & 1;
    o.always_parenthesize_subexpressions = n >> 5 & 1;
    o.c_23 = n >> 6 & 1;
    o.c_prefer_bitint = (n >> 6 & 3) == 3;
    return o;
}

// The widths a generic function is instantiated with, in order of their names.
std::size_t generic_count(const Program& p, const X& f)
{
    std::set<std::string> names;
    for (auto& q : f.k[1].k) {
        const std::string& t = q.k[0].a;
        if (t.compare(0, 2, "U:") == 0 && !isdigit(t[2]) && t.find('+') == std::string::npos) {
            std::string g = t.substr(2);
            bool global = false;
            for (auto& e : p) if (e.a != "sassert" && e.k[0].a == g) global = true;
            if (!global) names.insert(g);
        }
    }
    return names.size();
}

Plan generate(Rng& r, u64)
{
    Plan p;
    Gen_Options o;
    o.failing = r.chance(1, 2);
    if (r.chance(1, 6)) o.recursion = 15;
    o.functions = 2 + int(r.below(5));
    o.statements = 3 + int(r.below(6));
    o.depth = 2 + int(r.below(3));
    o.many_asserts = r.chance(1, 5);
    o.widths_mode = int(r.below(2));
    if (r.chance(1, 2)) o.requirements = 40;
    Program prog;
    for (int tries = 0; tries < 10; ++tries) {
        prog = model::generate(r, o);
        add_forces(r, prog, int(r.below(100)));
        if (r.chance(1, 3)) add_constants(r, prog, false);
        Analysis a = analyze(prog);
        if (a.valid && !a.reject && !a.maybe_reject) break;
    }
    plan_program(p, prog);
    p.add("style", { N(i64(r.below(1000))) });
    std::vector<const X*> gs;
    for (auto& d : prog) if (d.a == "fn" && is_generic(prog, d)) gs.push_back(&d);
    static const std::vector<int> widths { 1, 2, 3, 5, 8, 8, 8, 13, 16, 32, 33, 63, 64, 65, 100, 127, 128 };
    auto fault = [&](std::vector<std::string> a) {
        if (r.chance(1, 2)) for (i64 x : { i64(r.range(0, 999)), i64(r.chance(2, 3) ? 1 : r.range(2, 6)), r.range(0, 2) }) a.push_back(N(x));
        return a;
    };
    auto opts = [&] { return N(r.chance(1, 3) ? 0 : r.range(0, 1023)); };
    for (int n = 2 + int(r.below(10)); n > 0; --n) {
        switch (r.below(12)) {
        case 0: case 1: p.add("other", fault({ N(r.range(1, 2)), opts() })); break;
        case 2: case 3: p.add("adopt"); break;
        case 4:
            if (gs.empty()) break;
            {
                const X& f = *r.pick(gs);
                std::vector<int> w;
                for (std::size_t i = 0; i < generic_count(prog, f); ++i) w.push_back(r.pick(widths));
                p.add("inst", { f.k[0].a, print_widths(w) });
            }
            break;
        case 5: p.add("raw", { N(r.range(1, 30)) }); break;
        default: p.add("gen", fault({ opts() }));
        }
    }
    p.add("gen", { opts() });
    p.add("adopt");
    p.add("calls", { N(i64(r.next() >> 40)) });
    for (auto* f : gs) {
        if (!r.chance(1, 2)) continue;
        std::vector<int> w;
        for (std::size_t i = 0; i < generic_count(prog, *f); ++i) w.push_back(r.pick(widths));
        p.add("probe", { f->k[0].a, print_widths(w) });
    }
    return p;
}

Outcome execute(const Plan& p)
{
    Outcome o;
    Program prog;
    if (!plan_read_program(p, prog)) return o;
    const Analysis base = analyze(prog);
    if (!base.valid || base.reject || base.maybe_reject) { o.sig = "invalid"; return o; }
    auto cur = std::make_unique<Compiled>(to_source(prog, u64(p.num("style", 0))));
    const std::string original = cur->source;
    doing("compilation");
    if (cur->load() != Loaded::ok) { count("not compiled"); o.sig = "rejected"; return o; } // (P09's subject)
    Sim_Resource out_mem;
    bmd::Code_String out(&out_mem);
    std::string text;   // of the last complete generation
    bool have = false;
    int rounds = 0, faults = 0, generations = 0;
    std::string sig;
    u64 last_attempts[3] { 60, 30, 30 };
    auto trail = [&] { return "\n--- regenerated (" + N(rounds) + ")\n" + cur->source + "\n--- original\n" + original; };

    auto check_constants = [&] {
        for (auto& [name, v] : base.constants) {
            if (o.violation) return;
            bms::Concrete_Value got;
            bool known = false;
            {
                Sut s;
                if (auto r = cur->analyzed->find_global_constant(name); r && (*r)->const_value() && (*r)->const_value()->is_known()) {
                    got = (*r)->const_value()->concrete_value();
                    known = true;
                }
            }
            if (!known) fail(o, "constant-unknown", "constant " + name + " of the regenerated program has no known value" + trail());
            else if (!same_value(got, v)) fail(o, "wrong-constant", "constant " + name + " of the regenerated program is " + show_value(got) + ", it was " + show_val(v) + trail());
        }
        for (auto& d : prog) {
            if (d.a != "fn" || o.violation) continue;
            bool found;
            { Sut s; found = bool(cur->analyzed->find_global_function(d.k[0].a)); }
            if (!found) fail(o, "lost-function", "function " + d.k[0].a + " is missing from the regenerated program" + trail());
        }
        for (auto& i : base.instances)
            if (!o.violation && !cur->function_node(i.fn, i.widths))
                fail(o, "missing-instance", "function " + i.fn + " of the regenerated program has no instance with widths " + print_widths(i.widths) + trail());
    };
    auto call_all = [&](u64 seed) {
        std::vector<Instance> is;
        for (auto& d : prog) if (d.a == "fn" && !is_generic(prog, d)) is.push_back({ d.k[0].a, {} });
        is.insert(is.end(), base.instances.begin(), base.instances.end());
        Rng r(seed);
        for (auto& i : is) {
            if (o.violation) break;
            const X* f = find_function(prog, i.fn);
            auto* node = cur->function_node(i.fn, i.widths);
            if (!f || !node || bm::get<bms::ast::Function>(*node).analysis_so_far < bm::Analysis_Level::full) continue;
            Signature s = signature(prog, base.constants, *f, i.widths);
            if (!s.ok) continue;
            Sim_Resource mem;
            std::optional<bms::Virtual_Machine> vm;
            bm::Size at = 0;
            bool ok = false;
            try {
                Sut sut;
                vm.emplace(&mem);
                vm->add_instructions(cur->analyzed->get_vm().instructions());
                at = vm->instruction_count();
                ok = bool(bms::generate_code(vm->instructions(), node)); // (not if it calls what is not compiled)
            } catch (const bm::Assertion_Error&) {
                Harness h;
                ok = false;
            }
            for (int n = 0; ok && n < 3 && !o.violation; ++n) {
                std::vector<Val> vals;
                for (auto& t : s.params) vals.push_back(random_value(r, t));
                const Result want = call(prog, base.constants, i.fn, vals, 20000);
                if (want.err == Err::fuel || want.err == Err::unspecified || want.err == Err::overflow) continue;
                std::optional<bms::Execution_Error> err;
                bms::Concrete_Value v;
                bm::Size size;
                {
                    Sut sut;
                    vm->reset();
                    vm->jump_to(at);
                    for (auto& x : vals) vm->push(to_value(x));
                    for (u64 k = 0; k < 200 * want.steps + 5000 && !err; ++k) if (auto res = vm->cycle(); !res) err = res.error();
                    size = vm->stack_size();
                    if (err && err->code == bms::Execution_Error_Code::pop_call && size == 1) v = vm->pop();
                }
                count("call in a regenerated program");
                const bool fine = err && (want.err == Err::none ? err->code == bms::Execution_Error_Code::pop_call && size == 1 && same_value(v, want.val) : same_failure(*err, want.err));
                if (!fine)
                    fail(o, "behaves-differently", "call of " + i.fn + (i.widths.empty() ? "" : "<" + print_widths(i.widths) + ">") + "(" + print_vals(vals) + ") in the regenerated program gives " + (!err ? "no result" : err->code == bms::Execution_Error_Code::pop_call ? show_value(v) : show_error(*err)) + ", in the original " + (want.err == Err::none ? show_val(want.val) : err_name(want.err)) + trail());
            }
            Sut sut;
            vm.reset();
        }
    };
    auto generate_text = [&](bmd::Code_Language lang, i64 opts, const Line& l, std::size_t at) {
        const bool armed = l.args.size() > at + 2;
        const int scope = armed ? int(u64(l.num(at + 2)) % 3) : 0;
        std::size_t before;
        { Sut s; before = out.get_text().size(); }
        const u64 a1 = heap_attempts(own_heap), a2 = heap_attempts(own_resource);
        if (armed) heap_arm(1 + u64(l.num(at)) * last_attempts[scope] / 1000, u64(std::max<i64>(1, l.num(at + 1))), scope);
        std::string error;
        bool ok = false, oom = false;
        try {
            Sut s;
            if (auto r = bmd::generate_code(out, *cur->analyzed, lang, options_of(opts))) ok = true;
            else { Harness h; error = "error " + N(int(r.error().code)); }
        } catch (const std::bad_alloc&) {
            oom = true;
        } catch (const bm::Assertion_Error& e) {
            Harness h;
            heap_disarm();
            error = "internal error " + std::string(e.message);
        }
        Harness h;
        if (armed) { const u64 n = heap_disarm(); faults += n != 0; count("allocation failure during generation", n); }
        else if (!oom) { last_attempts[1] = heap_attempts(own_heap) - a1; last_attempts[2] = heap_attempts(own_resource) - a2; last_attempts[0] = last_attempts[1] + last_attempts[2]; }
        sig += oom ? 'o' : ok ? 'g' : 'e';
        g_log.add("generation " + std::string(oom ? "oom" : ok ? "ok" : error));
        if (lang != bmd::Code_Language::bms) return;
        if (!ok && !oom) { fail(o, "refused", "generating the source language from an accepted program ends with " + error + "\n" + cur->source); return; }
        if (!ok) return;
        ++generations;
        const std::string_view all = out.get_text();
        text.assign(all.substr(std::min<std::size_t>(before, all.size())));
        have = true;
    };
    auto adopt = [&] {
        if (!have) return;
        have = false;
        auto next = std::make_unique<Compiled>(text);
        std::swap(cur, next);
        ++rounds;
        doing("compilation of the regenerated program");
        const Loaded l = cur->load();
        if (l == Loaded::endless || l == Loaded::out_of_memory) { count("endless"); return; }
        if (l != Loaded::ok) {
            fail(o, "not-accepted", std::string("the regenerated program is ") + loaded_name(l) + (cur->error ? " " + show_error(*cur->error) : "") + " " + cur->detail + trail());
            return;
        }
        count("regenerated program accepted");
        check_constants();
    };
    for (const Line& l : p.lines) {
        if (o.violation) break;
        if (l.key == "gen") { doing("generation"); generate_text(bmd::Code_Language::bms, l.num(0), l, 1); }
        else if (l.key == "other") { doing("generation of another language"); generate_text(l.num(0) & 1 ? bmd::Code_Language::c : bmd::Code_Language::cpp, l.num(1), l, 2); }
        else if (l.key == "raw") { Sut s; out.append(bm::Size(l.num(0)), '\n'); }
        else if (l.key == "adopt") adopt();
        else if (l.key == "calls") { doing("calls"); call_all(u64(l.num(0))); }
        else if (l.key == "inst" || l.key == "probe") {
            const X* f = find_function(prog, l.str(0));
            auto w = read_widths(l.str(1));
            if (!f || !is_generic(prog, *f) || w.size() != generic_count(prog, *f)) continue;
            bool bad = false;
            for (int x : w) bad |= x < 1 || x > 128;
            if (bad) continue;
            const Analysis want = analyze(prog, { { l.str(0), w } });
            if (!want.valid || want.maybe_reject) continue;
            // (an instance in the program must not show in what is generated)
            const bool probe = l.key == "probe";
            if (!probe && want.reject) continue;
            doing("instantiation in the regenerated program");
            const Loaded got = cur->guarded([&] {
                cur->error.reset();
                auto n = cur->analyzed->find_global_function_node(l.str(0));
                auto* node = const_cast<bms::ast::Some_Node*>(*n);
                if (auto r = bms::instantiate_function(*cur->analyzed, &cur->tmp, node, bm::get<bms::ast::Function>(*node), std::span<const int>(w)); !r) { cur->error = r.error(); return Loaded::rejected; }
                if (auto r = bms::analyze_semantics(*cur->analyzed, &cur->tmp); !r) { cur->error = r.error(); return Loaded::rejected; }
                return Loaded::ok;
            });
            if (got == Loaded::endless || got == Loaded::out_of_memory) break;
            count("instantiation in a regenerated program");
            sig += want.reject ? 'R' : 'I';
            if (got == Loaded::internal) fail(o, "internal-error", "instantiation of " + l.str(0) + " with " + l.str(1) + ": " + cur->detail + trail());
            else if ((got == Loaded::rejected) != bool(want.reject))
                fail(o, "other-instances", "instantiation of " + l.str(0) + " with widths " + l.str(1) + " in the program is " + loaded_name(got) + (cur->error ? " " + show_error(*cur->error) : "") + ", the language says " + (want.reject ? "rejected with " + want.reject->code : std::string("accepted")) + trail());
            else if (got == Loaded::rejected && std::string(bms::analysis_error_code_name(cur->error->code())) != want.reject->code)
                fail(o, "other-rejection", "instantiation of " + l.str(0) + " with widths " + l.str(1) + " is rejected with " + show_error(*cur->error) + ", the language says " + want.reject->code + trail());
            if (want.reject) break; // a rejected program is not used any further
        }
        if (!heap_errors().empty()) fail(o, "heap-misuse", heap_errors());
    }
    o.nontrivial = rounds > 0 && (rounds > 1 || faults || generations > 1);
    o.sig = sig + N(rounds) + hex64(hash_bytes(original));
    return o;
}
SIM_REGISTER({ "P15", generate, execute, shrink_program });
} // namespace
} // namespace sim
