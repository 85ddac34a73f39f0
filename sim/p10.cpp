// P10: a failed assertion reports the operands that actually failed.
#include "compiled.hpp"
#include "common/diagnostics.hpp"
#include <algorithm>
#include <sstream>

namespace sim {
using namespace model;
namespace {

struct Callable { std::string fn; std::vector<int> widths; };

Plan generate(Rng& r, u64)
{
    Plan p;
    Gen_Options o;
    o.failing = true;
    if (r.chance(1, 8)) o.recursion = 15;
    o.many_asserts = true;
    o.functions = 2 + int(r.below(4));
    o.statements = 2 + int(r.below(6));
    o.depth = 1 + int(r.below(3));
    o.static_asserts = false;
    o.widths_mode = int(r.below(2));
    Program prog;
    for (int tries = 0; tries < 10; ++tries) {
        prog = model::generate(r, o);
        add_forces(r, prog, 90);
        if (analyze(prog).compiled.size() >= 1) break;
    }
    if (r.chance(1, 4)) add_constants(r, prog, false);
    plan_program(p, prog);
    p.add("style", { N(i64(r.below(1000))) });
    Analysis a = analyze(prog);
    std::vector<Callable> fs;
    for (auto& i : a.compiled) fs.push_back({ i.fn, i.widths });
    if (fs.empty()) return p;
    p.add("machines", { N(1 + i64(r.below(2))) });
    auto m = [&] { return N(r.range(0, 1)); };
    auto vals = [&](const Callable& c) {
        Signature s = signature(prog, a.constants, *find_function(prog, c.fn), c.widths);
        std::vector<Val> v;
        for (auto& t : s.params) v.push_back(random_value(r, t));
        return print_vals(v);
    };
    for (int n = 10 + int(r.below(40)); n > 0; --n) {
        const Callable& c = r.pick(fs);
        switch (r.below(10)) {
        case 0: p.add("reset", { m() }); break;
        case 1: case 2: p.add("step", { m(), N(r.range(1, 40)) }); break;
        case 3: p.add("fault", { m(), N(r.range(1, 6)), N(r.range(0, 2)), N(r.range(0, 1)) }); break;
        case 4: p.add("finish", { m() }); break;
        // the call as a global constant or in a static assertion
        case 5: p.add("constant", { c.fn, print_widths(c.widths), vals(c), N(r.range(0, 3)) }); break;
        default:
            p.add("start", { m(), c.fn, print_widths(c.widths), vals(c) });
            if (r.chance(2, 3)) p.add("finish", { p.lines.back().args[0] });
        }
    }
    // a static assertion of a comparison of constants
    for (int n = int(r.below(3)); n > 0; --n) {
        Program q = prog;
        for (int tries = 0; tries < 8; ++tries) {
            Program t = prog;
            add_constants(r, t, true);
            if (analyze(t).reject) { q = t; break; }
        }
        for (std::size_t i = prog.size(); i < q.size(); ++i) p.add("extra", { N(n), print_x(q[i]) });
    }
    return p;
}

std::string show_cmp(const Comparison& c, const std::string& = {})
{
    return show128(c.l) + " " + c.op + " " + show128(c.r);
}
bool same_cmp(const bms::Comparison_Failure& f, const Comparison& c)
{
    return f.left.int_value == bm::Big_Int(c.l) && f.right.int_value == bm::Big_Int(c.r) && bms::expression_type_code_name(f.op) == c.op;
}
// "" if the report is what it has to be
std::string wrong_report(const std::optional<bms::Comparison_Failure>& got, const std::shared_ptr<const Comparison>& must, const std::shared_ptr<const Comparison>& may, bool assertion)
{
    if (must) {
        if (!got) return "no comparison is reported, " + show_cmp(*must) + " failed";
        if (!same_cmp(*got, *must)) return "the reported comparison is " + show_failure(*got) + ", but " + show_cmp(*must) + " failed";
        return "";
    }
    if (!got) return "";
    if (!assertion) return "a comparison is reported (" + show_failure(*got) + ") for a failure that is not one of an assertion";
    if (!may) return "a comparison is reported (" + show_failure(*got) + ") although the asserted value does not come from one";
    if (!same_cmp(*got, *may)) return "the reported comparison is " + show_failure(*got) + ", but the asserted value comes from " + show_cmp(*may);
    return "";
}

struct Machine {
    Sim_Resource mem;
    std::optional<bms::Virtual_Machine> own;
    bms::Virtual_Machine* vm = nullptr;
    bool busy = false;
    std::string what;
    Result want;
    u64 cycles = 0;
    Heap_Arm fault {};
    bool retry = false;
    int history = 0;
};

Outcome execute(const Plan& p)
{
    Outcome o;
    Program prog;
    if (!plan_read_program(p, prog)) return o;
    Analysis an = analyze(prog);
    if (!an.valid || an.reject || an.maybe_reject) { o.sig = "invalid"; return o; }
    Compiled c(to_source(prog, u64(p.num("style", 0))));
    doing("compilation");
    if (c.load() != Loaded::ok) { count("not compiled"); o.sig = "rejected"; return o; }
    const int nm = int(std::clamp<i64>(p.num("machines", 1), 1, 2));
    std::vector<std::unique_ptr<Machine>> ms;
    for (int i = 0; i < nm; ++i) {
        auto m = std::make_unique<Machine>();
        if (i == 0) m->vm = &c.analyzed->get_vm();
        else {
            Sut s;
            m->own.emplace(&m->mem);
            m->vm = &*m->own;
            m->vm->add_instructions(c.analyzed->get_vm().instructions());
        }
        ms.push_back(std::move(m));
    }
    std::string sig;
    u64 reports = 0;
    auto step = [&](std::size_t mi, u64 limit) {
        Machine& m = *ms[mi];
        std::optional<bms::Execution_Error> err;
        while (m.busy && limit-- > 0 && !o.violation) {
            bool oom = false;
            ++m.cycles;
            if (m.fault.on) heap_arm_swap(m.fault);
            try {
                Sut s;
                auto r = m.vm->cycle();
                if (!r) err = r.error();
            } catch (const std::bad_alloc&) {
                oom = true;
            } catch (const bm::Assertion_Error&) {
                Harness h;
                heap_disarm();
                m.busy = false; // (P08's subject)
                m.fault = {};
                return;
            }
            if (m.fault.on) {
                m.fault = heap_arm_swap({});
                if (m.fault.injected && m.fault.n == 0 && m.fault.burst == 0) m.fault.on = false;
            }
            if (oom) {
                count("allocation failure while stepping");
                if (m.retry) { m.history |= 8; continue; }
                m.fault = {};
                m.busy = false;
                m.history |= 4;
                Sut s;
                m.vm->reset();
                return;
            }
            if (err) break;
            if (m.cycles > 200 * m.want.steps + 5000) { m.busy = false; return; }
        }
        if (!err) return;
        m.busy = false;
        m.fault = {};
        if (m.want.err == Err::fuel || m.want.err == Err::unspecified || m.want.err == Err::overflow) return;
        if (err->code == bms::Execution_Error_Code::pop_call) {
            count("completed call");
            m.history |= 1;
            sig += 'c';
            if (err->comparison_failure) fail(o, "report-of-success", m.what + " ends normally, but a comparison is reported: " + show_failure(*err->comparison_failure) + "\n" + c.source);
            return;
        }
        if (!same_failure(*err, m.want.err)) { count("other failure than expected (P08)"); return; }
        const bool assertion = m.want.err == Err::assert_fail;
        count(!assertion ? "failure other than an assertion" : m.want.must ? "failed assertion of a comparison" : m.want.may ? "failed assertion of a value from a comparison" : "failed assertion of another value");
        ++reports;
        sig += assertion ? m.want.must ? 'C' : 'v' : 'f';
        g_log.add(m.what + " " + show_error(*err));
        if (auto w = wrong_report(err->comparison_failure, m.want.must, m.want.may, assertion); !w.empty())
            fail(o, "wrong-report", m.what + ": " + w + " (history of the machine:" + (m.history & 1 ? " completed calls" : "") + (m.history & 2 ? " failed calls" : "") + (m.history & 4 ? " abandoned calls" : "") + (m.history & 8 ? " retried steps" : "") + ")\n" + c.source);
        m.history |= 2;
    };
    // Analyses a program that has to be rejected, more than once, and looks at the reports.
    auto rejected = [&](const Program& q, const std::string& what) {
        Analysis want = analyze(q);
        if (!want.valid || want.maybe_reject || !want.reject) return;
        const Reject& r = *want.reject;
        Compiled d(to_source(q, u64(p.num("style", 0))));
        if (d.parse() != Loaded::ok) return;
        for (int again = 0; again < 2 && !o.violation; ++again) {
            Loaded l = again ? d.guarded([&] {
                d.error.reset();
                if (auto x = bms::analyze_semantics(*d.analyzed, &d.tmp); !x) { d.error = x.error(); return Loaded::rejected; }
                return Loaded::ok;
            }) : d.analyze();
            if (l != Loaded::rejected || bms::analysis_error_code_name(d.error->code()) != r.code) { count("other rejection than expected (P09)"); return; }
            const bool assertion = r.code == "static_assertion_failed" || r.eval == Err::assert_fail;
            if (assertion && r.code != "static_assertion_failed" && !r.from_call) return; // (folded while compiling a function)
            if (r.code == "evaluation_error" && bms::evaluation_error_code_name(d.error->evaluation_error()) != std::string_view(err_name(r.eval))) { count("other rejection than expected (P09)"); return; }
            count(!assertion ? "rejection other than an assertion" : r.must ? "rejection by a failed comparison" : "rejection by another failed assertion");
            ++reports;
            sig += 'R';
            const auto got = d.error->comparison_failure();
            g_log.add(what + " " + show_error(*d.error));
            std::string w = wrong_report(got, r.must, r.may, assertion);
            if (!w.empty()) { fail(o, "wrong-report-in-analysis", what + (again ? " (analysed again)" : "") + ": " + w + "\n" + d.source); return; }
            if (!r.must) continue;
            // the printed message names the same operands
            std::string text;
            try {
                Sut s;
                std::ostringstream out;
                bm::print_analysis_error(out, *d.parsed, *d.error, false);
                Harness h;
                text = out.str();
            } catch (const bm::Assertion_Error&) {
                Harness h;
                text.clear();
            }
            if (text.empty()) continue;
            auto name = [](const bms::Concrete_Value& v, i128 x) { return v.type == bms::Concrete_Type::Bool ? std::string(x ? "true" : "false") : v.type.is_uint() ? showu128(u128(x)) : show128(x); };
            const std::string l1 = name(got->left, r.must->l), l2 = name(got->right, r.must->r);
            const auto at = text.find(l1);
            if (at == std::string::npos || text.find(l2, at + l1.size()) == std::string::npos)
                fail(o, "wrong-message", what + ": the printed message does not name the operands " + l1 + " and " + l2 + ":\n" + text + "\n" + d.source);
        }
    };
    std::map<std::string, Program> extras;
    for (const Line& li : p.lines) {
        if (o.violation) break;
        if (li.key == "decl" || li.key == "style" || li.key == "machines") continue;
        if (li.key == "extra") {
            X x;
            if (parse_x(li.str(1), x)) extras[li.str(0)].push_back(std::move(x));
            continue;
        }
        if (li.key == "constant") {
            const X* f = find_function(prog, li.str(0));
            if (!f) continue;
            Signature s = signature(prog, an.constants, *f, read_widths(li.str(1)));
            if (!s.ok) continue;
            auto vals = read_vals(li.str(2), s.params);
            if (!vals) continue;
            Result want = call(prog, an.constants, li.str(0), *vals, 20000);
            if (want.err == Err::none && s.ret.k == 'V') continue;
            std::vector<X> args { atom(li.str(0)) };
            bool possible = true;
            for (auto& v : *vals) {
                if (v.t.k == 'B') args.push_back(node("b", { atom(v.v ? "1" : "0") }));
                else if (v.t.k == 'I') args.push_back(lit(v.v));
                else {
                    if (v.v < 0) possible = false; // (no literal is that large)
                    args.push_back(node("as", { lit(v.v), atom("U:" + N(v.t.w)) }));
                }
            }
            if (!possible) continue;
            X e = node("call", args);
            Program q = prog;
            const int form = int(li.num(3) & 3);
            if (want.err != Err::none || form == 0) q.push_back(node("const", { atom("KX"), atom("_"), e }));
            else if (s.ret.k == 'B') q.push_back(node("sassert", { form == 1 ? e : node(form == 2 ? "==" : "!=", { e, node("b", { atom(want.val.v ? "1" : "0") }) }) }));
            else {
                i128 x = want.val.v + (form == 2 && want.val.v < 100 && want.val.v > -100 ? 1 : 0);
                if (s.ret.k == 'U' && x < 0) continue;
                q.push_back(node("sassert", { node(form == 1 ? "!=" : form == 2 ? "==" : "<", { e, lit(x) }) }));
            }
            rejected(q, "analysis of " + li.str(0) + "(" + li.str(2) + ") as a constant");
            continue;
        }
        const std::size_t mi = u64(li.num(0)) % ms.size();
        Machine& m = *ms[mi];
        if (li.key == "reset") {
            if (m.busy) { count("abandoned call"); m.history |= 4; }
            m.busy = false;
            m.fault = {};
            Sut s;
            m.vm->reset();
        }
        else if (li.key == "step") step(mi, u64(std::max<i64>(1, li.num(1))));
        else if (li.key == "finish") step(mi, ~u64(0));
        else if (li.key == "fault") {
            m.fault = {};
            if (!m.busy) continue;
            m.fault.n = u64(std::max<i64>(1, li.num(1)));
            m.fault.burst = 1;
            m.fault.scope = int(u64(li.num(2)) % 3);
            m.fault.on = true;
            m.retry = li.num(3) & 1;
        }
        else if (li.key == "start") {
            const auto w = read_widths(li.str(2));
            const X* f = find_function(prog, li.str(1));
            auto* node = c.function_node(li.str(1), w);
            if (!f || !node) continue;
            Signature s = signature(prog, an.constants, *f, w);
            if (!s.ok) continue;
            auto vals = read_vals(li.str(3), s.params);
            if (!vals) continue;
            auto& fn = bm::get<bms::ast::Function>(*node);
            if (fn.vm_address == bms::ast::Function::invalid_vm_address) continue;
            if (m.busy) { count("abandoned call"); m.history |= 4; }
            m.what = "call of " + li.str(1) + "(" + li.str(3) + ")" + (w.empty() ? "" : " with widths " + li.str(2)) + " on machine " + N(i64(mi));
            m.want = call(prog, an.constants, li.str(1), *vals, 30000);
            m.busy = true;
            m.cycles = 0;
            m.fault = {};
            Sut sut;
            m.vm->reset();
            m.vm->jump_to(fn.vm_address);
            for (auto& v : *vals) m.vm->push(to_value(v));
        }
    }
    for (std::size_t i = 0; i < ms.size() && !o.violation; ++i) step(i, ~u64(0));
    for (auto& [k, ds] : extras) {
        if (o.violation) break;
        Program q = prog;
        for (auto& d : ds) q.push_back(d);
        rejected(q, "analysis with further declarations");
    }
    {
        Sut s;
        for (auto& m : ms) m->own.reset();
    }
    o.nontrivial = reports > 0;
    o.sig = sig + hex64(hash_bytes(c.source));
    return o;
}
SIM_REGISTER({ "P10", generate, execute, shrink_program });
} // namespace
} // namespace sim
