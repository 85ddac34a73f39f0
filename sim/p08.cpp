// P08: calls in the virtual machine give the language's result in any history.
#include "compiled.hpp"
#include <algorithm>

namespace sim {
using namespace model;
namespace {

struct Callable { std::string fn; std::vector<int> widths; };

Plan generate(Rng& r, u64)
{
    Plan p;
    Gen_Options o;
    o.failing = r.chance(2, 3);
    if (r.chance(1, 8)) o.recursion = 15;
    o.functions = 2 + int(r.below(5));
    o.statements = 3 + int(r.below(6));
    o.depth = 2 + int(r.below(3));
    o.static_asserts = false;
    o.widths_mode = int(r.below(2));
    Program prog;
    for (int tries = 0; tries < 10; ++tries) {
        prog = model::generate(r, o);
        add_forces(r, prog, 90);
        if (analyze(prog).compiled.size() >= 1) break;
    }
    plan_program(p, prog);
    p.add("style", { N(i64(r.below(1000))) });
    Analysis a = analyze(prog);
    std::vector<Callable> fs;
    for (auto& i : a.compiled) fs.push_back({ i.fn, i.widths });
    if (r.chance(1, 3))
        for (auto& d : prog)
            if (d.a == "fn" && !is_generic(prog, d)) fs.push_back({ d.k[0].a, {} });
    if (fs.empty()) return p;
    const int machines = 1 + int(r.below(3));
    p.add("machines", { N(machines) });
    auto m = [&] { return N(r.range(0, machines - 1)); };
    auto vals = [&](const Callable& c) {
        Signature s = signature(prog, a.constants, *find_function(prog, c.fn), c.widths);
        std::vector<Val> v;
        for (auto& t : s.params) v.push_back(random_value(r, t));
        return print_vals(v);
    };
    for (int n = 8 + int(r.below(50)); n > 0; --n) {
        const Callable& c = r.pick(fs);
        switch (r.below(25)) {
        case 24:
            p.add("clear", { m() });
            break;
        case 0: case 1:
            p.add("add", { m(), c.fn, print_widths(c.widths) });
            break;
        case 2: case 3:
            p.add("reset", { m() });
            break;
        case 4: case 5: case 6: case 7:
            p.add("step", { m(), N(r.range(1, 60)) });
            break;
        case 8: case 9: case 10: case 11:
            p.add("fault", { m(), N(r.range(1, r.chance(1, 2) ? 4 : 20)), N(r.chance(3, 4) ? 1 : r.range(2, 5)), N(r.range(0, 2)), N(r.chance(1, 2)) });
            break;
        case 12: case 13:
            p.add("finish", { m() });
            break;
        default:
            p.add("start", { m(), c.fn, print_widths(c.widths), vals(c) });
            if (r.chance(1, 2)) p.add("finish", { p.lines.back().args[0] });
        }
    }
    return p;
}

struct Machine {
    Sim_Resource mem;
    std::optional<bms::Virtual_Machine> own;
    bms::Virtual_Machine* vm = nullptr;
    std::map<std::pair<std::string, std::vector<int>>, std::vector<bm::Size>> added;
    bool busy = false;
    bool clean = true; // nothing was executed since it was made or reset
    std::string what;
    Result want;
    u64 cycles = 0;
    Heap_Arm fault {};
    bool retry = false;
    int history = 0;
};

Outcome execute(const Plan& p)
{
    Outcome o;
    Program prog;
    if (!plan_read_program(p, prog)) return o;
    Analysis an = analyze(prog);
    if (!an.valid || an.reject || an.maybe_reject) { o.sig = "invalid"; return o; }
    Compiled c(to_source(prog, u64(p.num("style", 0))));
    doing("compilation");
    const Loaded l = c.load();
    // What the language says about analysis is P09's subject.
    if (l != Loaded::ok) { count("not compiled"); o.sig = "rejected"; return o; }
    const int nm = int(std::clamp<i64>(p.num("machines", 1), 1, 4));
    std::vector<std::unique_ptr<Machine>> ms;
    for (int i = 0; i < nm; ++i) {
        auto m = std::make_unique<Machine>();
        if (i == 0) { m->vm = &c.analyzed->get_vm(); m->clean = false; } // (analysis used it)
        else {
            Sut s;
            m->own.emplace(&m->mem);
            m->vm = &*m->own;
            m->vm->add_instructions(c.analyzed->get_vm().instructions());
        }
        ms.push_back(std::move(m));
    }
    std::string sig;
    u64 completed = 0, failed = 0, abandoned = 0;
    // Steps a machine; `limit` cycles at most.
    auto step = [&](std::size_t mi, u64 limit) {
        Machine& m = *ms[mi];
        std::optional<bms::Execution_Error> err;
        while (m.busy && limit-- > 0 && !o.violation) {
            bool oom = false;
            ++m.cycles;
            if (m.fault.on) heap_arm_swap(m.fault);
            try {
                Sut s;
                auto r = m.vm->cycle();
                if (!r) err = r.error();
            } catch (const std::bad_alloc&) {
                oom = true;
            } catch (const bm::Assertion_Error& e) {
                Harness h;
                heap_disarm();
                if (m.want.err == Err::fuel || m.want.err == Err::unspecified || m.want.err == Err::overflow) { m.busy = false; m.fault = {}; return; }
                fail(o, "internal-error", m.what + ": internal error " + std::string(e.message) + " in " + e.location.function_name());
                return;
            }
            if (m.fault.on) {
                m.fault = heap_arm_swap({});
                if (m.fault.injected && m.fault.n == 0 && m.fault.burst == 0) m.fault.on = false;
            }
            if (oom) {
                count("allocation failure while stepping");
                g_log.add(N(i64(mi)) + " out of memory");
                if (!m.retry) {
                    // this call is given up
                    m.fault = {};
                    m.busy = false;
                    ++abandoned;
                    m.history |= 4;
                    m.clean = true;
                    Sut s;
                    m.vm->reset();
                    return;
                }
                count("step repeated after an allocation failure");
                m.history |= 8;
                continue;
            }
            if (err) break;
            if (m.cycles > 200 * m.want.steps + 5000) {
                if (m.want.err == Err::none || (m.want.err != Err::fuel && m.want.err != Err::unspecified && m.want.err != Err::overflow))
                    fail(o, "never-ends", m.what + " does not end in " + N(i64(m.cycles)) + " cycles; the reference needs " + N(i64(m.want.steps)) + " steps");
                m.busy = false;
                return;
            }
        }
        if (!err) return;
        m.busy = false;
        m.fault = {};
        if (m.want.err == Err::fuel || m.want.err == Err::unspecified || m.want.err == Err::overflow) { count("call without expectation"); return; }
        const std::string h = " (history of the machine:" + std::string(m.history & 1 ? " completed calls" : "") + (m.history & 2 ? " failed calls" : "") + (m.history & 4 ? " abandoned calls" : "") + (m.history & 8 ? " retried steps" : "") + (m.history & 16 ? " added code" : "") + ")";
        std::string got;
        bool ok;
        if (err->code == bms::Execution_Error_Code::pop_call) {
            const auto n = m.vm->stack_size();
            bms::Concrete_Value v;
            if (n) { Sut s; v = m.vm->pop(); }
            got = n == 1 ? show_value(v) : N(i64(n)) + " values on the stack";
            ok = m.want.err == Err::none && n == 1 && same_value(v, m.want.val);
            ++completed;
            count("completed call");
            m.history |= 1;
        }
        else {
            got = "failure " + show_error(*err);
            ok = m.want.err != Err::none && same_failure(*err, m.want.err);
            ++failed;
            count("failed call");
            m.history |= 2;
        }
        g_log.add(N(i64(mi)) + " " + m.what + " " + got);
        sig += err->code == bms::Execution_Error_Code::pop_call ? 'c' : 'f';
        if (!ok) {
            const std::string want = m.want.err == Err::none ? show_val(m.want.val) : std::string("failure ") + err_name(m.want.err);
            fail(o, m.want.err == Err::none ? (err->code == bms::Execution_Error_Code::pop_call ? "wrong-value" : "unexpected-failure") : "wrong-failure",
                 m.what + " gives " + got + ", the language says " + want + h + "\n" + c.source);
        }
    };
    for (const Line& li : p.lines) {
        if (o.violation) break;
        if (li.key == "decl" || li.key == "style" || li.key == "machines") continue;
        const std::size_t mi = u64(li.num(0)) % ms.size();
        Machine& m = *ms[mi];
        if (li.key == "reset") {
            if (m.busy) { ++abandoned; count("abandoned call"); m.history |= 4; }
            m.busy = false;
            m.clean = true;
            m.fault = {};
            Sut s;
            m.vm->reset();
        }
        else if (li.key == "clear") {
            // a machine is emptied and gets the program's code again
            if (!m.own) continue;
            if (m.busy) { ++abandoned; count("abandoned call"); m.history |= 4; }
            m.busy = false;
            m.clean = true;
            m.fault = {};
            m.added.clear();
            count("machine emptied");
            Sut s;
            m.vm->clear();
            const bool idle = m.vm->instruction_count() == 0 && m.vm->stack_size() == 0;
            const bm::Size at = m.vm->add_instructions(c.analyzed->get_vm().instructions());
            if (!idle || at != 0) fail(o, "not-emptied", "clearing a virtual machine leaves something behind");
        }
        else if (li.key == "step") step(mi, u64(std::max<i64>(1, li.num(1))));
        else if (li.key == "finish") step(mi, ~u64(0));
        else if (li.key == "fault") {
            m.fault = {};
            if (!m.busy) continue;
            m.fault.n = u64(std::max<i64>(1, li.num(1)));
            m.fault.burst = u64(std::max<i64>(1, li.num(2)));
            m.fault.scope = int(u64(li.num(3)) % 3);
            m.fault.on = true;
            m.retry = li.num(4) & 1;
        }
        else if (li.key == "add") {
            const auto w = read_widths(li.str(2));
            auto* node = c.function_node(li.str(1), w);
            if (!node || m.vm->instruction_count() > 20000) continue;
            bool ok = false;
            bm::Size at = 0;
            try {
                Sut s;
                std::pmr::vector<bms::Instruction> code(&m.mem);
                ok = bool(bms::generate_code(code, node));
                if (ok) at = m.vm->add_instructions(code);
            } catch (const bm::Assertion_Error&) {
                Harness h;
                ok = false;
            }
            if (ok) {
                m.added[{ li.str(1), w }].push_back(at);
                m.history |= 16;
                count("code added");
                g_log.add("added");
            }
        }
        else if (li.key == "start") {
            const auto w = read_widths(li.str(2));
            const X* f = find_function(prog, li.str(1));
            auto* node = c.function_node(li.str(1), w);
            if (!f || !node) continue;
            Signature s = signature(prog, an.constants, *f, w);
            if (!s.ok) continue;
            auto vals = read_vals(li.str(3), s.params);
            if (!vals) continue;
            auto& fn = bm::get<bms::ast::Function>(*node);
            // one of the places where its code is
            std::vector<bm::Size> places;
            if (fn.vm_address != bms::ast::Function::invalid_vm_address) places.push_back(fn.vm_address);
            if (auto it = m.added.find({ li.str(1), w }); it != m.added.end()) places.insert(places.end(), it->second.begin(), it->second.end());
            if (places.empty()) continue;
            const bm::Size at = places[hash_bytes(li.str(3)) % places.size()];
            if (m.busy) { ++abandoned; count("abandoned call"); m.history |= 4; }
            m.what = "call of " + li.str(1) + "(" + li.str(3) + ")" + (w.empty() ? "" : " with widths " + li.str(2)) + " on machine " + N(i64(mi));
            m.want = call(prog, an.constants, li.str(1), *vals, 30000);
            m.busy = true;
            m.cycles = 0;
            m.fault = {};
            const bool reset = !std::exchange(m.clean, false) || (hash_bytes(m.what) & 3) == 0;
            Sut sut;
            if (reset) m.vm->reset();
            m.vm->jump_to(at);
            for (auto& v : *vals) m.vm->push(to_value(v));
        }
        if (!heap_errors().empty()) fail(o, "heap-misuse", heap_errors());
    }
    for (std::size_t i = 0; i < ms.size() && !o.violation; ++i) step(i, ~u64(0));
    {
        Sut s;
        for (auto& m : ms) m->own.reset();
    }
    for (auto& m : ms)
        if (!o.violation && m->mem.live) fail(o, "leak", "a virtual machine did not give back its memory");
    o.nontrivial = completed + failed > 1;
    o.sig = sig + N(i64(abandoned)) + hex64(hash_bytes(c.source));
    return o;
}
SIM_REGISTER({ "P08", generate, execute, shrink_program });
} // namespace
} // namespace sim
