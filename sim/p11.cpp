// P11: a failed code generation leaves what was generated before untouched.
#include "jobs.hpp"
#include "sut.hpp"
#include "bmd/codegen/code_language.hpp"
#include "bmd/codegen/codegen.hpp"
#include "bms/analysis_level.hpp"
#include "bms/analyze.hpp"
#include "bms/analyzed_program.hpp"
#include "bms/ast.hpp"
#include "bms/parsing/parse.hpp"
#include "bms/tokenization/token.hpp"
#include "bms/tokenization/tokenize.hpp"
#include "bms/vm/codegen.hpp"
#include "bms/vm/instructions.hpp"
#include <algorithm>
#include <optional>

namespace sim {
namespace bm = bit_manipulation;
namespace bms = bit_manipulation::bms;
namespace bmd = bit_manipulation::bmd;
namespace {

struct Text_State {
    std::string text;
    std::vector<bmd::Code_String_Span> spans;
    std::string show() const
    {
        std::string r = text + "\n<spans>";
        for (auto& s : spans) r += " " + N(i64(s.begin)) + "+" + N(i64(s.length)) + "t" + N(int(s.type));
        return r;
    }
};
Text_State read(const bmd::Code_String& c)
{
    Text_State r { std::string(c.get_text()), {} };
    for (bmd::Code_String_Span s : c) r.spans.push_back(s);
    return r;
}
Text_State concat(Text_State a, const Text_State& b)
{
    for (auto s : b.spans) { s.begin += a.text.size(); a.spans.push_back(s); }
    a.text += b.text;
    return a;
}
std::string show_pointer(const void* p) { return hex64(u64(p)); } // compared only within one run
struct Show_Ins {
    std::string operator()(const bms::ins::Load& i) { return "Load " + show_pointer(i.source); }
    std::string operator()(const bms::ins::Store& i) { return "Store " + show_pointer(i.target); }
    std::string operator()(const bms::ins::Push& i) { return "Push " + show_value(i.value); }
    std::string operator()(const bms::ins::Pop&) { return "Pop"; }
    std::string operator()(const bms::ins::Relative_Jump& i) { return "Jump " + N(i64(i.offset)); }
    std::string operator()(const bms::ins::Relative_Jump_If& i) { return "Jump_If " + N(i64(i.offset)) + (i.expected ? " true" : " false"); }
    std::string operator()(const bms::ins::Break&) { return "Break"; }
    std::string operator()(const bms::ins::Continue&) { return "Continue"; }
    std::string operator()(const bms::ins::Return&) { return "Return"; }
    std::string operator()(const bms::ins::Convert& i) { return "Convert " + show_type(i.type); }
    std::string operator()(const bms::ins::Unary_Operate& i) { return "Unary " + N(int(i.op)); }
    std::string operator()(const bms::ins::Binary_Operate& i) { return "Binary " + N(int(i.op)); }
    std::string operator()(const bms::ins::Call& i) { return "Call " + N(i64(i.address)); }
    std::string operator()(const bms::ins::Builtin_Call& i) { return "Builtin " + N(int(i.function)); }
};
using Code_State = std::vector<std::string>;
Code_State read(const std::pmr::vector<bms::Instruction>& v)
{
    Code_State r;
    for (auto& i : v) {
        const auto& base = bms::detail::to_base(i);
        r.push_back(bm::visit([](const auto& x) { return Show_Ins()(x); }, i) + (base.debug_info.pos ? " " + show_pos(*base.debug_info.pos) : ""));
    }
    return r;
}
std::string show(const Code_State& c)
{
    std::string r;
    for (auto& s : c) r += s + "; ";
    return r;
}

struct Program {
    std::string source;
    Sim_Resource mem, tmp;
    std::optional<std::pmr::vector<bms::Token>> tokens;
    std::optional<bms::Parsed_Program> parsed;
    std::optional<bms::Analyzed_Program> analyzed;
    std::vector<const bms::ast::Some_Node*> functions;
    bool load()
    {
        try {
            {
                Sut s;
                tokens.emplace(&mem);
                if (!bms::tokenize(*tokens, source)) return false;
                parsed.emplace(source, &mem);
                if (!bms::parse(*parsed, *tokens)) return false;
                analyzed.emplace(*parsed, "file.bms", &mem);
                g_cycles = 0;
                g_cycle_limit = 100'000;
                if (!bms::analyze(*analyzed, *parsed, &tmp)) return false;
            }
            auto add = [&](auto& self, const bms::ast::Some_Node* n) -> void {
                auto* f = bm::get_if<bms::ast::Function>(n);
                if (!f) return;
                if (!f->is_generic && f->analysis_so_far >= bm::Analysis_Level::full) functions.push_back(n);
                for (auto& i : f->instances) self(self, i.handle);
            };
            for (auto* child : bms::ast::get_children(*analyzed->get_root())) add(add, child);
            return true;
        } catch (...) { // an internal error or an endless computation
            Harness h;
            return false;
        }
    }
    ~Program()
    {
        Sut s;
        analyzed.reset();
        parsed.reset();
        tokens.reset();
    }
};

constexpr bmd::Code_Language languages[] { bmd::Code_Language::bms, bmd::Code_Language::c, bmd::Code_Language::cpp };

bmd::Code_Options options_of(i64 n)
{
    bmd::Code_Options o;
    if (n & 1) { o.indent_char = '\t'; o.indent_size = 1; }
    o.brace_style = bmd::Brace_Style(n >> 1 & 3 ? (n >> 1 & 3) - 1 : 0);
    o.break_after_function = n >> 3 & 1;
    o.break_after_if = n >> 4 & 1;
    o.always_parenthesize_subexpressions = n >> 5 & 1;
    o.c_23 = n >> 6 & 1;
    o.c_prefer_bitint = (n >> 6 & 3) == 3;
    return o;
}

Plan generate(Rng& r, u64)
{
    Plan p;
    const int programs = 1 + int(r.below(3));
    for (int i = 0; i < programs; ++i) {
        std::string src = r.chance(1, 3) ? r.pick(corpus_bms()) : gen_bms_text(r, 1 + int(r.below(7)));
        // widths beyond 128 have no C type: such programs make the generators fail
        if (r.chance(1, 4)) src += r.chance(1, 2) ? "\nfunction wide() -> Int { let a: Int = 1; let b: Uint(113) = 5; return a; }\n" : "\nfunction wide(x: Uint(77), y: Bool) -> Uint(77)\n{\n    if y {\n        while x < 4 { x = x + 1; }\n        return x;\n    }\n    return x;\n}\n";
        p.add("program", { src });
    }
    for (int n = 20 + int(r.below(50)); n > 0; --n) {
        std::vector<std::string> fault;
        if (r.chance(3, 5)) fault = { N(r.range(0, 999)), N(r.chance(2, 3) ? 1 : r.range(2, 9)), N(r.chance(1, 2) ? 0 : r.range(1, 2)) };
        std::vector<std::string> a;
        switch (r.below(12)) {
        case 0:
            a = { N(r.range(0, 1)), N(r.range(0, 40)), N(r.range(0, 12)) };
            p.add("raw", a);
            break;
        case 1:
            a = { N(r.range(0, 1)), N(r.range(0, 999)) };
            p.add("cut", a);
            break;
        case 2: case 3: case 4: case 5: case 6:
            a = { N(r.range(0, programs - 1)), N(r.range(0, 20)), N(r.range(0, 1)) };
            a.insert(a.end(), fault.begin(), fault.end());
            p.add("code", a);
            break;
        default:
            a = { N(r.range(0, programs - 1)), N(r.range(0, 2)), N(r.range(0, 255)), N(r.range(0, 1)) };
            a.insert(a.end(), fault.begin(), fault.end());
            p.add("text", a);
        }
    }
    return p;
}

enum Ended { ok, error, internal, oom };
template <typename F> Ended run(F&& f)
{
    try {
        Sut s;
        return f() ? ok : error;
    } catch (const bm::Assertion_Error&) {
        return internal;
    } catch (const std::bad_alloc&) {
        return oom;
    }
}
const char* ended_name(Ended e)
{
    static const char* n[] = { "success", "an error", "an internal error", "out of memory" };
    return n[e];
}

Outcome execute(const Plan& p)
{
    Outcome o;
    std::vector<std::unique_ptr<Program>> programs;
    doing("compiling the programs");
    for (const Line* l : p.all("program")) {
        auto x = std::make_unique<Program>();
        x->source = l->str(0);
        if (x->load()) programs.push_back(std::move(x));
    }
    if (programs.empty()) { o.sig = "none"; return o; }
    struct Reference { Ended ended; Text_State text; Code_State code; u64 attempts[3]; };
    std::map<std::string, Reference> refs;
    Sim_Resource out_mem;
    bmd::Code_String text[2] { bmd::Code_String(&out_mem), bmd::Code_String(&out_mem) };
    std::pmr::vector<bms::Instruction> code[2] { std::pmr::vector<bms::Instruction>(&out_mem), std::pmr::vector<bms::Instruction>(&out_mem) };
    u64 faults = 0, failures = 0, successes = 0;
    std::string sig;
    int k = 0;
    for (const Line& l : p.lines) {
        if (o.violation) break;
        ++k;
        if (l.key == "raw") {
            bmd::Code_String& c = text[l.num(0) & 1];
            Sut s;
            if (l.num(1) == 0) c.append('x', bmd::Code_Span_Type(u64(l.num(2)) % 10));
            else if (l.num(1) < 20) c.append(std::string_view("abcdefghijklmnopqrstuvwxyz").substr(0, std::size_t(l.num(1))), bmd::Code_Span_Type(u64(l.num(2)) % 10));
            else c.append(bm::Size(l.num(1)) - 19, '\n');
            code[l.num(0) & 1].push_back(bms::ins::Push { {}, bms::Concrete_Value { bms::Concrete_Type::Int, bm::Big_Int(l.num(2)) } });
            continue;
        }
        if (l.key == "cut") {
            bmd::Code_String& c = text[l.num(0) & 1];
            auto len = c.get_length();
            // to a position where no span is cut
            std::size_t spans = len.span_count * std::size_t(u64(l.num(1)) % 1000) / 1000;
            Text_State st = read(c);
            len.text_length = spans == len.span_count ? len.text_length : spans == 0 ? 0 : st.spans[spans - 1].begin + st.spans[spans - 1].length;
            len.span_count = spans;
            Sut s;
            c.resize(len);
            continue;
        }
        if (l.key != "text" && l.key != "code") continue;
        Program& pr = *programs[u64(l.num(0)) % programs.size()];
        const bool is_text = l.key == "text";
        if (!is_text && pr.functions.empty()) continue;
        const bmd::Code_Language lang = languages[u64(l.num(1)) % 3];
        const bms::ast::Some_Node* fn = is_text ? nullptr : pr.functions[u64(l.num(1)) % pr.functions.size()];
        const bmd::Code_Options opts = options_of(l.num(2));
        auto do_text = [&](bmd::Code_String& c) { return run([&] { return bool(bmd::generate_code(c, *pr.analyzed, lang, opts)); }); };
        auto do_code = [&](std::pmr::vector<bms::Instruction>& v) { return run([&] { return bool(bms::generate_code(v, fn)); }); };
        const std::string key = l.key + " " + show_pointer(&pr) + " " + (is_text ? N(int(lang)) + " " + N(l.num(2)) : show_pointer(fn));
        const std::string where = is_text ? std::string("text:") + std::string(bmd::code_language_name(lang)) : "instructions";
        auto it = refs.find(key);
        if (it == refs.end()) {
            doing("undisturbed generation of " + where);
            Reference r;
            const u64 a1 = heap_attempts(own_heap), a2 = heap_attempts(own_resource);
            if (is_text) {
                bmd::Code_String c(&out_mem);
                r.ended = do_text(c);
                r.text = read(c);
                if (r.ended != ok && r.ended != internal && (!r.text.text.empty() || !r.text.spans.empty()))
                    fail(o, "left-behind@" + where, "a failed generation into an empty output left something behind: " + quote(r.text.text.substr(0, 200)));
            }
            else {
                std::pmr::vector<bms::Instruction> v(&out_mem);
                r.ended = do_code(v);
                r.code = read(v);
                if (r.ended != ok && r.ended != internal && !r.code.empty())
                    fail(o, "left-behind@" + where, "a failed generation into an empty output left something behind: " + show(r.code).substr(0, 300));
            }
            r.attempts[1] = heap_attempts(own_heap) - a1;
            r.attempts[2] = heap_attempts(own_resource) - a2;
            r.attempts[0] = r.attempts[1] + r.attempts[2];
            it = refs.emplace(key, std::move(r)).first;
        }
        const Reference& ref = it->second;
        if (ref.ended == internal) continue;
        const int scope = l.args.size() > 5 ? int(l.num(is_text ? 6 : 5)) % 3 : 0;
        const std::size_t fa = is_text ? 4 : 3;
        bool armed = l.args.size() > fa && ref.attempts[scope] != 0;
        bmd::Code_String& tc = text[l.num(is_text ? 3 : 2) & 1];
        auto& cc = code[l.num(is_text ? 3 : 2) & 1];
        const Text_State t0 = is_text ? read(tc) : Text_State();
        const Code_State c0 = is_text ? Code_State() : read(cc);
        doing("generation of " + where + ", operation " + N(k));
        if (armed) heap_arm(1 + u64(l.num(fa)) * ref.attempts[scope] / 1000, u64(std::max<i64>(1, l.num(fa + 1))), scope);
        const Ended e = is_text ? do_text(tc) : do_code(cc);
        const u64 hit = armed ? heap_disarm() : 0;
        faults += hit != 0;
        count("allocation failure during generation", hit);
        (e == ok ? successes : failures)++;
        if (e == error) count("generation ended with an error");
        const Text_State t1 = is_text ? read(tc) : Text_State();
        const Code_State c1 = is_text ? Code_State() : read(cc);
        const std::string what = "operation " + N(k) + " (" + where + ", ended with " + ended_name(e) + ")";
        g_log.add(where + " " + ended_name(e) + " hit " + N(i64(hit)) + " " + N(i64(t1.text.size())) + " " + N(i64(c1.size())));
        if (hit == 0 && e != ref.ended) fail(o, "outcome-differs@" + where, what + ": into an empty output it ends with " + ended_name(ref.ended));
        if (hit && e != oom && e != ref.ended) fail(o, "outcome-differs@" + where, what + ": after a failed allocation");
        if (e == ok) {
            if (is_text) {
                const Text_State want = concat(t0, ref.text);
                if (want.show() != t1.show()) fail(o, "wrong-append@" + where, what + ": " + first_difference(want.show(), t1.show()));
            }
            else {
                Code_State want = c0;
                want.insert(want.end(), ref.code.begin(), ref.code.end());
                if (want != c1) fail(o, "wrong-append@" + where, what + ": " + first_difference(show(want), show(c1)));
            }
        }
        else if (is_text ? t0.show() != t1.show() : c0 != c1)
            fail(o, "not-restored@" + where, what + ": " + (is_text ? first_difference(t0.show(), t1.show()) : first_difference(show(c0), show(c1))));
        if (!heap_errors().empty()) fail(o, "heap-misuse@" + where, heap_errors());
        sig += char((is_text ? 'a' : 'k') + int(e) + (hit ? 4 : 0));
    }
    o.nontrivial = successes != 0 && failures != 0;
    o.sig = sig + hex64(hash_bytes(programs[0]->source));
    return o;
}
SIM_REGISTER({ "P11", generate, execute });
} // namespace
} // namespace sim
