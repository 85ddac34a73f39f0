#include "jobs.hpp"
#include "run.hpp"
#include <cstdio>
#include <cstring>
#include <optional>
#include <ostream>
#include <stdexcept>
#include <sys/mman.h>
#include <sys/wait.h>
#include <typeinfo>
#include <unistd.h>

#include "bmd/codegen/code_language.hpp"
#include "bmd/codegen/code_span_type.hpp"
#include "bmd/codegen/code_string.hpp"
#include "bmd/codegen/codegen.hpp"
#include "bmd/html/bms_to_html.hpp"
#include "bmd/html/doc_to_html.hpp"
#include "bmd/html/html_writer.hpp"
#include "bmd/html/token_consumer.hpp"
#include "bmd/parsing/ast.hpp"
#include "bmd/parsing/parse.hpp"
#include "bms/analyze.hpp"
#include "bms/analyzed_program.hpp"
#include "bms/ast.hpp"
#include "bms/basic_diagnostic_consumer.hpp"
#include "bms/instantiate.hpp"
#include "bms/parsing/parse.hpp"
#include "bms/tokenization/token.hpp"
#include "bms/tokenization/token_type.hpp"
#include "bms/tokenization/tokenize.hpp"
#include "bms/vm/codegen.hpp"
#include "bms/vm/vm.hpp"
#include "cli/glue.hpp"
#include "common/diagnostics.hpp"
#include "common/io.hpp"
#include "common/io_error.hpp"

#include "sut.hpp"

namespace sim {
namespace bm = bit_manipulation;
namespace bms = bit_manipulation::bms;
namespace bmd = bit_manipulation::bmd;

const char* status_name(Status s)
{
    switch (s) {
    case Status::ok: return "ok";
    case Status::diagnostic: return "diagnostic";
    case Status::internal: return "internal error";
    case Status::out_of_memory: return "out of memory";
    case Status::endless: return "endless computation";
    case Status::other: return "other exception";
    }
    return "?";
}

Sink_Buf::int_type Sink_Buf::overflow(int_type c)
{
    Harness h;
    if (c != traits_type::eof()) text += char(c);
    return 0;
}
std::streamsize Sink_Buf::xsputn(const char* s, std::streamsize n)
{
    Harness h;
    text.append(s, std::size_t(n));
    return n;
}

// ---------------------------------------------------------------- showing values (always as harness)
std::string show_pos(const bm::Local_Source_Position& p)
{
    return N(i64(p.line)) + ":" + N(i64(p.column)) + "@" + N(i64(p.begin));
}
std::string show_type(bms::Concrete_Type t)
{
    switch (t.type()) {
    case bms::Type_Type::Void: return "Void";
    case bms::Type_Type::Bool: return "Bool";
    case bms::Type_Type::Int: return "Int";
    case bms::Type_Type::Uint: return "Uint(" + N(t.width()) + ")";
    }
    return "?";
}
std::string show_int(bm::Big_Int v)
{
    if (v == 0) return "0";
    bool neg = v < 0;
    unsigned __int128 u = neg ? -static_cast<unsigned __int128>(v) : static_cast<unsigned __int128>(v);
    std::string r;
    while (u) { r.insert(r.begin(), char('0' + int(u % 10))); u /= 10; }
    return neg ? "-" + r : r;
}
std::string show_value(const bms::Concrete_Value& v) { return show_type(v.type) + " " + show_int(v.int_value); }
std::string show_value(const bms::Value& v)
{
    return v.is_known() ? show_value(v.concrete_value()) : show_type(v.get_type()) + " unknown";
}
static std::string show_info(const bms::Debug_Info& d)
{
    std::string r = "construct" + N(int(d.construct));
    if (d.pos) r += " " + show_pos(*d.pos) + " in " + std::string(d.pos->file_name);
    return r + " '" + std::string(d.name) + "'";
}
std::string show_failure(const bms::Comparison_Failure& f)
{
    return show_value(f.left) + " op" + N(int(f.op)) + " " + show_value(f.right);
}
std::string show_error(const bms::Analysis_Error& e)
{
    std::string r = std::string(bms::analysis_error_code_name(e.code()));
    if (e.code() == bms::Analysis_Error_Code::evaluation_error)
        r += " " + std::string(bms::evaluation_error_code_name(e.evaluation_error()));
    if (e.code() == bms::Analysis_Error_Code::execution_error)
        r += " " + std::string(bms::execution_error_code_name(e.execution_error()));
    r += " fail " + show_info(e.fail());
    if (auto c = e.cause()) r += " cause " + show_info(*c);
    if (auto c = e.comparison_failure()) r += " comparison " + show_failure(*c);
    if (auto v = e.value()) r += " value " + show_value(*v);
    if (auto t = e.type()) r += " type " + show_type(*t);
    return r;
}
std::string show_error(const bms::Execution_Error& e)
{
    std::string r = std::string(bms::execution_error_code_name(e.code));
    if (e.code == bms::Execution_Error_Code::evaluation)
        r += " " + std::string(bms::evaluation_error_code_name(e.evaluation_error));
    r += " at " + show_info(e.debug_info);
    if (e.comparison_failure) r += " comparison " + show_failure(*e.comparison_failure);
    return r;
}
std::string show_spans(const bmd::Code_String& c)
{
    std::string r(c.get_text());
    r += "\n<spans>";
    for (bmd::Code_String_Span s : c) r += " " + N(i64(s.begin)) + "+" + N(i64(s.length)) + "t" + N(int(s.type));
    return r;
}

const Html_Faults* g_html_faults = nullptr;
char* g_text_slab = nullptr;
bool Html_Collector::write(char c, bmd::HTML_Token_Type t) { return add(std::string_view(&c, 1), t); }
bool Html_Collector::write(char c, bm::Size n, bmd::HTML_Token_Type t)
{
    Harness h;
    if (n > (u64(1) << 26)) report_hang("enormous HTML token");
    return add(std::string(n, c), t);
}
bool Html_Collector::write(std::string_view s, bmd::HTML_Token_Type t) { return add(s, t); }
bool Html_Collector::add(std::string_view s, bmd::HTML_Token_Type t)
{
    Harness h;
    const u64 n = calls++;
    if (faults)
        for (auto& [at, mode] : faults->at) {
            if (mode == 1 ? n < at : n != at) continue;
            if (first_failure < 0) first_failure = i64(n);
            if (mode >= 2) {
                ++thrown;
                count("HTML write throws");
                if (mode == 2) throw std::bad_alloc();
                if (mode == 3) throw Consumer_Failure();
                throw std::runtime_error("consumer");
            }
            ++rejected;
            count("HTML write rejected");
            return false;
        }
    if (first_failure >= 0) { later += s; return true; }
    text += s;
    tokens += char('a' + int(t));
    tokens += N(i64(s.size()));
    ends.push_back(text.size());
    return true;
}

u64 g_cycle_limit = 0, g_cycles = 0;
namespace { struct Endless { }; }
} // namespace sim

// Every step of a virtual machine is counted, so that a program that asks for an endless computation
// can be told from a compiler that hangs.
extern "C" {
#pragma GCC diagnostic ignored "-Wreturn-type-c-linkage"
using Cycle_Result = bit_manipulation::Result<void, bit_manipulation::bms::Execution_Error>;
[[gnu::weak]] Cycle_Result __real__ZN16bit_manipulation3bms15Virtual_Machine5cycleEv(bit_manipulation::bms::Virtual_Machine*);
Cycle_Result __wrap__ZN16bit_manipulation3bms15Virtual_Machine5cycleEv(bit_manipulation::bms::Virtual_Machine* vm)
{
    ++sim::g_cycles;
    if (sim::g_cycle_limit && sim::g_cycles > sim::g_cycle_limit) throw sim::Endless();
    return __real__ZN16bit_manipulation3bms15Virtual_Machine5cycleEv(vm);
}
}
namespace sim {

Stage_Result Job::run(int i)
{
    Stage_Result r;
    if (ended) return r;
    doing(spec.kind + " stage " + stage_name(i));
    g_cycles = 0;
    g_cycle_limit = 100'000;
    try {
        r.status = stage(i, r.text);
        if (r.status == Status::diagnostic) ended = needed(i);
    } catch (const bm::Assertion_Error& e) {
        r.status = Status::internal;
        r.text += "internal error: " + std::string(e.message) + " in " + e.location.function_name();
        ended = needed(i);
    } catch (const std::bad_alloc&) {
        r.status = Status::out_of_memory;
        r.text.clear();
    } catch (const Consumer_Failure&) {
        r.status = Status::other;
        r.text += "consumer failure";
        ended = needed(i);
    } catch (const Endless&) {
        r.status = Status::endless;
        r.text.clear();
        ended = true;
    } catch (const std::exception& e) {
        r.status = Status::other;
        r.text += std::string(typeid(e).name()) + ": " + e.what();
        ended = needed(i);
    }
    return r;
}

namespace {

// The source as a file, and what reading it back gives.
struct Stored_Text {
    int fd = -1;
    Stored_Text() = default;
    Stored_Text(const Stored_Text&) = delete;
    ~Stored_Text() { if (fd >= 0) close(fd); }
    std::string path(std::string_view text)
    {
        if (fd < 0) {
            fd = memfd_create("source", 0);
            for (std::size_t done = 0; fd >= 0 && done < text.size();) {
                const ssize_t n = write(fd, text.data() + done, text.size() - done);
                if (n <= 0) { std::fputs("cannot write\n", stderr); _exit(97); }
                done += std::size_t(n);
            }
            if (fd < 0) { std::fputs("memfd_create failed\n", stderr); _exit(97); }
        }
        return "/proc/self/fd/" + N(fd);
    }
};

} // namespace
std::ostream* g_shared_stream = nullptr;
namespace {

// Runs code of the repository that prints to a stream.
template <typename F>
std::string printed(F&& f)
{
    Sink_Buf buf;
    std::ostream own(&buf);
    own.imbue(std::locale::classic());
    std::ostream& out = g_shared_stream ? *g_shared_stream : own;
    if (g_shared_stream) {
        // (only the formatting that somebody left behind lasts)
        out.rdbuf(&buf);
        out.clear();
    }
    struct Detach { ~Detach() { if (g_shared_stream) g_shared_stream->rdbuf(nullptr); } } detach;
    {
        Sut s;
        f(out);
    }
    std::string r = std::move(buf.text);
    if (!out) r += "<stream failed>";
    return r;
}

// Reads the stored text with file_to_string, and a file that does not exist.
void load_text(std::string& out, Stored_Text& stored, std::string_view text, std::pmr::memory_resource* mem, bool colors)
{
    const std::string path = stored.path(text);
    {
        std::optional<bm::Result<std::pmr::string, bm::IO_Error_Code>> r;
        struct D { decltype(r)& x; ~D() { Sut s; x.reset(); } } d { r };
        { Sut s; r.emplace(bm::file_to_string(path, mem)); }
        if (*r) out = std::string_view(**r) == text ? "loaded" : "loaded something else: " + std::string(**r);
        else out = "not loaded: " + N(int(r->error()));
    }
    std::optional<bm::IO_Error_Code> err;
    {
        Sut s;
        auto r = bm::file_to_string("/nonexistent/file", mem);
        if (!r) err = r.error();
    }
    if (!err) out += "\nloaded what does not exist";
    else out += "\n" + printed([&](std::ostream& o) { bm::print_io_error(o, "/nonexistent/file", *err, colors); });
}

struct Bms_Job final : Job {
    enum S { load, html, tokenize, print_tokens, parse, print_ast, analyze, introspect, code_bms, code_c, code_cpp, code_c23, instantiate, reanalyze, introspect2, call, count };
    Stored_Text stored;
    // The objects are heap-allocated by the harness so that they can be destroyed as SUT code.
    std::optional<std::pmr::vector<bms::Token>> tokens;
    std::optional<bms::Parsed_Program> parsed;
    std::optional<bms::Analyzed_Program> analyzed;
    std::optional<bms::Virtual_Machine> vm;

    explicit Bms_Job(Job_Spec s) : Job(std::move(s)) { source_copy = spec.source; }
    ~Bms_Job() override { destroy(); }
    void destroy() override
    {
        Sut s;
        vm.reset();
        analyzed.reset();
        parsed.reset();
        tokens.reset();
    }
    int stages() const override { return count; }
    bool needed(int i) const override { return i != load && i != html; }
    const char* stage_name(int i) const override
    {
        static const char* n[] = { "load", "html", "tokenize", "print_tokens", "parse", "print_ast", "analyze", "introspect", "code_bms", "code_c", "code_cpp", "code_c23", "instantiate", "reanalyze", "introspect2", "call" };
        return n[i];
    }
    bool opt(int bit) const { return spec.options >> bit & 1; }

    std::string fingerprint(int i) override
    {
        std::string r { std::string_view(source_copy) };
        if (tokens && i > tokenize) for (auto& t : *tokens) r += show_token(t);
        if (parsed && i > parse) r += N(i64(parsed->get_node_count())) + printed([&](std::ostream& o) { bm::print_ast(o, *parsed, { .indent_width = 1, .colors = false }); });
        if (analyzed && i > analyze && i != instantiate && i != reanalyze) r += list_entities();
        return r;
    }
    static std::string show_token(const bms::Token& t)
    {
        return std::string(bms::token_type_name(t.type)) + " " + show_pos(t.pos) + "+" + N(i64(t.pos.length)) + "\n";
    }
    // Everything that introspection shows about the program.
    // (How far instances that came up during analysis were analysed is progress, not a result: no levels then.)
    std::string list_entities(bool levels = true)
    {
        std::string r;
        auto* root = analyzed->get_root();
        if (!root) return "no root";
        for (auto* child : bms::ast::get_children(*root)) {
            if (auto* c = bm::get_if<bms::ast::Const>(child)) {
                r += "const " + std::string(c->get_name()) + " = ";
                auto& v = bms::ast::get_const_value(*child);
                r += v ? show_value(*v) : "none";
                bool found;
                { Sut s; auto f = analyzed->find_global_constant(c->get_name()); found = bool(f); }
                r += found ? "\n" : " (not found by name)\n";
            }
            else if (auto* f = bm::get_if<bms::ast::Function>(child)) {
                r += show_function(*f, levels);
                bool found;
                { Sut s; auto g = analyzed->find_global_function(f->get_name()); found = bool(g); }
                r += found ? "\n" : " (not found by name)\n";
            }
            else if (auto* a = bm::get_if<bms::ast::Static_Assert>(child)) {
                auto& v = bms::ast::get_const_value(*child);
                r += "static_assert " + (v ? show_value(*v) : std::string("none")) + "\n";
                (void)a;
            }
        }
        return r;
    }
    static std::string show_function(const bms::ast::Function& f, bool levels = true)
    {
        std::string r = "function " + std::string(f.get_name()) + (f.is_generic ? " generic(" : "(");
        for (auto& p : f.get_parameters()) {
            auto t = p.get_type().concrete_type();
            r += (t ? show_type(*t) : "?") + " " + std::string(p.get_name()) + ", ";
        }
        r += ")";
        auto& v = f.const_value();
        r += v ? " -> " + show_value(*v) : "";
        if (levels) {
            r += " level" + N(int(f.analysis_so_far));
            if (f.vm_address != bms::ast::Function::invalid_vm_address) r += " vm";
        }
        for (auto& i : f.instances) {
            r += " instance<";
            for (int w : i.widths) r += N(w) + ",";
            r += "> " + show_function(bm::get<bms::ast::Function>(*i.handle), levels);
        }
        return r;
    }

    template <typename E>
    Status diagnose(std::string& out, const E& e, auto print)
    {
        out += show_diag(e) + "\n" + printed([&](std::ostream& o) { print(o, e); });
        return Status::diagnostic;
    }
    static std::string show_diag(const bms::Tokenize_Error& e) { return std::string(bms::name_of(e.code)) + " " + show_pos(e.pos); }
    static std::string show_diag(const bms::Parse_Error& e)
    {
        std::string r = "rule " + N(int(e.fail_rule)) + " token " + show_token(e.fail_token) + " expected";
        for (auto t : e.expected_tokens) r += " " + N(int(t));
        return r;
    }
    static std::string show_diag(const bms::Analysis_Error& e) { return show_error(e); }

    Status code(std::string& out, bmd::Code_Language lang, bool c23)
    {
        bmd::Code_Options o;
        if (opt(0)) { o.indent_char = '\t'; o.indent_size = 1; }
        o.brace_style = bmd::Brace_Style(spec.options >> 1 & 3 ? (spec.options >> 1 & 3) - 1 : 0);
        o.break_after_function = opt(3);
        o.break_after_if = opt(4);
        o.always_parenthesize_subexpressions = opt(5);
        o.c_23 = c23;
        o.c_prefer_bitint = c23 && opt(6);
        std::optional<bmd::Code_String> s;
        bool ok = true;
        bmd::Generator_Error err {};
        struct Destroy { std::optional<bmd::Code_String>& s; ~Destroy() { Sut x; s.reset(); } } destroy { s };
        {
            Sut x;
            s.emplace(&mem);
            auto r = bmd::generate_code(*s, *analyzed, lang, o);
            if (!r) { ok = false; err = r.error(); }
            else if (opt(46)) {
                bmd::Code_String other(opt(42) ? &hand : &mem);
                other = std::move(*s);
                bmd::Code_String third(other);
                *s = opt(44) ? std::move(other) : third;
            }
        }
        if (!ok) { out = "generator error " + N(int(err.code)); return Status::ok; }
        out = show_spans(*s);
        out += "\n" + printed([&](std::ostream& os) { bm::print_code_string(os, *s, opt(7)); });
        return Status::ok;
    }

    Status stage(int i, std::string& out) override
    {
        switch (i) {
        case tokenize: {
            if (opt(8)) {
                std::optional<bms::Basic_Diagnostic_Consumer> c;
                struct D { std::optional<bms::Basic_Diagnostic_Consumer>& c; ~D() { Sut s; c.reset(); } } d { c };
                { Sut s; c.emplace(); }
                bool ok;
                { Sut s; tokens.emplace(&mem); ok = bms::tokenize(*tokens, source_copy, *c); }
                if (!ok) {
                    if (c->tokenize_errors.size() != 1) { out = "no diagnostic"; return Status::diagnostic; }
                    return diagnose(out, c->tokenize_errors[0], [&](std::ostream& o, auto& e) { bm::print_tokenize_error(o, "file.bms", source_copy, e, opt(7)); });
                }
            }
            else {
                std::optional<bms::Tokenize_Error> err;
                { Sut s; tokens.emplace(&mem); auto r = bms::tokenize(*tokens, source_copy); if (!r) err = r.error(); }
                if (err) return diagnose(out, *err, [&](std::ostream& o, auto& e) { bm::print_tokenize_error(o, "file.bms", source_copy, e, opt(7)); });
            }
            for (auto& t : *tokens) out += show_token(t);
            return Status::ok;
        }
        case print_tokens:
            out = printed([&](std::ostream& o) { bm::print_tokens(o, *tokens, source_copy); });
            return Status::ok;
        case parse: {
            std::optional<bms::Parse_Error> err;
            if (opt(8) && !opt(40)) {
                std::optional<bms::Basic_Diagnostic_Consumer> c;
                struct D { std::optional<bms::Basic_Diagnostic_Consumer>& c; ~D() { Sut s; c.reset(); } } d { c };
                bool ok;
                { Sut s; c.emplace(); parsed.reset(); parsed.emplace(source_copy, &mem); ok = bms::parse(*parsed, *tokens, *c); }
                if (ok != c->parse_errors.empty()) out = "success and diagnostics";
                if (!ok && c->parse_errors.size() != 1) { out = "no diagnostic"; return Status::diagnostic; }
                if (!ok) err = c->parse_errors[0];
            }
            else {
                Sut s;
                parsed.reset();
                parsed.emplace(source_copy, &mem);
                if (opt(40)) {
                    // The result is handed over: moved out of and back into other objects.
                    std::pmr::memory_resource* const from = opt(42) ? &hand : &mem;
                    if (opt(43)) parsed.emplace(source_copy, from);
                    *parsed = bms::Parsed_Program(source_copy, opt(44) ? &mem : from);
                    bms::Parsed_Program other(source_copy, from);
                    auto r = bms::parse(other, *tokens);
                    if (!r) err = r.error();
                    bms::Parsed_Program third(std::move(other));
                    *parsed = std::move(third);
                    if (opt(45)) {
                        // (an object that was moved from has nothing to give, but the target lets go of what it has)
                        bms::Parsed_Program fourth(source_copy, from);
                        fourth = std::move(third);
                    }
                }
                else {
                    auto r = bms::parse(*parsed, *tokens);
                    if (!r) err = r.error();
                }
            }
            if (err) return diagnose(out, *err, [&](std::ostream& o, auto& e) { bm::print_parse_error(o, "file.bms", source_copy, e, opt(7)); });
            out = N(i64(parsed->get_node_count()));
            return Status::ok;
        }
        case print_ast:
            out = printed([&](std::ostream& o) { bm::print_ast(o, *parsed, { .indent_width = opt(9) ? 2 : 4, .colors = opt(7) }); });
            return Status::ok;
        case analyze: {
            std::optional<bms::Analysis_Error> err;
            if (opt(8) && !opt(41)) {
                std::optional<bms::Basic_Diagnostic_Consumer> c;
                struct D { std::optional<bms::Basic_Diagnostic_Consumer>& c; ~D() { Sut s; c.reset(); } } d { c };
                bool ok;
                { Sut s; c.emplace(); analyzed.reset(); analyzed.emplace(*parsed, "file.bms", &mem); ok = bms::analyze(*analyzed, *parsed, &tmp, *c); }
                if (ok != c->analysis_errors.empty()) out = "success and diagnostics";
                if (!ok && c->analysis_errors.size() != 1) { out = "no diagnostic"; return Status::diagnostic; }
                if (!ok) err = c->analysis_errors[0];
            }
            else {
                Sut s;
                analyzed.reset();
                analyzed.emplace(*parsed, "file.bms", &mem);
                if (opt(41)) {
                    // (moved before the analysis, too)
                    std::pmr::memory_resource* const from = opt(42) ? &hand : &mem;
                    bms::Analyzed_Program other(*parsed, "file.bms", from);
                    *analyzed = std::move(other);
                    auto r = bms::analyze(*analyzed, *parsed, &tmp);
                    if (!r) err = r.error();
                    bms::Analyzed_Program third(std::move(*analyzed));
                    *analyzed = bms::Analyzed_Program(*parsed, "other.bms", opt(45) ? from : &mem);
                    *analyzed = std::move(third);
                    if (opt(43)) {
                        bms::Analyzed_Program fourth(*parsed, "fourth.bms", from);
                        fourth = std::move(other);
                        other = std::move(third);
                    }
                }
                else {
                    auto r = bms::analyze(*analyzed, *parsed, &tmp);
                    if (!r) err = r.error();
                }
            }
            if (err) return diagnose(out, *err, [&](std::ostream& o, auto& e) { bm::print_analysis_error(o, *parsed, e, opt(7)); });
            return Status::ok;
        }
        case introspect:
        case introspect2: out = list_entities(i == introspect); return Status::ok;
        case code_bms: return code(out, bmd::Code_Language::bms, false);
        case code_c: return code(out, bmd::Code_Language::c, false);
        case code_cpp: return code(out, bmd::Code_Language::cpp, false);
        case code_c23: return code(out, bmd::Code_Language::c, true);
        case instantiate: {
            // Every generic function, explicitly, with two sets of widths.
            for (auto* child : bms::ast::get_children(*analyzed->get_root())) {
                auto* f = bm::get_if<bms::ast::Function>(child);
                if (!f || !f->is_generic) continue;
                for (int w : { int(2 + (spec.options >> 10) % 60), 8 }) {
                    std::optional<bms::Analysis_Error> err;
                    {
                        Sut s;
                        auto r = bms::instantiate_function(*analyzed, &tmp, child, *f, w);
                        if (!r) err = r.error();
                    }
                    if (err) out += "refused: " + show_error(*err) + "\n";
                }
            }
            out += list_entities();
            return Status::ok;
        }
        case reanalyze: {
            // Analyses the explicit instances (everything else is already analysed).
            std::optional<bms::Analysis_Error> err;
            {
                Sut s;
                auto r = bms::analyze_semantics(*analyzed, &tmp);
                if (!r) err = r.error();
            }
            if (err) return diagnose(out, *err, [&](std::ostream& o, auto& e) { bm::print_analysis_error(o, *parsed, e, opt(7)); });
            return Status::ok;
        }
        case call: {
            // Calls compiled functions on a machine of its own.
            { Sut s; if (!vm) vm.emplace(&mem); vm->clear(); }
            bool have = false;
            {
                Sut s;
                if (analyzed->get_vm().instruction_count() != 0) {
                    vm->add_instructions(analyzed->get_vm().instructions());
                    have = true;
                }
            }
            if (!have) return Status::ok;
            Rng rng(spec.options);
            for (auto* child : bms::ast::get_children(*analyzed->get_root())) {
                auto* f = bm::get_if<bms::ast::Function>(child);
                if (!f) continue;
                call_function(*f, rng, out);
                for (auto& inst : f->instances) call_function(bm::get<bms::ast::Function>(*inst.handle), rng, out);
            }
            return Status::ok;
        }
        case html: {
            Html_Collector c;
            std::string err;
            {
                Sut s;
                bmd::HTML_Writer w(c, 2);
                w.write_preamble();
                auto r = bmd::bms_inline_code_to_html(w, source_copy, &tmp);
                if (!r) { Harness h; err = r.error().is_tokenize_error() ? "tokenize error" : "parse error"; }
            }
            out = c.text + "\n" + c.tokens + "\n" + err;
            return Status::ok;
        }
        case load: load_text(out, stored, spec.source, &mem, opt(7)); return Status::ok;
        }
        return Status::ok;
    }
    void call_function(const bms::ast::Function& f, Rng& rng, std::string& out)
    {
        if (f.is_generic || f.vm_address == bms::ast::Function::invalid_vm_address) return;
        std::vector<bms::Concrete_Value> args;
        for (auto& p : f.get_parameters()) {
            auto t = p.get_type().concrete_type();
            if (!t) return;
            u64 v = rng.next() >> (rng.next() % 60);
            if (*t == bms::Concrete_Type::Bool) v &= 1;
            else if (t->is_uint() && t->width() < 64) v &= (u64(1) << t->width()) - 1;
            else if (!t->is_uint()) v &= 0xff;
            args.push_back({ *t, bm::Big_Int(v) });
        }
        out += "call " + std::string(f.get_name());
        for (auto& a : args) out += " " + show_value(a);
        bool finished = false;
        std::optional<bms::Execution_Error> err;
        {
            Sut s;
            vm->reset();
            vm->jump_to(f.vm_address);
            for (auto& a : args) vm->push(a);
            for (int n = 0; n < 3000 && !finished; ++n) {
                auto r = vm->cycle();
                if (!r) { err = r.error(); finished = true; }
            }
        }
        if (!finished) { out += " unfinished\n"; return; }
        out += " -> " + show_error(*err) + " stack" + N(i64(vm->stack_size()));
        if (err->code == bms::Execution_Error_Code::pop_call && vm->stack_size() == 1) {
            bms::Concrete_Value v;
            { Sut s; v = vm->pop(); }
            out += " value " + show_value(v);
        }
        out += "\n";
    }
};

struct Bmd_Job final : Job {
    enum S { parse, print_ast, html, html2, load, count };
    Stored_Text stored;
    std::optional<bmd::Parsed_Document> doc;
    explicit Bmd_Job(Job_Spec s) : Job(std::move(s)) { source_copy = spec.source; nodes_reclaimed_by_release = true; }
    ~Bmd_Job() override { destroy(); }
    void destroy() override { doc.reset(); }
    int stages() const override { return count; }
    const char* stage_name(int i) const override
    {
        static const char* n[] = { "parse", "print_ast", "html", "html2", "load" };
        return n[i];
    }
    bool opt(int bit) const { return spec.options >> bit & 1; }
    std::string fingerprint(int i) override
    {
        std::string r { std::string_view(source_copy) };
        if (doc && i > parse) r += printed([&](std::ostream& o) { bm::print_ast(o, *doc, { .indent_width = 1, .max_node_text_length = 30, .colors = false }); });
        return r;
    }
    Status convert(std::string& out, bmd::Document_Options o)
    {
        Html_Collector c;
        std::optional<bmd::Document_Error> err;
        {
            Sut s;
            auto r = bmd::doc_to_html(c, *doc, o, &tmp);
            if (!r) err = r.error();
        }
        out = c.text + "\n" + c.tokens;
        if (err) {
            out += "\nerror " + N(int(err->code)) + " " + show_pos(err->pos) + "\n";
            out += printed([&](std::ostream& o) { bm::print_document_error(o, "file.bmd", source_copy, *err, opt(7)); });
        }
        return Status::ok;
    }
    Status stage(int i, std::string& out) override
    {
        switch (i) {
        case parse: {
            std::optional<bmd::Parse_Error> err;
            doc.reset();
            {
                Sut s;
                auto r = bmd::parse(source_copy, &mem);
                if (r) doc = *r;
                else err = r.error();
            }
            if (err) {
                out = "error " + N(int(err->code)) + " rule " + N(int(err->rule)) + " " + show_pos(err->pos) + "\n";
                out += printed([&](std::ostream& o) { bm::print_parse_error(o, "file.bmd", source_copy, *err, opt(7)); });
                return Status::diagnostic;
            }
            return Status::ok;
        }
        case print_ast:
            out = printed([&](std::ostream& o) { bm::print_ast(o, *doc, { .indent_width = opt(9) ? 2 : 4, .max_node_text_length = opt(8) ? 10 : 40, .colors = opt(7) }); });
            return Status::ok;
        case html: {
            static constexpr std::string_view sheets[] { "/css/code.css", "/css/main.css" };
            return convert(out, { .indent_width = opt(0) ? 2u : 4u, .stylesheets = opt(1) ? std::span<const std::string_view>(sheets) : std::span<const std::string_view>() });
        }
        case html2: return convert(out, { .indent_width = 0, .stylesheets = {} });
        case load: load_text(out, stored, spec.source, &mem, opt(7)); return Status::ok;
        }
        return Status::ok;
    }
};

} // namespace

std::unique_ptr<Job> make_job(const Job_Spec& s)
{
    if (s.kind == "bmd") return std::make_unique<Bmd_Job>(s);
    return std::make_unique<Bms_Job>(s);
}

std::string run_whole_job(const Job_Spec& s)
{
    auto j = make_job(s);
    std::string r;
    for (int i = 0; i < j->stages() && !j->ended; ++i)
        r += std::string("== ") + j->stage_name(i) + "\n" + j->run(i).show() + "\n";
    j->destroy();
    if (j->nodes_reclaimed_by_release) j->mem.release();
    return r;
}

bool in_fresh_process(const std::function<std::string()>& f, std::string& result)
{
    int fd[2];
    if (pipe(fd) != 0) { std::fputs("pipe failed\n", stderr); _exit(97); }
    pid_t pid = fork();
    if (pid == 0) {
        close(fd[0]);
        close(2);
        std::string r = f();
        g_sut = false;
        for (std::size_t done = 0; done < r.size();) {
            ssize_t n = write(fd[1], r.data() + done, r.size() - done);
            if (n <= 0) _exit(1);
            done += std::size_t(n);
        }
        _exit(0);
    }
    close(fd[1]);
    result.clear();
    char buf[65536];
    for (ssize_t n; (n = read(fd[0], buf, sizeof buf)) > 0;) result.append(buf, std::size_t(n));
    close(fd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    return WIFEXITED(st) && WEXITSTATUS(st) == 0;
}

void plan_job(Plan& p, const std::string& key, const Job_Spec& s) { p.add(key, { s.kind, N(i64(s.options >> 1)), s.source }); }
bool plan_read_job(const Line& l, Job_Spec& s)
{
    s.kind = l.str(0);
    s.options = u64(l.num(1)) << 1 | (u64(l.num(1)) >> 7 & 1);
    s.source = l.str(2);
    return s.kind == "bms" || s.kind == "bmd";
}
} // namespace sim
