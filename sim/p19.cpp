// P19: HTML output is well-formed, and the text of a document is only ever text, also of damaged documents.
#include "jobs.hpp"
#include "storage.hpp"
#include "sut.hpp"
#include "bmd/directive_type.hpp"
#include "bmd/html/bms_to_html.hpp"
#include "bmd/html/doc_to_html.hpp"
#include "bmd/parsing/ast.hpp"
#include "bmd/parsing/parse.hpp"
#include "common/assert.hpp"
#include <algorithm>
#include <cstring>
#include <memory>
#include <optional>
#include <stdexcept>

namespace sim {
namespace bm = bit_manipulation;
namespace bmd = bit_manipulation::bmd;
namespace ast = bit_manipulation::bmd::ast;
namespace {

bool space(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
bool name_char(char c) { return isalnum(u8(c)) || c == '-' || c == '_'; }

// What a reader of a page finds: elements with their attributes, and text.
// "<name", "@key=value" (sorted), "/name", "T" + text without white space; within code only text.
struct Page {
    std::vector<std::string> events;
    std::vector<std::string> code;  // the text of code blocks, with white space
    void text(std::string_view s)
    {
        std::string t;
        for (char c : s) if (!space(c)) t += c;
        if (t.empty()) return;
        if (!events.empty() && events.back()[0] == 'T') events.back() += t;
        else events.push_back("T" + t);
    }
    void open(const std::string& name, std::vector<std::pair<std::string, std::string>> attributes = {})
    {
        events.push_back("<" + name);
        std::sort(attributes.begin(), attributes.end());
        for (auto& [k, v] : attributes) events.push_back("@" + k + "=" + v);
    }
    void close(const std::string& name) { events.push_back("/" + name); }
};

// A strict reader of HTML. `complete`: the page must be finished; otherwise it may end anywhere.
struct Reader {
    std::string_view s;
    bool complete;
    Page page;
    std::string error;
    std::size_t i = 0;
    std::vector<std::string> open;
    int code = 0;

    bool bad(const std::string& what)
    {
        if (error.empty()) error = what + " at " + N(i64(i)) + ": " + quote(std::string(s.substr(i > 60 ? i - 60 : 0, 120)));
        return false;
    }
    bool end() { return i >= s.size(); }
    // (a prefix may end in the middle of anything)
    bool expect(std::string_view t)
    {
        if (s.substr(i).starts_with(t)) { i += t.size(); return true; }
        if (!complete && t.starts_with(s.substr(i))) { i = s.size(); return false; }
        return bad("there should be " + quote(std::string(t)));
    }
    std::string name()
    {
        std::string n;
        while (!end() && name_char(s[i])) n += s[i++];
        if (n.empty() && (complete || !end())) bad("there is no name");
        return n;
    }
    void tag()
    {
        ++i;
        if (end()) { if (complete) bad("unfinished tag"); return; }
        if (s[i] == '/') {
            ++i;
            const std::string n = name();
            if (!error.empty() || !expect(">")) return;
            if (open.empty() || open.back() != n) { bad("the element " + n + " is closed, but " + (open.empty() ? "none" : open.back()) + " is open"); return; }
            open.pop_back();
            if (code && (n == "code" || n == "pre")) --code;
            if (!code) page.close(n);
            return;
        }
        const std::string n = name();
        std::vector<std::pair<std::string, std::string>> attributes;
        while (error.empty() && !end() && s[i] == ' ') {
            ++i;
            std::string k = name(), v;
            for (auto& a : attributes) if (a.first == k) { bad("the attribute " + k + " is there twice"); return; }
            if (!end() && s[i] == '=') {
                ++i;
                if (!end() && s[i] == '"') {
                    ++i;
                    while (!end() && s[i] != '"') v += s[i++];
                    if (!expect("\"")) return;
                }
                else {
                    while (!end() && !space(s[i]) && s[i] != '>' && !s.substr(i).starts_with("/>")) {
                        if (strchr("\"'=<`", s[i])) { bad("the value of the attribute " + k + " is not quoted"); return; }
                        v += s[i++];
                    }
                    if (v.empty() && (complete || !end())) { bad("the attribute " + k + " has no value"); return; }
                }
            }
            attributes.push_back({ k, v });
        }
        if (!error.empty()) return;
        if (end()) { if (complete) bad("unfinished tag"); return; }
        const bool empty = s[i] == '/';
        if (!expect(empty ? "/>" : ">")) return;
        if (!code) page.open(n, attributes);
        if (empty) { if (!code) page.close(n); return; }
        open.push_back(n);
        if (n == "code" || n == "pre") {
            if (!code) page.code.emplace_back();
            ++code;
        }
    }
    bool read(bool fragment)
    {
        if (!expect("<!DOCTYPE html>")) return error.empty();
        while (error.empty() && !end()) {
            if (s[i] == '<') { tag(); continue; }
            if (s[i] == '>') { bad("a bracket that is not escaped"); break; }
            std::size_t e = std::min(s.find_first_of("<>", i), s.size());
            page.text(s.substr(i, e - i));
            if (code || fragment) { if (page.code.empty()) page.code.emplace_back(); page.code.back() += s.substr(i, e - i); }
            i = e;
        }
        if (error.empty() && complete && !open.empty()) bad("the element " + open.back() + " is not closed");
        return error.empty();
    }
};

std::string escape(std::string_view s, bool quotes = false)
{
    std::string t;
    for (char c : s) {
        if (quotes) t += c == '"' ? "&quot;" : std::string(1, c);
        else t += c == '<' ? "&lt;" : c == '>' ? "&gt;" : std::string(1, c);
    }
    return t;
}
// Lines without white space at their ends, without empty lines at the beginning and end.
std::string layout(std::string_view s)
{
    std::string out, line;
    auto flush = [&] {
        while (!line.empty() && space(line.back())) line.pop_back();
        out += line;
        line.clear();
    };
    for (char c : s) {
        if (c == '\n') { flush(); out += '\n'; }
        else line += c;
    }
    flush();
    while (!out.empty() && space(out.back())) out.pop_back();
    std::size_t b = 0;
    while (b < out.size() && space(out[b])) ++b;
    return out.substr(b);
}

// What the page of a document must be.
struct Expectation {
    Page page;
    bool known = true; // false: contains what is not implemented
    using Arguments = std::vector<std::pair<std::string, std::string>>;

    static Arguments arguments(const ast::Directive& d)
    {
        Arguments a;
        for (auto& [k, v] : d.m_arguments) {
            if (auto* id = bm::get_if<ast::Identifier>(&v)) a.push_back({ std::string(k), std::string(id->get_value()) });
            else if (auto* n = bm::get_if<ast::Number>(&v)) a.push_back({ std::string(k), std::to_string(n->get_value()) });
        }
        return a;
    }
    void text(const ast::Text& t) { page.text(escape(t.get_text())); }
    void block(const ast::Some_Node* n)
    {
        if (!n) return;
        if (auto* t = bm::get_if<ast::Text>(n)) { text(*t); return; }
        if (auto* l = bm::get_if<ast::List>(n)) list(*l);
    }
    void list(const ast::List& l)
    {
        for (auto* n : l.get_children()) {
            if (auto* d = bm::get_if<ast::Directive>(n)) directive(*d);
            else if (auto* t = bm::get_if<ast::Text>(n)) text(*t);
        }
    }
    void content(const ast::List& l)
    {
        for (auto* n : l.get_children()) {
            if (auto* p = bm::get_if<ast::List>(n)) {
                page.open("p");
                list(*p);
                page.close("p");
            }
            else if (auto* d = bm::get_if<ast::Directive>(n)) directive(*d);
        }
    }
    void directive(const ast::Directive& d)
    {
        const std::string id(d.get_identifier());
        static const std::vector<std::string> same { "b", "br", "del", "h1", "h2", "h3", "h4", "h5", "h6", "hr", "i", "kbd", "ol", "q", "s", "sub", "sup", "tt", "u", "ul" };
        const Arguments args = arguments(d);
        if (std::find(same.begin(), same.end(), id) != same.end()) {
            page.open(id, args);
            block(d.get_block());
            page.close(id);
        }
        else if (id == "instruction") {
            std::string arch = "x86", ext;
            for (auto& [k, v] : args) if (k == "arch") arch = v; else if (k == "ext") ext = v;
            std::string t;
            if (auto* b = d.get_block()) if (auto* x = bm::get_if<ast::Text>(b)) t = x->get_text();
            const bool link = arch == "x86" || arch == "x86_64" || arch == "x86-64";
            if (link) page.open("a", { { "href", escape("https://www.felixcloutier.com/x86/" + t, true) } });
            page.open("code");
            page.text(escape(t));
            page.code.emplace_back(); // (its layout is not kept)
            page.close("code");
            if (link) page.close("a");
            if (!ext.empty()) { page.open("sup"); page.text(ext); page.close("sup"); }
        }
        else if (id == "codeblock") {
            page.open("pre");
            std::string t;
            if (auto* b = d.get_block()) if (auto* x = bm::get_if<ast::Text>(b)) t = x->get_text();
            page.text(escape(t));
            page.code.push_back(escape(t));
            page.close("pre");
        }
        else if (id == "meta") {
            if (!d.get_block()) return;
            if (auto* l = bm::get_if<ast::List>(d.get_block()))
                for (auto* n : l->get_children())
                    if (auto* m = bm::get_if<ast::Directive>(n); m && m->get_identifier() == "title") {
                        page.open("h1", arguments(*m));
                        block(m->get_block());
                        page.close("h1");
                    }
        }
        else { known = false; page.events.push_back("?"); }
    }
};

Plan generate(Rng& r, u64)
{
    Plan p;
    Job_Spec s = gen_job(r, r.chance(1, 6) ? 100 : 0);
    if (s.kind == "bmd" && r.chance(2, 3)) {
        // text that looks like markup, at places that may or may not be text
        static const std::vector<std::string> odd { "<b>", "</p>", "</body></html>", "<!--", "-->", "\"", "'", "<script>", "a<b", "a>b", "&lt;", "&", "=", "`", " > ", "<", ">", "\\sup{2}", "\\sub{<}", "\\instruction{a\"b}", "\\instruction{<x y>}", "<<>", "><<x", "\\sup[n=5000000000]{3}", "\\sub[m=0xffffffffff, id=0]{x}", "\\sup[n=-1]{3}",
            "\\instruction[ext=bmi]{\"}", "\\i[a=1,b=x]{\"<}", "\\u[z=0x10]", "\\b{}", "\\br{}", "\\br[a=b]", "\\h2[id=x]{<}", "\n\n\\codeblock{\n  a < b; /* <\n   x */ \"s<\n  t\" // > \n   }\n", "\n\n\\codeblock[lang=plain]{\n <pre>\n  </pre> \"x\"\n}\n\n", "\\del[onclick=f]{x}" };
        for (u64 n = 1 + r.below(6); n > 0; --n) {
            std::size_t at = r.below(s.source.size() + 1);
            if (r.chance(2, 3)) at = std::min(s.source.find_first_of(" \n", at), s.source.size()); // between words
            const std::string& t = r.pick(odd);
            s.source.insert(at, r.chance(1, 2) ? " " + t + " " : t);
        }
        if (r.chance(1, 5)) s.source = "\\meta{ \\title" + std::string(r.chance(1, 2) ? "[id=t]" : "") + "{" + r.pick(odd) + "} \\bmsfun{f} }\n\n" + s.source;
    }
    plan_job(p, "job", s);
    if (r.chance(2, 3)) plan_damage(r, p, s);
    else p.add("disk", { "" });
    for (int n = 3 + int(r.below(10)); n > 0; --n) {
        std::vector<std::string> a { N(r.range(0, 9)), N(r.range(0, 999)), N(r.chance(1, 2) ? 0 : r.range(1, 7)) };
        for (i64 x : { r.range(0, 1010), r.range(0, 3), r.range(0, 2) }) a.push_back(N(x));
        p.add("convert", a);
    }
    return p;
}

Outcome execute(const Plan& p)
{
    Outcome o;
    const Line* jl = p.find("job");
    Job_Spec s;
    if (!jl || !plan_read_job(*jl, s)) return o;
    const bool program = s.kind == "bms";
    struct Version {
        std::string source;
        Sim_Resource mem;
        std::optional<bmd::Parsed_Document> doc;
        Expectation want;
        bool tabs = false;
        u64 calls = 40, attempts[3] { 60, 30, 30 };
    };
    std::vector<std::unique_ptr<Version>> versions;
    auto add = [&](std::string source) {
        if (source.size() > 20000) return;
        auto v = std::make_unique<Version>();
        v->source = std::move(source);
        v->tabs = v->source.find_first_of("\t\r") != std::string::npos;
        if (!program) {
            doing("parsing");
            set_step_limit(steps() + 30'000'000 + 5'000 * v->source.size(), "parsing");
            try {
                Sut sut;
                auto r = bmd::parse(v->source, &v->mem);
                if (r) v->doc = *r;
            } catch (const bm::Assertion_Error&) {
                Harness h;
                count("document not parsed: internal error");
            }
            if (!v->doc) { count("document not parsed"); v->mem.release(); return; }
            if (v->doc->root_node) v->want.content(bm::get<ast::List>(*v->doc->root_node));
        }
        versions.push_back(std::move(v));
    };
    add(s.source);
    std::string t = s.source;
    for (const Line* d : p.all("damage")) {
        damage(t, *d, p.str("disk"));
        add(t);
    }
    std::reverse(versions.begin(), versions.end());
    u64 completed = 0, cut = 0;
    std::string sig;
    for (const Line* l : p.all("convert")) {
        if (versions.empty() || o.violation) break;
        Version& v = *versions[u64(std::max<i64>(0, l->num(0))) % versions.size()];
        const u64 options = u64(l->num(1));
        const int fault = int(l->num(2));
        static constexpr std::string_view sheets[] { "/css/code.css", "/css/\"main\".css", "a=b", "x`y<z", "x y.css" };
        bmd::Document_Options opt { .indent_width = options % 5, .stylesheets = std::span<const std::string_view>(sheets, options >> 3 & 7 ? (options >> 3 & 7) % 6 : 0) };
        Html_Faults f;
        if (fault == 1 || fault == 2) f.at.push_back({ u64(l->num(3)) * v.calls / 1000, int(l->num(4)) });
        Html_Collector c;
        c.faults = &f;
        Sim_Resource tmp;
        int status = 0; // 0 success, 1 diagnostic, 2 internal error, 3 exception, 4 program that is not one
        const int scope = int(u64(l->num(5)) % 3);
        doing("conversion");
        set_step_limit(steps() + 50'000'000 + 10'000 * v.source.size(), "conversion");
        const u64 a1 = heap_attempts(own_heap), a2 = heap_attempts(own_resource);
        if (fault == 3) heap_arm(1 + u64(l->num(3)) * v.attempts[scope] / 1000, 1 + u64(l->num(4)), scope);
        try {
            Sut sut;
            if (program) {
                bmd::HTML_Writer w(c, options % 5);
                w.write_preamble();
                auto r = bmd::bms_inline_code_to_html(w, v.source, &tmp);
                if (!r) status = r.error().is_tokenize_error() ? 4 : 0;
            }
            else {
                auto r = bmd::doc_to_html(c, *v.doc, opt, &tmp);
                if (!r) status = 1;
            }
        } catch (const bm::Assertion_Error&) {
            status = 2;
        } catch (const std::bad_alloc&) {
            status = 3;
        } catch (const Consumer_Failure&) {
            status = 3;
        } catch (const std::runtime_error&) {
            status = 3;
        }
        const bool oom = fault == 3 && heap_disarm() != 0;
        if (oom) count("allocation failure during a conversion");
        if (fault != 3) {
            v.calls = std::max<u64>(1, c.calls);
            v.attempts[1] = heap_attempts(own_heap) - a1;
            v.attempts[2] = heap_attempts(own_resource) - a2;
            v.attempts[0] = v.attempts[1] + v.attempts[2];
        }
        const bool refused = c.first_failure >= 0;
        if (refused) count("HTML write failed");
        static const char* names[] { "converted", "ended with a diagnostic", "ended with an internal error", "ended with an exception", "not tokens" };
        count(names[status]);
        const bool whole = (status == 0 || status == 4) && !refused && !oom;
        (whole ? completed : cut)++;
        g_log.add(std::string(names[status]) + " " + N(i64(c.text.size())));
        sig += char('a' + status + (refused ? 5 : 0));
        const std::string where = "\n--- document\n" + v.source + "\n--- output\n" + c.text;
        Reader reader { c.text, whole, {}, {}, 0, {}, 0 };
        if (!reader.read(program)) { fail(o, "malformed", std::string(names[status]) + ": " + reader.error + where); break; }
        Page& got = reader.page;
        if (program) {
            if (!whole) continue;
            auto squeeze = [](std::string t) { std::erase_if(t, space); return t; };
            if (std::string a = squeeze(escape(v.source)), b = squeeze(got.code.empty() ? "" : got.code[0]); a != b) fail(o, "other-text", "the code is shown as another text: " + first_difference(a, b) + where);
            else if (!v.tabs && status == 0) {
                const std::string a = layout(escape(v.source)), b = layout(got.code.empty() ? "" : got.code[0]);
                if (a != b) fail(o, "other-text", "the code is shown as another text: " + first_difference(a, b) + where);
            }
            continue;
        }
        // The beginning and end of the page, and between them the document.
        Page want;
        want.open("html");
        want.open("head");
        for (auto& x : opt.stylesheets) { want.open("link", { { "rel", "stylesheet" }, { "href", escape(x, true) } }); want.close("link"); }
        want.close("head");
        want.open("body");
        want.events.insert(want.events.end(), v.want.page.events.begin(), v.want.page.events.end());
        want.close("body");
        want.close("html");
        if (whole && !v.want.known) continue;
        const std::size_t n = std::min(got.events.size(), want.events.size());
        for (std::size_t k = 0; k < n && !o.violation; ++k) {
            if (got.events[k] == want.events[k]) continue;
            if (want.events[k] == "?" && !whole) { got.events.resize(k); break; } // (what is not implemented ends with an internal error)
            // (what is not complete may end within a text)
            if (!whole && got.events[k][0] == 'T' && want.events[k].starts_with(got.events[k]) ) { if (k + 1 < got.events.size()) fail(o, "other-page", "text is lost" + where); break; }
            fail(o, "other-page", "the page has " + quote(got.events[k]) + " where the document has " + quote(want.events[k]) + where);
        }
        if (o.violation) break;
        if (got.events.size() > want.events.size() || (whole && got.events.size() != want.events.size())) { fail(o, "other-page", "the page has " + N(i64(got.events.size())) + " parts, the document " + N(i64(want.events.size())) + where); break; }
        if (whole && !v.tabs) {
            for (std::size_t k = 0; k < std::min(got.code.size(), v.want.page.code.size()); ++k) {
                const std::string a = layout(v.want.page.code[k]), b = layout(got.code[k]);
                if (a != b && !a.empty()) {
                    fail(o, "other-layout", "code is laid out differently: " + first_difference(a, b) + where);
                    break;
                }
            }
        }
    }
    for (auto& v : versions) v->mem.release();
    if (!heap_errors().empty()) fail(o, "heap-misuse", heap_errors());
    o.nontrivial = completed != 0 && (cut != 0 || !p.all("damage").empty());
    o.sig = sig + hex64(g_log.h);
    return o;
}
SIM_REGISTER({ "P19", generate, execute });
} // namespace
} // namespace sim
