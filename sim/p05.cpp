// P05: a failing HTML output never yields a silently incomplete document.
#include "jobs.hpp"
#include "sut.hpp"
#include "bmd/html/bms_to_html.hpp"
#include "bmd/html/doc_to_html.hpp"
#include "bmd/parsing/ast.hpp"
#include "bmd/parsing/parse.hpp"
#include "cli/glue.hpp"
#include "common/diagnostics.hpp"
#include <algorithm>
#include <optional>
#include <sstream>
#include <stdexcept>

namespace sim {
namespace bm = bit_manipulation;
namespace bmd = bit_manipulation::bmd;
namespace {

// What became of one conversion.
struct Conversion {
    // 0 success, 1 error, 2 internal error, 3 bad_alloc, 4 consumer exception, 5 runtime_error
    int status = 0;
    std::string detail;
    Html_Collector c;      // direct consumer
    std::string bytes;     // what the stream buffer accepted before its first failure
    bool stream_failed = false, refused = false;
    u64 calls = 0;         // writes (direct) or operations of the stream buffer
    const char* name() const
    {
        static const char* n[] = { "success", "an error", "an internal error", "bad_alloc", "the consumer's exception", "runtime_error" };
        return n[status];
    }
};

// The stream buffer under the consumers of the command-line tool. Fault: from the operation with number
// `at`, `burst` operations are cut short, fail or throw.
struct Faulty_Buf final : std::streambuf {
    const Html_Faults* faults = nullptr;
    std::string text;
    u64 ops = 0;
    bool failed = false;
    int check(std::streamsize n, std::streamsize& take)
    {
        const u64 i = ops++;
        take = n;
        if (faults)
            for (auto& [at, mode] : faults->at) {
                if (mode == 1 ? i < at : i != at) continue;
                failed = true;
                if (mode >= 2) { count("stream buffer throws"); if (mode == 2) throw std::bad_alloc(); if (mode == 3) throw Consumer_Failure(); throw std::runtime_error("sink"); }
                count("stream buffer fails");
                take = n / 2;
                return -1;
            }
        return 0;
    }
    int_type overflow(int_type ch) override
    {
        Harness h;
        std::streamsize take;
        const bool before = failed;
        if (check(1, take) < 0) return traits_type::eof();
        if (ch != traits_type::eof() && !before) text += char(ch);
        return 0;
    }
    std::streamsize xsputn(const char* s, std::streamsize n) override
    {
        Harness h;
        std::streamsize take;
        const bool before = failed;
        if (n == 0) return 0; // nothing that could fail
        check(n, take);
        if (!before) text.append(s, std::size_t(take));
        return take;
    }
};

struct Setup {
    std::string source;
    u64 options = 0;
    int kind = 0; // 0 collector, 1 simple consumer on a stream, 2 coloured consumer on a stream, 3 inline code
    Sim_Resource mem, tmp;
    std::optional<bmd::Parsed_Document> doc;

    template <typename F> void guarded(Conversion& v, F&& f)
    {
        try {
            f();
        } catch (const bm::Assertion_Error& e) {
            v.status = 2;
            v.detail = std::string(e.message);
        } catch (const std::bad_alloc&) {
            v.status = 3;
        } catch (const Consumer_Failure&) {
            v.status = 4;
        } catch (const std::runtime_error&) {
            v.status = 5;
        }
    }
    void convert(Conversion& v, const Html_Faults* faults)
    {
        static constexpr std::string_view sheets[] { "/css/code.css", "/css/main.css", "/x.css" };
        bmd::Document_Options o { .indent_width = options % 5, .stylesheets = std::span<const std::string_view>(sheets, options >> 3 & 3) };
        std::optional<bmd::Document_Error> err;
        if (kind == 0) {
            v.c.faults = faults;
            guarded(v, [&] {
                Sut s;
                auto r = bmd::doc_to_html(v.c, *doc, o, &tmp);
                if (!r) err = r.error();
            });
            v.bytes = v.c.text;
            v.refused = v.c.first_failure >= 0;
            v.calls = v.c.calls;
        }
        else if (kind == 3) {
            v.c.faults = faults;
            guarded(v, [&] {
                Sut s;
                bmd::HTML_Writer w(v.c, options % 5);
                auto r = bmd::bms_inline_code_to_html(w, source, &tmp);
                if (!r) { v.status = 1; }
            });
            v.bytes = v.c.text;
            v.refused = v.c.first_failure >= 0;
            v.calls = v.c.calls;
        }
        else {
            Faulty_Buf buf;
            buf.faults = faults;
            std::ostream out(&buf);
            bm::Simple_HTML_Consumer simple(out);
            bm::Colored_HTML_Consumer coloured(out);
            bmd::HTML_Token_Consumer& c = kind == 1 ? static_cast<bmd::HTML_Token_Consumer&>(simple) : coloured;
            guarded(v, [&] {
                Sut s;
                auto r = bm::write_html(c, *doc, &tmp);
                if (!r) err = r.error();
            });
            v.bytes = buf.text;
            v.stream_failed = !out;
            v.refused = buf.failed;
            v.calls = buf.ops;
        }
        if (err) { v.status = 1; v.detail = "code " + N(int(err->code)) + " " + show_pos(err->pos); }
    }
    std::string fingerprint()
    {
        if (!doc) return "";
        Sink_Buf b;
        std::ostream out(&b);
        {
            Sut s;
            bm::print_ast(out, *doc, { .indent_width = 1, .max_node_text_length = 50, .colors = false });
        }
        return b.text;
    }
};

Plan generate(Rng& r, u64)
{
    Plan p;
    const int kind = r.chance(1, 2) ? 0 : r.chance(1, 8) ? 3 : r.chance(1, 2) ? 1 : 2;
    std::string src;
    if (kind == 3) src = r.chance(1, 2) ? gen_bms_text(r, 2) : "x + 0x1f";
    else src = r.chance(2, 3) ? gen_bmd(r, 1 + int(r.below(16))) : r.pick(corpus_bmd());
    p.add("input", { N(kind), N(i64(r.below(1000))), src });
    for (int n = 16 + int(r.below(32)); n > 0; --n) {
        std::vector<std::string> a;
        // position in thousandths of the writes of the undisturbed conversion (or counted from the start)
        for (u64 k = r.chance(1, 4) ? 2 + r.below(3) : 1; k > 0; --k) {
            a.push_back(r.chance(1, 3) ? N(-r.range(1, 60)) : N(r.range(0, 1010)));
            a.push_back(N(r.range(0, 4)));
        }
        p.add("convert", a);
    }
    return p;
}

Outcome execute(const Plan& p)
{
    Outcome o;
    const Line* in = p.find("input");
    if (!in) return o;
    Setup s;
    s.kind = int(in->num(0)) & 3;
    s.options = u64(in->num(1));
    s.source = in->str(2);
    static const char* kinds[] = { "doc_to_html", "write_html to a stream", "write_html in colour", "inline code" };
    const std::string where = kinds[s.kind];
    doing("parsing");
    if (s.kind != 3) {
        bool ok = false;
        try {
            Sut x;
            auto r = bmd::parse(s.source, &s.mem);
            if (r) { s.doc = *r; ok = true; }
        } catch (const bm::Assertion_Error&) {
        }
        if (!ok) { o.sig = "rejected"; s.mem.release(); return o; }
    }
    doing("undisturbed conversion");
    Conversion ref;
    s.convert(ref, nullptr);
    if (ref.refused || ref.stream_failed) fail(o, "stream-failed-without-fault@" + where, "the stream failed although the sink accepted everything");
    const std::string before = s.fingerprint();
    std::string sig = where + N(ref.status);
    u64 fired = 0;
    int k = 0;
    for (const Line* l : p.all("convert")) {
        Html_Faults f;
        for (std::size_t i = 0; i + 1 < l->args.size(); i += 2) {
            i64 at = l->num(i);
            f.at.push_back({ at < 0 ? u64(-at - 1) : u64(at) * ref.calls / 1000, int(l->num(i + 1)) });
        }
        doing(where + " with faults, number " + N(k));
        Conversion v;
        s.convert(v, &f);
        g_log.add(where + " -> " + v.name() + " " + v.detail + " after " + N(i64(v.bytes.size())));
        const std::string what = "conversion " + N(k) + " (" + where + ")";
        if (v.refused) ++fired;
        if (!v.refused && (v.status != ref.status || v.bytes != ref.bytes || v.detail != ref.detail))
            fail(o, "differs-without-fault@" + where, what + ": no failure was injected, but it ended with " + std::string(v.name()) + " " + v.detail + " instead of " + ref.name() + " " + first_difference(ref.bytes, v.bytes));
        if (v.refused) {
            const bool threw = v.c.thrown != 0;
            // inline code is written to a writer that has no way to report rejected tokens
            if (v.status == 0 && (s.kind != 3 || threw))
                fail(o, "incomplete-success@" + where, what + ": a write failed, but the conversion reports success");
            if (v.status == 2 && ref.status != 2)
                fail(o, "internal-error@" + where, what + ": a write failed, and the conversion ends with an internal error: " + v.detail);
            if (v.status >= 3 && !threw && s.kind != 1 && s.kind != 2)
                fail(o, "foreign-exception@" + where, what + ": ended with " + std::string(v.name()) + ", which the consumer did not throw");
            if (v.bytes.size() > ref.bytes.size() || ref.bytes.compare(0, v.bytes.size(), v.bytes) != 0)
                fail(o, "not-a-prefix@" + where, what + ": what was accepted before the failure is not a prefix of the undisturbed output: " + first_difference(ref.bytes, v.bytes));
            if (s.kind == 0 && ref.c.tokens.compare(0, v.c.tokens.size(), v.c.tokens) != 0)
                fail(o, "not-a-prefix@" + where, what + ": the tokens accepted before the failure are not a prefix of the undisturbed ones");
        }
        if (s.tmp.live != 0) fail(o, "temporary-memory-kept@" + where, what + ": " + N(i64(s.tmp.live)) + " blocks of temporary memory were not returned");
        if (std::string now = s.fingerprint(); now != before) fail(o, "document-changed@" + where, what + ": " + first_difference(before, now));
        if (!heap_errors().empty()) fail(o, "heap-misuse@" + where, heap_errors());
        if (o.violation) break;
        sig += char('0' + v.status);
        ++k;
    }
    doing("conversion after the failures");
    if (!o.violation) {
        Conversion v;
        s.convert(v, nullptr);
        if (v.status != ref.status || v.bytes != ref.bytes || v.c.tokens != ref.c.tokens || v.detail != ref.detail)
            fail(o, "later-conversion-differs@" + where, "after failures of the output, an undisturbed conversion gives something else: " + first_difference(ref.bytes, v.bytes));
    }
    s.mem.release();
    o.nontrivial = fired != 0;
    o.sig = sig + hex64(hash_bytes(ref.bytes));
    return o;
}
SIM_REGISTER({ "P05", generate, execute });
} // namespace
} // namespace sim
