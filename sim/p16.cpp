// P16: tokens partition the source text exactly, also of damaged and torn files.
#include "storage.hpp"
#include "sut.hpp"
#include "bms/tokenization/token.hpp"
#include "bms/tokenization/token_type.hpp"
#include "bms/tokenization/tokenize.hpp"
#include <cstring>
#include <optional>

namespace sim {
namespace bm = bit_manipulation;
namespace bms = bit_manipulation::bms;
namespace {

// --- reference: the lexical rules of the language ---------------------------------------------------
struct Tok { std::size_t begin, length, line; bms::Token_Type type; };
struct Reference { std::vector<Tok> tokens; bool ok = true; std::size_t stuck = 0; };

bool word(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_'; }
bool digit(char c, int base)
{
    if (c >= '0' && c <= '9') return c - '0' < base;
    return base == 16 && ((c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'));
}

Reference reference(std::string_view s)
{
    using enum bms::Token_Type;
    static const std::vector<std::pair<std::string_view, bms::Token_Type>> fixed {
        { "==", equals }, { "=>", double_right_arrow }, { "!=", not_equals }, { "<<", shift_left }, { "<=", less_or_equal }, { ">>", shift_right },
        { ">=", greater_or_equal }, { "&&", logical_and }, { "||", logical_or }, { "->", right_arrow },
        { "(", left_parenthesis }, { ")", right_parenthesis }, { "{", left_brace }, { "}", right_brace }, { "=", assign }, { "+", plus }, { "-", minus },
        { "*", multiplication }, { "/", division }, { "%", remainder }, { "<", less_than }, { ">", greater_than }, { "&", bitwise_and }, { "|", bitwise_or },
        { "~", bitwise_not }, { "^", bitwise_xor }, { "!", logical_not }, { ".", dot }, { ":", colon }, { ",", comma }, { "@", at }, { ";", semicolon } };
    static const std::map<std::string_view, bms::Token_Type> keywords {
        { "as", keyword_as }, { "let", keyword_let }, { "const", keyword_const }, { "function", keyword_function }, { "while", keyword_while }, { "if", keyword_if },
        { "else", keyword_else }, { "Uint", keyword_uint }, { "Int", keyword_int }, { "Bool", keyword_bool }, { "Void", keyword_void }, { "requires", keyword_requires },
        { "return", keyword_return }, { "break", keyword_break }, { "continue", keyword_continue }, { "true", keyword_true }, { "false", keyword_false },
        { "static_assert", keyword_static_assert } };
    Reference r;
    std::size_t i = 0, line = 0;
    while (true) {
        while (i < s.size() && (s[i] == ' ' || s[i] == '\t' || s[i] == '\r' || s[i] == '\n')) line += s[i++] == '\n';
        if (i == s.size()) return r;
        const std::string_view t = s.substr(i);
        std::size_t n = 0;
        bms::Token_Type type {};
        auto stuck = [&] { r.ok = false; r.stuck = i; return r; };
        if (t.starts_with("//")) { n = std::min(t.find('\n'), t.size()); type = line_comment; }
        else if (t.starts_with("/*")) {
            auto e = t.find("*/", 2);
            if (e == t.npos) return stuck();
            n = e + 2;
            type = block_comment;
        }
        else if (t[0] == '"') {
            n = 1;
            while (n < t.size() && t[n] != '"') n += t[n] == '\\' ? 2 : 1;
            if (n >= t.size()) return stuck();
            ++n;
            type = string_literal;
        }
        else if (digit(t[0], 10)) {
            int base = 10;
            std::size_t at = 0;
            type = decimal_literal;
            if (t.starts_with("0x")) { base = 16; at = 2; type = hexadecimal_literal; }
            else if (t.starts_with("0b")) { base = 2; at = 2; type = binary_literal; }
            else if (t[0] == '0') base = 8;
            n = at;
            while (n < t.size() && digit(t[n], base)) ++n;
            if (n == at) return stuck();
            if (base == 8 && n > 1) type = octal_literal;
            if (n < t.size() && word(t[n])) return stuck();
        }
        else if (word(t[0])) {
            while (n < t.size() && word(t[n])) ++n;
            auto k = keywords.find(t.substr(0, n));
            type = k == keywords.end() ? identifier : k->second;
        }
        else {
            for (auto& [name, ty] : fixed)
                if (t.starts_with(name)) { n = name.size(); type = ty; break; }
            if (!n) return stuck();
        }
        r.tokens.push_back({ i, n, line, type });
        line += std::size_t(std::count(t.begin(), t.begin() + long(n), '\n'));
        i += n;
    }
}

Plan generate(Rng& r, u64)
{
    Plan p;
    Job_Spec s = gen_job(r, 85);
    plan_job(p, "job", s);
    plan_damage(r, p, s);
    const i64 n = i64(std::max<std::size_t>(1, s.source.size()));
    for (u64 k = 4 + r.below(20); k > 0; --k) {
        std::vector<std::string> a { N(r.range(0, 3)), N(r.range(0, n)), N(r.chance(1, 3) ? n : r.range(0, n)) };
        if (r.chance(1, 3)) for (i64 x : { i64(r.range(0, 999)), i64(r.chance(2, 3) ? 1 : r.range(2, 5)), r.range(0, 2) }) a.push_back(N(x));
        p.add("read", a);
    }
    return p;
}

Outcome execute(const Plan& p)
{
    Outcome o;
    const Line* jl = p.find("job");
    Job_Spec s;
    if (!jl || !plan_read_job(*jl, s)) return o;
    // the versions of the file: as written, and after each fault
    std::vector<std::string> versions { s.source };
    for (const Line* d : p.all("damage")) {
        std::string t = versions.back();
        damage(t, *d, p.str("disk"));
        versions.push_back(t);
    }
    std::reverse(versions.begin(), versions.end());
    Sim_Resource mem;
    std::optional<std::pmr::vector<bms::Token>> kept(std::in_place, &mem);
    u64 accepted = 0, refused = 0, hits = 0;
    std::string sig;
    u64 attempts[3] { 10, 5, 5 };
    int k = 0;
    for (const Line& l : p.lines) {
        if (l.key != "read" || o.violation) continue;
        ++k;
        const std::string& v = versions[u64(std::max<i64>(0, l.num(0))) % versions.size()];
        // a torn read: from somewhere, or up to somewhere
        std::string text = v;
        if (k > 2) {
            const std::size_t cut = std::size_t(std::max<i64>(0, l.num(1))) % (v.size() + 1);
            const std::size_t len = std::size_t(std::max<i64>(0, l.num(2))) % (v.size() + 1);
            text = l.num(0) & 1 ? v.substr(cut, len) : v.substr(0, std::max(cut, len));
        }
        const Reference want = reference(text);
        doing("tokenizing");
        set_step_limit(steps() + 10'000'000 + 2'000 * text.size(), "tokenizing");
        // in memory of exactly its size
        char* raw = nullptr;
        { Sut sut; raw = new char[text.size()]; }
        std::memcpy(raw, text.data(), text.size());
        const bool fresh = l.num(0) & 2;
        std::optional<std::pmr::vector<bms::Token>> own;
        if (fresh) own.emplace(&mem);
        auto& out = fresh ? *own : *kept;
        const std::vector<bms::Token> before(out.begin(), out.end());
        const bool armed = l.args.size() > 5;
        const int scope = armed ? int(u64(l.num(5)) % 3) : 0;
        bool ok = false, oom = false;
        std::size_t at = 0;
        std::string code, internal;
        for (int tries = 0; tries < 2; ++tries) {
            oom = false;
            const u64 a1 = heap_attempts(own_heap), a2 = heap_attempts(own_resource);
            if (armed && tries == 0) heap_arm(1 + u64(l.num(3)) * attempts[scope] / 1000, u64(std::max<i64>(1, l.num(4))), scope);
            try {
                Sut sut;
                if (auto r = bms::tokenize(out, std::string_view(raw, text.size()))) ok = true;
                else at = r.error().pos.begin;
            } catch (const std::bad_alloc&) {
                oom = true;
            } catch (const bm::Assertion_Error& e) {
                Harness h;
                heap_disarm();
                internal = e.message;
            }
            if (armed && tries == 0) { const u64 n = heap_disarm(); hits += n != 0; count("allocation failure while tokenizing", n); }
            else { attempts[1] = heap_attempts(own_heap) - a1; attempts[2] = heap_attempts(own_resource) - a2; attempts[0] = attempts[1] + attempts[2]; }
            if (!oom) break;
            Sut sut;
            out.resize(before.size());
        }
        { Sut sut; delete[] raw; }
        const std::string where = "text " + quote(text.substr(0, 1500));
        g_log.add(std::string("read ") + (ok ? "ok " : oom ? "oom " : "refused ") + N(i64(out.size() - before.size())) + " " + N(i64(at)));
        sig += ok ? 'a' : oom ? 'o' : 'r';
        if (!internal.empty()) { fail(o, "internal-error", "internal error " + internal + " for the " + where); break; }
        if (oom) { fail(o, "out-of-memory", "memory runs out without a fault for the " + where); break; }
        (ok ? accepted : refused)++;
        if (ok != want.ok) { fail(o, ok ? "accepted" : "refused", std::string("the tokenizer ") + (ok ? "accepts" : "refuses") + " a text that " + (ok ? "has no token at " + N(i64(want.stuck)) : "is a sequence of tokens (refused at " + N(i64(at)) + ")") + ": " + where); break; }
        if (!ok && (at < want.stuck || at > text.size())) { fail(o, "refused-early", "the tokenizer refuses the text at " + N(i64(at)) + ", the tokens reach up to " + N(i64(want.stuck)) + ": " + where); break; }
        // what was there before stays
        if (out.size() < before.size() || !std::equal(before.begin(), before.end(), out.begin())) { fail(o, "not-appended", "tokens that were there before are changed by the " + where); break; }
        const std::size_t n = out.size() - before.size();
        if (ok && n != want.tokens.size()) { fail(o, "number", "the tokenizer finds " + N(i64(n)) + " tokens, there are " + N(i64(want.tokens.size())) + " in the " + where); break; }
        for (std::size_t i = 0; i < std::min(n, want.tokens.size()); ++i) {
            const bms::Token& t = out[before.size() + i];
            const Tok& w = want.tokens[i];
            if (t.pos.begin != w.begin || t.pos.length != w.length) { fail(o, "boundaries", "token " + N(i64(i)) + " is " + N(i64(t.pos.begin)) + "+" + N(i64(t.pos.length)) + ", in the language " + N(i64(w.begin)) + "+" + N(i64(w.length)) + ": " + where); break; }
            if (t.type != w.type) { fail(o, "kind", "token " + N(i64(i)) + " at " + N(i64(w.begin)) + " is of kind " + N(int(t.type)) + ", in the language " + N(int(w.type)) + ": " + where); break; }
            if (t.pos.line != w.line) { fail(o, "line", "token " + N(i64(i)) + " at " + N(i64(w.begin)) + " is in line " + N(i64(t.pos.line)) + ", it stands in line " + N(i64(w.line)) + ": " + where); break; }
        }
        if (!ok) { Sut sut; out.resize(before.size()); }
        if (out.size() > 20000) { Sut sut; out.clear(); }
        { Sut sut; own.reset(); }
        if (!heap_errors().empty()) fail(o, "heap-misuse", heap_errors());
    }
    { Sut sut; kept.reset(); }
    if (!o.violation && mem.live) fail(o, "leak", "tokens did not give back their memory");
    o.nontrivial = accepted && refused;
    o.sig = sig + hex64(hash_bytes(s.source)) + N(i64(hits));
    return o;
}
SIM_REGISTER({ "P16", generate, execute });
} // namespace
} // namespace sim
