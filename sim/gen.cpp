// Inputs: corpus, generated programs and documents, shape-preserving mutations.
#include "jobs.hpp"
#include "model.hpp"
#include <cctype>

namespace sim {

struct Corpus_Entry { const char* name; const char* text; std::size_t size; };
extern const Corpus_Entry corpus_data[]; // generated by the build; ends with a null name

static std::vector<std::string> load(std::string_view ext)
{
    std::vector<std::string> r;
    for (const Corpus_Entry* e = corpus_data; e->name; ++e)
        if (std::string_view(e->name).ends_with(ext)) r.emplace_back(e->text, e->size);
    return r;
}
const std::vector<std::string>& corpus_bms()
{
    static const std::vector<std::string> c = load(".bms");
    return c;
}
const std::vector<std::string>& corpus_bmd()
{
    static const std::vector<std::string> c = load(".bmd");
    return c;
}

namespace {
struct Doc_Gen {
    Rng& r;
    int budget;
    std::string word()
    {
        static const std::vector<std::string> w { "bit", "a", "the", "x", "&", "<b>", "\"q\"", "it's", "shift,", "count", "zero.", "N", "0x1f", "\\\\", "\\{", "\\}", "->", "/", "100%", "[x]", "=" };
        return r.pick(w);
    }
    static const std::vector<std::string>& mnemonics()
    {
        static const std::vector<std::string> v { "pext", "pdep", "andn", "tzcnt", "lzcnt", "blsr", "popcnt", "vpternlogd", "x" };
        return v;
    }
    static const std::vector<std::string>& archs()
    {
        static const std::vector<std::string> v { "x86", "x86", "arm", "x86_64", "mips", "risc_v", "ibm_z", "power", "sparc", "nope" };
        return v;
    }
    static const std::vector<std::string>& exts()
    {
        static const std::vector<std::string> v { "bmi1", "bmi2", "avx_512", "zbb" };
        return v;
    }
    std::string text(int n)
    {
        std::string s;
        for (int i = 0; i < n; ++i) {
            if (i) s += r.chance(1, 6) ? "\n" : " ";
            s += word();
        }
        return s;
    }
    std::string args()
    {
        if (!r.chance(1, 3)) return "";
        static const std::vector<std::string> a { "id=x", "class=note", "n=12", "h=0x1F", "o=017", "b=0b101", "title=t_1" };
        std::string s = "[";
        u64 used = 0;
        for (u64 n = r.below(3), i = 0; i <= n; ++i) {
            u64 k = r.below(a.size());
            if (!r.chance(1, 30)) while (used >> k & 1) k = r.below(a.size()); // (duplicates are errors)
            used |= u64(1) << k;
            s += (i ? r.chance(1, 2) ? ", " : "," : "") + a[k];
        }
        return s + "]";
    }
    std::string inl(int depth)
    {
        --budget;
        static const std::vector<std::string> d { "b", "i", "u", "s", "tt", "sub", "sup", "q", "kbd", "del" };
        switch (r.below(10)) {
        case 0:
            if (r.chance(1, 20)) return "\\c{" + code(false) + "}"; // (inline code is not implemented)
            return "\\br";
        case 1: return "\\instruction[ext=" + r.pick(exts()) + "]{" + r.pick(mnemonics()) + "}";
        case 2: return "\\instruction[arch=" + r.pick(archs()) + (r.chance(1, 2) ? ",ext=" + r.pick(exts()) : std::string()) + "]{" + r.pick(mnemonics()) + "}";
        case 3: return "\\br";
        default: break;
        }
        std::string s = "\\" + r.pick(d) + args() + "{";
        s += text(1 + int(r.below(4)));
        if (depth > 0 && r.chance(1, 3)) s += " " + inl(depth - 1) + (r.chance(1, 2) ? " " + text(2) : "");
        return s + "}";
    }
    std::string code(bool block)
    {
        if (!block) return r.chance(1, 2) ? "x + 0x1f" : "return f(x) if a else b;";
        static const std::vector<std::string> b {
            "\nfunction f(x: Uint(N)) -> Uint(N)\n{\n    // c\n    return x & 1;\n}\n",
            "\nconst a = 0b11;\n\n\nlet b: Int;\n",
            "\n/* c\n  d */ x // e\n",
            "\n    while x != 0 { x = x >> 1; }\n",
        };
        return r.pick(b);
    }
    std::string paragraph()
    {
        std::string s;
        for (u64 n = 1 + r.below(4), i = 0; i < n && budget > 0; ++i) {
            if (i) s += r.chance(1, 5) ? "\n" : r.chance(1, 8) ? "" : " ";
            if (r.chance(1, 2)) s += text(1 + int(r.below(6)));
            else s += inl(2);
            if (r.chance(1, 14)) s += " // comment\n";
            if (r.chance(1, 18)) s += " /* block\ncomment */";
        }
        return s;
    }
    std::string block()
    {
        --budget;
        switch (r.below(9)) {
        case 0: case 1: return "\\h" + N(r.range(1, 6)) + args() + "{" + text(2) + (r.chance(1, 3) ? " " + inl(1) : "") + "}";
        case 2: return "\\hr";
        case 3: {
            static const std::vector<std::string> l { "", "", "", "[lang=bms]", "[lang=bms]", "[lang=raw]", "[lang=text]", "[lang=nope]" };
            return "\\codeblock" + (r.chance(1, 24) ? std::string("[lang=rust]") : r.pick(l)) + "{" + code(true) + "}";
        }
        case 5: if (!r.chance(1, 12)) return paragraph(); return std::string(r.chance(1, 2) ? "\\ul{\n  \\item{" : "\\ol{\\item{") + text(2) + "}\n \\item{x}}";
        case 4: return "\\codeblock[lang=plain]{\n" + text(5) + "\n}";
        default: return paragraph();
        }
    }
};
} // namespace

std::string gen_bmd(Rng& r, int size)
{
    Doc_Gen g { r, size };
    std::string s;
    if (r.chance(1, 3)) s += std::string("\\meta{\n    \\title{") + (r.chance(1, 30) ? "" : g.text(2)) + "}\n" + (r.chance(1, 2) ? "    \\bmsfun{f}\n" : "") + (r.chance(1, 2) ? "    \\cequiv{x}\n" : "") + "}\n\n";
    while (g.budget > 0) {
        s += g.block();
        s += r.chance(1, 6) ? "\n \n\n" : "\n\n";
    }
    return s;
}

std::string gen_bms_text(Rng& r, int size)
{
    model::Gen_Options o;
    o.functions = 1 + size / 3;
    o.statements = 2 + size / 3;
    o.depth = 1 + int(r.below(3));
    o.failing = r.chance(1, 5);
    if (r.chance(1, 5)) o.recursion = 25;
    model::Program p = model::generate(r, o);
    if (r.chance(2, 3)) model::add_forces(r, p, r.chance(1, 2) ? 60 : 100);
    std::string src = model::to_source(p, r.next());
    if (!r.chance(1, 2)) return src;
    // decorate: annotations and comments, which have no meaning
    std::string out;
    for (std::size_t i = 0; i < src.size();) {
        std::size_t e = src.find('\n', i);
        if (e == std::string::npos) e = src.size() - 1;
        std::string line = src.substr(i, e + 1 - i);
        i = e + 1;
        std::size_t ind = line.find_first_not_of(' ');
        std::string_view t = ind == std::string::npos ? std::string_view() : std::string_view(line).substr(ind);
        std::string pad(ind == std::string::npos ? 0 : ind, ' ');
        if (r.chance(1, 4)) {
            if (t.starts_with("let ")) out += pad + (r.chance(1, 2) ? "@immutable\n" : "@loop_variable @inline_\n");
            if (t.starts_with("while ")) out += pad + (r.chance(1, 2) ? "@unroll(4)\n" : "@unroll(limit = 0x10)\n");
            if (t.starts_with("if ")) out += pad + "@false_if_unknown\n";
            if (t.starts_with("function ")) out += r.chance(1, 4) ? "@c_equivalent(\"f\", \"i.h\", since=23)\n" : r.chance(1, 2) ? "@c_equivalent(\"f\\\"\\\\\", \"a\\n\\\"\")\n" : "@java_equivalent(method=\"m\")\n@remove_if_unused\n";
        }
        if (r.chance(1, 14)) out += pad + "// " + std::string(r.below(20), 'c') + "\n";
        if (r.chance(1, 20)) out += pad + "/* block\n comment */\n";
        out += line;
    }
    return out;
}

// Changes numbers, some words of text and comparison operators, but not the shape. The result has the
// same length wherever possible, so that two jobs go through the same sequence of allocations.
std::string mutate_values(Rng& r, std::string s)
{
    // Other names, attributes and operators of the same length, consistently.
    auto all = [&](const std::string& a, const std::string& b) {
        for (std::size_t i = 0; (i = s.find(a, i)) != std::string::npos; i += b.size()) s.replace(i, a.size(), b);
    };
    static const std::vector<std::pair<std::string, std::string>> same_length {
        { "lang=bms", "lang=raw" }, { "lang=raw", "lang=bms" }, { "lang=plain", "lang=nopes" }, { "arch=x86", "arch=arm" }, { "arch=arm", "arch=x86" },
        { "ext=bmi1", "ext=bmi2" }, { "{pext}", "{pdep}" }, { "{tzcnt}", "{lzcnt}" }, { "{andn}", "{blsr}" }, { "{pdep}", "{andn}" },
        { " + ", " - " }, { " - ", " + " }, { " & ", " | " }, { " | ", " ^ " }, { " == ", " != " }, { " < ", " > " }, { " > ", " < " }, { " <= ", " >= " }, { " << ", " >> " },
        { " bit ", " but " }, { "count", "mount" }, { "zero.", "hero." },
    };
    if (r.chance(2, 3))
        for (u64 n = r.below(5); n > 0; --n) {
            auto& [a, b] = r.pick(same_length);
            all(a, b);
        }
    if (r.chance(1, 4)) {
        // the variables of a program: one letter followed by digits (see to_source)
        const char a = "vxypgf"[r.below(6)], b = "wzqmuk"[r.below(6)];
        for (std::size_t i = 0; i + 1 < s.size(); ++i)
            if (s[i] == a && std::isdigit(u8(s[i + 1])) && (i == 0 || !(std::isalnum(u8(s[i - 1])) || s[i - 1] == '_'))) s[i] = b;
    }
    for (std::size_t i = 0; i < s.size();) {
        if (std::isalpha(u8(s[i])) || s[i] == '_') {
            std::size_t b = i;
            while (i < s.size() && (std::isalnum(u8(s[i])) || s[i] == '_')) ++i;
            if (s.compare(b, i - b, "true") == 0 && r.chance(1, 3) ) { s.replace(b, 4, "false"); i = b + 5; }
            continue;
        }
        if (std::isdigit(u8(s[i]))) {
            std::size_t b = i;
            while (i < s.size() && std::isalnum(u8(s[i]))) ++i;
            if (i - b == 1 && r.chance(1, 2)) s[b] = char('0' + r.below(10));
            else if (i - b > 1 && s[b] != '0' && r.chance(1, 2)) s[i - 1] = char('0' + r.below(10));
            continue;
        }
        ++i;
    }
    return s;
}

// Declarations that fail while constants are evaluated, each in its own way.
static const std::vector<std::string>& failing_declarations()
{
    static const std::vector<std::string> v {
        "const zz = 1 / 0;", "const zz = 7 % (3 - 3);", "static_assert(1 / 0 == 1);", "const zz = 300 as Uint(8);", "const zz: Uint(3) = 8;", "const zz = -1 as Uint(4);",
        "const zz = (1 as Uint(8)) << 8;", "const zz = (1 as Uint(8)) >> 200;", "const zz = 1 << 200;", "const zz = 1 << -1;",
        "function zf(x: Int) -> Int { return 1 / x; } const zz = zf(0);",
        "function zf(x: Int) -> Int { assert(x == 1); return x; } const zz = zf(2);",
        "function zf(x: Int) -> Int { assert(x == 1); return x; } static_assert(zf(1) != 1);",
        "function zf(x: Uint(8), y: Uint(8)) -> Uint(8) { return x << y; } const zz = zf(1, 9);",
        "function zf(x: Int) -> Uint(4) { return x as Uint(4); } const zz = zf(17);",
        "function zf(x: Int) -> Int { let y: Int; if x == 3 { y = 4; } return y; } const zz = zf(1);",
        "function zf(x: Int) -> Int { while true { } return x; } const zz = zf(1);",
        "function zf(x: Uint(N)) -> Uint(N) { assert(x != x); return x; } const zz = zf(1 as Uint(5));",
        "function zf(x: Uint(N)) -> Uint(N) { return zg(x); } function zg(x: Uint(N)) -> Uint(N) { return x / (x - x); } const zz = zf(1 as Uint(5));",
        "function zf(x: Uint(N)) -> Uint(N) requires N < 4 { return x; } const zz = zf(1 as Uint(5));",
        "function zf(x: Bool) -> Int { return 1 if x else 1 / 0; } static_assert(zf(true) == 1); static_assert(zf(false) == 1);",
        "@c_equivalent(1) function zf() -> Void { }", "@unroll function zf() -> Void { }", "function zf() -> Void { @unroll(0) while true { break; } }", "function zf() -> Void { @unroll(-170141183460469231731687303715884105728) while true { break; } }", "function zf() -> Void { @unroll(340282366920938463463374607431768211456) while true { break; } }",
        "const zz = 340282366920938463463374607431768211455;", "const zz = 340282366920938463463374607431768211459;", "const zz = 0x80000000000000000000000000000000;", "const zz = 170141183460469231731687303715884105728;", "@instantiate(200) function zf(x: Uint(N)) -> Uint(N) { return x; }",
        "function zf(x: Uint(zf(0))) -> Int { return 8; }", "function zf(x: Uint(zg())) -> Int { return 8; } function zg() -> Int { return zf(0); }", "function zf() -> Uint(zf()) { return 8; }",
        "function zf() -> Bool requires zf() { return true; }", "function zf() -> Int { let x: Uint(zf()) = 0; return 1; }", "function zf() -> Int { const x = zg(); return x; } function zg() -> Int { return zf(); }",
        "function zf(x: Uint(N)) -> Int { return zf(0 as Uint(N + 1)); } const zz = zf(0 as Uint(1));", "const zz = zf(); function zf() -> Int { return zz; }", "function zf(x: Int) -> Int { if x == 0 { return 1; } return x * zf(x - 1); }",
    };
    return v;
}

Job_Spec gen_job(Rng& r, int bms_percent, bool small)
{
    Job_Spec s;
    s.options = r.next() >> 14 & ~u64(1);
    if (r.below(100) < u64(bms_percent)) {
        s.kind = "bms";
        s.source = r.chance(3, 5) ? gen_bms_text(r, 2 + int(r.below(small ? 3 : 8))) : r.pick(corpus_bms());
    }
    else {
        s.kind = "bmd";
        if (r.chance(3, 4)) s.source = gen_bmd(r, 2 + int(r.below(small ? 4 : 14)));
        else {
            s.source = r.pick(corpus_bmd());
            if (r.chance(2, 3)) {
                // without what is not implemented, so that the conversion gets further
                auto all = [&](const std::string& a, const std::string& b) {
                    for (std::size_t i = 0; (i = s.source.find(a, i)) != std::string::npos; i += b.size()) s.source.replace(i, a.size(), b);
                };
                all("\\c{", "\\tt{");
                all("\\codeblock{}", "");
            }
        }
    }
    if (r.chance(1, 12)) s.source = mutate_values(r, s.source);
    if (s.kind == "bms" && r.chance(1, 10)) s.source += "\n" + r.pick(failing_declarations());
    return s;
}
} // namespace sim
