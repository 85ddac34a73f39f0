// Faults of the storage between writing and reading a file.
#pragma once
#include "jobs.hpp"
#include <algorithm>

namespace sim {

inline const std::vector<std::string> damage_kinds { "flip", "set", "cut", "zero", "ones", "double", "drop", "swap", "foreign", "blank", "token", "word", "word", "record" };

// Adds what else was on the disk, and one to seven faults.
inline void plan_damage(Rng& r, Plan& p, const Job_Spec& s)
{
    // what else was on the disk
    Job_Spec other = gen_job(r, s.kind == "bms" ? 85 : 15);
    if (other.source.size() > 600) {
        const std::size_t at = r.below(other.source.size() - 500);
        other.source = other.source.substr(at, 500);
    }
    p.add("disk", { other.source });
    const i64 n = i64(std::max<std::size_t>(1, s.source.size()));
    static const std::vector<i64> blocks { 1, 1, 2, 4, 8, 16, 32, 64, 128, 512 };
    for (u64 k = 1 + r.below(r.chance(1, 3) ? 7 : 2); k > 0; --k) {
        const std::string kind = r.chance(1, 3) ? "flip" : r.pick(damage_kinds);
        i64 len = r.pick(blocks);
        i64 at = r.range(0, n);
        if (r.chance(1, 3)) at -= at % len; // whole blocks
        if (r.chance(1, 20)) at = r.chance(1, 2) ? 0 : n - 1;
        p.add("damage", { kind, N(at), N(kind == "flip" ? r.range(0, 7) : kind == "set" ? r.range(0, 255) : len), N(r.range(0, n)) });
    }
}

inline void damage(std::string& s, const Line& l, const std::string& disk)
{
    if (s.empty()) return;
    const std::string& k = l.args.empty() ? l.key : l.args[0];
    const std::size_t at = std::size_t(std::max<i64>(0, l.num(1))) % (s.size() + 1);
    const std::size_t len = std::size_t(std::clamp<i64>(l.num(2), 0, 4096));
    const std::size_t to = std::size_t(std::max<i64>(0, l.num(3))) % (s.size() + 1);
    const std::size_t have = std::min(len, s.size() - at);
    static const std::vector<std::string> tokens { "(", ")", "{", "}", "[", "]", "@", ";", ",", "\\", "/*", "*/", "//", "0x", "0b", "if", "else", "as", "Uint(", "->", "-", "=", "==", "\"", "!", "&&", "\r\n", "\t", "\xff", "\xe2\x82", "function", "const", "let", "return", "while", "requires", "%", "\\ul{", "\\item{", "\\codeblock[bms]{", "&", "<", "340282366920938463463374607431768211456", "-170141183460469231731687303715884105728" };
    if (k == "flip") { if (at < s.size()) s[at] = char(u8(s[at]) ^ (1u << (len & 7))); }
    else if (k == "set") { if (at < s.size()) s[at] = char(len); }
    else if (k == "cut") s.resize(at);
    else if (k == "zero" || k == "ones" || k == "blank") std::fill_n(s.begin() + long(at), have, k == "zero" ? 0 : k == "ones" ? '\xff' : ' ');
    else if (k == "double") s.insert(at, s.substr(at, have));
    else if (k == "drop") s.erase(at, have);
    else if (k == "swap") {
        const std::size_t n = std::min(have, s.size() - to);
        for (std::size_t i = 0; i < n; ++i) std::swap(s[at + i], s[to + i]);
    }
    else if (k == "foreign") {
        // a block of another file
        for (std::size_t i = 0; i < have && !disk.empty(); ++i) s[at + i] = disk[(to + i) % disk.size()];
    }
    else if (k == "word" || k == "record") {
        // a word or a whole line is replaced by another one of this file or of the other one
        auto extent = [&](const std::string& t, std::size_t i) {
            auto in = [&](char c) { return k == "record" ? c != '\n' : isalnum(u8(c)) || c == '_'; };
            while (i < t.size() && !in(t[i])) ++i;
            std::size_t b = i, e = i;
            while (b > 0 && in(t[b - 1])) --b;
            while (e < t.size() && in(t[e])) ++e;
            return std::pair(b, e - b);
        };
        const std::string& from = len % 3 == 0 && !disk.empty() ? disk : s;
        const auto [fb, fn] = extent(from, to % (from.size() + 1));
        const std::string w = from.substr(fb, fn);
        const auto [b, n] = extent(s, at);
        s.replace(b, n, w);
    }
    else if (k == "token") s.insert(at, tokens[(len + to) % tokens.size()]);
    count(("damage: " + k).c_str());
}

} // namespace sim
