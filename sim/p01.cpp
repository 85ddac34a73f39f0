// P01: a zero exit status means all requested output was really written.
#include "jobs.hpp"
#include "simio.hpp"
#include <algorithm>

namespace sim {
namespace {

Plan generate(Rng& r, u64)
{
    Plan p;
    const int kind = int(r.below(20));
    std::string source, in, out;
    std::vector<std::string> args;
    static const std::vector<std::string> languages { "bms", "c", "C", "c++", "cpp", "rust", "nonsense" };
    if (kind < 8) {
        source = r.chance(3, 5) ? gen_bmd(r, 2 + int(r.below(40))) : r.pick(corpus_bmd());
        in = "in.bmd";
        if (r.chance(1, 8)) args = { "dump_ast", in };
        else if (r.chance(2, 3)) { out = "out.html"; args = { "html", in, out }; }
        else args = { "html", in };
    } else if (kind < 19) {
        source = r.chance(3, 5) ? gen_bms_text(r, 1 + int(r.below(14))) : r.pick(corpus_bms());
        in = "in.bms";
        switch (r.below(6)) {
        case 0: args = { "dump_tokens", in }; break;
        case 1: args = { "dump_ast", in }; break;
        case 2: args = { "verify", in }; break;
        case 3: args = { "html", in }; if (r.chance(1, 2)) { out = "out.html"; args.push_back(out); } break;
        default: args = { "generate", in, r.pick(languages) };
        }
    } else {
        in = r.chance(1, 2) ? "in.txt" : "in.bms";
        source = "x";
        args = r.pick(std::vector<std::vector<std::string>> { { "dump_ast", in }, { "verify", in }, { "nothing", in }, { "generate", in }, {}, { "verify", "missing.bms" }, { "html", in } });
    }
    // bigger outputs, so that buffers are flushed before the end
    if (r.chance(1, 3) && in == "in.bmd") { const std::string once = source; for (int n = 1 + int(r.below(30)); n > 0 && source.size() < 60000; --n) source += "\n" + once; }
    if (r.chance(1, 6) && !source.empty()) source.erase(r.below(source.size()), 1 + r.below(5));
    p.add("in", { in, source });
    p.add("out", { out });
    if (!out.empty() && r.chance(1, 2)) p.add("stale", { std::string(r.below(r.chance(1, 2) ? 2000 : 60000), 's') });
    p.add("args", args);
    for (int n = 6 + int(r.below(16)); n > 0; --n) {
        // one trial: a set of faults
        std::vector<std::string> trial { N(i64(r.below(4))) };
        for (u64 k = 1 + (r.chance(1, 4) ? r.below(4) : 0); k > 0; --k) {
            const std::string target = !out.empty() && r.chance(3, 4) ? "out" : "stdout";
            std::string op = "write", kind = r.pick(std::vector<std::string> { "short", "short", "eio", "enospc", "enospc", "epipe", "eintr" });
            if (target == "out" && r.chance(1, 4)) {
                op = r.chance(1, 2) ? "close" : "open";
                kind = op == "open" ? r.pick(std::vector<std::string> { "enoent", "eacces", "emfile", "enospc" }) : r.pick(std::vector<std::string> { "eio", "enospc", "eio" });
            }
            const bool forever = r.chance(1, kind == "enospc" ? 2 : 4);
            const i64 where = r.chance(1, 5) ? 0 : r.chance(1, 4) ? 999 : r.range(0, 999);
            for (auto& s : { target, op, kind, N(where), forever ? N(kind == "eintr" ? 20 : 1'000'000'000) : N(r.chance(3, 4) ? 1 : r.range(2, 6)), N(r.range(0, 999)) }) trial.push_back(s);
        }
        p.add("trial", trial);
    }
    return p;
}

Outcome execute(const Plan& p)
{
    Outcome o;
    const Line* in = p.find("in");
    const Line* args = p.find("args");
    if (!in || !args) return o;
    Io_Setup s;
    s.in_name = in->str(0);
    s.out_name = p.str("out");
    s.files[s.in_name] = in->str(1);
    Io_Result want = tool_run(s, args->args);
    if (!want.orderly) {
        o.sig = "no reference"; // crashes and hangs are the subject of P12
        return o;
    }
    // An older output file is there in some runs; nothing of it may remain when new output is written.
    if (const Line* stale = p.find("stale"); stale && !s.out_name.empty()) {
        s.files[s.out_name] = stale->str(0);
        if (!want.file_exists) { want.file = stale->str(0); want.file_exists = true; }
        count("older output file");
    }
    std::string command;
    for (auto& a : args->args) command += (command.empty() ? "" : " ") + a;
    g_log.add(command + " -> " + N(want.status) + "\n" + want.out + want.file);
    std::string sig = hex64(hash_bytes(want.out + want.file));
    u64 harmful = 0;
    for (const Line* l : p.all("trial")) {
        Io_Setup t = s;
        t.buffering = int(l->num(0)) & 3;
        bool all_short = true;
        std::string describe;
        for (std::size_t i = 1; i + 5 < l->args.size(); i += 6) {
            Io_Fault f { l->args[i], l->args[i + 1], l->args[i + 2], 0, u64(std::max<i64>(1, l->num(i + 4))), l->num(i + 5) };
            // positions are relative to how many calls a run with this buffering makes at most
            u64 calls = f.op == "write" && f.target == "stdout" && t.buffering >= 2 ? 1 + want.out.size() / 40 : 1;
            if (auto it = want.calls.find(f.target + " " + f.op); it != want.calls.end()) calls = std::max(calls, it->second + (t.buffering == 1 ? want.out.size() / 4096 : 0));
            if (f.kind == "eintr") f.times = std::min<u64>(f.times, 20); // signals stop some time
            f.at = u64(l->num(i + 3)) * calls / 1000;
            all_short &= io_fault_is_harmless(f);
            describe += " " + f.target + "." + f.op + "#" + N(i64(f.at)) + (f.times > 1 ? "+" : "") + ":" + f.kind;
            t.faults.push_back(std::move(f));
        }
        doing(command + describe);
        const Io_Result got = tool_run(t, args->args);
        harmful += got.harmful;
        sig += got.orderly ? N(got.status) : "x";
        g_log.add(describe + " -> " + (got.orderly ? N(got.status) : got.how) + " " + N(i64(got.harmful)) + " " + N(i64(got.harmless)) + hex64(hash_bytes(got.out + got.file)));
        const std::string where = "bm-cli " + command + " with" + describe + ": ";
        const std::string cls = args->str(0);
        if (!got.orderly) {
            fail(o, "disorderly@" + cls, where + got.how + "\n" + got.err.substr(0, 500));
        } else if (got.harmful == 0) {
            // short writes change nothing
            if (got.status != want.status) fail(o, "status-differs-without-failure@" + cls, where + "exit status " + N(got.status) + " instead of " + N(want.status));
            else if (got.out != want.out) fail(o, "output-differs-without-failure@" + cls, where + "standard output: " + first_difference(want.out, got.out));
            else if (got.file != want.file || got.file_exists != want.file_exists) fail(o, "output-differs-without-failure@" + cls, where + "output file: " + first_difference(want.file, got.file));
        } else if (got.status == 0) {
            if (want.status != 0) fail(o, "failure-hides-failure@" + cls, where + "exit status 0 instead of " + N(want.status));
            else if (got.out != want.out) fail(o, "lost-output@" + cls, where + "exit status 0, but standard output has " + N(i64(got.out.size())) + " of " + N(i64(want.out.size())) + " bytes: " + first_difference(want.out, got.out));
            else if (got.file != want.file || !got.file_exists != !want.file_exists) fail(o, "lost-output@" + cls, where + "exit status 0, but the output file has " + N(i64(got.file.size())) + " of " + N(i64(want.file.size())) + " bytes: " + first_difference(want.file, got.file));
            else {
                // everything is there, but a failure to close the file means that it is not known to be
                for (auto& f : t.faults) if (f.op == "close" && f.target == "out" && got.calls.contains("out close") && got.calls.at("out close") > f.at) fail(o, "ignored-close@" + cls, where + "exit status 0 although closing the output file failed");
            }
        }
        if (o.violation) break;
    }
    o.nontrivial = harmful != 0;
    o.sig = sig + hex64(g_log.h);
    return o;
}
SIM_REGISTER({ "P01", generate, execute });
} // namespace
} // namespace sim
