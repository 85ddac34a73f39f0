// P02: an input file is read exactly or its failure is reported.
#include "jobs.hpp"
#include "simio.hpp"
#include "common/io.hpp"
#include "common/io_error.hpp"
#include <algorithm>
#include <sys/mman.h>

namespace sim {
namespace bm = bit_manipulation;
namespace {

std::string size_of(Rng& r)
{
    static const std::vector<i64> sizes { 0, 1, 2, 100, 4095, 4096, 4097, 8190, 8191, 8192, 8193, 12288, 16384, 16383, 20000, 65536, 65535, 65537, 131072 };
    i64 n = r.chance(1, 2) ? r.pick(sizes) : r.chance(1, 2) ? r.range(0, 9000) : r.range(0, 40000);
    return N(n);
}
std::string content_of(i64 n, i64 seed)
{
    Rng r{ u64(seed) };
    std::string s;
    s.reserve(std::size_t(n));
    // every 16 bytes say where they are, so that nothing can be swapped or doubled unnoticed
    while (i64(s.size()) < n) {
        const u64 x = r.next();
        for (int i = 0; i < 8; ++i) s += char(seed % 3 == 0 ? x >> 8 * i : 'a' + (x >> 8 * i) % 26);
        if (seed % 5 == 0) s += std::string(4, '\0');
        if (seed % 7 == 0) s += "\r\n\xff\x1a";
    }
    s.resize(std::size_t(n));
    return s;
}

std::vector<std::string> gen_faults(Rng& r)
{
    std::vector<std::string> t;
    for (u64 k = 1 + (r.chance(1, 2) ? r.below(6) : 0); k > 0; --k) {
        std::string op = "read", kind = r.pick(std::vector<std::string> { "short", "short", "short", "eintr", "eio" });
        if (r.chance(1, 8)) { op = "open"; kind = r.pick(std::vector<std::string> { "enoent", "eacces", "emfile", "eio" }); }
        else if (r.chance(1, 12)) { op = "close"; kind = "eio"; }
        const i64 at = r.chance(1, 2) ? r.range(0, 3) : r.range(0, 40);
        for (auto& s : { op, kind, N(at), r.chance(1, 3) ? N(1'000'000'000) : N(r.chance(1, 2) ? 1 : r.range(2, 9)), N(r.chance(1, 3) ? 0 : r.range(0, 999)) }) t.push_back(s);
        if (t[t.size() - 4] == "eintr" && t[t.size() - 2].size() > 4) t[t.size() - 2] = "20"; // signals stop some time
    }
    return t;
}

Plan generate(Rng& r, u64)
{
    Plan p;
    if (r.chance(1, 2)) {
        p.add("content", { size_of(r), N(r.range(1, 1'000'000)) });
        for (int n = 8 + int(r.below(16)); n > 0; --n) {
            std::vector<std::string> l { N(r.chance(1, 4) ? r.range(1, 12) : 0), N(r.chance(2, 3) ? 1 : 1000) }; // failing allocation
            for (auto& s : gen_faults(r)) l.push_back(s);
            p.add("direct", l);
        }
        return p;
    }
    std::string source, in, out;
    std::vector<std::string> args;
    if (r.chance(1, 2)) {
        source = r.chance(3, 5) ? gen_bmd(r, 2 + int(r.below(30))) : r.pick(corpus_bmd());
        in = "in.bmd";
        if (r.chance(1, 3)) args = { "dump_ast", in };
        else { args = { "html", in }; if (r.chance(1, 2)) { out = "out.html"; args.push_back(out); } }
    } else {
        source = r.chance(3, 5) ? gen_bms_text(r, 1 + int(r.below(12))) : r.pick(corpus_bms());
        in = "in.bms";
        args = r.pick(std::vector<std::vector<std::string>> { { "dump_tokens", in }, { "dump_ast", in }, { "verify", in }, { "generate", in, "c" }, { "generate", in, "bms" } });
    }
    // reading stops at an arbitrary place: what comes before should be acceptable by itself
    const std::string once = source;
    if (in == "in.bmd" || r.chance(1, 3)) for (int n = int(r.below(12)); n > 0 && source.size() < 40000; --n) source += "\n" + (in == "in.bmd" ? once : std::string("// comment comment comment comment comment comment"));
    p.add("in", { in, source });
    p.add("out", { out });
    p.add("args", args);
    for (int n = 6 + int(r.below(14)); n > 0; --n) {
        std::vector<std::string> l { N(r.chance(1, 4) ? r.range(1, 60) : 0), N(r.chance(2, 3) ? 1 : 1000) };
        for (auto& s : gen_faults(r)) l.push_back(s);
        p.add("tool", l);
    }
    return p;
}

std::vector<Io_Fault> faults_of(const Line& l)
{
    std::vector<Io_Fault> v;
    for (std::size_t i = 2; i + 4 < l.args.size(); i += 5)
        v.push_back({ "in", l.args[i], l.args[i + 1], u64(std::max<i64>(0, l.num(i + 2))), u64(std::max<i64>(1, l.num(i + 3))), l.num(i + 4) });
    return v;
}
std::string describe(const Line& l)
{
    std::string r;
    for (auto& f : faults_of(l)) r += " " + f.op + "#" + N(i64(f.at)) + (f.times > 1 ? "+" : "") + ":" + f.kind;
    if (l.num(0)) r += " allocation#" + N(l.num(0)) + (l.num(1) > 1 ? "+" : "");
    return r;
}

void direct(const Plan& p, Outcome& o, u64& harmful, std::string& sig)
{
    const Line* c = p.find("content");
    const std::string content = content_of(std::clamp<i64>(c->num(0), 0, 1 << 20), c->num(1));
    // what the child process found
    struct Found { int how; u64 size, hash; i64 differs; u64 alloc; char what[100]; };
    static auto* found = static_cast<Found*>(mmap(nullptr, sizeof(Found), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    for (const Line* l : p.all("direct")) {
        Io_Setup s;
        s.in_name = "in.bms";
        s.files[s.in_name] = content;
        s.faults = faults_of(*l);
        *found = {};
        doing("file_to_string with" + describe(*l));
        const Io_Result got = io_run(
            s,
            [&] {
                Sim_Resource mem;
                auto say = [&](int how, const char* what) { Harness h; found->how = how; std::snprintf(found->what, sizeof found->what, "%s", what); };
                if (l->num(0)) heap_arm(u64(l->num(0)), u64(std::max<i64>(1, l->num(1))), 0);
                try {
                    Sut sut;
                    auto r = bm::file_to_string("in.bms", &mem);
                    Harness h;
                    found->how = r ? 1 : 2;
                    if (r) {
                        found->size = r->size();
                        found->differs = -1;
                        for (std::size_t i = 0; i < r->size() || i < content.size(); ++i)
                            if (i >= r->size() || i >= content.size() || (*r)[i] != content[i]) { found->differs = i64(i); break; }
                    }
                } catch (const std::bad_alloc& e) {
                    say(3, e.what());
                } catch (const std::exception& e) {
                    say(4, e.what());
                } catch (...) {
                    say(5, "unknown exception");
                }
                g_sut = false;
                found->alloc = heap_disarm();
                if (mem.live) say(6, "memory is not given back");
                if (!heap_errors().empty()) say(6, heap_errors().c_str());
                return 0;
            },
            60'000'000);
        harmful += got.harmful + found->alloc;
        if (found->alloc) count("allocation failure", found->alloc);
        static const char* hows[] = { "nothing", "content", "error", "out of memory", "exception", "other exception", "heap misuse" };
        const std::string where = "file_to_string of " + N(i64(content.size())) + " bytes with" + describe(*l) + ": ";
        g_log.add(where + hows[found->how] + " " + N(i64(got.harmful)) + " " + N(i64(got.harmless)));
        sig += char('0' + found->how);
        bool only_short = got.harmful == 0 && found->alloc == 0;
        if (!got.orderly) fail(o, "disorderly@file_to_string", where + got.how + "\n" + got.err.substr(0, 500));
        else if (found->how == 6) fail(o, "heap@file_to_string", where + found->what);
        else if (found->how == 1 && found->differs >= 0)
            fail(o, "wrong-content@file_to_string", where + "success with " + N(i64(found->size)) + " bytes, wrong from byte " + N(found->differs));
        else if (only_short && found->how != 1) fail(o, "refused-without-failure@file_to_string", where + hows[found->how] + " " + found->what);
        else if (found->alloc == 0 && found->how == 3) fail(o, "wrong-error@file_to_string", where + "out of memory is reported, but nothing of that kind happened");
        if (o.violation) return;
    }
}

Outcome execute(const Plan& p)
{
    Outcome o;
    u64 harmful = 0;
    std::string sig;
    if (p.find("content")) {
        direct(p, o, harmful, sig);
        o.nontrivial = harmful != 0;
        o.sig = sig + hex64(g_log.h);
        return o;
    }
    const Line* in = p.find("in");
    const Line* args = p.find("args");
    if (!in || !args) return o;
    Io_Setup s;
    s.in_name = in->str(0);
    s.out_name = p.str("out");
    s.files[s.in_name] = in->str(1);
    const Io_Result want = tool_run(s, args->args);
    if (!want.orderly) {
        o.sig = "no reference"; // crashes and hangs are the subject of P12
        return o;
    }
    std::string command;
    for (auto& a : args->args) command += (command.empty() ? "" : " ") + a;
    g_log.add(command + " -> " + N(want.status) + "\n" + want.out + want.file);
    for (const Line* l : p.all("tool")) {
        Io_Setup t = s;
        t.faults = faults_of(*l);
        doing(command + describe(*l));
        const Io_Result got = tool_run(t, args->args, u64(std::max<i64>(0, l->num(0))), u64(std::max<i64>(1, l->num(1))));
        harmful += got.harmful + got.alloc_faults;
        if (got.alloc_faults) count("allocation failure", got.alloc_faults);
        sig += got.orderly ? N(got.status) : "x";
        g_log.add(describe(*l) + " -> " + (got.orderly ? N(got.status) : got.how) + " " + N(i64(got.harmful)) + " " + N(i64(got.harmless)) + hex64(hash_bytes(got.out + got.file)));
        const std::string where = "bm-cli " + command + " with" + describe(*l) + ": ";
        const std::string cls = args->str(0);
        const bool same = got.out == want.out && got.file == want.file && got.file_exists == want.file_exists;
        if (!got.orderly) fail(o, "disorderly@" + cls, where + got.how + "\n" + got.err.substr(0, 500));
        else if (got.harmful + got.alloc_faults == 0) {
            if (got.status != want.status) fail(o, "status-differs-without-failure@" + cls, where + "exit status " + N(got.status) + " instead of " + N(want.status));
            else if (!same) fail(o, "output-differs-without-failure@" + cls, where + first_difference(want.out + want.file, got.out + got.file));
        } else if (got.status == 0 && !(same && want.status == 0))
            fail(o, "wrong-success@" + cls, where + "exit status 0, but the output is not that of the true content: " + first_difference(want.out + want.file, got.out + got.file));
        if (o.violation) break;
    }
    o.nontrivial = harmful != 0;
    o.sig = sig + hex64(g_log.h);
    return o;
}
SIM_REGISTER({ "P02", generate, execute });
} // namespace
} // namespace sim
