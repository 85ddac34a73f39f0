// sim: executes, replays and minimises simulated runs.
//   sim batch  PROPERTY SEED FIRST STRIDE MAX_RUNS SECONDS OUT     (worker; one forked child per run)
//   sim gen    PROPERTY SEED INDEX                                  (prints the plan)
//   sim replay FILE [--log]                                         (one run from a plan file)
//   sim minimize FILE OUT SECONDS
#include "core.hpp"
#include "run.hpp"
#include <algorithm>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

namespace sim {

Log g_log;
u8* g_cov = nullptr;

namespace {

struct Shared {
    char status;              // 0: running, 1: finished, 2: hang
    char violation, nontrivial;
    char vclass[256];
    char detail[16384];
    char sig[256];
    char note[1024];
    char doing[512];
    u64 log_hash, steps;
    struct { char name[48]; u64 n; } counters[96];
    u8 cov[1u << (cov_bits - 3)];
};
Shared* shared = nullptr;

void put(char* dst, std::size_t cap, std::string_view s)
{
    std::size_t n = std::min(s.size(), cap - 1);
    std::memcpy(dst, s.data(), n);
    dst[n] = 0;
}

std::map<std::string, Property>& registry()
{
    static std::map<std::string, Property> r;
    return r;
}

double now()
{
    using namespace std::chrono;
    return duration<double>(steady_clock::now().time_since_epoch()).count();
}

const char* hang_code = "bounded-steps";

} // namespace

void register_property(const Property& p) { registry()[p.id] = p; }

void fail(Outcome& o, std::string vclass, std::string detail)
{
    if (o.violation) return;
    o.violation = true;
    o.vclass = std::move(vclass);
    o.detail = std::move(detail);
}
void count(const char* what, u64 n)
{
    if (!shared) return;
    for (auto& c : shared->counters) {
        if (c.name[0] == 0) put(c.name, sizeof c.name, what);
        if (std::strncmp(c.name, what, sizeof c.name - 1) == 0) { c.n += n; return; }
    }
}
void doing(std::string_view what)
{
    if (shared) put(shared->doing, sizeof shared->doing, what);
}
[[noreturn]] void report_hang(const char* what)
{
    if (shared) {
        put(shared->vclass, sizeof shared->vclass, std::string("hang:") + what);
        put(shared->detail, sizeof shared->detail,
            std::string("no end after the step bound of this run (") + hang_code + "), while: " + shared->doing);
        shared->violation = 1;
        shared->steps = steps();
        shared->status = 2;
    }
    _exit(3);
}

// ---------------------------------------------------------------- plan text
std::string quote(std::string_view s)
{
    std::string r = "\"";
    for (char ch : s) {
        u8 c = u8(ch);
        if (c == '\n') r += "\\n";
        else if (c == '"') r += "\\\"";
        else if (c == '\\') r += "\\\\";
        else if (c < 32 || c >= 127) { char b[8]; std::snprintf(b, sizeof b, "\\x%02x", c); r += b; }
        else r += ch;
    }
    return r + "\"";
}
std::string hex64(u64 x) { char b[20]; std::snprintf(b, sizeof b, "%016llx", (unsigned long long)x); return b; }
i64 Line::num(std::size_t i, i64 def) const
{
    if (i >= args.size() || args[i].empty()) return def;
    return std::strtoll(args[i].c_str(), nullptr, 0);
}
const Line* Plan::find(std::string_view k) const
{
    for (auto& l : lines) if (l.key == k) return &l;
    return nullptr;
}
std::vector<const Line*> Plan::all(std::string_view k) const
{
    std::vector<const Line*> r;
    for (auto& l : lines) if (l.key == k) r.push_back(&l);
    return r;
}
i64 Plan::num(std::string_view k, i64 def) const { auto* l = find(k); return l ? l->num(0, def) : def; }
std::string Plan::str(std::string_view k) const { auto* l = find(k); return l ? l->str(0) : ""; }
std::string Plan::print() const
{
    std::string r = "property " + property + "\n";
    for (auto& l : lines) {
        r += l.key;
        for (auto& a : l.args) {
            bool bare = !a.empty();
            for (char c : a) if (!(std::isalnum(u8(c)) || c == '-' || c == '_' || c == '.')) bare = false;
            r += ' ';
            r += bare ? a : quote(a);
        }
        r += '\n';
    }
    return r;
}
bool Plan::parse(std::string_view t, Plan& out)
{
    out = {};
    std::size_t i = 0;
    while (i < t.size()) {
        if (t[i] == '#') { while (i < t.size() && t[i] != '\n') ++i; ++i; continue; }
        std::vector<std::string> words;
        while (i < t.size() && t[i] != '\n') {
            if (t[i] == ' ') { ++i; continue; }
            std::string w;
            if (t[i] == '"') {
                ++i;
                while (i < t.size() && t[i] != '"') {
                    if (t[i] == '\\' && i + 1 < t.size()) {
                        char c = t[i + 1];
                        if (c == 'n') { w += '\n'; i += 2; }
                        else if (c == 'x' && i + 3 < t.size()) {
                            w += char(std::strtol(std::string(t.substr(i + 2, 2)).c_str(), nullptr, 16));
                            i += 4;
                        }
                        else { w += c; i += 2; }
                    }
                    else w += t[i++];
                }
                ++i;
            }
            else while (i < t.size() && t[i] != ' ' && t[i] != '\n') w += t[i++];
            words.push_back(std::move(w));
        }
        ++i;
        if (words.empty()) continue;
        if (words[0] == "property" && words.size() > 1) { out.property = words[1]; continue; }
        out.lines.push_back({ words[0], { words.begin() + 1, words.end() } });
    }
    return !out.property.empty();
}
std::string first_difference(std::string_view a, std::string_view b)
{
    std::size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
    auto ctx = [&](std::string_view s) {
        std::size_t from = i > 40 ? i - 40 : 0;
        return from < s.size() ? quote(s.substr(from, 120)) : std::string("<end>");
    };
    return "at byte " + std::to_string(i) + ": " + ctx(a) + " vs " + ctx(b);
}

// ---------------------------------------------------------------- one run in a child process
namespace {

struct Result {
    Outcome o;
    u64 steps = 0;
    bool error = false; // the run gave no verdict (real-time limit, harness failure)
};

std::string sanitizer_summary(const std::string& err)
{
    // "SUMMARY: AddressSanitizer: heap-buffer-overflow file:line in func"
    std::string kind, where;
    if (auto p = err.find("ERROR: AddressSanitizer: "); p != std::string::npos) {
        auto s = err.substr(p + 25);
        kind = "asan:" + s.substr(0, s.find_first_of(" \n(:"));
        if (kind == "asan:requested") kind = "asan:allocation-size-too-big";
    }
    else if (auto q = err.find("runtime error: "); q != std::string::npos) {
        auto s = err.substr(q + 15);
        s = s.substr(0, s.find('\n'));
        kind = "ubsan:";
        std::string words;
        for (char c : s) {
            if (std::isdigit(u8(c)) || c == '\'' || c == '-') { if (words.empty() || words.back() != '#') words += '#'; }
            else words += c == ' ' ? '_' : c;
        }
        kind += words.substr(0, 60);
    }
    // first frame inside the repository
    std::istringstream in(err);
    std::string line;
    while (std::getline(in, line))
        if (auto p = line.find(" in "); line.find("    #") == 0 && p != std::string::npos && line.find("/repo/src") != std::string::npos) {
            where = line.substr(p + 4);
            where = where.substr(0, where.find_first_of("(<"));
            break;
        }
    return kind + (where.empty() ? "" : "@" + where);
}

Result run_plan(const Plan& plan, bool keep_log, std::string* log_text = nullptr)
{
    Result r;
    auto it = registry().find(plan.property);
    if (it == registry().end()) { r.error = true; r.o.detail = "unknown property"; return r; }
    shared->status = shared->violation = shared->nontrivial = 0;
    shared->vclass[0] = shared->detail[0] = shared->sig[0] = shared->note[0] = shared->doing[0] = 0;
    shared->log_hash = shared->steps = 0;
    std::memset(shared->cov, 0, sizeof shared->cov);

    char errname[] = "/tmp/sim-stderr-XXXXXX";
    int errfd = mkstemp(errname);
    if (errfd >= 0) unlink(errname);
    int logfd = -1;
    if (keep_log) {
        char logname[] = "/tmp/sim-log-XXXXXX";
        logfd = mkstemp(logname);
        unlink(logname);
    }
    std::fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        if (errfd >= 0) dup2(errfd, 2);
        struct rlimit core { 0, 0 };
        setrlimit(RLIMIT_CORE, &core);
        struct rlimit cpu { 60, 70 };
        setrlimit(RLIMIT_CPU, &cpu);
        g_cov = shared->cov;
        g_log = {};
        g_log.keep = keep_log;
        set_step_limit(it->second.default_step_limit, "run");
#ifndef __SANITIZE_ADDRESS__
        // Objects of the code under test live at addresses that do not depend on anything else. (With
        // AddressSanitizer, its own allocator is needed; addresses are then not reproducible, and
        // hashing of pointers can make a run a few steps longer.)
        heap_configure({ .placement = 4, .poison = true, .fresh = 0xcdcdcdcdcdcdcdcdull, .freed = 0xdfdfdfdfdfdfdfdfull });
#endif
        Outcome o;
        const char* thrown = nullptr;
        try {
            o = it->second.execute(plan);
        } catch (const std::exception& e) {
            thrown = e.what();
        } catch (...) {
            thrown = "unknown exception";
        }
        g_sut = false;
        if (thrown) {
            std::fprintf(stderr, "harness exception: %s (while: %s)\n", thrown, shared->doing);
            _exit(5);
        }
        shared->violation = o.violation;
        shared->nontrivial = o.nontrivial;
        put(shared->vclass, sizeof shared->vclass, o.vclass);
        put(shared->detail, sizeof shared->detail, o.detail);
        put(shared->sig, sizeof shared->sig, o.sig);
        put(shared->note, sizeof shared->note, o.note);
        shared->log_hash = g_log.h;
        shared->steps = steps();
        shared->status = 1;
        if (logfd >= 0) { if (write(logfd, g_log.text.data(), g_log.text.size()) < 0) { } }
        _exit(0);
    }
    int st = 0;
    const double t0 = now();
    bool killed = false;
    for (;;) {
        pid_t w = waitpid(pid, &st, WNOHANG);
        if (w == pid) break;
        if (now() - t0 > 120) { kill(pid, SIGKILL); killed = true; waitpid(pid, &st, 0); break; }
        usleep(now() - t0 < 0.01 ? 50 : 500);
    }
    std::string err;
    if (errfd >= 0) {
        char buf[65536];
        ssize_t n = pread(errfd, buf, sizeof buf, 0);
        if (n > 0) err.assign(buf, std::size_t(n));
        close(errfd);
    }
    if (logfd >= 0) {
        if (log_text) {
            struct { char b[1 << 16]; } t;
            off_t off = 0;
            for (ssize_t n; (n = pread(logfd, t.b, sizeof t.b, off)) > 0; off += n) log_text->append(t.b, std::size_t(n));
        }
        close(logfd);
    }
    r.steps = shared->steps;
    r.o.sig = shared->sig;
    r.o.note = shared->note;
    r.o.log_hash = shared->log_hash;
    r.o.nontrivial = shared->nontrivial;
    if (shared->status == 1 && WIFEXITED(st) && WEXITSTATUS(st) == 0) {
        r.o.violation = shared->violation;
        r.o.vclass = shared->vclass;
        r.o.detail = shared->detail;
        return r;
    }
    if (shared->status == 2) {
        r.o.violation = true;
        r.o.vclass = shared->vclass;
        r.o.detail = shared->detail;
        r.o.nontrivial = true;
        r.o.log_hash = hash_bytes(r.o.vclass);
        return r;
    }
    if (killed || (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL))) {
        r.error = true;
        r.o.detail = std::string("real-time limit of a run exceeded, while: ") + shared->doing;
        return r;
    }
    if (WIFEXITED(st) && (WEXITSTATUS(st) == 5 || WEXITSTATUS(st) == 97)) {
        r.error = true;
        r.o.detail = err.substr(0, 2000);
        return r;
    }
    // the process died: the code under test crashed, called terminate/abort/exit, or a sanitizer spoke
    r.o.violation = true;
    r.o.nontrivial = true;
    std::string san = sanitizer_summary(err);
    if (!san.empty()) r.o.vclass = "crash:" + san;
    else if (WIFSIGNALED(st)) {
        r.o.vclass = std::string("crash:signal:") + std::to_string(WTERMSIG(st));
        if (auto p = err.find("terminate called"); p != std::string::npos) {
            r.o.vclass = "crash:terminate";
            if (auto q = err.find('\'', p); q != std::string::npos) r.o.vclass += ":" + err.substr(q + 1, err.find('\'', q + 1) - q - 1);
        }
    }
    else r.o.vclass = "crash:exit:" + std::to_string(WEXITSTATUS(st));
    r.o.detail = "while: " + std::string(shared->doing) + "\n" + err.substr(0, 6000);
    r.o.log_hash = hash_bytes(r.o.vclass);
    return r;
}

std::string json_str(std::string_view s)
{
    std::string r = "\"";
    for (char ch : s) {
        u8 c = u8(ch);
        if (c == '"' || c == '\\') { r += '\\'; r += ch; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c >= 127) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += ch;
    }
    return r + "\"";
}

#ifdef __SANITIZE_ADDRESS__
constexpr bool sanitized = true;
#else
constexpr bool sanitized = false;
#endif

int batch(int argc, char** argv)
{
    if (argc < 9) return 64;
    const std::string prop = argv[2];
    const u64 seed = std::strtoull(argv[3], nullptr, 10), first = std::strtoull(argv[4], nullptr, 10),
              stride = std::strtoull(argv[5], nullptr, 10), max_runs = std::strtoull(argv[6], nullptr, 10);
    const double seconds = std::atof(argv[7]);
    const std::string out = argv[8];
    auto it = registry().find(prop);
    if (it == registry().end()) { std::fprintf(stderr, "unknown property %s\n", prop.c_str()); return 64; }
    const double t0 = now();
    u64 runs = 0, nontrivial = 0, total_steps = 0, repeated = 0, errors = 0;
    std::set<u64> sigs, states;
    static u8 cov[1u << (cov_bits - 3)];
    std::string samples, violations, error_text;
    std::map<std::string, int> seen;
    int nviol = 0, nsamples = 0;
    for (u64 i = first; runs < max_runs && now() - t0 < seconds; i += stride) {
        Rng rng(mix(mix(seed, hash_bytes(prop)), i));
        Plan plan = it->second.generate(rng, i);
        plan.property = prop;
        Result r = run_plan(plan, false);
        ++runs;
        total_steps += r.steps;
        if (r.error) {
            ++errors;
            if (error_text.size() < 4000) error_text += "run " + std::to_string(i) + ": " + r.o.detail + "\n";
            continue;
        }
        for (std::size_t k = 0; k < sizeof cov; ++k) cov[k] |= shared->cov[k];
        states.insert(hash_bytes({ reinterpret_cast<char*>(shared->cov), sizeof shared->cov }));
        if (r.o.nontrivial) { ++nontrivial; sigs.insert(hash_bytes(r.o.sig)); }
        // determinism: every 16th run and every violation is executed twice
        if (r.o.violation || runs % 16 == 1) {
            Result again = run_plan(plan, false);
            ++repeated;
            if (again.error || again.o.log_hash != r.o.log_hash || again.o.vclass != r.o.vclass || (!sanitized && again.steps != r.steps)) {
                ++errors;
                error_text += "run " + std::to_string(i) + " is not repeatable: " + hex64(r.o.log_hash) + "/" + r.o.vclass + "/" + std::to_string(r.steps) + " then "
                    + hex64(again.o.log_hash) + "/" + again.o.vclass + "/" + std::to_string(again.steps) + " " + again.o.detail + "\n";
                continue;
            }
        }
        if (nsamples < 2 && r.o.nontrivial && !r.o.violation && plan.print().size() < 6000) {
            samples += (nsamples++ ? "," : "") + json_str("# run " + std::to_string(i) + " -> " + r.o.sig + "\n" + plan.print());
        }
        if (r.o.violation && seen[r.o.vclass]++ < 3 && nviol < 24) {
            std::string f = out + ".v" + std::to_string(i) + ".plan";
            std::ofstream(f) << "# class " << r.o.vclass << "\n# seed " << seed << " run " << i << "\n" << plan.print();
            violations += (nviol++ ? "," : "") + ("{\"class\":" + json_str(r.o.vclass) + ",\"index\":" + std::to_string(i) + ",\"plan\":" + json_str(f) + ",\"detail\":" + json_str(r.o.detail) + "}");
        }
    }
    u64 blocks = 0;
    for (u8 c : cov) blocks += u64(__builtin_popcount(c));
    std::ofstream o(out);
    o << "{\"runs\":" << runs << ",\"nontrivial\":" << nontrivial << ",\"steps\":" << total_steps << ",\"repeated\":" << repeated
      << ",\"errors\":" << errors << ",\"error_text\":" << json_str(error_text) << ",\"wall\":" << now() - t0 << ",\"counters\":{";
    bool sep = false;
    for (auto& c : shared->counters)
        if (c.name[0]) { o << (sep ? "," : "") << json_str(c.name) << ":" << c.n; sep = true; }
    o << "},\"samples\":[" << samples << "],\"violations\":[" << violations << "],\"vclasses\":{";
    sep = false;
    for (auto& [k, n] : seen) { o << (sep ? "," : "") << json_str(k) << ":" << n; sep = true; }
    o << "},\"blocks\":[" ;
    sep = false;
    for (std::size_t k = 0; k < sizeof cov; ++k) if (cov[k]) { o << (sep ? "," : "") << "[" << k << "," << int(cov[k]) << "]"; sep = true; }
    o << "],\"sigs\":[";
    sep = false;
    for (u64 s : sigs) { o << (sep ? "," : "") << "\"" << hex64(s) << "\""; sep = true; }
    o << "],\"states\":[";
    sep = false;
    for (u64 s : states) { o << (sep ? "," : "") << "\"" << hex64(s) << "\""; sep = true; }
    o << "]}\n";
    return 0;
}

std::string read_file(const char* f)
{
    std::ifstream in(f);
    std::stringstream s;
    s << in.rdbuf();
    return s.str();
}

// ---- minimisation
std::vector<Plan> generic_shrinks(const Plan& p)
{
    std::vector<Plan> r;
    const std::size_t n = p.lines.size();
    // remove runs of lines
    for (std::size_t len = n; len >= 1; len /= 2) {
        for (std::size_t i = 0; i + len <= n; i += len) {
            Plan q = p;
            q.lines.erase(q.lines.begin() + long(i), q.lines.begin() + long(i + len));
            r.push_back(std::move(q));
        }
    }
    for (std::size_t i = 0; i < n; ++i)
        for (std::size_t a = 0; a < p.lines[i].args.size(); ++a) {
            const std::string& s = p.lines[i].args[a];
            char* end = nullptr;
            long long v = std::strtoll(s.c_str(), &end, 10);
            if (!s.empty() && *end == 0) {
                for (long long w : { 0ll, 1ll, v / 2, v - v / 8, v - 1 })
                    if (w != v && std::llabs(w) < std::llabs(v)) { Plan q = p; q.lines[i].args[a] = std::to_string(w); r.push_back(std::move(q)); }
                continue;
            }
            if (s.size() < 2 || s[0] == '(') continue; // (model terms have their own shrinker)
            // remove source lines, then chunks of characters
            std::vector<std::size_t> starts { 0 };
            for (std::size_t k = 0; k + 1 < s.size(); ++k) if (s[k] == '\n') starts.push_back(k + 1);
            starts.push_back(s.size());
            if (starts.size() > 2)
                for (std::size_t len = starts.size() / 2; len >= 1; len /= 2)
                    for (std::size_t k = 0; k + len < starts.size(); k += len) {
                        Plan q = p;
                        q.lines[i].args[a].erase(starts[k], starts[k + len] - starts[k]);
                        r.push_back(std::move(q));
                    }
            for (std::size_t len = s.size() / 2; len >= 1; len /= 2) {
                if (s.size() / len > 400) break;
                for (std::size_t k = 0; k + len <= s.size(); k += len) {
                    Plan q = p;
                    q.lines[i].args[a].erase(k, len);
                    r.push_back(std::move(q));
                }
            }
        }
    return r;
}

int minimize(int argc, char** argv)
{
    if (argc < 5) return 64;
    Plan p;
    if (!Plan::parse(read_file(argv[2]), p)) return 64;
    const double deadline = now() + std::atof(argv[4]);
    Result base = run_plan(p, false);
    if (base.error || !base.o.violation) { std::fprintf(stderr, "the plan does not fail\n"); return 2; }
    auto& prop = registry()[p.property];
    u64 tried = 0, accepted = 0;
    bool progress = true;
    while (progress && now() < deadline) {
        progress = false;
        std::vector<Plan> cands;
        if (prop.shrink) cands = prop.shrink(p);
        auto g = generic_shrinks(p);
        cands.insert(cands.end(), g.begin(), g.end());
        for (auto& q : cands) {
            if (now() > deadline) break;
            ++tried;
            Result r = run_plan(q, false);
            if (!r.error && r.o.violation && r.o.vclass == base.o.vclass) {
                p = q;
                base = r;
                ++accepted;
                progress = true;
                break;
            }
        }
    }
    std::ofstream(argv[3]) << "# " << "class " << base.o.vclass << "\n# log " << hex64(base.o.log_hash) << "\n" << p.print();
    std::fprintf(stderr, "minimised: %llu candidates, %llu accepted\n", (unsigned long long)tried, (unsigned long long)accepted);
    return 0;
}

} // namespace
} // namespace sim

int main(int argc, char** argv)
{
    using namespace sim;
    // fixed addresses, if the sandbox lets us
    if (const int old = personality(0xffffffff); old >= 0 && !(old & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")) {
        setenv("SIM_REEXEC", "1", 1);
        if (personality(unsigned(old) | ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv);
    }
    std::ios_base::Init init;
    std::setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
    void* m = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED) return 70;
    shared = static_cast<Shared*>(m);
    const std::string mode = argc > 1 ? argv[1] : "";
    if (mode == "batch") return batch(argc, argv);
    if (mode == "minimize") return minimize(argc, argv);
    if (mode == "gen" && argc > 4) {
        const u64 i = std::strtoull(argv[4], nullptr, 10);
        Rng rng(mix(mix(std::strtoull(argv[3], nullptr, 10), hash_bytes(argv[2])), i));
        Plan p = registry()[argv[2]].generate(rng, i);
        p.property = argv[2];
        std::fputs(p.print().c_str(), stdout);
        return 0;
    }
    if (mode == "replay" && argc > 2) {
        Plan p;
        if (!Plan::parse(read_file(argv[2]), p)) return 64;
        std::string log;
        const bool keep = argc > 3 && !std::strcmp(argv[3], "--log");
        Result r = run_plan(p, keep, &log);
        if (keep) std::printf("%s", log.c_str());
        if (r.error) { std::printf("ERROR %s\n", r.o.detail.c_str()); return 2; }
        std::printf("steps %llu log %s nontrivial %d sig %s\n", (unsigned long long)r.steps, hex64(r.o.log_hash).c_str(), r.o.nontrivial, r.o.sig.c_str());
        if (r.o.violation) { std::printf("FAIL class %s\n%s\n", r.o.vclass.c_str(), r.o.detail.c_str()); return 1; }
        std::printf("PASS\n");
        return 0;
    }
    std::fprintf(stderr, "usage: sim batch|gen|replay|minimize ...\n");
    return 64;
}
