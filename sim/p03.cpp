// P03: any allocation failure is reported as out-of-memory, damages nothing, and can be retried.
#include "jobs.hpp"
#include <algorithm>

namespace sim {
namespace {

struct Ref_Stage { Status status; u64 allocs[3]; std::string text; };

// Undisturbed run, with the number of allocations of every stage.
std::string reference(const Job_Spec& spec)
{
    auto j = make_job(spec);
    std::string r;
    for (int i = 0; i < j->stages(); ++i) {
        const u64 h = heap_attempts(own_heap), m = heap_attempts(own_resource);
        Stage_Result s = j->run(i);
        const u64 dh = heap_attempts(own_heap) - h, dm = heap_attempts(own_resource) - m;
        r += N(i64(s.status)) + " " + N(i64(dh)) + " " + N(i64(dm)) + " " + N(i64(s.text.size())) + "\n" + s.text + "\n";
    }
    j->destroy();
    return r;
}
std::vector<Ref_Stage> parse_reference(const std::string& r)
{
    std::vector<Ref_Stage> v;
    for (std::size_t i = 0; i < r.size();) {
        long long st, dh, dm, n;
        int used = 0;
        if (std::sscanf(r.c_str() + i, "%lld %lld %lld %lld\n%n", &st, &dh, &dm, &n, &used) < 4) break;
        i = r.find('\n', i) + 1;
        v.push_back({ Status(st), { u64(dh + dm), u64(dh), u64(dm) }, r.substr(i, std::size_t(n)) });
        i += std::size_t(n) + 1;
    }
    return v;
}

Plan generate(Rng& r, u64)
{
    Plan p;
    plan_job(p, "job", gen_job(r, 75));
    const int n = 24 + int(r.below(24));
    static const std::vector<std::string> bursts { "1", "1", "1", "2", "3", "7", "100000000" };
    for (int i = 0; i < n; ++i) {
        i64 stage = r.range(0, 15);
        // near the start, near the end, anywhere
        i64 frac = r.chance(1, 8) ? r.range(0, 20) : r.chance(1, 8) ? r.range(980, 999) : r.range(0, 999);
        if (r.chance(1, 3)) stage = 6; // analysis has the most to lose
        p.add("fault", { N(stage), N(frac), r.pick(bursts), N(r.chance(1, 2) ? 0 : r.range(1, 2)) });
    }
    return p;
}

Outcome execute(const Plan& p)
{
    Outcome o;
    Job_Spec spec;
    if (!p.find("job") || !plan_read_job(*p.find("job"), spec)) return o;
    std::string text;
    if (!in_fresh_process([&] { return reference(spec); }, text)) {
        // crashes without any fault are the subject of P12
        o.sig = "no reference";
        return o;
    }
    const auto ref = parse_reference(text);
    auto j = make_job(spec);
    u64 fired = 0;
    std::string sig;
    for (int i = 0; i < j->stages() && std::size_t(i) < ref.size() && !o.violation; ++i) {
        if (ref[std::size_t(i)].status == Status::endless || ref[std::size_t(i)].status == Status::other) break;
        const std::string where = std::string(j->spec.kind) + " " + j->stage_name(i);
        const Ref_Stage& want = ref[std::size_t(i)];
        auto matches = [&](const Stage_Result& s) { return s.status == want.status && s.text == want.text; };
        for (const Line* l : p.all("fault")) {
            if (l->num(0) % j->stages() != i || j->ended) continue;
            const int scope = int(l->num(3)) % 3;
            if (want.allocs[scope] == 0) continue;
            const u64 at = 1 + u64(l->num(1)) * want.allocs[scope] / 1000;
            const std::string before = j->fingerprint(i);
            heap_arm(at, u64(std::max<i64>(1, l->num(2))), scope);
            Stage_Result got = j->run(i);
            const u64 hit = heap_disarm();
            fired += hit;
            count(scope == 0 ? "allocation failure (any)" : scope == 1 ? "allocation failure (global heap)" : "allocation failure (memory resource)", hit);
            if (hit > 1) count("consecutive allocation failures", 1);
            g_log.add(where + " fault " + N(i64(at)) + " hit " + N(i64(hit)) + " -> " + got.show());
            sig += std::string(1, char('a' + i)) + (hit ? status_name(got.status) : "");
            if (hit == 0 && !matches(got)) {
                fail(o, "different-without-fault@" + where, "no failure was injected, but the result differs: " + first_difference(want.text, got.text));
                break;
            }
            if (hit && got.status != Status::out_of_memory && !matches(got)) {
                fail(o, std::string("not-reported:") + status_name(got.status) + "@" + where,
                     N(i64(hit)) + " allocation(s) from number " + N(i64(at)) + " of the stage failed, and it ended with: " + std::string(status_name(got.status)) + " (undisturbed: " + status_name(want.status) + ") "
                         + first_difference(want.text, got.text));
                break;
            }
            if (std::string after = j->fingerprint(i); after != before) {
                fail(o, "input-changed@" + where, "the inputs of the stage changed: " + first_difference(before, after));
                break;
            }
            if (!heap_errors().empty()) { fail(o, "heap-misuse@" + where, heap_errors()); break; }
            if (got.status != Status::out_of_memory) {
                // it went through (or ended the job) despite the failure: start again for the next fault
                if (j->ended) j->ended = false;
            }
        }
        if (o.violation || j->ended) break;
        Stage_Result got = j->run(i);
        g_log.add(where + " -> " + got.show());
        if (!matches(got))
            fail(o, "retry-differs@" + where, "after out-of-memory the repeated stage gives a different result: " + std::string(status_name(got.status)) + " vs " + status_name(want.status) + " " + first_difference(want.text, got.text));
    }
    doing("destruction after out-of-memory");
    j->destroy();
    if (!o.violation && !heap_errors().empty()) fail(o, "heap-misuse@destruction", heap_errors());
    o.nontrivial = fired != 0;
    o.sig = sig + hex64(hash_bytes(text));
    return o;
}
SIM_REGISTER({ "P03", generate, execute });
} // namespace
} // namespace sim
