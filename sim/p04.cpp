// P04: every resource acquired during a compilation is given back.
#include "jobs.hpp"
#include "sut.hpp"
#include <algorithm>

namespace sim {
namespace {

Plan generate(Rng& r, u64)
{
    Plan p;
    p.add("rounds", { N(r.chance(1, 4) ? 9 : 5) });
    static const std::vector<std::string> bursts { "1", "1", "1", "2", "5", "100000000" };
    for (u64 j = 0, n = 1 + r.below(3); j < n; ++j) {
        Job_Spec s = gen_job(r, 70);
        // a third of the inputs is broken, so that jobs end with diagnostics
        if (r.chance(1, 3) && !s.source.empty()) {
            const std::size_t at = r.below(s.source.size());
            switch (r.below(3)) {
            case 0: s.source.erase(at, 1 + r.below(6)); break;
            case 1: s.source.insert(at, r.pick(std::vector<std::string> { ")", "}", "{", "@", "0x", "/*", "\\", "let", "9", "[", ";" })); break;
            default: s.source[at] = char(r.below(256));
            }
        }
        plan_job(p, "job", s);
        p.add("stop", { N(i64(j)), N(r.chance(1, 2) ? 99 : r.range(0, 15)) });
        for (u64 k = r.chance(1, 5) ? 0 : r.below(12); k > 0; --k)
            p.add("fault", { N(i64(j)), N(r.chance(1, 3) ? 6 : r.range(0, 15)), N(r.range(0, 999)), r.pick(bursts), N(r.chance(1, 2) ? 0 : r.range(1, 2)) });
        if (r.chance(1, 3)) p.add("html", { N(i64(j)), N(r.range(0, 400)), N(r.range(0, 4)) });
    }
    return p;
}

Outcome execute(const Plan& p)
{
    Outcome o;
    struct Entry { Job_Spec spec; int stop = 99; std::vector<std::vector<u64>> attempts; Html_Faults html; };
    std::vector<Entry> jobs;
    for (const Line* l : p.all("job")) {
        Entry e;
        if (plan_read_job(*l, e.spec)) jobs.push_back(std::move(e));
    }
    for (const Line* l : p.all("stop")) if (u64(l->num(0)) < jobs.size()) jobs[std::size_t(l->num(0))].stop = int(l->num(1, 99));
    for (const Line* l : p.all("html")) if (u64(l->num(0)) < jobs.size()) jobs[std::size_t(l->num(0))].html.at.push_back({ u64(l->num(1)), int(l->num(2)) });
    const int rounds = int(std::clamp<i64>(p.num("rounds", 5), 5, 12));
    std::vector<u64> live(std::size_t(rounds), 0), bytes = live, seq = live;
    u64 fired = 0;
    std::string sig;
    for (std::size_t round = 0; round < live.size() && !o.violation; ++round) {
        seq[round] = heap_seq();
        for (std::size_t n = 0; n < jobs.size() && !o.violation; ++n) {
            Entry& e = jobs[n];
            auto j = make_job(e.spec);
            bool endless = false;
            for (int i = 0; i < j->stages() && i <= e.stop && !j->ended && !o.violation; ++i) {
                const std::string where = e.spec.kind + " " + j->stage_name(i);
                const u64 a1 = heap_attempts(own_heap), a2 = heap_attempts(own_resource);
                if (round == 0) {
                    Stage_Result r = j->run(i);
                    const u64 d1 = heap_attempts(own_heap) - a1, d2 = heap_attempts(own_resource) - a2;
                    e.attempts.push_back({ d1 + d2, d1, d2 });
                    sig += char('0' + int(r.status));
                    if (r.status == Status::endless || r.status == Status::other) endless = true;
                }
                else {
                    g_html_faults = e.html.at.empty() ? nullptr : &e.html;
                    for (const Line* l : p.all("fault")) {
                        if (u64(l->num(0)) != n || l->num(1) % j->stages() != i || j->ended || std::size_t(i) >= e.attempts.size()) continue;
                        const int scope = int(l->num(4)) % 3;
                        if (e.attempts[std::size_t(i)][std::size_t(scope)] == 0) continue;
                        heap_arm(1 + u64(l->num(2)) * e.attempts[std::size_t(i)][std::size_t(scope)] / 1000, u64(std::max<i64>(1, l->num(3))), scope);
                        Stage_Result r = j->run(i);
                        const u64 hit = heap_disarm();
                        fired += hit;
                        count("allocation failure", hit);
                        g_log.add(where + " fault " + N(i64(hit)) + " " + status_name(r.status));
                        if (r.status != Status::out_of_memory) break;
                    }
                    if (!j->ended) {
                        Stage_Result r = j->run(i);
                        g_log.add(where + " " + r.show());
                    }
                    g_html_faults = nullptr;
                }
                if (!heap_errors().empty()) fail(o, "heap-misuse@" + where, heap_errors());
                if (endless) break;
            }
            if (j->ended) count("job ended by a diagnostic or internal error");
            else if (e.stop < j->stages()) count("job abandoned half-way");
            else count("job completed");
            doing(e.spec.kind + " destruction");
            const std::string kind = e.spec.kind;
            j->destroy();
            if (!heap_errors().empty()) fail(o, "heap-misuse@" + kind + " destruction", heap_errors());
            if (j->tmp.live != 0)
                fail(o, "temporary-resource@" + kind, N(i64(j->tmp.live)) + " blocks of the temporary memory resource were never returned (round " + N(i64(round)) + ", job " + N(i64(n)) + ")" + heap_describe_live(seq[round], own_resource));
            if (j->hand.live != 0)
                fail(o, "resource@" + kind, N(i64(j->hand.live)) + " blocks of the resource from which results were handed over were never returned (round " + N(i64(round)) + ", job " + N(i64(n)) + ")" + heap_describe_live(seq[round], own_resource));
            if (j->nodes_reclaimed_by_release) j->mem.release();
            else if (j->mem.live != 0)
                fail(o, "resource@" + kind, N(i64(j->mem.live)) + " blocks of the memory resource were never returned (round " + N(i64(round)) + ", job " + N(i64(n)) + ")" + heap_describe_live(seq[round], own_resource));
        }
        live[round] = heap_counts(own_heap).live_blocks;
        bytes[round] = heap_counts(own_heap).live_bytes;
        g_log.add("live " + N(i64(live[round])) + " " + N(i64(bytes[round])));
    }
    // One-time caches are filled by the undisturbed round 0, or (if only failures lead there) by round 1.
    if (!o.violation && (live.back() > live[2] || bytes.back() > bytes[2])) {
        std::string text, kinds;
        for (std::size_t i = 0; i < live.size(); ++i) text += (i ? ", " : "") + N(i64(live[i])) + " (" + N(i64(bytes[i])) + " bytes)";
        for (auto& e : jobs) kinds += (kinds.empty() ? "" : "+") + e.spec.kind;
        fail(o, "growth", "repeating the same work makes the process grow; blocks of the global heap live after each round: " + text + " (" + kinds + "):" + heap_describe_live(seq.back(), own_heap));
    }
    o.nontrivial = true;
    o.sig = sig + N(i64(fired)) + hex64(g_log.h);
    return o;
}
SIM_REGISTER({ "P04", generate, execute });
} // namespace
} // namespace sim
