// P06: independent compilations do not influence one another.
// Several jobs run as fibers (each standing for a thread of its own) that the schedule of the plan preempts
// at any basic block. What each job shows must be what it shows alone in a fresh process with the same faults.
#include "jobs.hpp"
#include "sut.hpp"
#include <algorithm>

namespace sim {
namespace {

struct Entry {
    Job_Spec spec;
    struct Fault { int stage; u64 n, burst; int scope; };
    std::vector<Fault> faults;
    Html_Faults html;
    i64 abandon_after = -1; // after that many slices
};

// Runs a job stage by stage; `note` gets the text of each completed stage.
void run_entry(const Entry& e, Job& j, const std::function<void(std::string)>& note)
{
    for (int i = 0; i < j.stages() && !j.ended; ++i) {
        for (auto& f : e.faults) {
            if (f.stage % j.stages() != i || j.ended) continue;
            heap_arm(f.n, f.burst, f.scope);
            Stage_Result r = j.run(i);
            const u64 hit = heap_disarm();
            if (hit) count("allocation failure", hit);
            note(std::string(j.stage_name(i)) + " under faults (" + N(i64(hit)) + " hit): " + r.show());
            if (r.status != Status::out_of_memory) break;
        }
        if (j.ended) break;
        Stage_Result r = j.run(i);
        note(std::string(j.stage_name(i)) + ": " + r.show());
    }
    j.destroy();
    note("errors: " + heap_errors());
    note("left in the temporary resource: " + N(i64(j.tmp.live)));
    if (!j.nodes_reclaimed_by_release) note("left in the resource: " + N(i64(j.mem.live)));
}
std::string alone(const Entry& e)
{
    auto j = make_job(e.spec);
    std::string r;
    g_html_faults = e.html.at.empty() ? nullptr : &e.html;
    run_entry(e, *j, [&](std::string s) { r += N(i64(s.size())) + "\n" + s + "\n"; });
    return r;
}
std::vector<std::string> split(const std::string& r)
{
    std::vector<std::string> v;
    for (std::size_t i = 0; i < r.size();) {
        const std::size_t n = std::size_t(std::atoll(r.c_str() + i));
        i = r.find('\n', i) + 1;
        v.push_back(r.substr(i, n));
        i += n + 1;
    }
    return v;
}

Plan generate(Rng& r, u64)
{
    Plan p;
    const bool faults = r.chance(1, 2);
    const int jobs = r.chance(1, 2) ? 2 : 2 + int(r.below(4));
    Job_Spec last;
    for (int k = 0; k < jobs; ++k) {
        Job_Spec s = gen_job(r, 55, r.chance(2, 3));
        if (k > 0 && r.chance(1, 2)) {
            s = last;
            if (r.chance(5, 6)) s.source = mutate_values(r, s.source);
            if (r.chance(1, 2)) s.options = r.next() >> 14 & ~u64(1);
        }
        if (r.chance(1, 6) && !s.source.empty()) s.source.erase(r.below(s.source.size()), 1 + r.below(4));
        plan_job(p, "job", s);
        last = s;
        if (faults)
            for (u64 n = r.chance(1, 3) ? 0 : 1 + r.below(5); n > 0; --n)
                p.add("fault", { N(k), N(r.range(0, 15)), N(r.chance(1, 2) ? r.range(1, 30) : r.range(1, 600)), N(r.chance(2, 3) ? 1 : r.chance(1, 2) ? 3 : 100000000), N(r.chance(1, 2) ? 0 : r.range(1, 2)) });
        if (faults && r.chance(1, 4)) p.add("html", { N(k), N(r.range(0, 300)), N(r.range(0, 4)) });
        if (r.chance(1, 6)) p.add("abandon", { N(k), N(r.chance(1, 2) ? r.range(0, 40) : r.range(0, 1000)) });
    }
    // the schedule is repeated until all jobs are done
    const int style = int(r.below(4));
    for (int n = 4 + int(r.below(120)); n > 0; --n) {
        i64 slice;
        switch (style) {
        case 0: slice = r.range(1, 400); break;
        case 1: slice = i64(1) << r.below(15); break;
        case 2: slice = r.range(1000, 30000); break;
        default: slice = r.chance(1, 2) ? r.range(1, 30) : r.range(500, 5000);
        }
        p.add("run", { N(i64(r.below(u64(jobs)))), N(slice) });
    }
    p.add("fill", { N(r.chance(1, 2) ? -1 : r.range(0, 255)) });
    return p;
}

Outcome execute(const Plan& p)
{
    Outcome o;
    std::vector<Entry> e;
    for (const Line* l : p.all("job")) {
        Entry x;
        if (plan_read_job(*l, x.spec)) e.push_back(std::move(x));
    }
    auto of = [&](const Line* l) -> Entry* { return u64(l->num(0)) < e.size() ? &e[std::size_t(l->num(0))] : nullptr; };
    for (const Line* l : p.all("fault"))
        if (Entry* x = of(l)) x->faults.push_back({ int(l->num(1)), u64(std::max<i64>(1, l->num(2))), u64(std::max<i64>(1, l->num(3))), int(l->num(4)) % 3 });
    for (const Line* l : p.all("html")) if (Entry* x = of(l)) x->html.at.push_back({ u64(l->num(1)), int(l->num(2)) });
    for (const Line* l : p.all("abandon")) if (Entry* x = of(l)) x->abandon_after = l->num(1);
    if (e.empty()) return o;
    // Constant tables are initialised by whoever needs them first; where the n-th allocation fails must not
    // depend on that.
    g_calm_one_time = true;
    std::vector<std::vector<std::string>> want;
    for (auto& x : e) {
        std::string text;
        if (!in_fresh_process([&] { return alone(x); }, text)) {
            // crashes and hangs of a single job are the subject of P12
            o.sig = "no reference";
            return o;
        }
        want.push_back(split(text));
    }
    struct Running {
        std::unique_ptr<Job> job;
        Fiber* fiber = nullptr;
        std::vector<std::string> got;
        Heap_Arm arm;
        u64 cycles = 0, limit = 0, slices = 0;
        bool abandoned = false;
    };
    std::vector<Running> run(e.size());
    const int fill = int(p.num("fill", -1));
    for (std::size_t k = 0; k < e.size(); ++k) {
        run[k].job = make_job(e[k].spec);
        run[k].fiber = fiber_create(
            [&, k] {
                try {
                    run_entry(e[k], *run[k].job, [&](std::string s) { run[k].got.push_back(std::move(s)); });
                } catch (...) {
                    run[k].got.push_back("an exception left the job");
                }
            },
            64 << 20, fill);
    }
    std::vector<std::pair<std::size_t, u64>> schedule;
    for (const Line* l : p.all("run")) schedule.push_back({ std::size_t(l->num(0)) % e.size(), u64(std::max<i64>(1, l->num(1))) });
    for (std::size_t k = 0; k < e.size(); ++k) schedule.push_back({ k, 2000 }); // everyone makes progress
    u64 switches = 0;
    std::size_t last = ~std::size_t(0);
    auto open = [&](std::size_t k) { return !fiber_done(run[k].fiber) && !run[k].abandoned; };
    auto compare = [&](std::size_t k, bool whole) {
        if (whole && run[k].got.size() != want[k].size())
            return fail(o, "interference:stages@" + e[k].spec.kind, "job " + N(i64(k)) + " shows " + N(i64(run[k].got.size())) + " results, and alone " + N(i64(want[k].size())));
        for (std::size_t i = 0; i < run[k].got.size() && i < want[k].size(); ++i)
            if (run[k].got[i] != want[k][i]) {
                std::string stage = want[k][i].substr(0, want[k][i].find(':'));
                if (stage.find(" under") != std::string::npos) stage.erase(stage.find(" under"));
                return fail(o, "interference@" + e[k].spec.kind + " " + stage, "job " + N(i64(k)) + " alone vs interleaved, " + stage + ": " + first_difference(want[k][i], run[k].got[i]));
            }
    };
    for (u64 turn = 0, laps = 0; !o.violation; ++turn) {
        bool any = false;
        for (std::size_t k = 0; k < e.size(); ++k) any |= open(k);
        if (!any) break;
        if (turn == schedule.size()) { turn = 0; ++laps; }
        // later laps are coarser, so that long jobs come to an end
        auto [k, slice] = schedule[turn];
        if (laps > 30) slice *= laps / 10;
        if (!open(k)) continue;
        Running& x = run[k];
        if (e[k].abandon_after >= 0 && x.slices >= u64(e[k].abandon_after)) {
            x.abandoned = true;
            count("job abandoned half-way");
            continue;
        }
        ++x.slices;
        if (last != k) { ++switches; last = k; }
        doing("job " + N(i64(k)));
        const Heap_Arm outer = heap_arm_swap(x.arm);
        g_cycles = x.cycles;
        g_cycle_limit = x.limit;
        g_html_faults = e[k].html.at.empty() ? nullptr : &e[k].html;
        const std::size_t before = x.got.size();
        const bool done = fiber_run(x.fiber, slice);
        x.arm = heap_arm_swap(outer);
        x.cycles = g_cycles;
        x.limit = g_cycle_limit;
        g_html_faults = nullptr;
        g_log.add(N(i64(k)) + " " + N(i64(slice)));
        for (std::size_t i = before; i < x.got.size(); ++i) g_log.add(x.got[i]);
        if (done) compare(k, true);
    }
    for (std::size_t k = 0; k < e.size() && !o.violation; ++k) if (!fiber_done(run[k].fiber)) compare(k, false);
    count("context switch", switches);
    o.nontrivial = switches > 10 && e.size() > 1;
    o.sig = hex64(g_log.h);
    for (auto& x : run) x.job.release(); // abandoned jobs stay as they are
    return o;
}
SIM_REGISTER({ "P06", generate, execute, nullptr, 800'000'000 });
} // namespace
} // namespace sim
