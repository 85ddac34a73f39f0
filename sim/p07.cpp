// P07: the same input always gives the same observable result.
// The target is run once alone in a fresh process, and then again and again in one process, under other
// heap layouts, other contents of fresh, freed and stack memory, and after a history of other work.
#include "jobs.hpp"
#include "sut.hpp"
#include <algorithm>
#include <locale>
#include <cstdlib>

namespace sim {
namespace {

Plan generate(Rng& r, u64)
{
    Plan p;
    Job_Spec target = gen_job(r, 55, r.chance(2, 3));
    if (r.chance(1, 5) && !target.source.empty()) {
        // rejected inputs: the diagnostics must be the same, too
        const std::size_t at = r.below(target.source.size());
        if (r.chance(1, 2)) target.source.erase(at, 1 + r.below(6));
        else target.source.insert(at, r.pick(std::vector<std::string> { ")", "}", "@", "0x", "/*", "\\", "let", "9", ";", " x ", "Uint(3)", "true" }));
    }
    plan_job(p, "target", target);
    static const std::vector<std::string> bursts { "1", "1", "2", "5", "100000000" };
    const int tries = 2 + int(r.below(5));
    auto plan_twin = [](Plan& p, const Job_Spec& s, int t) {
        plan_job(p, "history", s);
        p.lines.back().args.push_back(N(t));
        p.lines.back().args.push_back("99");
    };
    for (int t = 0; t < tries; ++t) {
        bool twin = false;
        for (u64 n = r.below(3); n > 0; --n) {
            Job_Spec s = gen_job(r, 55, r.chance(2, 3));
            if (r.chance(1, 2)) {
                s = { target.kind, r.chance(1, 3) ? target.source : mutate_values(r, target.source), r.chance(1, 2) ? target.options : r.next() >> 14 & ~u64(1) };
                // the same allocations in the same order: the target's objects get the addresses of the earlier ones
                if (r.chance(1, 3)) { twin = true; plan_twin(p, s, t); continue; }
            }
            if (r.chance(1, 4) && !s.source.empty()) s.source.erase(r.below(s.source.size()), 1 + r.below(6));
            plan_job(p, "history", s);
            Line& l = p.lines.back();
            l.args.push_back(N(t));                                          // before which try
            l.args.push_back(N(r.chance(1, 3) ? r.range(0, 15) : 99));       // last stage
            if (r.chance(1, 2)) {
                l.args.push_back(N(r.range(0, 15)));                         // fault: stage, number, burst, scope
                l.args.push_back(N(r.range(1, r.chance(1, 2) ? 20 : 400)));
                l.args.push_back(r.pick(bursts));
                l.args.push_back(N(r.range(0, 2)));
            }
        }
        auto pattern = [&]() -> std::string {
            switch (r.below(7)) {
            case 0: return "0";
            case 1: return "-1";
            case 2: return N(i64(0x0101010101010101ll));
            case 3: return N(i64(0x00000000ffffffffll));
            case 4: return N(i64(0x7f7f7f7f7f7f7f7fll));
            case 5: return N(i64(0x20));
            default: return N(i64(r.next() >> 1));
            }
        };
        p.add("try", { N(twin ? 4 : r.range(1, 4)), N(r.chance(3, 4)), pattern(), pattern(), N(r.range(1, 1'000'000'000)), N(r.chance(3, 4) ? r.range(0, 255) : -1), N(r.chance(1, twin ? 1 : 3)), N(r.chance(1, 2)), N(r.chance(1, 4)) });
    }
    return p;
}

// What an embedding program may have made the default for new streams.
struct Grouped final : std::numpunct<char> {
    char do_decimal_point() const override { return ','; }
    char do_thousands_sep() const override { return '\''; }
    std::string do_grouping() const override { return "\1"; }
    std::string do_truename() const override { return "vrai"; }
    std::string do_falsename() const override { return "faux"; }
};

void run_history(const Line& l)
{
    Job_Spec s;
    if (!plan_read_job(l, s)) return;
    const int stop = int(l.num(4, 99));
    auto j = make_job(s);
    for (int i = 0; i < j->stages() && i <= stop && !j->ended; ++i) {
        if (l.args.size() > 5 && l.num(5) % j->stages() == i) {
            heap_arm(u64(std::max<i64>(1, l.num(6))), u64(std::max<i64>(1, l.num(7))), int(l.num(8)) % 3);
            Stage_Result r = j->run(i);
            if (const u64 hit = heap_disarm()) count("allocation failure in the history", hit);
            if (r.status == Status::out_of_memory && l.num(6) % 2) break; // abandoned
            if (j->ended || r.status != Status::out_of_memory) continue;
        }
        j->run(i);
    }
    count(j->ended ? "earlier job rejected" : stop < j->stages() ? "earlier job abandoned half-way" : "earlier job completed");
    // an abandoned job's objects are sometimes destroyed only at the end of the process
    if (stop < j->stages() && stop % 2) { j.release(); return; }
    j->destroy();
    if (j->nodes_reclaimed_by_release) j->mem.release();
}

Outcome execute(const Plan& p)
{
    Outcome o;
    Job_Spec target;
    if (!p.find("target") || !plan_read_job(*p.find("target"), target)) return o;
    std::string want;
    if (!in_fresh_process([&] { return run_whole_job(target); }, want)) {
        o.sig = "no reference"; // the subject of P12
        return o;
    }
    g_log.add(want);
    // All later texts are at one and the same address.
    static char slab[text_slab_size];
    struct Slab { Slab() { g_text_slab = slab; } ~Slab() { g_text_slab = nullptr; } } use_slab;
    i64 t = 0;
    for (const Line* l : p.all("try")) {
        static const std::locale grouped(std::locale::classic(), new Grouped);
        struct Locale {
            explicit Locale(bool other)
            {
                if (other) { std::locale::global(grouped); count("global locale changed"); }
            }
            ~Locale() { std::locale::global(std::locale::classic()); }
        } locale(l->num(8) != 0);
        std::ostream stream(nullptr);
        stream.imbue(std::locale::classic()); // (the consumer's choice)
        struct Shared { ~Shared() { g_shared_stream = nullptr; } } shared;
        if (l->num(7)) g_shared_stream = &stream;
        const int placement = 1 + int(u64(l->num(0)) % 4);
        std::string got;
        auto history = [&] { for (const Line* h : p.all("history")) if (h->num(3) == t) run_history(*h); };
        if (!l->num(6)) history();
        doing("target, try " + N(t));
        heap_configure({ .placement = placement, .poison = l->num(1) != 0, .fresh = u64(l->num(2)), .freed = u64(l->num(3)), .seed = u64(l->num(4)) });
        Fiber* f = fiber_create(
            [&] {
                try {
                    if (l->num(6)) history(); // on the same stack
                    got = run_whole_job(target);
                } catch (...) {
                    got = "an exception left the job";
                }
            },
            64 << 20, int(l->num(5, -1)));
        fiber_run(f, 0);
        fiber_destroy(f);
        heap_configure({ .placement = 4 });
        static const char* names[] = { "", "ascending", "descending", "scattered", "ascending, reusing at once" };
        count((std::string("heap placement: ") + names[placement]).c_str());
        if (l->num(1)) count("memory filled with a pattern");
        g_log.add(N(t) + " " + hex64(hash_bytes(got)));
        if (got != want) {
            // name the stage that differs
            std::size_t i = 0;
            while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
            std::size_t b = want.rfind("\n== ", i);
            b = b == std::string::npos ? 0 : b + 1;
            const std::string stage = want.substr(b, want.find('\n', b) - b);
            fail(o, "result-differs@" + target.kind + " " + stage, "try " + N(t) + ", " + stage + ": alone in a fresh process vs here: " + first_difference(want, got));
            break;
        }
        ++t;
    }

    o.nontrivial = t > 0;
    std::string layouts;
    for (const Line* l : p.all("try")) for (auto& a : l->args) layouts += a + " ";
    o.sig = hex64(g_log.h) + hex64(hash_bytes(layouts));
    return o;
}
SIM_REGISTER({ "P07", generate, execute, nullptr, 800'000'000 });
} // namespace
} // namespace sim
