// P12: damaged stored input is handled safely and in bounded time.
#include "jobs.hpp"
#include "storage.hpp"
#include "sut.hpp"
#include <algorithm>

namespace sim {
namespace {


Plan generate(Rng& r, u64)
{
    Plan p;
    Job_Spec s = gen_job(r, 60);
    plan_job(p, "job", s);
    plan_damage(r, p, s);
    const i64 n = i64(std::max<std::size_t>(1, s.source.size()));
    // The file torn at more places, for the first stages only.
    if (r.chance(1, 2)) for (u64 k = 1 + r.below(12); k > 0; --k) {
        i64 at = r.range(0, n);
        // right after a character that can be the beginning of something longer
        static const std::string_view heads = "<>=-|&!/\\0(){}[]@,.;:*\"'";
        if (r.chance(1, 3)) {
            // ... also if such a character is rare
            char c = 0;
            std::size_t many = 0;
            for (int tries = 0; tries < 6; ++tries) {
                const char d = heads[r.below(heads.size())];
                const std::size_t k = std::size_t(std::count(s.source.begin(), s.source.end(), d));
                if (k && (!many || k < many)) c = d, many = k;
            }
            if (many) {
                std::size_t q = s.source.find(c);
                for (u64 skip = r.below(many); skip > 0; --skip) q = s.source.find(c, q + 1);
                at = i64(q) + 1;
            }
        }
        else if (r.chance(2, 3)) if (auto q = s.source.find_first_of("<>=-|&!/\\0(){}[]@,.;:*\"'", std::size_t(at)); q != std::string::npos) at = i64(q) + i64(r.chance(4, 5) ? 1 : 2);
        p.add("tear", { N(at) });
    }
    return p;
}

Outcome execute(const Plan& p)
{
    Outcome o;
    const Line* l = p.find("job");
    Job_Spec s;
    if (!l || !plan_read_job(*l, s)) return o;
    const std::string before = s.source;
    for (const Line* d : p.all("damage")) damage(s.source, *d, p.str("disk"));
    auto j = make_job(s);
    std::string sig;
    Fiber* f = fiber_create([&] {
        for (int i = 0; i < j->stages() && !j->ended; ++i) {
            set_step_limit(steps() + 30'000'000 + 5'000 * s.source.size(), j->stage_name(i));
            const u64 s0 = steps();
            Stage_Result r = j->run(i);
            sig += char('a' + int(r.status));
            g_log.add(s.kind + " " + j->stage_name(i) + " " + r.show());
            (void)s0;
            count((std::string("stage ended with ") + status_name(r.status)).c_str());
            if (r.status == Status::endless) break;
            if (r.status == Status::internal && s.kind == "bms" && i < 5) { fail(o, "internal-error", s.kind + " " + j->stage_name(i) + " has no diagnostic for a syntax error: " + r.text.substr(0, 300) + "\n" + s.source); break; }
            if (r.status == Status::out_of_memory) { fail(o, "out-of-memory", s.kind + " " + j->stage_name(i) + " asks for more memory than there is:\n" + s.source); break; }
            if (r.status == Status::other) { fail(o, "other-exception", s.kind + " " + j->stage_name(i) + " lets an exception through: " + r.text.substr(0, 300) + "\n" + s.source); break; }
        }
        doing(s.kind + " destruction");
        j->destroy();
        if (j->nodes_reclaimed_by_release) j->mem.release();
    }, std::size_t(1) << 29);
    fiber_run(f, 0);
    fiber_destroy(f);
    for (const Line* d : p.all("tear")) {
        if (o.violation) break;
        Job_Spec t = s;
        t.source = before.substr(0, std::size_t(std::max<i64>(0, d->num(0))));
        auto torn = make_job(t);
        f = fiber_create([&] {
            for (int i = 0; i < std::min(t.kind == "bms" ? 5 : 1, torn->stages()) && !torn->ended; ++i) {
                set_step_limit(steps() + 30'000'000 + 5'000 * t.source.size(), torn->stage_name(i));
                Stage_Result r = torn->run(i);
                sig += char('a' + int(r.status));
                g_log.add("torn " + t.kind + " " + torn->stage_name(i) + " " + r.show());
                if (r.status == Status::endless) break;
                if (r.status == Status::internal && t.kind == "bms") { fail(o, "internal-error", t.kind + " " + torn->stage_name(i) + " has no diagnostic for a syntax error: " + r.text.substr(0, 300) + "\n" + t.source); break; }
                if (r.status == Status::out_of_memory || r.status == Status::other) { fail(o, r.status == Status::other ? "other-exception" : "out-of-memory", t.kind + " " + torn->stage_name(i) + ": " + r.text.substr(0, 300) + "\n" + t.source); break; }
            }
            doing(t.kind + " destruction");
            torn->destroy();
            if (torn->nodes_reclaimed_by_release) torn->mem.release();
        }, std::size_t(1) << 29);
        fiber_run(f, 0);
        fiber_destroy(f);
        count("damage: torn");
    }
    if (!heap_errors().empty()) fail(o, "heap-misuse", heap_errors());
    o.nontrivial = s.source != before;
    o.sig = sig + hex64(g_log.h);
    return o;
}
SIM_REGISTER({ "P12", generate, execute });
} // namespace
} // namespace sim
