// Development aid: compare model and compiler on generated programs.
#include "jobs.hpp"
#include "model.hpp"
#include <cstdlib>
namespace sim {
static Plan generate(Rng& r, u64)
{
    Plan p;
    plan_job(p, "job", gen_job(r));
    return p;
}
static Outcome execute(const Plan& p)
{
    Outcome o;
    Job_Spec s;
    if (!p.find("job") || !plan_read_job(*p.find("job"), s)) return o;
    std::string r = run_whole_job(s);
    g_log.add(r);
    o.sig = hex64(hash_bytes(r));
    o.nontrivial = true;
    if (std::getenv("SIM_STATS")) {
        // where jobs end
        std::size_t b = r.rfind("== ");
        std::size_t e = r.find('\n', b), c = r.find(':', e);
        fail(o, s.kind + " ends in " + r.substr(b + 3, e - b - 3) + " " + r.substr(e + 1, c - e - 1), r.substr(c + 1, 160));
        return o;
    }
    if (r.find("internal error") != std::string::npos) fail(o, "internal" , r.substr(r.find("internal error"), 200));
    return o;
}
SIM_REGISTER({ "P00", generate, execute });
}
