// Core of the deterministic simulator: PRNG, plans, outcomes, simulated heap, fibers, step clock.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <map>
#include <memory_resource>
#include <optional>
#include <string>
#include <string_view>
#include <vector>

namespace sim {

using u8 = std::uint8_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;
using i64 = std::int64_t;

// ---------------------------------------------------------------- PRNG
// All random choices are made by plan generators drawing from one Rng seeded from
// (VERIF_SEED, property, run index). Executors never draw from it.
struct Rng {
    u64 s;
    explicit Rng(u64 seed) : s(seed) { }
    u64 next()
    {
        u64 z = (s += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    u64 below(u64 n) { return n == 0 ? 0 : next() % n; }
    i64 range(i64 lo, i64 hi) { return lo + i64(below(u64(hi - lo + 1))); }
    bool chance(u64 num, u64 den) { return below(den) < num; }
    template <typename T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

inline u64 hash_bytes(std::string_view s, u64 h = 0xcbf29ce484222325ull)
{
    for (char c : s) { h ^= u8(c); h *= 0x100000001b3ull; }
    h ^= h >> 32; h *= 0xd6e8feb86659fd93ull; h ^= h >> 32;
    return h;
}
inline u64 mix(u64 a, u64 b) { Rng r(a ^ (b * 0x9e3779b97f4a7c15ull)); r.next(); return r.next(); }

// ---------------------------------------------------------------- Plans
// One plan line is `key arg arg ...`; an arg is an integer, a bare word or a quoted, escaped string.
struct Line {
    std::string key;
    std::vector<std::string> args;
    i64 num(std::size_t i, i64 def = 0) const;
    std::string str(std::size_t i) const { return i < args.size() ? args[i] : std::string(); }
};
struct Plan {
    std::string property;
    std::vector<Line> lines;
    void add(std::string key, std::vector<std::string> args = {}) { lines.push_back({ std::move(key), std::move(args) }); }
    const Line* find(std::string_view key) const;
    std::vector<const Line*> all(std::string_view key) const;
    i64 num(std::string_view key, i64 def) const;
    std::string str(std::string_view key) const;
    std::string print() const;
    static bool parse(std::string_view text, Plan& out);
};
inline std::string N(i64 x) { return std::to_string(x); }

// ---------------------------------------------------------------- Outcome of one simulated run
struct Outcome {
    bool violation = false;
    std::string vclass;  // stable class of the violation (minimisation keeps it)
    std::string detail;  // human-readable
    u64 log_hash = 0;    // hash of the complete event log
    bool nontrivial = false;
    std::string sig;     // signature used to count distinct runs
    std::string note;    // extra, for reports
};

// The event log of the current run. In violating runs it is kept as text.
struct Log {
    u64 h = 1469598103934665603ull;
    std::string text;
    bool keep = false;
    void add(std::string_view s)
    {
        h = hash_bytes(s, h);
        if (keep && text.size() < (1u << 20)) { text += s; text += '\n'; }
    }
};
extern Log g_log;

void fail(Outcome& o, std::string vclass, std::string detail);
// counter of fault kinds that actually fired, and of probes reached; shared with the parent process
void count(const char* what, u64 n = 1);
// note what the run is doing (shown if the process dies)
void doing(std::string_view what);

// ---------------------------------------------------------------- Which code is running
extern thread_local bool g_sut; // true while code of the repository runs
struct Sut {
    bool old;
    Sut() : old(g_sut) { g_sut = true; }
    ~Sut() { g_sut = old; }
    Sut(const Sut&) = delete;
};
struct Harness {
    bool old;
    Harness() : old(g_sut) { g_sut = false; }
    ~Harness() { g_sut = old; }
    Harness(const Harness&) = delete;
};

// ---------------------------------------------------------------- Simulated heap
enum Owner : u8 { own_heap = 1, own_resource = 2 };
struct Heap_Config {
    // 0: system allocator; 1: ascending, no reuse; 2: descending, no reuse; 3: scattered by seed;
    // 4: ascending with immediate LIFO reuse
    int placement = 0;
    bool poison = false;
    u64 fresh = 0;  // 8-byte pattern of fresh memory
    u64 freed = 0;  // 8-byte pattern of freed memory
    u64 seed = 0;
};
void heap_configure(const Heap_Config&);

struct Heap_Counts { u64 live_blocks, live_bytes, total; };
Heap_Counts heap_counts(u8 owner);   // blocks currently live, by owner
u64 heap_attempts(u8 owner);         // points at which an allocation could have been made to fail, so far
std::string heap_describe_live(u64 since_seq, u8 owner);
u64 heap_seq();
u64 heap_live_since(u64 since_seq, u8 owner);
std::string heap_errors();           // mismatched size/alignment, double return, foreign pointer
void heap_clear_errors();

// Arms failure of the SUT's allocations number n, n+1, ..., n+burst-1 counted from now (n >= 1).
// scope: 0 any, 1 global heap only, 2 resource only.
void heap_arm(u64 n, u64 burst, int scope);
u64 heap_disarm();                   // returns how many failures were injected since arming
// If set, the allocations of one-time initialisations neither fail nor count.
extern bool g_calm_one_time;
bool in_one_time_initialization();
struct Heap_Arm { u64 n = 0, burst = 0, injected = 0; int scope = 0; bool on = false; };
Heap_Arm heap_arm_swap(const Heap_Arm&); // the scheduler gives every fiber its own

// The caller's memory resource. Every block is accounted for; deallocation must match exactly.
struct Sim_Resource final : std::pmr::memory_resource {
    u64 live = 0, live_bytes = 0, total = 0;
    void release(); // gives every block back at once
    void* do_allocate(std::size_t bytes, std::size_t align) override;
    void do_deallocate(void* p, std::size_t bytes, std::size_t align) override;
    bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
};

// ---------------------------------------------------------------- Step clock and coverage
u64 steps();                         // basic blocks executed by the SUT in this run
void set_step_limit(u64 limit, const char* what); // absolute value of steps() at which the run is a hang
void clear_step_limit();

// ---------------------------------------------------------------- Fibers
struct Fiber;
Fiber* fiber_create(std::function<void()> body, std::size_t stack_size = 1 << 20, int stack_fill = -1);
// Runs the fiber until it finishes, or until it has executed `slice` basic blocks (0: to the end).
// Returns true if it has finished.
bool fiber_run(Fiber*, u64 slice);
bool fiber_done(const Fiber*);
u64 fiber_steps(const Fiber*);
void fiber_destroy(Fiber*); // abandons the fiber if it has not finished (its stack is not unwound)

// ---------------------------------------------------------------- Properties
struct Property {
    const char* id;
    Plan (*generate)(Rng&, u64 index);
    Outcome (*execute)(const Plan&);
    // optional: property-specific simplifications of a plan
    std::vector<Plan> (*shrink)(const Plan&) = nullptr;
    u64 default_step_limit = 400'000'000;
};
void register_property(const Property&);
#define SIM_REGISTER(...) static const int sim_registered_ = (::sim::register_property(__VA_ARGS__), 0)

std::string quote(std::string_view s);
std::string hex64(u64);
std::string first_difference(std::string_view a, std::string_view b);

} // namespace sim
