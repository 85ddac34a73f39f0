// Simulated heap: replaces the global allocation functions of the process.
#include "core.hpp"
#include "run.hpp"
#include <cstdio>
#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <memory_resource>
#include <new>
#include <sys/mman.h>
#include <unistd.h>

namespace sim {
thread_local bool g_sut = false;

namespace {

// (`newer` and `older` link the live blocks in the order of their allocation; 0: none, else index + 1)
struct Entry { void* p; std::size_t size; u64 seq; const void* res; u32 align, newer, older; u8 owner; };

constexpr std::size_t table_size = std::size_t(1) << 20; // open addressing, tombstones = (void*)1
Entry* table = nullptr;
u32 newest = 0;
u64 seq_counter = 0;
struct Counts { u64 blocks = 0, bytes = 0, total = 0; } counts[3];
u64 attempts[3];

u64 arm_n = 0, arm_burst = 0, injected = 0;
int arm_scope = 0;
bool armed = false;

char errbuf[4096];
std::size_t errlen = 0;

Heap_Config cfg;

template <typename... Args>
void error(const char* fmt, Args... args)
{
    if constexpr (sizeof...(args) == 0) { error("%s", fmt); return; }
    else
    if (errlen < sizeof errbuf - 200)
        errlen += std::size_t(std::snprintf(errbuf + errlen, sizeof errbuf - errlen, fmt, args...));
}

Entry* tab()
{
    if (!table) {
        table = static_cast<Entry*>(mmap(nullptr, table_size * sizeof(Entry), PROT_READ | PROT_WRITE,
                                         MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        if (table == MAP_FAILED) abort();
    }
    return table;
}
// Neighbours in memory are neighbours in the table (few of its pages are touched).
std::size_t slot_of(void* p)
{
    const u64 a = reinterpret_cast<u64>(p);
    return ((a >> 4) * 3 + (((a >> 24) * 0x9e3779b97f4a7c15ull) >> 44)) & (table_size - 1);
}

void insert(void* p, std::size_t size, std::size_t align, u8 owner, const void* res)
{
    Entry* t = tab();
    std::size_t i = slot_of(p);
    for (std::size_t n = 0; n < table_size; ++n, i = (i + 1) & (table_size - 1))
        if (t[i].p == nullptr || t[i].p == (void*)1) {
            t[i] = { p, size, ++seq_counter, res, u32(align), 0, newest, owner };
            if (newest) t[newest - 1].newer = u32(i + 1);
            newest = u32(i + 1);
            counts[owner].blocks++;
            counts[owner].bytes += size;
            counts[owner].total++;
            return;
        }
    abort();
}
Entry* lookup(void* p)
{
    Entry* t = tab();
    std::size_t i = slot_of(p);
    for (std::size_t n = 0; n < table_size; ++n, i = (i + 1) & (table_size - 1)) {
        if (t[i].p == p) return &t[i];
        if (t[i].p == nullptr) return nullptr;
    }
    return nullptr;
}
void remove(Entry* e)
{
    counts[e->owner].blocks--;
    counts[e->owner].bytes -= e->size;
    (e->newer ? table[e->newer - 1].older : newest) = e->older;
    if (e->older) table[e->older - 1].newer = e->newer;
    // keep probe sequences intact, but do not let tombstones pile up
    std::size_t i = std::size_t(e - table), next = (i + 1) & (table_size - 1);
    e->p = table[next].p == nullptr ? nullptr : (void*)1;
    if (e->p == nullptr)
        for (std::size_t j = (i - 1) & (table_size - 1); table[j].p == (void*)1; j = (j - 1) & (table_size - 1))
            table[j].p = nullptr;
}

// ---- placement
// ascending allocation uses the first quarter, scattered allocation the two in the middle, descending the last
constexpr std::size_t arena_bytes = std::size_t(1) << 34; // reserved, not committed
char* arena = nullptr;
std::size_t up = 0, down = 0;
constexpr int stripes = 64;
std::size_t stripe_pos[stripes];
u64 scatter = 0;
struct Free_Node { Free_Node* next; };
struct Bucket { std::size_t size; void* head; } buckets[512];

char* get_arena()
{
    if (!arena) {
        void* want = reinterpret_cast<void*>(0x5a0000000000ull);
        void* p = mmap(want, arena_bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) abort();
        arena = static_cast<char*>(p);
    }
    return arena;
}
bool in_arena(void* p) { return arena && p >= arena && p < arena + arena_bytes; }
std::size_t round_up(std::size_t x, std::size_t a) { return (x + a - 1) / a * a; }

void fill(void* p, std::size_t n, u64 pattern)
{
    char* c = static_cast<char*>(p);
    for (; n >= 8; n -= 8, c += 8) std::memcpy(c, &pattern, 8);
    std::memcpy(c, &pattern, n);
}

void* raw_alloc(std::size_t size, std::size_t align)
{
    if (size == 0) size = 1;
    if (align < 16) align = 16;
    void* p = nullptr;
    if (cfg.placement == 0) {
        p = align <= 16 ? malloc(size) : aligned_alloc(align, round_up(size, align));
        if (!p) { std::fputs("simulator: out of real memory\n", stderr); _exit(97); }
    }
    else {
        char* a = get_arena();
        std::size_t need = round_up(size, 16);
        if (cfg.placement == 4) {
            for (Bucket& b : buckets)
                if (b.head && b.size == need && (reinterpret_cast<u64>(b.head) % align) == 0) {
                    p = b.head;
                    std::memcpy(&b.head, p, sizeof(void*));
                    break;
                }
        }
        if (!p) switch (cfg.placement) {
            default:
            case 1:
            case 4: {
                up = round_up(up, align);
                p = a + up;
                up += need;
                break;
            }
            case 2: {
                if (down == 0) down = arena_bytes;
                down = (down - need) / align * align;
                p = a + down;
                break;
            }
            case 3: {
                scatter = mix(scatter, cfg.seed);
                int s = int(scatter % stripes);
                std::size_t len = arena_bytes / 2 / stripes;
                stripe_pos[s] = round_up(stripe_pos[s], align);
                p = a + arena_bytes / 4 + std::size_t(s) * len + stripe_pos[s];
                stripe_pos[s] += need + (scatter >> 32) % 4 * 16;
                break;
            }
            }
    }
    if (cfg.poison) fill(p, size, cfg.fresh);
    return p;
}

void raw_free(void* p, std::size_t size)
{
    if (cfg.poison && size) fill(p, size, cfg.freed);
    if (in_arena(p)) {
        if (cfg.placement == 4) {
            std::size_t need = round_up(size ? size : 1, 16);
            for (Bucket& b : buckets)
                if (b.size == need || b.size == 0) {
                    b.size = need;
                    std::memcpy(p, &b.head, sizeof(void*));
                    b.head = p;
                    break;
                }
        }
        return;
    }
    free(p);
}

// ---- libstdc++'s pool resource
// GCC 13's unsynchronized_pool_resource is not safe against failures of its upstream resource: when the
// array that lists the chunks of a pool cannot be allocated, the exception is swallowed, and memory in
// front of that array is read. That is a defect of the C++ library and not of the code under test. So
// the failure points are the allocations *from* a pool, and what the pool itself requests never fails.
thread_local int in_pool = 0;

void check_size()
{
    if (counts[1].bytes + counts[2].bytes > (u64(2) << 30) || up > (std::size_t(2) << 30) || (down && arena_bytes - down > (std::size_t(2) << 30)))
        report_hang("unbounded memory");
}

bool should_fail(int owner)
{
    check_size();
    if (in_pool) return false;
    if (g_calm_one_time && in_one_time_initialization()) return false;
    ++attempts[owner];
    if (!armed || (arm_scope != 0 && arm_scope != owner)) return false;
    if (arm_n > 1) { --arm_n; return false; }
    if (arm_burst == 0) return false;
    --arm_burst;
    ++injected;
    return true;
}

void* sut_alloc(std::size_t size, std::size_t align, u8 owner, const void* res = nullptr)
{
    void* p = raw_alloc(size, align);
    insert(p, size, align, owner, res);
    return p;
}

} // namespace

void heap_configure(const Heap_Config& c)
{
    cfg = c;
    scatter = mix(c.seed, 77);
}
Heap_Counts heap_counts(u8 o) { return { counts[o].blocks, counts[o].bytes, counts[o].total }; }
u64 heap_attempts(u8 owner) { return attempts[owner]; }
u64 heap_seq() { return seq_counter; }
u64 heap_live_since(u64 since, u8 owner)
{
    u64 n = 0;
    for (u32 i = newest; i && table[i - 1].seq > since; i = table[i - 1].older)
        if (table[i - 1].owner == owner) ++n;
    return n;
}
std::string heap_describe_live(u64 since, u8 owner)
{
    std::string r;
    int n = 0;
    for (u32 i = newest; i && table[i - 1].seq > since; i = table[i - 1].older)
        if (table[i - 1].owner == owner && n++ < 5) r += " [" + std::to_string(table[i - 1].size) + " bytes]";
    return r;
}
std::string heap_errors() { return std::string(errbuf, errlen); }
void heap_clear_errors() { errlen = 0; }
void heap_arm(u64 n, u64 burst, int scope)
{
    arm_n = n; arm_burst = burst; arm_scope = scope; injected = 0; armed = true;
}
u64 heap_disarm() { armed = false; return injected; }
Heap_Arm heap_arm_swap(const Heap_Arm& n)
{
    Heap_Arm o { arm_n, arm_burst, injected, arm_scope, armed };
    arm_n = n.n; arm_burst = n.burst; injected = n.injected; arm_scope = n.scope; armed = n.on;
    return o;
}

void* Sim_Resource::do_allocate(std::size_t bytes, std::size_t align)
{
    if (g_sut && should_fail(own_resource)) throw std::bad_alloc();
    void* p = sut_alloc(bytes, align, own_resource, this);
    ++live; ++total; live_bytes += bytes;
    return p;
}
void Sim_Resource::do_deallocate(void* p, std::size_t bytes, std::size_t align)
{
    Entry* e = lookup(p);
    if (!e || e->owner != own_resource || e->res != this) {
        error("a block that the memory resource does not own was returned to it (%zu bytes);", bytes);
        return;
    }
    if (e->size != bytes || e->align != align)
        error("a block of %zu bytes aligned %zu was returned to the memory resource as %zu bytes aligned %zu;", e->size, std::size_t(e->align), bytes, align);
    std::size_t size = e->size;
    remove(e);
    --live; live_bytes -= size;
    raw_free(p, size);
}

void Sim_Resource::release()
{
    for (u32 i = newest; i && live != 0;) {
        Entry* e = &table[i - 1];
        i = e->older;
        if (e->owner != own_resource || e->res != this) continue;
        void* p = e->p;
        const std::size_t n = e->size;
        remove(e);
        --live; live_bytes -= n;
        raw_free(p, n);
    }
}

static void* global_new(std::size_t size, std::size_t align, bool nothrow)
{
    if (!g_sut) {
        void* p = align <= 16 ? malloc(size ? size : 1) : aligned_alloc(align, round_up(size ? size : 1, align));
        if (!p) { std::fputs("simulator: out of real memory\n", stderr); _exit(97); }
        return p;
    }
    if (should_fail(own_heap)) {
        if (nothrow) return nullptr;
        throw std::bad_alloc();
    }
    return sut_alloc(size, align, own_heap);
}
static void global_delete(void* p, std::size_t size, std::size_t align, bool sized)
{
    if (!p) return;
    Entry* e = lookup(p);
    if (!e) {
        if (in_arena(p)) { error("a global-heap block was freed twice;"); return; }
        free(p); // block of the harness (or, under ASan, reported as a bad free)
        return;
    }
    if (e->owner != own_heap) { error("a block of the memory resource was given to operator delete;"); return; }
    if (sized && e->size != size) error("a global-heap block of %zu bytes was freed as %zu bytes;", e->size, size);
    if (align && e->align != align) error("a global-heap block aligned %zu was freed as aligned %zu;", std::size_t(e->align), align);
    std::size_t n = e->size;
    remove(e);
    raw_free(p, n);
}
} // namespace sim

void* std::pmr::unsynchronized_pool_resource::do_allocate(std::size_t bytes, std::size_t align)
{
    using namespace sim;
    using F = void* (*)(std::pmr::unsynchronized_pool_resource*, std::size_t, std::size_t);
    static F real = reinterpret_cast<F>(dlsym(RTLD_NEXT, "_ZNSt3pmr28unsynchronized_pool_resource11do_allocateEmm"));
    if (g_sut && should_fail(own_resource)) throw std::bad_alloc();
    struct Guard {
        Guard() { ++in_pool; }
        ~Guard() { --in_pool; }
    } guard;
    return real(this, bytes, align);
}

void* operator new(std::size_t n) { return sim::global_new(n, 16, false); }
void* operator new[](std::size_t n) { return sim::global_new(n, 16, false); }
void* operator new(std::size_t n, std::align_val_t a) { return sim::global_new(n, std::size_t(a), false); }
void* operator new[](std::size_t n, std::align_val_t a) { return sim::global_new(n, std::size_t(a), false); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return sim::global_new(n, 16, true); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return sim::global_new(n, 16, true); }
void* operator new(std::size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return sim::global_new(n, std::size_t(a), true); }
void* operator new[](std::size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return sim::global_new(n, std::size_t(a), true); }
void operator delete(void* p) noexcept { sim::global_delete(p, 0, 0, false); }
void operator delete[](void* p) noexcept { sim::global_delete(p, 0, 0, false); }
void operator delete(void* p, std::size_t n) noexcept { sim::global_delete(p, n, 0, true); }
void operator delete[](void* p, std::size_t n) noexcept { sim::global_delete(p, n, 0, true); }
void operator delete(void* p, std::align_val_t a) noexcept { sim::global_delete(p, 0, std::size_t(a), false); }
void operator delete[](void* p, std::align_val_t a) noexcept { sim::global_delete(p, 0, std::size_t(a), false); }
void operator delete(void* p, std::size_t n, std::align_val_t a) noexcept { sim::global_delete(p, n, std::size_t(a), true); }
void operator delete[](void* p, std::size_t n, std::align_val_t a) noexcept { sim::global_delete(p, n, std::size_t(a), true); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim::global_delete(p, 0, 0, false); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim::global_delete(p, 0, 0, false); }
