// Fibers, the preemptive scheduler seam, the step clock and coverage. All of them hang off the
// callback that the compiler inserts at every basic block of the code under test.
#include "core.hpp"
#include "run.hpp"
#include <cstring>
#include <cxxabi.h>
#include <cstdlib>
#include <link.h>
#include <sys/mman.h>
#include <ucontext.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/common_interface_defs.h>
#define SIM_ASAN 1
#else
#define SIM_ASAN 0
#endif

extern "C" char __executable_start;

namespace sim {

static u64 step_counter = 0;
static u64 step_limit = ~u64(0);
static const char* step_limit_what = "run";

u64 steps() { return step_counter; }
void set_step_limit(u64 limit, const char* what) { step_limit = limit; step_limit_what = what; }
void clear_step_limit() { step_limit = ~u64(0); }

struct Fiber {
    ucontext_t ctx {};
    std::function<void()> body;
    char* stack = nullptr;
    std::size_t size = 0;
    bool started = false, done = false;
    u64 steps = 0;
    char eh[16] = {};      // saved exception-handling globals
    void* fake_stack = nullptr;
    bool sut = true;
    std::vector<char> tls; // the program's thread-local variables, as this fiber sees them
};

// Fibers stand for threads, so every one of them has its own copy of the program's thread-local variables.
static struct Tls {
    char* block = nullptr;
    std::size_t size = 0;
    std::vector<char> initial, scheduler;
    void find()
    {
        if (size) return;
        dl_iterate_phdr(
            [](dl_phdr_info* info, std::size_t, void* self) {
                for (int i = 0; i < info->dlpi_phnum; ++i)
                    if (info->dlpi_phdr[i].p_type == PT_TLS && info->dlpi_tls_data) {
                        auto& t = *static_cast<Tls*>(self);
                        t.block = static_cast<char*>(info->dlpi_tls_data);
                        t.size = info->dlpi_phdr[i].p_memsz;
                        t.initial.assign(t.size, 0);
                        std::memcpy(t.initial.data(), reinterpret_cast<const char*>(info->dlpi_addr + info->dlpi_phdr[i].p_vaddr), info->dlpi_phdr[i].p_filesz);
                    }
                return 1; // the program itself comes first
            },
            this);
        scheduler.assign(size, 0);
        if (!size) std::abort();
    }
    void enter(Fiber& f)
    {
        std::memcpy(scheduler.data(), block, size);
        std::memcpy(block, f.tls.data(), size);
    }
    void leave(Fiber& f)
    {
        std::memcpy(f.tls.data(), block, size);
        std::memcpy(block, scheduler.data(), size);
    }
} tls;

static ucontext_t scheduler_ctx;
static Fiber* current = nullptr;
static u64 slice_left = 0; // 0: no preemption
static char scheduler_eh[16];
#if SIM_ASAN
static void* scheduler_fake = nullptr;
static const void* scheduler_stack = nullptr;
static std::size_t scheduler_stack_size = 0;
#endif
static int no_preempt = 0;
bool g_calm_one_time = false;
bool in_one_time_initialization() { return no_preempt != 0; }

static void switch_out(Fiber* f, bool finished)
{
    f->sut = g_sut;
    g_sut = false;
    std::memcpy(f->eh, abi::__cxa_get_globals(), 16);
    std::memcpy(abi::__cxa_get_globals(), scheduler_eh, 16);
    current = nullptr;
#if SIM_ASAN
    __sanitizer_start_switch_fiber(finished ? nullptr : &f->fake_stack, scheduler_stack, scheduler_stack_size);
#endif
    swapcontext(&f->ctx, &scheduler_ctx);
#if SIM_ASAN
    __sanitizer_finish_switch_fiber(f->fake_stack, nullptr, nullptr);
#endif
    (void)finished;
    g_sut = f->sut;
}

static void trampoline(unsigned lo, unsigned hi)
{
    auto* f = reinterpret_cast<Fiber*>(u64(lo) | u64(hi) << 32);
#if SIM_ASAN
    __sanitizer_finish_switch_fiber(nullptr, &scheduler_stack, &scheduler_stack_size);
#endif
    f->body();
    f->done = true;
    switch_out(f, true);
    std::abort();
}

Fiber* fiber_create(std::function<void()> body, std::size_t size, int fill)
{
    auto* f = new Fiber;
    f->body = std::move(body);
    f->size = size;
    tls.find();
    f->tls = tls.initial;
    f->stack = static_cast<char*>(mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (f->stack == MAP_FAILED) std::abort();
    if (fill >= 0) std::memset(f->stack + size - 256 * 1024, fill, 256 * 1024);
    getcontext(&f->ctx);
    f->ctx.uc_stack.ss_sp = f->stack;
    f->ctx.uc_stack.ss_size = size;
    f->ctx.uc_link = nullptr;
    u64 p = reinterpret_cast<u64>(f);
    makecontext(&f->ctx, reinterpret_cast<void (*)()>(trampoline), 2, unsigned(p), unsigned(p >> 32));
    return f;
}

bool fiber_run(Fiber* f, u64 slice)
{
    if (f->done) return true;
    const u64 before = step_counter;
    std::memcpy(scheduler_eh, abi::__cxa_get_globals(), 16);
    std::memcpy(abi::__cxa_get_globals(), f->eh, 16);
    current = f;
    slice_left = slice;
    const bool old_sut = g_sut;
#if SIM_ASAN
    __sanitizer_start_switch_fiber(&scheduler_fake, f->stack, f->size);
#endif
    tls.enter(*f);
    swapcontext(&scheduler_ctx, &f->ctx);
    tls.leave(*f);
#if SIM_ASAN
    __sanitizer_finish_switch_fiber(scheduler_fake, nullptr, nullptr);
#endif
    slice_left = 0;
    g_sut = old_sut;
    f->steps += step_counter - before;
    return f->done;
}
bool fiber_done(const Fiber* f) { return f->done; }
u64 fiber_steps(const Fiber* f) { return f->steps; }
void fiber_destroy(Fiber* f)
{
    munmap(f->stack, f->size);
    delete f;
}
} // namespace sim

extern "C" void __sanitizer_cov_trace_pc(void)
{
    using namespace sim;
    if (!g_sut) return;
    ++step_counter;
    const u64 pc = u64(__builtin_return_address(0)) - u64(&__executable_start);
    if (g_cov) {
        u64 h = (pc * 0x9e3779b97f4a7c15ull) >> (64 - cov_bits);
        g_cov[h >> 3] |= u8(1u << (h & 7));
    }
    if (step_counter > step_limit) report_hang(step_limit_what);
    if (slice_left != 0 && --slice_left == 0 && current) {
        if (no_preempt) { slice_left = 1; return; }
        switch_out(current, false);
    }
}

// One-time initialisation is atomic with respect to the scheduler, as it is for real threads.
extern "C" {
int __real___cxa_guard_acquire(void*);
void __real___cxa_guard_release(void*);
void __real___cxa_guard_abort(void*);
int __wrap___cxa_guard_acquire(void* g)
{
    int r = __real___cxa_guard_acquire(g);
    if (r && sim::g_sut) ++sim::no_preempt;
    return r;
}
void __wrap___cxa_guard_release(void* g)
{
    __real___cxa_guard_release(g);
    if (sim::no_preempt) --sim::no_preempt;
}
void __wrap___cxa_guard_abort(void* g)
{
    __real___cxa_guard_abort(g);
    if (sim::no_preempt) --sim::no_preempt;
}
}
