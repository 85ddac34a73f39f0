#include "simio.hpp"
#include "run.hpp"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <ext/stdio_sync_filebuf.h>
#include <fcntl.h>
#include <functional>
#include <iostream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>

int bm_cli_main(int argc, const char** argv);

namespace sim {
namespace {

constexpr int targets = 3, ops = 4;
const char* const target_names[] { "in", "out", "stdout" };
const char* const op_names[] { "open", "read", "write", "close" };
enum Op { op_open, op_read, op_write, op_close };

struct Shared_Io {
    u64 calls[targets][ops];
    u64 harmful, harmless, alloc_faults, steps;
    u8 out_opened, returned;
};
Shared_Io* sh = nullptr;

struct Node { std::string name; int fd = -1; int target = -1; };
bool on = false; // only ever true in the child
std::vector<Node>* nodes = nullptr;
const Io_Setup* setup = nullptr;
std::map<FILE*, int>* cookies = nullptr; // -> index into nodes

int index_of(const char* const* names, int n, const std::string& s)
{
    for (int i = 0; i < n; ++i) if (s == names[i]) return i;
    return -1;
}

// what happens to this call; null: nothing special
const Io_Fault* consult(int target, int op)
{
    if (target < 0) return nullptr;
    const u64 n = sh->calls[target][op]++;
    for (auto& f : setup->faults) {
        if (f.target != target_names[target] || f.op != op_names[op]) continue;
        if (n < f.at || n - f.at >= f.times) continue;
        // a short transfer only makes sense for reads and writes
        if (f.kind == "short" && op != op_read && op != op_write) continue;
        (io_fault_is_harmless(f) ? sh->harmless : sh->harmful)++;
        count((std::string(target_names[target]) + " " + op_names[op] + " " + f.kind).c_str());
        return &f;
    }
    return nullptr;
}
int code_of(const std::string& k)
{
    if (k == "eintr") return EINTR;
    if (k == "enospc") return ENOSPC;
    if (k == "epipe") return EPIPE;
    if (k == "enoent") return ENOENT;
    if (k == "eacces") return EACCES;
    if (k == "emfile") return EMFILE;
    return EIO;
}
ssize_t transfer(const Node& node, bool writing, char* p, std::size_t n)
{
    const bool old = g_sut;
    g_sut = false;
    ssize_t r = 0;
    const Io_Fault* f = n ? consult(node.target, writing ? op_write : op_read) : nullptr;
    if (f && f->kind != "short") {
        errno = code_of(f->kind);
        r = -1;
    } else {
        if (f) n = std::clamp<std::size_t>(n * std::size_t(std::clamp<i64>(f->arg, 0, 999)) / 1000, 1, n);
        r = writing ? syscall(SYS_write, node.fd, p, n) : syscall(SYS_read, node.fd, p, n);
    }
    g_sut = old;
    return r;
}
const Node* node_of_fd(int fd)
{
    if (!on || fd < 0) return nullptr;
    for (auto& n : *nodes) if (n.fd == fd) return &n;
    return nullptr;
}

// FILE objects: glibc's own buffering above the simulated calls. Like for real files, a short write is
// continued, and an error ends it.
ssize_t cookie_write(void* c, const char* p, std::size_t n)
{
    const Node& node = (*nodes)[std::size_t(reinterpret_cast<u64>(c))];
    std::size_t done = 0;
    while (done < n) {
        const ssize_t r = transfer(node, true, const_cast<char*>(p) + done, n - done);
        if (r < 0) break;
        done += std::size_t(r);
    }
    return ssize_t(done);
}
ssize_t cookie_read(void* c, char* p, std::size_t n) { return transfer((*nodes)[std::size_t(reinterpret_cast<u64>(c))], false, p, n); }
int cookie_seek(void* c, off64_t* off, int whence)
{
    const off64_t r = lseek64((*nodes)[std::size_t(reinterpret_cast<u64>(c))].fd, *off, whence);
    if (r < 0) return -1;
    *off = r;
    return 0;
}
int cookie_close(void* c)
{
    const Node& node = (*nodes)[std::size_t(reinterpret_cast<u64>(c))];
    if (const Io_Fault* f = consult(node.target, op_close)) {
        errno = code_of(f->kind);
        return EOF;
    }
    return 0;
}
FILE* make_file(std::size_t i, const char* mode)
{
    FILE* f = fopencookie(reinterpret_cast<void*>(u64(i)), mode, { cookie_read, cookie_write, cookie_seek, cookie_close });
    if (f) (*cookies)[f] = int(i);
    return f;
}
// Opens a file of the simulated disk: index of the node, or -1 with errno set.
int open_node(const char* path, bool write, bool truncate, bool create)
{
    const bool old = g_sut;
    g_sut = false;
    struct Back { bool o; ~Back() { g_sut = o; } } back { old };
    const std::string name = path;
    std::size_t i = 0;
    while (i < nodes->size() && (*nodes)[i].name != name) ++i;
    const int target = i < nodes->size() ? (*nodes)[i].target : -1;
    if (const Io_Fault* f = consult(target, op_open)) { errno = code_of(f->kind); return -1; }
    const bool is_out = target == 1;
    // the file "out" exists only if it was there before or has been created
    if (i == nodes->size() || (is_out && !sh->out_opened && !setup->files.contains(name))) {
        if (!write || !create || name.empty() || name.find('/') != std::string::npos) { errno = ENOENT; return -1; }
        if (i == nodes->size()) nodes->push_back({ name, memfd_create("sim", 0), -1 });
    }
    Node& n = (*nodes)[i];
    if (is_out && write) sh->out_opened = 1;
    if (truncate && ftruncate(n.fd, 0) != 0) { errno = EIO; return -1; }
    lseek(n.fd, 0, SEEK_SET);
    return int(i);
}
std::string slurp(int fd)
{
    std::string r;
    char buf[65536];
    off_t off = 0;
    for (ssize_t n; (n = pread(fd, buf, sizeof buf, off)) > 0; off += n) r.append(buf, std::size_t(n));
    return r;
}
} // namespace

bool io_fault_is_harmless(const Io_Fault& f) { return f.kind == "short"; }

Io_Result io_run(const Io_Setup& s, const std::function<int()>& f, u64 step_bound)
{
    Io_Result r;
    if (!sh) {
        sh = static_cast<Shared_Io*>(mmap(nullptr, sizeof(Shared_Io), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        if (sh == MAP_FAILED) std::abort();
    }
    std::memset(static_cast<void*>(sh), 0, sizeof *sh);
    std::vector<Node> disk;
    auto add = [&](const std::string& name, int target, const std::string* content) {
        const int fd = memfd_create("sim", 0);
        if (fd < 0) { std::fputs("memfd_create failed\n", stderr); _exit(97); }
        if (content) for (std::size_t done = 0; done < content->size();) {
            const ssize_t n = syscall(SYS_write, fd, content->data() + done, content->size() - done);
            if (n <= 0) { std::fputs("cannot write\n", stderr); _exit(97); }
            done += std::size_t(n);
        }
        disk.push_back({ name, fd, target });
    };
    add("", 2, nullptr); // stdout
    for (auto& [name, content] : s.files) add(name, name == s.out_name ? 1 : name == s.in_name ? 0 : -1, &content);
    if (!s.out_name.empty() && !s.files.contains(s.out_name)) add(s.out_name, 1, nullptr);
    if (!s.in_name.empty() && !s.files.contains(s.in_name)) add(s.in_name, -1, nullptr), disk.back().name = "\x01"; // does not exist
    const int errfd = memfd_create("err", 0);
    std::fflush(nullptr);
    const pid_t pid = fork();
    if (pid == 0) {
        dup2(errfd, 2);
        struct rlimit cpu { 30, 35 };
        setrlimit(RLIMIT_CPU, &cpu);
        signal(SIGPIPE, SIG_IGN);
        nodes = new std::vector<Node>(disk);
        nodes->reserve(nodes->size() + 16);
        cookies = new std::map<FILE*, int>;
        setup = &s;
        on = true;
        FILE* out = make_file(0, "w");
        static char buffer[1 << 16];
        switch (s.buffering) {
        case 1: setvbuf(out, buffer, _IOFBF, 4096); break;
        case 2: setvbuf(out, buffer, _IOLBF, 1024); break;
        case 3: setvbuf(out, nullptr, _IONBF, 0); break;
        default: setvbuf(out, buffer, _IOFBF, sizeof buffer);
        }
        stdout = out;
        std::cout.rdbuf(new __gnu_cxx::stdio_sync_filebuf<char>(out)); // what it is above a real stdout
        set_step_limit(steps() + step_bound, "tool");
        const int rc = f();
        g_sut = false;
        sh->returned = 1;
        std::exit(rc); // flushes what is left, as the C library does
    }
    int st = 0;
    waitpid(pid, &st, 0);
    r.out = slurp(disk[0].fd);
    r.err = slurp(errfd);
    for (auto& n : disk) {
        if (n.target == 1) {
            r.file = slurp(n.fd);
            r.file_exists = sh->out_opened || s.files.contains(n.name);
        }
        close(n.fd);
    }
    close(errfd);
    r.harmful = sh->harmful;
    r.harmless = sh->harmless;
    r.alloc_faults = sh->alloc_faults;
    for (int t = 0; t < targets; ++t) for (int o = 0; o < ops; ++o) if (sh->calls[t][o]) r.calls[std::string(target_names[t]) + " " + op_names[o]] = sh->calls[t][o];
    if (WIFEXITED(st) && WEXITSTATUS(st) != 3 && WEXITSTATUS(st) != 97) {
        r.orderly = true;
        r.status = WEXITSTATUS(st);
    } else if (WIFEXITED(st)) {
        r.endless = WEXITSTATUS(st) == 3;
        r.how = r.endless ? "endless" : "simulator";
    } else {
        r.how = std::string("signal ") + strsignal(WTERMSIG(st));
        if (auto p = r.err.find("terminate called"); p != std::string::npos) r.how += " (" + r.err.substr(p, r.err.find('\n', p) - p) + ")";
        r.endless = WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL;
    }
    return r;
}

Io_Result tool_run(const Io_Setup& s, const std::vector<std::string>& args, u64 alloc_fail, u64 alloc_burst)
{
    return io_run(
        s,
        [&] {
            std::vector<const char*> argv { "bm-cli" };
            for (auto& a : args) argv.push_back(a.c_str());
            const int argc = int(argv.size());
            argv.push_back(nullptr);
            if (alloc_fail) {
                // also seen if the tool leaves through std::exit
                std::atexit([] { sh->alloc_faults = heap_disarm(); });
                heap_arm(alloc_fail, alloc_burst, 1);
            }
            Sut sut;
            const int rc = bm_cli_main(argc, argv.data());
            if (alloc_fail) sh->alloc_faults = heap_disarm();
            return rc;
        },
        60'000'000);
}
} // namespace sim

// ---------------------------------------------------------------- the C library's functions
#define REAL(name) reinterpret_cast<decltype(&name)>(dlsym(RTLD_NEXT, #name))
extern "C" {
static FILE* sim_fopen(const char* path, const char* mode)
{
    using namespace sim;
    const bool plus = std::strchr(mode, '+');
    const int i = open_node(path, *mode != 'r' || plus, *mode == 'w', *mode != 'r');
    if (i < 0) return nullptr;
    const bool old = g_sut;
    g_sut = false;
    if (*mode == 'a') lseek((*nodes)[std::size_t(i)].fd, 0, SEEK_END);
    const int keep = errno;
    FILE* f = make_file(std::size_t(i), mode);
    errno = keep;
    g_sut = old;
    return f;
}
FILE* fopen(const char* path, const char* mode) { return sim::on ? sim_fopen(path, mode) : REAL(fopen)(path, mode); }
FILE* fopen64(const char* path, const char* mode) { return sim::on ? sim_fopen(path, mode) : REAL(fopen64)(path, mode); }
int fileno(FILE* f) noexcept
{
    if (sim::on) if (auto it = sim::cookies->find(f); it != sim::cookies->end()) return (*sim::nodes)[std::size_t(it->second)].fd;
    return REAL(fileno)(f);
}
static int sim_open(const char* path, int flags, mode_t)
{
    using namespace sim;
    const int i = open_node(path, (flags & O_ACCMODE) != O_RDONLY, flags & O_TRUNC, flags & O_CREAT);
    if (i < 0) return -1;
    if (flags & O_APPEND) lseek((*nodes)[std::size_t(i)].fd, 0, SEEK_END);
    return (*nodes)[std::size_t(i)].fd;
}
int open(const char* path, int flags, ...)
{
    va_list l;
    va_start(l, flags);
    const mode_t m = mode_t(va_arg(l, int));
    va_end(l);
    return sim::on ? sim_open(path, flags, m) : int(syscall(SYS_openat, AT_FDCWD, path, flags, m));
}
int open64(const char* path, int flags, ...)
{
    va_list l;
    va_start(l, flags);
    const mode_t m = mode_t(va_arg(l, int));
    va_end(l);
    return sim::on ? sim_open(path, flags, m) : int(syscall(SYS_openat, AT_FDCWD, path, flags | O_LARGEFILE, m));
}
int close(int fd)
{
    using namespace sim;
    if (const Node* n = node_of_fd(fd)) {
        if (const Io_Fault* f = consult(n->target, op_close)) { errno = code_of(f->kind); return -1; }
        return 0;
    }
    return int(syscall(SYS_close, fd));
}
ssize_t read(int fd, void* p, std::size_t n)
{
    if (const sim::Node* node = sim::node_of_fd(fd)) return sim::transfer(*node, false, static_cast<char*>(p), n);
    return syscall(SYS_read, fd, p, n);
}
ssize_t write(int fd, const void* p, std::size_t n)
{
    if (sim::on && fd == 1) return sim::transfer((*sim::nodes)[0], true, static_cast<char*>(const_cast<void*>(p)), n);
    if (const sim::Node* node = sim::node_of_fd(fd)) return sim::transfer(*node, true, static_cast<char*>(const_cast<void*>(p)), n);
    return syscall(SYS_write, fd, p, n);
}
ssize_t writev(int fd, const struct iovec* v, int n)
{
    using namespace sim;
    const Node* node = on && fd == 1 ? &(*nodes)[0] : node_of_fd(fd);
    if (!node) return syscall(SYS_writev, fd, v, n);
    const bool old = g_sut;
    g_sut = false;
    std::string all;
    for (int i = 0; i < n; ++i) all.append(static_cast<const char*>(v[i].iov_base), v[i].iov_len);
    g_sut = old;
    return transfer(*node, true, all.data(), all.size());
}
}
