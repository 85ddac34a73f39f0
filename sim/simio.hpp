// The simulated disk and standard output of the command-line tool. The tool runs in a child process whose
// calls of the C library for files end here; they can be made to fail as a plan says.
#pragma once
#include "core.hpp"
#include <map>
#include <string>
#include <vector>

namespace sim {

// target: "in", "out", "stdout"; op: "open", "read", "write", "close".
// kind: "short" (arg: permille of the bytes that are transferred), "eintr", "eio", "enospc", "epipe", "enoent", "eacces", "emfile"
struct Io_Fault {
    std::string target, op, kind;
    u64 at = 0;        // number of the call (of this operation on this target)
    u64 times = 1;     // how many calls in a row
    i64 arg = 500;
};
bool io_fault_is_harmless(const Io_Fault&); // short transfers

struct Io_Setup {
    std::map<std::string, std::string> files; // content of the simulated disk before the run
    std::string in_name, out_name;            // which of them are the targets "in" and "out"
    std::vector<Io_Fault> faults;
    int buffering = 0;                        // of stdout: 0 64 KB, 1 4 KB, 2 lines, 3 none
};
struct Io_Result {
    bool orderly = false;      // ended by exit or return
    bool endless = false;      // step limit
    int status = -1;           // exit status
    std::string how;           // if not orderly
    std::string out, file, err;
    bool file_exists = false;
    u64 harmful = 0, harmless = 0; // faults that really happened
    std::map<std::string, u64> calls; // "out write" -> number of calls
    u64 alloc_faults = 0;
};
// Runs f in a child process with the simulated disk; f returns the exit status.
Io_Result io_run(const Io_Setup&, const std::function<int()>& f, u64 step_bound);
// The same for the tool's command line, with an optional allocation failure.
Io_Result tool_run(const Io_Setup&, const std::vector<std::string>& args, u64 alloc_fail = 0, u64 alloc_burst = 1);

} // namespace sim
