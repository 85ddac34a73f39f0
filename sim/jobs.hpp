// Jobs: complete compilations and document conversions, cut into stages that can be scheduled, made to
// fail and repeated. A job's observable results are collected as text (no addresses in it).
#pragma once
#include "core.hpp"
#include <memory>
#include <streambuf>
#include <string>
#include <vector>

namespace sim {

enum class Status { ok, diagnostic, internal, out_of_memory, endless, other };
const char* status_name(Status);

struct Stage_Result {
    Status status = Status::ok;
    std::string text;
    bool operator==(const Stage_Result&) const = default;
    std::string show() const { return std::string(status_name(status)) + ":" + text; }
};

struct Job_Spec {
    std::string kind;   // "bms" or "bmd"
    std::string source;
    u64 options = 0;    // seed of the options (printing, code generation, calls)
};

// A stream buffer owned by the harness: what arrives is kept, nothing ever fails.
struct Sink_Buf final : std::streambuf {
    std::string text;
    int_type overflow(int_type c) override;
    std::streamsize xsputn(const char* s, std::streamsize n) override;
};

// A copy of the source in a buffer of exactly its size, so that reading past its end is noticed.
// Optionally, the copy is placed into a given buffer instead, where other texts have been before.
extern char* g_text_slab;
inline constexpr std::size_t text_slab_size = 1 << 20;
class Exact_Text {
    char* m_data = nullptr;
    std::size_t m_size = 0;
    bool m_own = true;

public:
    Exact_Text() = default;
    Exact_Text(const Exact_Text&) = delete;
    ~Exact_Text() { if (m_own) delete[] m_data; }
    Exact_Text& operator=(std::string_view s)
    {
        if (m_own) delete[] m_data;
        m_own = !g_text_slab || s.size() > text_slab_size;
        m_data = m_own ? new char[s.size()] : g_text_slab;
        m_size = s.size();
        for (std::size_t i = 0; i < m_size; ++i) m_data[i] = s[i];
        return *this;
    }
    operator std::string_view() const { return { m_data, m_size }; }
};

struct Job {
    explicit Job(Job_Spec s) : spec(std::move(s)) { }
    virtual ~Job() = default;
    virtual int stages() const = 0;
    virtual const char* stage_name(int) const = 0;
    // Whether later stages need what this one gives.
    virtual bool needed(int) const { return true; }
    // State of the inputs of a stage, to be compared before and after.
    virtual std::string fingerprint(int stage) = 0;

    // Runs one stage. A stage that ended with out_of_memory can be run again.
    Stage_Result run(int stage);
    bool ended = false; // a diagnostic or internal error ended the job; later stages do nothing
    // Destroys everything (as code of the repository).
    virtual void destroy() = 0;

    Job_Spec spec;
    Exact_Text source_copy;  // the text handed to the compiler
    Sim_Resource mem;         // the caller's memory resource for everything that lives on
    Sim_Resource tmp;         // the caller's memory resource for temporary use
    Sim_Resource hand;        // another resource of the caller, from which results are handed over
    bool nodes_reclaimed_by_release = false; // documents: nodes of `mem` are only released as a whole

protected:
    virtual Status stage(int, std::string& out) = 0;
};
// Steps of virtual machines; at the limit (0: none) a computation counts as endless.
extern u64 g_cycle_limit, g_cycles;
// If set, everything is printed to this stream, one after the other.
extern std::ostream* g_shared_stream;
std::unique_ptr<Job> make_job(const Job_Spec&);

// Runs all stages of a job, and destroys it. One text for everything observable.
std::string run_whole_job(const Job_Spec&);

// ---------------------------------------------------------------- inputs
const std::vector<std::string>& corpus_bms();
const std::vector<std::string>& corpus_bmd();
std::string gen_bmd(Rng&, int size);
std::string gen_bms_text(Rng&, int size);       // mostly valid programs exercising every construct
std::string mutate_values(Rng&, std::string);   // same shape, other literals / names
Job_Spec gen_job(Rng&, int bms_percent = 65, bool small = false);
std::string show_html_type(int);

// Runs `f` in a forked process, so that it sees the state of a process that did nothing else before.
// Returns false if that process died.
bool in_fresh_process(const std::function<std::string()>& f, std::string& result);

void plan_job(Plan&, const std::string& key, const Job_Spec&);
bool plan_read_job(const Line&, Job_Spec&);

} // namespace sim
