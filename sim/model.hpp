// A small executable reference model of the BMS language: programs as S-expressions, printed as source
// text, elaborated (static rules) and interpreted (meaning of constants and calls). Nothing in here
// uses code of the repository.
//
// declarations  (fn NAME ((p T)...) T REQUIRES|_ (blk S...))  (const NAME T|_ E)  (sassert E)
// types         V B I U:8 U:N U:N+1
// statements    (let x T|_ E) (let x T) (const x T|_ E) (set x E) (ret E) (ret) (ifs C (blk..) [(blk..)|(ifs..)])
//               (while C (blk..)) (brk) (cont) (do F A...) (assert E) (sassert E) (blk ..)
// expressions   (i N [base]) (b 0|1) (v x) (neg E) (pos E) (not E) (inv E) (OP A B) (if A C B) (as E T) (call F A...)
#pragma once
#include "core.hpp"
#include <memory>
#include <set>
#include <utility>

namespace sim::model {

using i128 = __int128;
using u128 = unsigned __int128;

struct X {
    bool list = false;
    std::string a;       // an atom, or the head of a list
    std::vector<X> k;    // the rest of the list
    bool operator==(const X&) const = default;
};
bool parse_x(std::string_view, X&);
std::string print_x(const X&);
inline X atom(std::string s) { return { false, std::move(s), {} }; }
inline X node(std::string head, std::vector<X> kids) { return { true, std::move(head), std::move(kids) }; }
X lit(i128 v);
std::string show128(i128);
std::string showu128(u128);

struct Ty {
    char k = 'V'; // V B I U
    int w = 0;
    bool operator==(const Ty&) const = default;
    std::string show() const;
};

struct Comparison { std::string op; i128 l, r; };
struct Val {
    Ty t;
    i128 v = 0; // Uint(128) as the same bits
    std::shared_ptr<const Comparison> from; // the comparison that produced this value
};
std::string show_val(const Val&);

enum class Err {
    none, assert_fail, division_by_zero, shift_too_much, range, uninitialized, // failures the language assigns
    overflow,    // outside what is specified (an implementation limit of Int)
    unspecified, // outside what is specified
    fuel,        // too long for the reference
};
const char* err_name(Err);

struct Result {
    Err err = Err::none;
    Val val;
    bool in_call = false;                         // the failure happened inside a called function
    std::shared_ptr<const Comparison> must, may;  // what a failed assertion has to / may report
    u64 steps = 0;
};

using Program = std::vector<X>;

// Source text. `style` varies literals and spelling that has no meaning.
std::string to_source(const Program&, u64 style = 0);

// The static rules. Functions are elaborated per set of widths, like the implementation has to.
struct Reject { std::string code; Err eval = Err::none; bool from_call = false; std::shared_ptr<const Comparison> must, may; };
struct Instance { std::string fn; std::vector<int> widths; bool operator<(const Instance& o) const { return std::tie(fn, widths) < std::tie(o.fn, o.widths); } bool operator==(const Instance&) const = default; };
struct Analysis {
    bool valid = false;             // the program keeps the static rules (only then is anything expected)
    std::string why;                // why not
    std::optional<Reject> reject;   // analysis has to report this
    bool maybe_reject = false;      // analysis may report something
    std::map<std::string, Val> constants; // values of global constants (all of them unless rejected)
    std::set<Instance> instances;   // instances that calls create
    std::set<Instance> compiled;    // functions that compile-time calls compile for the virtual machine
};
// `extra`: instances made explicitly before.
Analysis analyze(const Program&, const std::vector<Instance>& extra = {});

// Meaning of a call. Arguments have to be of the parameter types.
Result call(const Program&, const std::map<std::string, Val>& constants, const std::string& fn,
            const std::vector<Val>& args, u64 fuel);
const X* find_function(const Program&, const std::string& fn);
bool is_generic(const Program&, const X& fn);
// concrete parameter and return types (empty if the widths do not fit)
struct Signature { std::vector<Ty> params; Ty ret; bool ok = false; std::vector<std::pair<std::string, int>> bound; };
Signature signature(const Program&, const std::map<std::string, Val>& constants, const X& fn, const std::vector<int>& widths);

struct Gen_Options {
    int functions = 4, statements = 5, depth = 3;
    bool generics = true, asserts = true, static_asserts = true, failing = false, calls = true, loops = true;
    bool many_asserts = false; // assertions of every form, that may fail
    int widths_mode = 0; // 0: mixed, 1: small
    int recursion = 0;    // percentage of functions that call themselves or each other
    int requirements = 0; // percentage of functions with a requires-clause that may not hold
};
// Generates a program that the model accepts (checked by the caller with analyze()).
Program generate(Rng&, const Gen_Options&);
// Adds `const force_k = f(args);` for functions, so that analysis compiles them. Chooses arguments for
// which the call gives a value.
void add_forces(Rng&, Program&, int percent = 100);
// Adds global constants and static assertions; the last may be one that has to be rejected.
void add_constants(Rng&, Program&, bool failing);
Val random_value(Rng&, Ty);
void plan_program(Plan&, const Program&);
bool plan_read_program(const Plan&, Program&);
// Simplifications of the program lines of a plan.
std::vector<Plan> shrink_program(const Plan&);

} // namespace sim::model
