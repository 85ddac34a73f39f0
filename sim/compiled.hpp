// A program taken through the front end, for property files that look at its results.
#pragma once
#include "model.hpp"
#include "sut.hpp"
#include "jobs.hpp"
#include "bms/analysis_level.hpp"
#include "bms/analyze.hpp"
#include "bms/analyzed_program.hpp"
#include "bms/ast.hpp"
#include "bms/concrete_value.hpp"
#include "bms/parsing/parse.hpp"
#include "bms/tokenization/token.hpp"
#include "bms/tokenization/tokenize.hpp"
#include "bms/vm/codegen.hpp"
#include "bms/vm/instructions.hpp"
#include "bms/vm/vm.hpp"
#include <optional>

namespace sim {
namespace bm = bit_manipulation;
namespace bms = bit_manipulation::bms;

enum class Loaded { ok, tokens, syntax, names, rejected, internal, out_of_memory, endless };
inline const char* loaded_name(Loaded l)
{
    static const char* n[] = { "accepted", "rejected by the tokenizer", "rejected by the parser", "rejected by name lookup", "rejected by analysis", "internal error", "out of memory", "endless" };
    return n[int(l)];
}

struct Compiled {
    std::string source;
    Sim_Resource mem, tmp;
    std::optional<std::pmr::vector<bms::Token>> tokens;
    std::optional<bms::Parsed_Program> parsed;
    std::optional<bms::Analyzed_Program> analyzed;
    std::string detail;                          // of an internal error
    std::optional<bms::Analysis_Error> error;    // of the last analysis

    explicit Compiled(std::string s) : source(std::move(s)) { }
    ~Compiled()
    {
        Sut s;
        error.reset();
        analyzed.reset();
        parsed.reset();
        tokens.reset();
    }
    template <typename F>
    Loaded guarded(F&& f)
    {
        g_cycles = 0;
        g_cycle_limit = 3'000'000;
        try {
            Sut s;
            return f();
        } catch (const bm::Assertion_Error& e) {
            detail = std::string(e.message) + " in " + e.location.function_name();
            return Loaded::internal;
        } catch (const std::bad_alloc&) {
            return Loaded::out_of_memory;
        } catch (const std::exception& e) {
            detail = e.what();
            return Loaded::internal;
        } catch (...) {
            return Loaded::endless;
        }
    }
    Loaded parse()
    {
        return guarded([&] {
            tokens.emplace(&mem);
            if (!bms::tokenize(*tokens, source)) return Loaded::tokens;
            parsed.emplace(source, &mem);
            if (!bms::parse(*parsed, *tokens)) return Loaded::syntax;
            return Loaded::ok;
        });
    }
    Loaded analyze()
    {
        return guarded([&] {
            error.reset();
            if (!analyzed) analyzed.emplace(*parsed, "file.bms", &mem);
            if (auto r = bms::analyze(*analyzed, *parsed, &tmp); !r) { error = r.error(); return Loaded::rejected; }
            return Loaded::ok;
        });
    }
    Loaded load()
    {
        Loaded l = parse();
        return l == Loaded::ok ? analyze() : l;
    }
    const bms::ast::Some_Node* function_node(const std::string& name, const std::vector<int>& widths = {})
    {
        Sut s;
        auto r = analyzed->find_global_function_node(name);
        if (!r) return nullptr;
        auto& f = bm::get<bms::ast::Function>(**r);
        if (!f.is_generic) return widths.empty() ? *r : nullptr;
        for (auto& i : f.instances)
            if (std::vector<int>(i.widths.begin(), i.widths.end()) == widths) return i.handle;
        return nullptr;
    }
};

inline bms::Concrete_Type to_type(model::Ty t)
{
    switch (t.k) {
    case 'B': return bms::Concrete_Type::Bool;
    case 'I': return bms::Concrete_Type::Int;
    case 'U': return bms::Concrete_Type::Uint(t.w);
    }
    return bms::Concrete_Type::Void;
}
inline bms::Concrete_Value to_value(const model::Val& v) { return { to_type(v.t), bm::Big_Int(v.v) }; }
inline bool same_value(const bms::Concrete_Value& c, const model::Val& v)
{
    if (c.type != to_type(v.t)) return false;
    return v.t.k == 'V' || c.int_value == bm::Big_Int(v.v);
}
inline std::vector<int> read_widths(const std::string& s)
{
    std::vector<int> r;
    for (std::size_t i = 0; i < s.size();) {
        r.push_back(std::atoi(s.c_str() + i));
        std::size_t c = s.find(',', i);
        if (c == std::string::npos) break;
        i = c + 1;
    }
    return r;
}
inline std::string print_widths(const std::vector<int>& w)
{
    std::string r;
    for (int x : w) r += (r.empty() ? "" : ",") + std::to_string(x);
    return r;
}
inline std::string print_vals(const std::vector<model::Val>& v)
{
    std::string r;
    for (auto& x : v) r += (r.empty() ? "" : ",") + (x.t.k == 'U' ? model::showu128(model::u128(x.v)) : model::show128(x.v));
    return r;
}
// Reads values for the given types; empty on mismatch.
inline std::optional<std::vector<model::Val>> read_vals(const std::string& s, const std::vector<model::Ty>& ts)
{
    std::vector<model::Val> r;
    std::size_t i = 0;
    for (auto& t : ts) {
        if (i >= s.size()) return std::nullopt;
        std::size_t c = std::min(s.find(',', i), s.size());
        model::u128 v = 0;
        bool neg = false;
        for (std::size_t k = i; k < c; ++k) {
            if (s[k] == '-') neg = true;
            else v = v * 10 + model::u128(s[k] - '0');
        }
        if (neg) v = -v;
        if (t.k == 'B') v &= 1;
        if (t.k == 'U' && t.w < 128) v &= (model::u128(1) << t.w) - 1;
        r.push_back({ t, model::i128(v), nullptr });
        i = c + 1;
    }
    return r;
}
inline const char* evaluation_name(model::Err e)
{
    return model::err_name(e);
}
// Does an execution error say what the model says?
inline bool same_failure(const bms::Execution_Error& e, model::Err m)
{
    if (m == model::Err::uninitialized) return e.code == bms::Execution_Error_Code::load_uninitialized;
    return e.code == bms::Execution_Error_Code::evaluation && bms::evaluation_error_code_name(e.evaluation_error) == std::string_view(model::err_name(m));
}

} // namespace sim
