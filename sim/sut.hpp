// Small helpers around types of the repository, shared by the property files.
#pragma once
#include "core.hpp"
#include "bmd/html/html_writer.hpp"
#include "bmd/codegen/code_string.hpp"
#include "bmd/html/html_writer.hpp"
#include "bmd/html/token_consumer.hpp"
#include "bms/analysis_error.hpp"
#include "bms/concrete_value.hpp"
#include "bms/value.hpp"
#include "bms/vm/execution_error.hpp"
namespace sim {
std::string show_pos(const bit_manipulation::Local_Source_Position&);
std::string show_int(bit_manipulation::Big_Int);
std::string show_type(bit_manipulation::bms::Concrete_Type);
std::string show_value(const bit_manipulation::bms::Concrete_Value&);
std::string show_value(const bit_manipulation::bms::Value&);
std::string show_failure(const bit_manipulation::bms::Comparison_Failure&);
std::string show_error(const bit_manipulation::bms::Analysis_Error&);
std::string show_error(const bit_manipulation::bms::Execution_Error&);
std::string show_spans(const bit_manipulation::bmd::Code_String&);

// Failures of an HTML token consumer: (number of the write, mode).
// Modes: 0 reject this write, 1 reject it and all later ones, 2 throw bad_alloc, 3 throw an unrelated
// type, 4 throw runtime_error.
struct Consumer_Failure { };
struct Html_Faults { std::vector<std::pair<u64, int>> at; };
extern const Html_Faults* g_html_faults; // used by jobs; null: none

struct Html_Collector final : bit_manipulation::bmd::HTML_Token_Consumer {
    std::string text, tokens; // accepted, up to the first failure
    std::vector<u64> ends;    // offsets in `text` after each accepted write
    std::string later;        // accepted after the first failure
    const Html_Faults* faults = g_html_faults;
    u64 calls = 0, rejected = 0, thrown = 0;
    i64 first_failure = -1;
    bool write(char c, bit_manipulation::bmd::HTML_Token_Type t) override;
    bool write(char c, bit_manipulation::Size n, bit_manipulation::bmd::HTML_Token_Type t) override;
    bool write(std::string_view s, bit_manipulation::bmd::HTML_Token_Type t) override;
    bool add(std::string_view s, bit_manipulation::bmd::HTML_Token_Type t);
};
} // namespace sim
