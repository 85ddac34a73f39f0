// Process-level plumbing shared by fiber.cpp and main.cpp.
#pragma once
#include "core.hpp"
namespace sim {
constexpr int cov_bits = 16;
extern u8* g_cov; // 2^cov_bits bits
[[noreturn]] void report_hang(const char* what);
}
