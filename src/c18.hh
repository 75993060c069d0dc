#pragma once
#include <vector>
#include <cstdint>
#include <cstddef>
typedef std::vector<uint64_t> Vec;
enum { MUL, MUL_AL, MUL_BL, SQR, SQR_AL, DIV, DIV_AL, DIV_BL, GCD, GCD_AL, ADD, ADD_AL, SUB, SUB_AL, SUB_SELF, SCAL };
