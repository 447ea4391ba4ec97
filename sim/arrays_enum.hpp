#pragma once
namespace sim::arrays {
enum Op : int {
#define X(n) op_##n,
#include "arrays_ops.inc"
#undef X
   op_count
};
} // namespace sim::arrays
