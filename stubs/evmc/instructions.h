#pragma once
#include <evmc/evmc.h>
struct evmc_instruction_metrics { int16_t gas_cost; int8_t num_stack_arguments; int8_t num_stack_returned_items; };
const evmc_instruction_metrics* evmc_get_instruction_metrics_table( evmc_revision );
const char* const* evmc_get_instruction_names_table( evmc_revision );
