#pragma once
#include <evmc/evmc.h>
union evmc_result_optional_storage { uint8_t bytes[24]; void* pointer; };
inline evmc_result_optional_storage* evmc_get_optional_storage( evmc_result* r ) { return (evmc_result_optional_storage*) &r->create_address; }
inline const evmc_result_optional_storage* evmc_get_const_optional_storage( const evmc_result* r ) { return (const evmc_result_optional_storage*) &r->create_address; }
