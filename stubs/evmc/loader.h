#pragma once
#include <evmc/evmc.h>
enum evmc_loader_error_code { EVMC_LOADER_SUCCESS = 0, EVMC_LOADER_CANNOT_OPEN = 1, EVMC_LOADER_SYMBOL_NOT_FOUND = 2, EVMC_LOADER_INVALID_ARGUMENT = 3, EVMC_LOADER_INSTANCE_CREATION_FAILURE = 4, EVMC_LOADER_ABI_VERSION_MISMATCH = 5 };
evmc_instance* evmc_load_and_create( const char*, evmc_loader_error_code* );
