// Stand-in for EVMC 6.x's C header (third-party library absent from this sandbox): declarations only.
#pragma once
#include <cstddef>
#include <cstdint>
#define EVMC_ABI_VERSION 6
#define EVMC_EXPORT
#define EVMC_NOEXCEPT noexcept
typedef struct evmc_bytes32 { uint8_t bytes[32]; } evmc_bytes32;
typedef struct evmc_bytes32 evmc_uint256be;
typedef struct evmc_address { uint8_t bytes[20]; } evmc_address;
enum evmc_call_kind { EVMC_CALL = 0, EVMC_DELEGATECALL = 1, EVMC_CALLCODE = 2, EVMC_CREATE = 3, EVMC_CREATE2 = 4 };
enum evmc_flags { EVMC_STATIC = 1 };
struct evmc_message { evmc_call_kind kind; uint32_t flags; int32_t depth; int64_t gas; evmc_address destination; evmc_address sender; const uint8_t* input_data; size_t input_size; evmc_uint256be value; evmc_bytes32 create2_salt; };
struct evmc_tx_context { evmc_uint256be tx_gas_price; evmc_address tx_origin; evmc_address block_coinbase; int64_t block_number; int64_t block_timestamp; int64_t block_gas_limit; evmc_uint256be block_difficulty; evmc_uint256be chain_id; };
struct evmc_context; struct evmc_instance;
enum evmc_status_code { EVMC_SUCCESS = 0, EVMC_FAILURE = 1, EVMC_REVERT = 2, EVMC_OUT_OF_GAS = 3, EVMC_INVALID_INSTRUCTION = 4, EVMC_UNDEFINED_INSTRUCTION = 5, EVMC_STACK_OVERFLOW = 6, EVMC_STACK_UNDERFLOW = 7, EVMC_BAD_JUMP_DESTINATION = 8, EVMC_INVALID_MEMORY_ACCESS = 9, EVMC_CALL_DEPTH_EXCEEDED = 10, EVMC_STATIC_MODE_VIOLATION = 11, EVMC_PRECOMPILE_FAILURE = 12, EVMC_CONTRACT_VALIDATION_FAILURE = 13, EVMC_ARGUMENT_OUT_OF_RANGE = 14, EVMC_WASM_UNREACHABLE_INSTRUCTION = 15, EVMC_WASM_TRAP = 16, EVMC_INTERNAL_ERROR = -1, EVMC_REJECTED = -2 };
struct evmc_result;
typedef void ( *evmc_release_result_fn )( const evmc_result* result );
struct evmc_result { evmc_status_code status_code; int64_t gas_left; const uint8_t* output_data; size_t output_size; evmc_release_result_fn release; evmc_address create_address; uint8_t padding[4]; };
enum evmc_storage_status { EVMC_STORAGE_UNCHANGED = 0, EVMC_STORAGE_MODIFIED = 1, EVMC_STORAGE_MODIFIED_AGAIN = 2, EVMC_STORAGE_ADDED = 3, EVMC_STORAGE_DELETED = 4 };
struct evmc_host_interface {
    bool ( *account_exists )( evmc_context*, const evmc_address* );
    evmc_bytes32 ( *get_storage )( evmc_context*, const evmc_address*, const evmc_bytes32* );
    evmc_storage_status ( *set_storage )( evmc_context*, const evmc_address*, const evmc_bytes32*, const evmc_bytes32* );
    evmc_uint256be ( *get_balance )( evmc_context*, const evmc_address* );
    size_t ( *get_code_size )( evmc_context*, const evmc_address* );
    evmc_bytes32 ( *get_code_hash )( evmc_context*, const evmc_address* );
    size_t ( *copy_code )( evmc_context*, const evmc_address*, size_t, uint8_t*, size_t );
    void ( *selfdestruct )( evmc_context*, const evmc_address*, const evmc_address* );
    evmc_result ( *call )( evmc_context*, const evmc_message* );
    evmc_tx_context ( *get_tx_context )( evmc_context* );
    evmc_bytes32 ( *get_block_hash )( evmc_context*, int64_t );
    void ( *emit_log )( evmc_context*, const evmc_address*, const uint8_t*, size_t, const evmc_bytes32[], size_t );
};
struct evmc_context { const evmc_host_interface* host; };
enum evmc_revision { EVMC_FRONTIER = 0, EVMC_HOMESTEAD = 1, EVMC_TANGERINE_WHISTLE = 2, EVMC_SPURIOUS_DRAGON = 3, EVMC_BYZANTIUM = 4, EVMC_CONSTANTINOPLE = 5, EVMC_PETERSBURG = 6, EVMC_ISTANBUL = 7, EVMC_MAX_REVISION = EVMC_ISTANBUL };
enum evmc_set_option_result { EVMC_SET_OPTION_SUCCESS = 0, EVMC_SET_OPTION_INVALID_NAME = 1, EVMC_SET_OPTION_INVALID_VALUE = 2 };
enum evmc_capabilities { EVMC_CAPABILITY_EVM1 = 1, EVMC_CAPABILITY_EWASM = 2 };
typedef uint32_t evmc_capabilities_flagset;
typedef void ( *evmc_destroy_fn )( evmc_instance* );
typedef evmc_result ( *evmc_execute_fn )( evmc_instance*, evmc_context*, evmc_revision, const evmc_message*, uint8_t const*, size_t );
typedef evmc_capabilities_flagset ( *evmc_get_capabilities_fn )( evmc_instance* );
typedef void ( *evmc_set_tracer_fn )( evmc_instance*, void* );
typedef evmc_set_option_result ( *evmc_set_option_fn )( evmc_instance*, char const*, char const* );
struct evmc_instance { const int abi_version; const char* name; const char* version; evmc_destroy_fn destroy; evmc_execute_fn execute; evmc_get_capabilities_fn get_capabilities; evmc_set_tracer_fn set_tracer; evmc_set_option_fn set_option; };
