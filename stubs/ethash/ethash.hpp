// Stand-in for ethash/ethash.hpp: declarations only (proof of work is never executed here).
#pragma once
#include "hash_types.hpp"
#include "keccak.hpp"
namespace ethash {
struct epoch_context; struct epoch_context_full;
struct result { hash256 final_hash; hash256 mix_hash; };
inline hash256 hash256_from_bytes( const uint8_t* b ) noexcept { hash256 h; std::memcpy( h.bytes, b, 32 ); return h; }
inline int get_epoch_number( int n ) noexcept { return n / 30000; }
int find_epoch_number( const hash256& ) noexcept;
const epoch_context& get_global_epoch_context( int ) noexcept;
const epoch_context_full& get_global_epoch_context_full( int ) noexcept;
result hash( const epoch_context&, const hash256&, uint64_t ) noexcept;
result hash( const epoch_context_full&, const hash256&, uint64_t ) noexcept;
bool verify_final_hash( const hash256&, const hash256&, uint64_t, const hash256& ) noexcept;
#define ETHASH_EPOCH_LENGTH 30000
bool verify( const epoch_context&, const hash256&, const hash256&, uint64_t, const hash256& ) noexcept;
#define ETHASH_EPOCH_LENGTH 30000
bool verify_final_hash( const hash256&, const hash256&, const hash256&, const hash256& ) noexcept;
#define ETHASH_EPOCH_LENGTH 30000
bool verify( const epoch_context&, const hash256&, const hash256&, const hash256&, const hash256& ) noexcept;
#define ETHASH_EPOCH_LENGTH 30000
}
