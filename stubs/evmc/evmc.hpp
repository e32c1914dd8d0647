#pragma once
#include <evmc/evmc.h>
#include <evmc/helpers.h>
#include <cstring>
namespace evmc {
struct address : evmc_address { constexpr address( evmc_address a = {} ) noexcept : evmc_address{ a } {} };
struct bytes32 : evmc_bytes32 { constexpr bytes32( evmc_bytes32 b = {} ) noexcept : evmc_bytes32{ b } {} };
using uint256be = bytes32;
class result : private evmc_result {
public:
    using evmc_result::gas_left; using evmc_result::output_data; using evmc_result::output_size; using evmc_result::status_code; using evmc_result::create_address;
    explicit result( evmc_result const& r ) noexcept : evmc_result{ r } {}
    ~result() noexcept { if ( this->evmc_result::release ) this->evmc_result::release( this ); }
    result( result&& o ) noexcept : evmc_result{ o } { o.evmc_result::release = nullptr; }
    evmc_result release_raw() noexcept { auto o = evmc_result{ *this }; this->evmc_result::release = nullptr; return o; }
};
class Host : public evmc_context {
public:
    virtual ~Host() noexcept = default;
    virtual bool account_exists( const address& ) noexcept = 0;
    virtual bytes32 get_storage( const address&, const bytes32& ) noexcept = 0;
    virtual evmc_storage_status set_storage( const address&, const bytes32&, const bytes32& ) noexcept = 0;
    virtual uint256be get_balance( const address& ) noexcept = 0;
    virtual size_t get_code_size( const address& ) noexcept = 0;
    virtual bytes32 get_code_hash( const address& ) noexcept = 0;
    virtual size_t copy_code( const address&, size_t, uint8_t*, size_t ) noexcept = 0;
    virtual void selfdestruct( const address&, const address& ) noexcept = 0;
    virtual result call( const evmc_message& ) noexcept = 0;
    virtual evmc_tx_context get_tx_context() noexcept = 0;
    virtual bytes32 get_block_hash( int64_t ) noexcept = 0;
    virtual void emit_log( const address&, const uint8_t*, size_t, const bytes32[], size_t ) noexcept = 0;
};
class vm {
public:
    vm() noexcept = default;
    explicit vm( evmc_instance* i ) noexcept : m_instance{ i } {}
    bool is_abi_compatible() noexcept { return m_instance->abi_version == EVMC_ABI_VERSION; }
    char const* name() const noexcept { return m_instance->name; }
    char const* version() const noexcept { return m_instance->version; }
    evmc_set_option_result set_option( const char n[], const char v[] ) noexcept { return m_instance->set_option ? m_instance->set_option( m_instance, n, v ) : EVMC_SET_OPTION_INVALID_NAME; }
    result execute( evmc_context& c, evmc_revision r, const evmc_message& m, const uint8_t* code, size_t n ) noexcept { return result{ m_instance->execute( m_instance, &c, r, &m, code, n ) }; }
private:
    evmc_instance* m_instance = nullptr;
};
}
namespace std {
}
