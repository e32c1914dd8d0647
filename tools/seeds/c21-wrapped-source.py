PROP = 'C21'
EDITS = {'libevm/LegacyVMCalls.cpp': [('    s512 bigIndex = _sp[1];\n', '    u256 bigIndex = _sp[1];\n')]}
NEEDS = 'a copy from an offset so large that offset plus length exceeds 256 bits'
BREAKS = 'the copy reads memory in front of the source instead of giving zeros'
DEMO = r'''
#include <libdevcore/SHA3.h>
#include <libethcore/BlockHeader.h>
#include <libethereum/LastBlockHashesFace.h>
#include <libevm/LegacyVM.h>
namespace dev { extern bytes const NullBytes; bytes const NullBytes; }

using namespace dev; using namespace dev::eth;
struct NoHashes : LastBlockHashesFace { h256s precedingHashes( h256 const& ) const override { return h256s( 256 ); } void clear() override {} };
struct Ext : ExtVMFace {
    using ExtVMFace::ExtVMFace;
    CreateResult create( u256, u256&, bytesConstRef, Instruction, u256, OnOpFunc const& ) override { abort(); }
    CallResult call( CallParameters& ) override { abort(); }
    EVMSchedule const& evmSchedule() const override { return ConstantinopleFixSchedule; }
    h256 blockHash( u256 ) override { return {}; }
};
int main() {
    bytes buf( 64, 0xee ); bytes data( buf ); NoHashes nh; BlockHeader bh; EnvInfo env( bh, nh, 0, 0, 1 );
    for ( int back = 1; back < 9; ++back ) {
        // CALLDATACOPY(0, 2^256 - back, 8 + back); MSIZE words returned
        bytes code{ 0x60, (uint8_t)( 8 + back ), 0x60, (uint8_t) back, 0x60, 0x00, 0x03, 0x60, 0x00, 0x37, 0x60, 0x20, 0x60, 0x00, 0xf3 };
        Ext e( env, Address( 1 ), Address( 2 ), Address( 2 ), 0, 0, bytesConstRef( buf.data() + 32, 32 ), code, h256(), 0, 0, false, false );
        auto vm = std::make_unique< LegacyVM >(); u256 gas = 1000000; auto out = vm->exec( gas, e, OnOpFunc() ).toBytes();
        if ( out != bytes( 32, 0 ) ) return 1;
    }
    return 0;
}
'''
SOURCES = ['libdevcore/RLP.cpp', 'libdevcore/CommonData.cpp', 'libdevcore/FixedHash.cpp', 'libethcore/BlockHeader.cpp', 'libethcore/Common.cpp', 'libethcore/SealEngine.cpp', 'libevm/LegacyVM.cpp', 'libevm/LegacyVMCalls.cpp', 'libevm/LegacyVMOpt.cpp', 'libevm/ExtVMFace.cpp', 'libevm/Instruction.cpp', 'libdevcore/SHA3.cpp', 'libdevcore/Address.cpp', 'libdevcore/Log.cpp', '"$D/devcrypto.cpp"', '"$D/mprof_stub.cpp"']
LIBS = '_build/libskutils.a _build/libjson_spirit.a -lboost_system -lboost_log -lboost_thread -lboost_filesystem -lcryptopp -lcrypto -lleveldb -lpthread -lsecp256k1'
CXX = 'clang++'
STUBS = True
COPY = ['harness/mprof_stub.cpp', 'harness/devcrypto.cpp']
FLAGS = '-fuse-ld=lld -fno-access-control -DBOOST_TIMER_ENABLE_DEPRECATED -ffunction-sections -fdata-sections -Wl,--gc-sections'
