PROP = 'C22'
EDITS = {'libethereum/Precompiled.cpp': [('    } else {\n        bigint const expFirstWord(', '    } else if ( _expOffset >= _in.size() ) {\n        return 0;  // the exponent lies behind the input: nothing but padding\n    } else {\n        bigint const expFirstWord(')]}
NEEDS = 'a modular exponentiation whose exponent is longer than 32 bytes and lies wholly in the padding'
BREAKS = 'the price leaves out the length of the exponent'
DEMO = r'''
#include <libethereum/Precompiled.h>
#include <libethcore/ChainOperationParams.h>
#include <libdevcore/CommonData.h>
namespace dev { extern bytes const NullBytes; bytes const NullBytes; }

using namespace dev; using namespace dev::eth;
int main() {
    ChainOperationParams cp;
    for ( unsigned len : { 1u, 32u, 33u, 100u, 5000u } ) for ( unsigned extra : { 0u, 1u, 64u, 200u } ) {
        bytes in = toBigEndian( u256( 64 ) ) + toBigEndian( u256( len ) ) + toBigEndian( u256( 64 ) ); in.resize( in.size() + extra, 0 );
        bigint want = bigint( 64 * 64 ) * ( len > 33 || len == 33 ? 8 * ( len - 32 ) : 1 ) / 20;
        if ( PrecompiledRegistrar::pricer( "modexp" )( &in, cp, 0 ) != want ) return 1;
    }
    return 0;
}
'''
SOURCES = ['libdevcore/RLP.cpp', 'libdevcore/CommonData.cpp', 'libdevcore/FixedHash.cpp', 'libethereum/Precompiled.cpp', 'libethcore/ChainOperationParams.cpp', 'libethereum/SchainPatch.cpp', 'libdevcore/Log.cpp', 'libdevcore/SHA3.cpp', 'libdevcrypto/Hash.cpp', 'libdevcore/FileSystem.cpp', '"$D/mprof_stub.cpp"']
LIBS = '_build/libskutils.a _build/libjson_spirit.a -lboost_system -lboost_log -lboost_thread -lboost_filesystem -lcryptopp -lcrypto -lleveldb -lpthread'
CXX = 'clang++'
STUBS = True
COPY = ['harness/mprof_stub.cpp']
FLAGS = '-fuse-ld=lld -fno-access-control -DBOOST_TIMER_ENABLE_DEPRECATED -ffunction-sections -fdata-sections -Wl,--gc-sections -Wl,--unresolved-symbols=ignore-all'
