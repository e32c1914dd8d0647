PROP = 'C14'
EDITS = {'libethcore/TransactionBase.cpp': [('        m_chainId = rlp[0].toInt< uint64_t >();\n        m_nonce = rlp[1].toInt< u256 >();\n        m_maxPriorityFeePerGas = rlp[2].toInt< u256 >();', '        m_chainId = static_cast< uint64_t >( rlp[0].toInt< u256 >() );\n        m_nonce = rlp[1].toInt< u256 >();\n        m_maxPriorityFeePerGas = rlp[2].toInt< u256 >();')]}
NEEDS = 'a typed transaction whose chain id does not fit 64 bits'
BREAKS = 'the chain id is cut to 64 bits and the transaction accepted as one for another chain'
DEMO = r'''
#include <libethcore/TransactionBase.h>
#include <libdevcore/RLP.h>
namespace dev { extern bytes const NullBytes; bytes const NullBytes; }

using namespace dev; using namespace dev::eth;
static bytes make( u256 chain ) { RLPStream s; s.appendList( 12 ) << chain << 1 << 2 << 3 << 21000 << Address( 7 ) << 5 << bytes{ 1, 2 }; s.appendList( 0 ); s << 1 << u256( 5 ) << u256( 6 ); bytes b = s.out(); b.insert( b.begin(), 2 ); return b; }
static bool taken( u256 chain ) { bytes b = make( chain ); try { TransactionBase t( b, CheckTransaction::None, false, true ); return t.toBytes() == b; } catch ( std::exception& ) { return false; } }
static bool refused( u256 chain ) { try { TransactionBase t( make( chain ), CheckTransaction::None, false, true ); return false; } catch ( std::exception& ) { return true; } }
int main() { for ( u256 c : { u256( 1 ), u256( 300 ), u256( ~uint64_t( 0 ) ) } ) if ( !taken( c ) ) return 1; for ( u256 c : { u256( 1 ) << 64, ( u256( 1 ) << 64 ) + 1, ~u256( 0 ) } ) if ( !refused( c ) ) return 1; return 0; }
'''
SOURCES = ['libdevcore/RLP.cpp', 'libdevcore/CommonData.cpp', 'libdevcore/FixedHash.cpp', 'libethcore/TransactionBase.cpp', 'libdevcore/SHA3.cpp', 'libdevcore/Address.cpp', 'libdevcore/Log.cpp', 'libethcore/Common.cpp', '"$D/devcrypto.cpp"', '"$D/mprof_stub.cpp"']
LIBS = '_build/libskutils.a _build/libjson_spirit.a -lboost_system -lboost_log -lboost_thread -lboost_filesystem -lcryptopp -lcrypto -lleveldb -lpthread -lsecp256k1'
CXX = 'clang++'
STUBS = True
COPY = ['harness/mprof_stub.cpp', 'harness/devcrypto.cpp']
FLAGS = '-fuse-ld=lld -fno-access-control -DBOOST_TIMER_ENABLE_DEPRECATED -ffunction-sections -fdata-sections -Wl,--gc-sections'
