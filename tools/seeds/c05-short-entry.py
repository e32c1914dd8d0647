PROP = 'C05'
EDITS = {'libethereum/LogFilter.cpp': [('            for ( unsigned i = 0; i < 4; ++i )\n                if (', '            for ( unsigned i = 0; i < std::min< size_t >( 4, e.topics.size() ); ++i )\n                if (')]}
NEEDS = 'a filter on a later topic, and a receipt with one entry that has the topic and another with fewer topics'
BREAKS = 'entries with fewer topics than the filter asks for are returned'
DEMO = r'''
#include <libethereum/LogFilter.h>
#include <libethereum/TransactionReceipt.h>
namespace dev { extern bytes const NullBytes; bytes const NullBytes; }

using namespace dev; using namespace dev::eth;
int main() {
    h256 a( 1 ), b( 2 ); Address c( 3 );
    LogEntries l{ LogEntry( c, { a, b }, {} ), LogEntry( c, { a }, {} ), LogEntry( c, {}, {} ), LogEntry( c, { a, a }, {} ) };
    TransactionReceipt r( uint8_t( 1 ), 0, l ); LogFilter f; f.address( c ); f.topic( 1, b );
    return f.matches( r ).size() == 1 ? 0 : 1;
}
'''
SOURCES = ['libdevcore/RLP.cpp', 'libdevcore/CommonData.cpp', 'libdevcore/FixedHash.cpp', 'libethereum/LogFilter.cpp', 'libethcore/LogEntry.cpp', 'libethereum/TransactionReceipt.cpp', 'libdevcore/SHA3.cpp', '"$D/mprof_stub.cpp"']
LIBS = '_build/libskutils.a _build/libjson_spirit.a -lboost_system -lboost_log -lboost_thread -lboost_filesystem -lcryptopp -lcrypto -lleveldb -lpthread'
CXX = 'clang++'
STUBS = True
COPY = ['harness/mprof_stub.cpp']
FLAGS = '-fuse-ld=lld -fno-access-control -DBOOST_TIMER_ENABLE_DEPRECATED -ffunction-sections -fdata-sections -Wl,--gc-sections'
