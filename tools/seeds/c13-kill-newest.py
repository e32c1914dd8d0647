PROP = 'C13'
EDITS = {'libdevcore/ManuallyRotatingLevelDB.cpp': [('    for ( const auto& p : *io_backend )\n        p->kill( _key );\n', '    for ( const auto& p : *io_backend )\n        if ( p->exists( _key ) ) {\n            p->kill( _key );\n            break;\n        }\n')]}
NEEDS = 'a key written again after a rotation and then deleted'
BREAKS = 'the older value of the deleted key comes back'
DEMO = r'''
#include <libdevcore/ManuallyRotatingLevelDB.h>
#include <libbatched-io/batched_rotating_db_io.h>
#include <boost/log/core.hpp>
namespace dev { extern bytes const NullBytes; bytes const NullBytes; }

using namespace dev; using namespace dev::db;
int main() {
    boost::log::core::get()->set_logging_enabled( false );
    boost::filesystem::create_directory( "pieces" );
    ManuallyRotatingLevelDB d( std::make_shared< batched_io::rotating_db_io >( "pieces", 3, false ) ); std::string k = "key", o = "other", v1 = "old", v2 = "new";
    d.insert( Slice( k ), Slice( v1 ) ); d.insert( Slice( o ), Slice( v1 ) ); d.rotate(); d.insert( Slice( k ), Slice( v2 ) );
    if ( d.lookup( Slice( k ) ) != v2 ) return 2;
    d.kill( Slice( k ) ); if ( d.exists( Slice( k ) ) || !d.lookup( Slice( k ) ).empty() ) return 1;
    return d.exists( Slice( o ) ) ? 0 : 1;
}
'''
SOURCES = ['libdevcore/RLP.cpp', 'libdevcore/CommonData.cpp', 'libdevcore/FixedHash.cpp', 'libdevcore/SplitDB.cpp', 'libdevcore/LevelDB.cpp', 'libbatched-io/batched_db.cpp', 'libbatched-io/batched_io.cpp', 'libdevcore/Log.cpp', '"$D/mprof_stub.cpp"', 'libdevcore/ManuallyRotatingLevelDB.cpp', 'libbatched-io/batched_rotating_db_io.cpp']
LIBS = '_build/libskutils.a _build/libjson_spirit.a -lboost_system -lboost_log -lboost_thread -lboost_filesystem -lcryptopp -lcrypto -lleveldb -lpthread'
CXX = 'clang++'
STUBS = True
COPY = ['harness/mprof_stub.cpp']
FLAGS = '-fuse-ld=lld -fno-access-control -DBOOST_TIMER_ENABLE_DEPRECATED -ffunction-sections -fdata-sections -Wl,--gc-sections'
