PROP = 'C08'
EDITS = {'libskale/State.cpp': [('    if ( _amount )\n        m_changeLog.emplace_back( Change::Balance, _id, _amount );\n', '    if ( _amount ) {\n        // successive changes of one balance are kept as one entry\n        if ( !m_changeLog.empty() && m_changeLog.back().kind == Change::Balance &&\n             m_changeLog.back().address == _id )\n            m_changeLog.back().value += _amount;\n        else\n            m_changeLog.emplace_back( Change::Balance, _id, _amount );\n    }\n')]}
NEEDS = 'a savepoint taken between two changes of the balance of one account'
BREAKS = 'a rollback to the savepoint keeps the second change'
DEMO = r'''
#include <libbatched-io/batched_db.h>
#include <boost/log/core.hpp>
#include <libethereum/SchainPatch.h>
#include <libethcore/ChainOperationParams.h>
#include <libskale/OverlayDB.h>
#include <libskale/State.h>
#include <map>
namespace dev { extern bytes const NullBytes; bytes const NullBytes; }

using namespace dev; using namespace dev::eth;
struct B : db::WriteBatchFace { void insert( db::Slice, db::Slice ) override {} void kill( db::Slice ) override {} };
struct D : db::DatabaseFace {
    std::string lookup( db::Slice ) const override { return ""; }
    bool exists( db::Slice ) const override { return false; }
    void insert( db::Slice, db::Slice ) override {}
    void kill( db::Slice ) override {}
    std::unique_ptr< db::WriteBatchFace > createWriteBatch() const override { return std::make_unique< B >(); }
    void commit( std::unique_ptr< db::WriteBatchFace > ) override {}
    void forEach( std::function< bool( db::Slice, db::Slice ) > ) const override {}
    void forEachWithPrefix( std::string&, std::function< bool( db::Slice, db::Slice ) > ) const override {}
    h256 hashBase() const override { return {}; }
};
int main() {
    boost::log::core::get()->set_logging_enabled( false );
    auto b = std::make_unique< batched_io::batched_db >(); b->open( std::make_shared< D >() );
    ChainOperationParams cp; SchainPatch::init( cp ); SchainPatch::useLatestBlockTimestamp( 10 );
    skale::State base( 0, skale::OverlayDB( std::move( b ) ), skale::BaseState::PreExisting, 0, s256( 1 ) << 100 );
    skale::State s = base.createStateModifyCopy(); Address a( 1 ), c( 2 );
    s.addBalance( a, 100 ); auto sp = s.savepoint(); s.addBalance( a, 5 ); s.rollback( sp ); if ( s.balance( a ) != 100 ) return 1;
    auto sp2 = s.savepoint(); s.transferBalance( a, c, 30 ); auto sp3 = s.savepoint(); s.addBalance( c, 1 ); s.rollback( sp3 ); if ( s.balance( c ) != 30 || s.balance( a ) != 70 ) return 1;
    s.rollback( sp2 ); return s.balance( a ) == 100 && s.balance( c ) == 0 ? 0 : 1;
}
'''
SOURCES = ['libdevcore/RLP.cpp', 'libdevcore/CommonData.cpp', 'libdevcore/FixedHash.cpp', 'libdevcore/SplitDB.cpp', 'libdevcore/LevelDB.cpp', 'libbatched-io/batched_db.cpp', 'libbatched-io/batched_io.cpp', 'libdevcore/Log.cpp', '"$D/mprof_stub.cpp"', 'libskale/OverlayDB.cpp', 'libskale/State.cpp', 'libethereum/Account.cpp', 'libethereum/SchainPatch.cpp', 'libethcore/ChainOperationParams.cpp', 'libethcore/LogEntry.cpp', 'libethereum/TransactionReceipt.cpp', 'libethereum/BlockDetails.cpp', 'libdevcore/SHA3.cpp', 'libdevcore/TrieCommon.cpp']
LIBS = '_build/libskutils.a _build/libjson_spirit.a -lboost_system -lboost_log -lboost_thread -lboost_filesystem -lcryptopp -lcrypto -lleveldb -lpthread'
CXX = 'clang++'
STUBS = True
COPY = ['harness/mprof_stub.cpp']
FLAGS = '-fuse-ld=lld -fno-access-control -DBOOST_TIMER_ENABLE_DEPRECATED -ffunction-sections -fdata-sections -Wl,--gc-sections'
