PROP = 'C12'
EDITS = {'libbatched-io/batched_db.h': [('''        std::lock_guard< std::mutex > batch_lock( m_batch_mutex );
        ensure_batch();
        m_batch->kill( _key );''', '''        std::lock_guard< std::mutex > batch_lock( m_batch_mutex );
        if ( !m_batch && !m_db->exists( _key ) )
            return;  // nothing to delete: do not start a batch for it
        if ( !m_batch )
            return m_db->kill( _key );  // nothing is pending: no need to keep it in order
        m_batch->kill( _key );''')]}
NEEDS = 'a deletion as the first operation of a batch, then a revert (or a crash) before the commit'
BREAKS = 'the deletion is applied at once: it is visible before the commit and a revert does not undo it'
DEMO = r'''
#include <libbatched-io/batched_db.h>
#include <map>
using namespace dev::db;
typedef std::map< std::string, std::string > M;
static std::string s( Slice x ) { return std::string( x.data(), x.size() ); }
struct Batch : WriteBatchFace { std::vector< std::pair< std::string, std::string* > > ops; void insert( Slice k, Slice v ) override { ops.push_back( { s( k ), new std::string( s( v ) ) } ); } void kill( Slice k ) override { ops.push_back( { s( k ), nullptr } ); } };
struct Db : DatabaseFace {
    M m;
    std::string lookup( Slice k ) const override { auto i = m.find( s( k ) ); return i == m.end() ? "" : i->second; }
    bool exists( Slice k ) const override { return m.count( s( k ) ); }
    void insert( Slice k, Slice v ) override { m[s( k )] = s( v ); }
    void kill( Slice k ) override { m.erase( s( k ) ); }
    std::unique_ptr< WriteBatchFace > createWriteBatch() const override { return std::make_unique< Batch >(); }
    void commit( std::unique_ptr< WriteBatchFace > b ) override { for ( auto& o : static_cast< Batch& >( *b ).ops ) if ( o.second ) m[o.first] = *o.second; else m.erase( o.first ); }
    void forEach( std::function< bool( Slice, Slice ) > ) const override {}
    void forEachWithPrefix( std::string&, std::function< bool( Slice, Slice ) > ) const override {}
    dev::h256 hashBase() const override { return dev::h256(); }
};
int main() {
    auto d = std::make_shared< Db >(); d->m = { { "a", "1" }, { "b", "2" } };
    batched_io::batched_db b; b.open( d );
    b.kill( Slice( "a", 1 ) ); b.insert( Slice( "c", 1 ), Slice( "3", 1 ) );
    bool before = d->m == M{ { "a", "1" }, { "b", "2" } };
    b.revert(); bool reverted = d->m == M{ { "a", "1" }, { "b", "2" } };
    b.insert( Slice( "c", 1 ), Slice( "3", 1 ) ); b.kill( Slice( "a", 1 ) ); b.commit();
    bool after = d->m == M{ { "b", "2" }, { "c", "3" } };
    return before && reverted && after ? 0 : 1;
}
'''
SOURCES = ['libbatched-io/batched_db.cpp', 'libbatched-io/batched_io.cpp', 'libdevcore/FixedHash.cpp', 'libdevcore/CommonData.cpp', 'libdevcore/Log.cpp']
LIBS = '_build/libskutils.a _build/libjson_spirit.a -lboost_system -lboost_filesystem -lboost_log -lboost_thread -lpthread'
STUBS = True
