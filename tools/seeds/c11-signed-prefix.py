PROP = 'C11'
EDITS = {'libbatched-io/batched_db.cpp': [('''    backend->forEach( [&]( dev::db::Slice _key, dev::db::Slice _val ) -> bool {
        if ( _key[0] != this->prefix )
            return true;''', '''    backend->forEach( [&]( dev::db::Slice _key, dev::db::Slice _val ) -> bool {
        if ( _key[0] > this->prefix )
            return false;  // keys come in order: ours are over
        if ( _key[0] != this->prefix )
            return true;''')]}
NEEDS = 'more than 128 databases in one store (prefixes from 0x80 on are negative chars)'
BREAKS = 'iterating one of the later databases ends at the first entry of an earlier one and misses its own entries'
DEMO = r'''
#include <libbatched-io/batched_db.h>
#include <map>
using namespace dev::db;
static std::string s( Slice x ) { return std::string( x.data(), x.size() ); }
struct Db : batched_io::db_face {
    std::map< std::string, std::string > m;
    void insert( Slice k, Slice v ) override { m[s( k )] = s( v ); }
    void kill( Slice k ) override { m.erase( s( k ) ); }
    void revert() override {}
    void commit( const std::string& ) override {}
    std::string lookup( Slice k ) const override { auto i = m.find( s( k ) ); return i == m.end() ? "" : i->second; }
    bool exists( Slice k ) const override { return m.count( s( k ) ); }
    void forEach( std::function< bool( Slice, Slice ) > f ) const override { for ( auto& x : m ) if ( !f( Slice( x.first ), Slice( x.second ) ) ) break; }
    void forEachWithPrefix( std::string&, std::function< bool( Slice, Slice ) > ) const override {}
    void recover() override {}
};
int main() {
    auto d = std::make_shared< Db >(); batched_io::db_splitter sp( d ); std::vector< batched_io::db_operations_face* > v;
    for ( int i = 0; i < 200; ++i ) v.push_back( sp.new_interface() );
    for ( int i = 0; i < 200; ++i ) { std::string k = "key" + std::to_string( i ); v[i]->insert( Slice( k ), Slice( k ) ); }
    for ( int i = 0; i < 200; ++i ) { int n = 0; v[i]->forEach( [&]( Slice k, Slice ) { n += s( k ) == "key" + std::to_string( i ) ? 1 : 100; return true; } ); if ( n != 1 ) return 1; }
    return 0;
}
'''
SOURCES = ['libbatched-io/batched_db.cpp', 'libbatched-io/batched_io.cpp', 'libdevcore/FixedHash.cpp', 'libdevcore/CommonData.cpp', 'libdevcore/Log.cpp']
LIBS = '_build/libskutils.a _build/libjson_spirit.a -lboost_system -lboost_filesystem -lboost_log -lboost_thread -lpthread'
STUBS = True
