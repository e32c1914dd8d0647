PROP = 'C07'
EDITS = {'libdevcore/TrieCommon.cpp': [('''    bool odd = ( end1 - begin1 + end2 - begin2 ) & 1;
''', '''    bool odd = ( begin1 ^ end2 ^ begin2 ) & 1 & ( begin1 | ~begin2 );
''')]}
NEEDS = 'joining a view of even offset with one of odd offset'
BREAKS = 'the parity flag of the joined key is wrong, the key gains a nibble'
SOURCES = ['libdevcore/TrieCommon.cpp', 'libdevcore/RLP.cpp', 'libdevcore/CommonData.cpp', 'libdevcore/FixedHash.cpp']
DEMO = r'''
#include <libdevcore/TrieCommon.h>
#include <libdevcore/SHA3.h>
using namespace dev;
namespace dev { bool sha3( bytesConstRef, bytesRef ) noexcept { return true; } }
int main() {
    bytes a{ 0x12, 0x34 }, b{ 0x56, 0x78 };
    for ( unsigned i = 0; i <= 4; ++i ) for ( unsigned j = 0; j <= 4; ++j ) {
        NibbleSlice x( &a, i ), y( &b, j );
        bytes e = asBytes( hexPrefixEncode( x, y, true ) );
        NibbleSlice k = keyOf( bytesConstRef( &e ) );
        if ( k.size() != x.size() + y.size() ) return 1;
        for ( unsigned n = 0; n < k.size(); ++n ) if ( k[n] != ( n < x.size() ? x[n] : y[n - x.size()] ) ) return 2;
    }
    return 0;
}
'''

EXTRA = {'ethash/' + n: open('/verif/stubs/ethash/' + n).read() for n in ('keccak.hpp', 'hash_types.hpp')}
