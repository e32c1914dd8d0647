PROP = 'C03'
EDITS = {'libdevcore/CommonData.cpp': [('''        int l = fromHexChar( _s[i + 1] );
        if ( h != -1 && l != -1 )''', '''        int l = fromHexChar( _s[i + 1] );
        if ( h + l >= 0 )''')]}
NEEDS = 'a pair of characters of which exactly one is not a hexadecimal digit and the other is not 0'
BREAKS = 'invalid text is decoded instead of being rejected'
SOURCES = ['libdevcore/CommonData.cpp']
DEMO = r'''
#include <libdevcore/CommonData.h>
using namespace dev;
int main() {
    for ( std::string s : { "0xg1", "1g", "00zz", "0x001z", "a ", "0x12x5" } ) {
        if ( !fromHex( s ).empty() ) return 1;
        try { fromHex( s, WhenError::Throw ); return 2; } catch ( std::exception const& ) {}
    }
    return fromHex( "0x1f" ) == bytes{ 0x1f } && fromHex( "00" ) == bytes{ 0 } ? 0 : 3;
}
'''
