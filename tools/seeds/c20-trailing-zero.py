PROP = 'C20'
EDITS = {'libdevcore/Base64.cpp': [('''        for ( j = 0; j < i - 1; j++ )
            ret.push_back( char_array_3[j] );''', '''        for ( j = 0; j < i - 1; j++ )
            if ( char_array_3[j] || j + 2 < i )  // a zero at the very end comes from the padding
                ret.push_back( char_array_3[j] );''')]}
NEEDS = 'data whose length is not a multiple of three and whose last byte is zero'
BREAKS = 'decoding the encoding loses the last byte'
DEMO = r'''
#include <libdevcore/Base64.h>
using namespace dev;
int main() {
    for ( bytes b : { bytes{ 1, 2, 3, 4 }, bytes{ 1, 2, 3, 4, 0 }, bytes{ 7, 0, 0, 0 }, bytes{ 0 }, bytes{ 0, 5 } } )
        if ( fromBase64( toBase64( bytesConstRef( b.data(), b.size() ) ) ) != b ) return 1;
    return 0;
}
'''
SOURCES = ['libdevcore/Base64.cpp', 'libdevcore/CommonData.cpp']
