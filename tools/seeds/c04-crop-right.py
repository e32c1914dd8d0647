PROP = 'C04'
EDITS = {'libdevcore/FixedHash.h': [('''            m_data[_t == AlignRight ? N - 1 - i : i] = _h[_t == AlignRight ? M - 1 - i : i];''', '''            m_data[_t == AlignRight ? N - 1 - i : i] = _h[_t == AlignRight ? c - 1 - i : i];''')]}
NEEDS = 'a right-aligned conversion from a longer hash to a shorter one'
BREAKS = 'the leading instead of the trailing bytes are kept'
SOURCES = ['libdevcore/FixedHash.cpp', 'libdevcore/CommonData.cpp']
DEMO = r'''
#include <libdevcore/FixedHash.h>
using namespace dev;
int main() {
    h256 h; for ( unsigned i = 0; i < 32; ++i ) h[i] = i + 1;
    h160 r( h, h160::AlignRight );
    for ( unsigned i = 0; i < 20; ++i ) if ( r[i] != 13 + i ) return 1;
    h160 s; for ( unsigned i = 0; i < 20; ++i ) s[i] = i + 1;
    h256 w( s, h256::AlignRight );
    for ( unsigned i = 0; i < 32; ++i ) if ( w[i] != ( i < 12 ? 0 : i - 11 ) ) return 2;
    return 0;
}
'''
