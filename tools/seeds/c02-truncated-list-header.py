PROP = 'C02'
EDITS = {'libdevcore/RLP.cpp': [('''        unsigned lengthSize = n - c_rlpListIndLenZero;
        if ( m_data.size() <= lengthSize )''', '''        unsigned lengthSize = n - c_rlpListIndLenZero;
        if ( m_data.size() < lengthSize )''')]}
NEEDS = 'an input that ends exactly one byte before the end of a long list length'
BREAKS = 'the length is read one byte past the end of the input'
FLAGS = '-fsanitize=address -fno-omit-frame-pointer'
SOURCES = ['libdevcore/RLP.cpp', 'libdevcore/CommonData.cpp']
DEMO = r'''
#include <libdevcore/RLP.h>
using namespace dev;
int main() {
    for ( int k = 1; k < 8; ++k ) {
        bytes b( k, 0xff ); b[0] = 0xf7 + k;
        uint8_t* p = new uint8_t[k]; memcpy( p, b.data(), k );
        try { RLP r( bytesConstRef( p, k ), RLP::LaissezFaire ); r.actualSize(); } catch ( std::exception const& ) {}
        delete[] p;
    }
    return 0;
}
'''
