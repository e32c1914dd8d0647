PROP = 'C01'
EDITS = {'libdevcore/RLP.cpp': [('''        _itemCount = 1;  // for all following iterations, we've effectively appended a single item
                         // only since we completed a list.
''', '')]}
NEEDS = 'appending several raw items at once that complete a nested list whose parent still expects more items'
BREAKS = 'the parent list counts every one of them as its own item and is closed too early'
SOURCES = ['libdevcore/RLP.cpp', 'libdevcore/CommonData.cpp']
DEMO = r'''
#include <libdevcore/RLP.h>
using namespace dev;
int main() {
    RLPStream s( 3 );
    s.appendList( 2 );
    s.appendRaw( bytes{ 1, 2 }, 2 );
    s << 5u << 6u;
    return s.out() == bytes{ 0xc5, 0xc2, 1, 2, 5, 6 } ? 0 : 1;
}
'''
