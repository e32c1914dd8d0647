PROP = 'C17'
EDITS = {'libethcore/ChainOperationParams.cpp': [('''    else if ( _workingBlockNumber >= constantinopleFixForkBlock )
        result = ConstantinopleFixSchedule;
    else if ( _workingBlockNumber >= constantinopleForkBlock )
        result = ConstantinopleSchedule;
''', '''    else if ( _workingBlockNumber >= constantinopleForkBlock )
        result = _workingBlockNumber > constantinopleFixForkBlock ? ConstantinopleFixSchedule :
                                                                    ConstantinopleSchedule;
''')]}
NEEDS = 'the very block in which the Constantinople fix fork starts'
BREAKS = 'the fork is applied one block late'
SOURCES = ['libethcore/ChainOperationParams.cpp', 'libethereum/SchainPatch.cpp', 'libdevcore/Log.cpp', 'libdevcore/CommonData.cpp', 'libdevcore/FixedHash.cpp']
LIBS = '_build/libskutils.a _build/libjson_spirit.a -lboost_system -lboost_log -lboost_thread -lpthread'
DEMO = r'''
#include <libethcore/ChainOperationParams.h>
#include <libethereum/SchainPatch.h>
using namespace dev; using namespace dev::eth;
int main() {
    ChainOperationParams p;
    p.homesteadForkBlock = p.EIP150ForkBlock = p.EIP158ForkBlock = p.byzantiumForkBlock = 0; p.constantinopleForkBlock = 5; p.constantinopleFixForkBlock = 9;
    for ( int b = 0; b < 20; ++b ) {
        auto s = p.makeEvmSchedule( 0, b );
        if ( s.haveCreate2 != ( b >= 5 ) || s.eip1283Mode != ( b >= 5 && b < 9 ) ) return 1;
    }
    return 0;
}
'''
