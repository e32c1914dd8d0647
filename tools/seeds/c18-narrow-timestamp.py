PROP = 'C18'
EDITS = {'libethereum/InstanceMonitor.cpp': [('''        auto timestamp = rotationJson["timestamp"].get< uint64_t >();''', '''        auto timestamp = rotationJson["timestamp"].get< unsigned >();''')]}
NEEDS = 'a rotation scheduled for a time of 2^32 or later'
BREAKS = 'the time is cut to 32 bits and the rotation happens far too early'
DEMO = r'''
#include <libethereum/InstanceMonitor.h>
#include <unistd.h>
int main() {
    char c[300]; if ( !getcwd( c, sizeof( c ) ) ) return 2;
    InstanceMonitor m( c );
    for ( uint64_t t : { uint64_t( 1000 ), uint64_t( 5000000000 ), uint64_t( 1 ) << 63 } ) {
        m.initRotationParams( t );
        for ( uint64_t b : { uint64_t( 999 ), uint64_t( 1000 ), uint64_t( 4999999999 ), uint64_t( 5000000000 ), ( uint64_t( 1 ) << 63 ) - 1, uint64_t( 1 ) << 63 } )
            if ( m.isTimeToRotate( b ) != ( b >= t ) ) return 1;
    }
    return 0;
}
'''
SOURCES = ['libethereum/InstanceMonitor.cpp', 'libdevcore/Log.cpp', 'libdevcore/StatusAndControl.cpp', 'libdevcore/CommonData.cpp']
LIBS = '_build/libskutils.a _build/libjson_spirit.a -lboost_system -lboost_filesystem -lboost_log -lboost_thread -lpthread'
