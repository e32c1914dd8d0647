PROP = 'C24'
EDITS = {'libdevcore/LruCache.h': [('''        } else
            m_data.splice( m_data.begin(), m_data, cIter->second );

        return m_index.size();''', '''        } else if ( m_index.size() == m_capacity )  // the order only matters once something has to go
            m_data.splice( m_data.begin(), m_data, cIter->second );

        return m_index.size();''')]}
NEEDS = 'an entry inserted again while the cache is not full yet, and evictions later'
BREAKS = 'the refreshed entry keeps its old place and is evicted before entries used longer ago'
DEMO = r'''
#include <libdevcore/LruCache.h>
int main() {
    dev::LruCache< int, int > c( 3 );
    c.insert( 1, 10 ); c.insert( 2, 20 ); c.insert( 1, 10 ); c.insert( 3, 30 ); c.insert( 4, 40 );
    return c.contains( 1 ) && !c.contains( 2 ) && c.contains( 3 ) && c.contains( 4 ) ? 0 : 1;
}
'''
