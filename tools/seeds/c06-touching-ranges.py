PROP = 'C06'
EDITS = {'libdevcore/RangeMask.h': [('''            // The range before i ends with i.
            // if the next higher range is too high.
            if ( rangeAfter == m_ranges.end() || rangeAfter->first > _m.second ) {''', '''            // The range before i ends with i.
            // if the next higher range is too high.
            if ( rangeAfter == m_ranges.end() || rangeAfter->first >= _m.second ) {''')]}
NEEDS = 'a union that exactly closes the gap between two ranges, starting at the end of the lower one'
BREAKS = 'the two ranges are not merged, so full() is false and firstOut() is wrong although every element of the ground range is in'
DEMO = r'''
#include <libdevcore/RangeMask.h>
#include <iostream>
using dev::RangeMask;
int main() {
    RangeMask m( 0, 30 );
    m += RangeMask::Range( 0, 10 ); m += RangeMask::Range( 20, 30 ); m += RangeMask::Range( 10, 20 );
    if ( m.size() != 30 ) return 2;
    if ( !m.full() || m.firstOut() != 30 ) { std::cout << "not full: " << m << "\n"; return 1; }
    return 0;
}
'''
