// C09: value transfers, by the histories of state.cpp
#define TRANSFERS_ONLY
#include "state.cpp"
