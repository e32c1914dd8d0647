// the state and the account it is made of, as one unit for extraction
#include "libskale/State.cpp"
#include "libethereum/Account.cpp"
