// the transaction queue
#include "libethereum/TransactionQueue.cpp"
