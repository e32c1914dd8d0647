// transaction execution, the checks before it and the transaction itself, as one unit for extraction
#include "libethereum/Executive.cpp"
#include <libethereum/Transaction.cpp>
#include <libethcore/SealEngine.cpp>
#include <libethcore/TransactionBase.cpp>
