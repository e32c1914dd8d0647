#include <libethereum/TransactionReceipt.cpp>
#include <libethereum/BlockDetails.cpp>
#include <libethcore/LogEntry.cpp>
