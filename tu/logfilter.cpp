#include <libethereum/LogFilter.cpp>
#include <libethcore/LogEntry.cpp>
