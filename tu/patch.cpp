#include <libethereum/SchainPatch.cpp>
#include <libethcore/ChainOperationParams.cpp>
