#include <libethereum/Precompiled.cpp>
#include <libethcore/ChainOperationParams.cpp>
