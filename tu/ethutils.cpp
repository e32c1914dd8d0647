#include <libskutils/src/eth_utils.cpp>
