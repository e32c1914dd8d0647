// the loop-and-switch variant of the interpreter: the case bodies are the same text in both variants
#define EVM_JUMP_DISPATCH false
#include <libevm/LegacyVM.cpp>
#include <libevm/LegacyVMCalls.cpp>
