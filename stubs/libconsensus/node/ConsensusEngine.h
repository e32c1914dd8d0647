#pragma once
#include "ConsensusInterface.h"
