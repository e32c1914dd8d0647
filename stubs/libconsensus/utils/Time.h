#pragma once
#include <cstdint>
class Time { public: static uint64_t getCurrentTimeMs() { return 0; } static uint64_t getCurrentTimeSec(){return 0;} };
