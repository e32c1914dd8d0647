#pragma once
extern "C" { extern const char* skale_version; }
