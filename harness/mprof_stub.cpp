// profiler entry points are not part of any property
#include <libdevcore/microprofile.h>
#if MICROPROFILE_ENABLED
extern "C" { MicroProfileToken MicroProfileGetToken( const char*, const char*, uint32_t, MicroProfileTokenType ) { return 0; }
uint64_t MicroProfileEnterInternal( MicroProfileToken ) { return 0; } void MicroProfileLeaveInternal( MicroProfileToken, uint64_t ) {}
void MicroProfileEnter( MicroProfileToken ) {} void MicroProfileLeave() {} }
#endif
