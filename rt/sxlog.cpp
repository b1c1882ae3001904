// Logging is off inside the model: a log statement constructs an empty stream object and writes nothing.
#include <stddef.h>
#include <stdint.h>
extern "C" {
void sx_override__ZN6cybozu9logstreamC2EbPKc(void* self, bool, const char*) { ((uint64_t*)self)[0] = 0; ((uint64_t*)self)[1] = 0; }
void sx_override__ZN6cybozu9logstreamC1EbPKc(void* self, bool, const char*) { ((uint64_t*)self)[0] = 0; ((uint64_t*)self)[1] = 0; }
}
