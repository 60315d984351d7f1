// The sequential reference: the same operations compiled without the parallel directives (built as a shared object with hidden symbols).
#ifdef _OPENMP
#error the reference must be compiled without OpenMP
#endif
#include "C29ops.hpp"
extern "C" __attribute__((visibility("default"))) void c29_reference(const OpIn* o, OpOut* r) { performOp(*o, *r); }
