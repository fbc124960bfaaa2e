// The code under test of C23, compiled with ThreadSanitizer's instrumentation (but not its runtime):
// every memory access and synchronisation operation of the library calls into sched.cpp.
#include "ops.hpp"

extern "C" int subject_count() { return ops::count; }
extern "C" const char* subject_name(int k) { return ops::all[k].name; }
// run operation k with argument variant v; the outcome goes to out (memory of the caller)
extern "C" void subject_run(int k, int v, char* out, int cap)
{
    ops::Out o;
    o.b[0] = 0;
    ops::all[k].run(o, v);
    for(int i = 0; i < cap - 1 && i <= o.n; ++i) out[i] = o.b[i];
    out[cap - 1] = 0;
}
