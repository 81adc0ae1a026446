// FFTW's planner may be used by one thread at a time (its documentation). The library itself is not
// instrumented, so each planner call touches this plain variable: unordered planner calls show as a race on it.
#include <fftw3.h>
#include "perturb.h"
extern "C"
{
volatile long fftw_planner_state = 0;
static void planner_entered() { fftw_planner_state = fftw_planner_state + 1; hv::perturb_point(); fftw_planner_state = fftw_planner_state + 1; }
#define WRAP(ret, name, params, args) ret __real_##name params; ret __wrap_##name params { planner_entered(); return __real_##name args; }
WRAP(fftw_plan, fftw_plan_dft_1d, (int n, fftw_complex* i, fftw_complex* o, int s, unsigned f), (n, i, o, s, f))
WRAP(fftw_plan, fftw_plan_dft, (int r, const int* n, fftw_complex* i, fftw_complex* o, int s, unsigned f), (r, n, i, o, s, f))
WRAP(fftw_plan, fftw_plan_many_dft, (int r, const int* n, int h, fftw_complex* i, const int* ie, int is, int id, fftw_complex* o, const int* oe, int os, int od, int s, unsigned f), (r, n, h, i, ie, is, id, o, oe, os, od, s, f))
WRAP(fftw_plan, fftw_plan_dft_r2c_1d, (int n, double* i, fftw_complex* o, unsigned f), (n, i, o, f))
WRAP(fftw_plan, fftw_plan_dft_c2r_1d, (int n, fftw_complex* i, double* o, unsigned f), (n, i, o, f))
void __real_fftw_destroy_plan(fftw_plan);
void __wrap_fftw_destroy_plan(fftw_plan p) { planner_entered(); __real_fftw_destroy_plan(p); }
void __real_fftw_cleanup();
void __wrap_fftw_cleanup() { planner_entered(); __real_fftw_cleanup(); }
void __real_fftw_forget_wisdom();
void __wrap_fftw_forget_wisdom() { planner_entered(); __real_fftw_forget_wisdom(); }
}
