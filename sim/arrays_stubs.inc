// The groups of steps that this executable does without.
#ifdef STUB_api2
#include "arrays_i_api2.inc"
#endif
#ifdef STUB_apix
#include "arrays_i_apix.inc"
#endif
#ifdef STUB_view
#include "arrays_i_view.inc"
#endif
#ifdef STUB_api1
#include "arrays_i_api1.inc"
#endif
#ifdef STUB_d1
#include "arrays_i_d1.inc"
#endif
#ifdef STUB_misc
#include "arrays_i_misc.inc"
#endif
#ifdef STUB_d3
#include "arrays_i_d3.inc"
#endif
#ifdef STUB_d2
#include "arrays_i_d2.inc"
#endif
#ifdef STUB_big
#include "arrays_i_big.inc"
#endif
#ifdef STUB_alg1
#include "arrays_i_alg1.inc"
#endif
#ifdef STUB_alg2
#include "arrays_i_alg2.inc"
#endif
#ifdef STUB_iter
#include "arrays_i_iter.inc"
#endif
#ifdef STUB_slc
#include "arrays_i_slc.inc"
#endif
