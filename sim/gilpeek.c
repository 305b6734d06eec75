/* Is CPython's global interpreter lock held?  Read only, used to keep simulated application threads from starting a
   Python-level call while another one is inside such a call. */
#define Py_BUILD_CORE 1
#include <Python.h>
#include "internal/pycore_interp.h"
#include "internal/pycore_ceval_state.h"
int sim_gil_locked(void) { return _Py_atomic_load_relaxed(&PyInterpreterState_Main()->ceval.gil->locked); }
