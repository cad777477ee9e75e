// linked into the module under test: its requests to release and take the GIL go to the simulator
struct _ts;
extern "C" {
_ts* __sim_SaveThread(); void __sim_RestoreThread(_ts*);
_ts* __wrap_PyEval_SaveThread() { return __sim_SaveThread(); }
void __wrap_PyEval_RestoreThread(_ts* s) { __sim_RestoreThread(s); }
}
