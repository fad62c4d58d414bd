// The Python functions libvsscript looks up in the configured Python library, taken from the running (static) interpreter.
#include <dlfcn.h>
#define X extern "C" __attribute__((visibility("default")))
#define SYM(n) static auto f = reinterpret_cast<void *(*)(void *, const void *)>(dlsym(RTLD_DEFAULT, #n))
#define F0(n) X void *n() { SYM(n); return f(nullptr, nullptr); }
#define F1(n) X void *n(void *a) { SYM(n); return f(a, nullptr); }
#define F2(n) X void *n(void *a, const void *b) { SYM(n); return f(a, b); }
F1(_Py_DecRef)
F2(PyObject_GetAttrString)
F2(PyDict_GetItemString)
F2(PyCapsule_IsValid)
F2(PyCapsule_GetPointer)
F1(PyImport_ImportModule)
F0(Py_IsInitialized)
F1(Py_InitializeEx)
F0(PyGILState_Ensure)
F0(PyEval_SaveThread)
F1(Py_SetProgramName)
