// Run-time of the simulated Python process: LD_PRELOADed and imported as the module _simrt.
//   - operator new/delete and CPython's allocators with failures, only while code of the repository itself asks
//     (innermost instrumented function on the stack; pybind11's and the interpreter's own requests never fail)
//   - a baton scheduler over real threads and a logical GIL: who runs next is decided by an explicit list
//   - exporters of the buffer protocol of any layout, in memory fenced by guard pages, unreadable once released
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include <dlfcn.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <unistd.h>
#include <algorithm>
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>

namespace {
enum { OTHER = 0, REPO = 1, FOREIGN = 2, AS_CALLER = 3 };
const int DEPTH = 8192, TASKS = 8;

struct Thread { int sp = 0; unsigned char cat[DEPTH]; bool armed = false; long nth = 0, count = 0, fired = 0; int mode = 0, kind = 3; int task = -1; bool nogil = false; };
thread_local Thread me;

// ---- who is on the stack ----
struct Sym { uint64_t off; uint64_t cat; };
Sym* syms; size_t nsyms; uint64_t base;
struct Slot { uint64_t fn; unsigned char cat; };
Slot cache[1 << 16];
#define NOI __attribute__((no_instrument_function))
int category(void* fn) {
  uint64_t a = (uint64_t)fn, h = (a * 0x9E3779B97F4A7C15ull) >> 48;
  for (;; h = (h + 1) & 0xffff) {
    if (cache[h].fn == a) return cache[h].cat;
    if (!cache[h].fn) break;
  }
  if (!syms) return OTHER;
  if (!base) { Dl_info i; if (!dladdr(fn, &i)) return OTHER; base = (uint64_t)i.dli_fbase; }
  Sym* e = std::lower_bound(syms, syms + nsyms, a - base, [](const Sym& s, uint64_t o) { return s.off < o; });
  int c = e != syms + nsyms && e->off == a - base ? (int)e->cat : OTHER;
  cache[h].cat = c; cache[h].fn = a;
  return c;
}
bool repo_top() { return me.sp > 0 && me.sp <= DEPTH && me.cat[me.sp - 1] == REPO; }

// ---- memory ----
std::atomic<long> live_cpp{0}, live_py{0}, n_cpp{0}, n_py{0}, n_failed_cpp{0}, n_failed_py{0}, calls{0};
unsigned char fillbyte = 0xA7;
void fatal(const char* m) { if (write(2, m, strlen(m)) < 0) {} if (write(2, "\n", 1) < 0) {} _exit(86); }
bool fails(int kind) {
  if (!me.armed || !repo_top() || !(me.kind & kind)) return false;
  me.count++;
  if (me.nth && (me.mode == 0 ? me.count == me.nth : me.mode == 1 ? me.count >= me.nth : (me.count >= me.nth && (me.count - me.nth) % me.mode == 0))) { me.fired++; (kind == 1 ? n_failed_cpp : n_failed_py)++; return true; }
  return false;
}
const uint64_t MAGIC = 0x5ca1ab1e0ddba11ull, TAIL = 0xfeedfacecafebeefull;
const size_t LIMIT = 1u << 30;
void yield_alloc();
void* alloc(size_t n, bool nothrow) {
  yield_alloc();
  if (repo_top()) n_cpp++;
  if (fails(1) || (n > LIMIT && me.armed)) { if (nothrow) return nullptr; throw std::bad_alloc(); }
  uint64_t* p = (uint64_t*)malloc(n + 24);
  if (!p) { if (nothrow) return nullptr; throw std::bad_alloc(); }
  p[0] = n; p[1] = MAGIC;
  if (n < 4096) memset(p + 2, fillbyte, n); else { memset(p + 2, fillbyte, 2048); memset((char*)(p + 2) + n - 2048, fillbyte, 2048); }
  memcpy((char*)(p + 2) + n, &TAIL, 8);
  live_cpp++;
  return p + 2;
}
void dealloc(void* q) {
  if (!q) return;
  uint64_t* p = (uint64_t*)q - 2, t;
  if (p[1] != MAGIC) fatal("HEAP: a block released twice, or one that was never handed out");
  memcpy(&t, (char*)q + p[0], 8);
  if (t != TAIL) fatal("HEAP: memory behind a block was overwritten");
  memset(q, 0xDB, p[0] < 4096 ? p[0] : 4096);
  p[1] = 0; live_cpp--;
  free(p);
}
PyMemAllocatorEx real_raw, real_mem, real_obj;
// Python blocks asked for by the repository's code itself (others, such as entries of CPython's method cache, come and go on their own)
const size_t OWN = 1 << 16; std::atomic<void*> own[OWN]; void* const GONE = (void*)1;
size_t own_at(void* p) { return ((uint64_t)p * 0x9E3779B97F4A7C15ull) >> 48; }
void own_add(void* p) { for (size_t h = own_at(p), k = 0; k < OWN; k++, h = (h + 1) % OWN) { void* q = own[h]; if (!q || q == GONE) { own[h] = p; live_py++; return; } } }
void own_del(void* p) { for (size_t h = own_at(p), k = 0; k < OWN; k++, h = (h + 1) % OWN) { void* q = own[h]; if (!q) return; if (q == p) { own[h] = own[(h + 1) % OWN] ? GONE : nullptr; live_py--; return; } } }
template <PyMemAllocatorEx* R> void* h_malloc(void*, size_t n) { bool m = repo_top(); if (m) { n_py++; if (fails(2)) return nullptr; } void* p = R->malloc(R->ctx, n); if (p && m) own_add(p); return p; }
template <PyMemAllocatorEx* R> void* h_calloc(void*, size_t k, size_t n) { bool m = repo_top(); if (m) { n_py++; if (fails(2)) return nullptr; } void* p = R->calloc(R->ctx, k, n); if (p && m) own_add(p); return p; }
template <PyMemAllocatorEx* R> void* h_realloc(void*, void* q, size_t n) {
  bool m = repo_top(); if (m) { n_py++; if (fails(2)) return nullptr; }
  long before = live_py; if (q) own_del(q); bool was = live_py != before;
  void* p = R->realloc(R->ctx, q, n);
  if (p ? (m || was) : was) own_add(p ? p : q);
  return p;
}
template <PyMemAllocatorEx* R> void h_free(void*, void* q) { if (q) own_del(q); R->free(R->ctx, q); }
template <PyMemAllocatorEx* R> void hook(PyMemAllocatorDomain d) {
  PyMem_GetAllocator(d, R);
  PyMemAllocatorEx a = {nullptr, h_malloc<R>, h_calloc<R>, h_realloc<R>, h_free<R>};
  PyMem_SetAllocator(d, &a);
}

// ---- tasks ----
enum { NEW, WANTS, NOGIL, DONE };            // WANTS: waiting for the baton, needs the GIL to go on; NOGIL: waiting, does not
struct Task { int st; sem_t sem; } T[TASKS];
int ntask, current = -1, gil = -1; bool active;
sem_t all_done, may_end; std::atomic<int> registered{0};
struct Dec { long k; long choice; }; Dec dec[4096]; int ndec, atdec; long nyield, nswitch, ngil; uint64_t trace;
long points[4];
void mix(uint64_t v) { trace = (trace ^ v) * 0x100000001b3ull; trace ^= trace >> 29; }
// tasks that may be given the baton, if the current one keeps (hold) or lets go of the GIL
int candidates(int* c, bool hold) {
  int n = 0;
  for (int i = 0; i < ntask; i++) if (i != current && (T[i].st == NOGIL || (T[i].st == WANTS && !hold))) c[n++] = i;
  return n;
}
int decide(int kind, bool hold) {
  int c[TASKS], n = candidates(c, hold);
  if (!n) return -1;
  long k = nyield++; points[kind]++;
  while (atdec < ndec && dec[atdec].k < k) atdec++;
  if (atdec < ndec && dec[atdec].k == k) { int t = c[dec[atdec].choice % n]; nswitch++; mix(k * 8 + t); return t; }
  return -1;
}
void pass(int t) { current = t; if (T[t].st == WANTS) gil = t; sem_post(&T[t].sem); }
void wait_mine() { while (sem_wait(&T[me.task].sem)) {} }
bool scheduled() { return active && me.task >= 0 && current == me.task; }
void yield_inside(int kind) {                // inside code of the repository
  if (!scheduled()) return;
  if (me.nogil) {
    int t = decide(kind, gil >= 0);          // a GIL owner cannot be overtaken by one that wants it
    if (t < 0) return;
    T[me.task].st = NOGIL; pass(t); wait_mine();
  } else {
    int t = decide(kind, true);
    if (t < 0) return;
    T[me.task].st = NOGIL; pass(t); wait_mine();   // keeps the GIL (gil stays), goes on whenever chosen
  }
}
void yield_alloc() { if (repo_top()) yield_inside(1); }
void yield_python() {                        // between bytecodes: the GIL may change hands
  if (!scheduled() || me.nogil) return;
  int t = decide(0, false);
  if (t < 0) return;
  T[me.task].st = WANTS; gil = -1;
  PyThreadState* s = PyEval_SaveThread();
  pass(t); wait_mine();
  PyEval_RestoreThread(s);
}
}

extern "C" {
NOI void __cyg_profile_func_enter(void* fn, void*) {
  int c = category(fn);
  if (c == AS_CALLER) c = me.sp > 0 && me.sp <= DEPTH ? me.cat[me.sp - 1] : OTHER;
  if (me.sp < DEPTH) me.cat[me.sp] = c;
  me.sp++;
  if (c == REPO) { calls++; yield_inside(2); }
}
NOI void __cyg_profile_func_exit(void*, void*) { bool r = repo_top(); me.sp--; if (r) yield_inside(2); }
NOI void __sanitizer_cov_trace_pc() { if (__builtin_expect(me.nogil, 0)) yield_inside(2); } // without the GIL others may go on anywhere
PyThreadState* __sim_SaveThread() {
  PyThreadState* s = PyEval_SaveThread();
  ngil++;
  if (scheduled()) { gil = -1; me.nogil = true; yield_inside(3); }
  return s;
}
void __sim_RestoreThread(PyThreadState* s) {
  if (scheduled()) {
    yield_inside(3);
    while (gil >= 0) {                       // somebody else holds it: they have to run until they let go
      T[me.task].st = WANTS; int t = gil;
      current = t; sem_post(&T[t].sem); wait_mine();
      if (gil == me.task) break;           // whoever let go gave it to this task
    }
    gil = me.task; me.nogil = false;
  }
  PyEval_RestoreThread(s);
}
}

void* operator new(size_t n) { return alloc(n, false); }
void* operator new[](size_t n) { return alloc(n, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return alloc(n, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return alloc(n, true); }
void operator delete(void* p) noexcept { dealloc(p); }
void operator delete[](void* p) noexcept { dealloc(p); }
void operator delete(void* p, size_t) noexcept { dealloc(p); }
void operator delete[](void* p, size_t) noexcept { dealloc(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { dealloc(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { dealloc(p); }
static void* aalloc(size_t n, size_t a, bool nothrow) {
  void* p = nullptr;
  if (fails(1) || posix_memalign(&p, a < sizeof(void*) ? sizeof(void*) : a, n)) { if (nothrow) return nullptr; throw std::bad_alloc(); }
  live_cpp++; return p;
}
void* operator new(size_t n, std::align_val_t a) { return aalloc(n, (size_t)a, false); }
void* operator new[](size_t n, std::align_val_t a) { return aalloc(n, (size_t)a, false); }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return aalloc(n, (size_t)a, true); }
void operator delete(void* p, std::align_val_t) noexcept { if (p) { live_cpp--; free(p); } }
void operator delete[](void* p, std::align_val_t) noexcept { if (p) { live_cpp--; free(p); } }
void operator delete(void* p, size_t, std::align_val_t) noexcept { if (p) { live_cpp--; free(p); } }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { if (p) { live_cpp--; free(p); } }

// ---- exporters ----
// Exporter(data, off, n, stride, format, itemsize, ndim, readonly, fail, right, on_get)
typedef struct {
  PyObject_HEAD
  char *map; size_t maplen; char* mem; Py_ssize_t len, off, n, stride, itemsize; int ndim, readonly, fail, exports, gets, contents;
  char format[16]; Py_ssize_t shape[3], strides[3]; PyObject* on_get; PyObject* on_release;
} Exporter;
static void ex_protect(Exporter* e, int prot) { mprotect(e->map + 4096, e->maplen - 8192, prot); }
static int ex_init(PyObject* o, PyObject* args, PyObject*) {
  Exporter* e = (Exporter*)o; Py_buffer b; const char* f; int right; PyObject *cb, *cr;
  if (!PyArg_ParseTuple(args, "y*nnnsniiiiOO", &b, &e->off, &e->n, &e->stride, &f, &e->itemsize, &e->ndim, &e->readonly, &e->fail, &right, &cb, &cr)) return -1;
  snprintf(e->format, sizeof e->format, "%s", f);
  e->len = b.len;
  size_t pages = (b.len + 4095) / 4096; if (!pages) pages = 1;
  e->maplen = (pages + 2) * 4096;
  e->map = (char*)mmap(nullptr, e->maplen, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  ex_protect(e, PROT_READ | PROT_WRITE);
  e->mem = right ? e->map + e->maplen - 4096 - b.len : e->map + 4096;
  memcpy(e->mem, b.buf, b.len);
  PyBuffer_Release(&b);
  ex_protect(e, PROT_NONE);
  e->on_get = cb == Py_None ? nullptr : (Py_INCREF(cb), cb);
  e->on_release = cr == Py_None ? nullptr : (Py_INCREF(cr), cr);
  return 0;
}
static void ex_dealloc(PyObject* o) {
  Exporter* e = (Exporter*)o;
  if (e->map) munmap(e->map, e->maplen);
  Py_XDECREF(e->on_get); Py_XDECREF(e->on_release);
  Py_TYPE(o)->tp_free(o);
}
static int ex_get(PyObject* o, Py_buffer* v, int flags) {
  Exporter* e = (Exporter*)o;
  v->obj = nullptr;
  if (e->fail == 1) { PyErr_NoMemory(); return -1; }
  if (e->fail == 2) { PyErr_SetString(PyExc_BufferError, "refused"); return -1; }
  if ((flags & PyBUF_WRITABLE) && e->readonly) { PyErr_SetString(PyExc_BufferError, "read-only"); return -1; }
  bool contig = e->ndim != 1 || e->stride == e->itemsize;
  if (!contig && (flags & PyBUF_STRIDES) != PyBUF_STRIDES) { PyErr_SetString(PyExc_BufferError, "not contiguous"); return -1; }
  if (e->on_get) { PyObject* r; unsigned char m = FOREIGN; int sp = me.sp; if (sp < DEPTH) me.cat[sp] = m; me.sp++; r = PyObject_CallNoArgs(e->on_get); me.sp--; if (!r) return -1; Py_DECREF(r); }
  if (!e->exports) ex_protect(e, PROT_READ | PROT_WRITE);
  v->buf = e->mem + e->off; v->itemsize = e->itemsize; v->readonly = e->readonly; v->ndim = e->ndim;
  Py_ssize_t n = e->n;
  e->shape[0] = n; e->strides[0] = e->stride;
  if (e->ndim == 2) { e->shape[1] = 1; e->strides[1] = e->itemsize; e->strides[0] = e->itemsize; }
  v->len = e->ndim == 0 ? e->itemsize : n * e->itemsize;
  v->shape = e->ndim && (flags & PyBUF_ND) ? e->shape : nullptr;
  v->strides = e->ndim && (flags & PyBUF_STRIDES) == PyBUF_STRIDES ? e->strides : nullptr;
  v->suboffsets = nullptr;
  v->format = (flags & PyBUF_FORMAT) ? e->format : nullptr;
  v->internal = nullptr;
  v->obj = o; Py_INCREF(o);
  e->exports++; e->gets++;
  return 0;
}
static void ex_release(PyObject* o, Py_buffer*) {
  Exporter* e = (Exporter*)o;
  if (--e->exports < 0) fatal("BUFFER: released more often than it was taken");
  if (!e->exports) ex_protect(e, PROT_NONE);
  if (e->on_release) {
    PyObject *t, *v, *b; PyErr_Fetch(&t, &v, &b);
    int sp = me.sp; if (sp < DEPTH) me.cat[sp] = FOREIGN; me.sp++;
    PyObject* r = PyObject_CallNoArgs(e->on_release); me.sp--;
    if (r) Py_DECREF(r); else PyErr_Clear();
    PyErr_Restore(t, v, b);
  }
}
static PyObject* ex_state(PyObject* o, PyObject*) { Exporter* e = (Exporter*)o; return Py_BuildValue("ii", e->exports, e->gets); }
static PyObject* ex_poke(PyObject* o, PyObject* a) {   // poke(bytes): the owner changes its memory, whether or not it is exported
  Exporter* e = (Exporter*)o; Py_buffer b;
  if (!PyArg_ParseTuple(a, "y*", &b)) return nullptr;
  ex_protect(e, PROT_READ | PROT_WRITE);
  memcpy(e->mem, b.buf, std::min<Py_ssize_t>(b.len, e->len));
  PyBuffer_Release(&b);
  if (!e->exports) ex_protect(e, PROT_NONE);
  Py_RETURN_NONE;
}
static PyMethodDef ex_methods[] = {{"state", ex_state, METH_NOARGS, ""}, {"poke", ex_poke, METH_VARARGS, ""}, {}};
static PyBufferProcs ex_buffer = {ex_get, ex_release};
static PyTypeObject ExporterType = [] { PyTypeObject t = {PyVarObject_HEAD_INIT(nullptr, 0)}; t.tp_name = "_simrt.Exporter"; t.tp_basicsize = sizeof(Exporter); t.tp_flags = Py_TPFLAGS_DEFAULT; t.tp_init = ex_init; t.tp_new = PyType_GenericNew; t.tp_dealloc = ex_dealloc; t.tp_as_buffer = &ex_buffer; t.tp_methods = ex_methods; return t; }();

// ---- module ----
static PyObject* m_symbols(PyObject*, PyObject* a) {
  Py_buffer b; if (!PyArg_ParseTuple(a, "y*", &b)) return nullptr;
  nsyms = b.len / sizeof(Sym); syms = (Sym*)malloc(b.len); memcpy(syms, b.buf, b.len); memset(cache, 0, sizeof cache);
  PyBuffer_Release(&b); Py_RETURN_NONE;
}
static PyObject* m_arm(PyObject*, PyObject* a) {
  int mode, kind; long nth; if (!PyArg_ParseTuple(a, "lii", &nth, &mode, &kind)) return nullptr;
  me.nth = nth; me.mode = mode; me.kind = kind; me.count = me.fired = 0; me.armed = true; Py_RETURN_NONE;
}
static PyObject* m_disarm(PyObject*, PyObject*) { me.armed = false; return Py_BuildValue("ll", me.count, me.fired); }
static PyObject* m_live(PyObject*, PyObject*) { long c = live_cpp, p = live_py; return Py_BuildValue("ll", c, p); }
static PyObject* m_depth(PyObject*, PyObject*) { return PyLong_FromLong(me.sp); }
static PyObject* m_fill(PyObject*, PyObject* a) { int f; if (!PyArg_ParseTuple(a, "i", &f)) return nullptr; fillbyte = f; Py_RETURN_NONE; }
static PyObject* m_setup(PyObject*, PyObject* a) {
  PyObject* l; if (!PyArg_ParseTuple(a, "iO!", &ntask, &PyList_Type, &l)) return nullptr;
  ndec = 0; atdec = 0; nyield = nswitch = ngil = 0; trace = 14695981039346656037ull; current = gil = -1; registered = 0; memset(points, 0, sizeof points);
  for (Py_ssize_t i = 0; i < PyList_GET_SIZE(l) && ndec < 4096; i++) if (!PyArg_ParseTuple(PyList_GET_ITEM(l, i), "ll", &dec[ndec].k, &dec[ndec].choice)) return nullptr; else ndec++;
  for (int i = 0; i < ntask; i++) { T[i].st = NEW; sem_init(&T[i].sem, 0, 0); }
  sem_init(&all_done, 0, 0); sem_init(&may_end, 0, 0);
  Py_RETURN_NONE;
}
static PyObject* m_begin(PyObject*, PyObject* a) {
  int i; if (!PyArg_ParseTuple(a, "i", &i)) return nullptr;
  me.task = i; me.nogil = false; me.sp = 0;
  PyThreadState* s = PyEval_SaveThread();
  T[i].st = WANTS; registered++;
  wait_mine();
  PyEval_RestoreThread(s);
  Py_RETURN_NONE;
}
static PyObject* m_done(PyObject*, PyObject*) {
  int t = me.task; T[t].st = DONE; gil = -1; me.task = -1;
  int n = -1; for (int i = 0; i < ntask; i++) if (T[i].st == WANTS || T[i].st == NOGIL) { n = i; break; }
  PyThreadState* s = PyEval_SaveThread();
  if (n >= 0) pass(n); else { current = -1; sem_post(&all_done); }
  while (sem_wait(&may_end)) {}
  sem_post(&may_end);
  PyEval_RestoreThread(s);
  Py_RETURN_NONE;
}
static PyObject* m_run(PyObject*, PyObject* a) {
  int first; if (!PyArg_ParseTuple(a, "i", &first)) return nullptr;
  Py_BEGIN_ALLOW_THREADS
  while (registered < ntask) usleep(50);
  active = true; pass(first % ntask);
  while (sem_wait(&all_done)) {}
  active = false;
  sem_post(&may_end);
  Py_END_ALLOW_THREADS
  return Py_BuildValue("lllKllll", nyield, nswitch, ngil, (unsigned long long)trace, points[0], points[1], points[2], points[3]);
}
static PyObject* m_yield(PyObject*, PyObject*) { yield_python(); Py_RETURN_NONE; }
static PyObject* m_cb_enter(PyObject*, PyObject*) { if (me.sp < DEPTH) me.cat[me.sp] = FOREIGN; me.sp++; Py_RETURN_NONE; }
static PyObject* m_cb_exit(PyObject*, PyObject*) { me.sp--; Py_RETURN_NONE; }
static PyObject* m_stats(PyObject*, PyObject*) { long a = n_cpp, b = n_py, c = n_failed_cpp, d = n_failed_py, e = calls; return Py_BuildValue("lllll", a, b, c, d, e); }
static PyMethodDef methods[] = {
  {"symbols", m_symbols, METH_VARARGS, ""}, {"arm", m_arm, METH_VARARGS, ""}, {"disarm", m_disarm, METH_NOARGS, ""}, {"live", m_live, METH_NOARGS, ""}, {"depth", m_depth, METH_NOARGS, ""},
  {"fill", m_fill, METH_VARARGS, ""}, {"setup", m_setup, METH_VARARGS, ""}, {"begin", m_begin, METH_VARARGS, ""}, {"done", m_done, METH_NOARGS, ""}, {"run", m_run, METH_VARARGS, ""},
  {"yield_", m_yield, METH_NOARGS, ""}, {"cb_enter", m_cb_enter, METH_NOARGS, ""}, {"cb_exit", m_cb_exit, METH_NOARGS, ""}, {"stats", m_stats, METH_NOARGS, ""}, {}};
static PyModuleDef def = {PyModuleDef_HEAD_INIT, "_simrt", "", -1, methods};
PyMODINIT_FUNC PyInit__simrt() {
  hook<&real_raw>(PYMEM_DOMAIN_RAW); hook<&real_mem>(PYMEM_DOMAIN_MEM); hook<&real_obj>(PYMEM_DOMAIN_OBJ);
  if (PyType_Ready(&ExporterType) < 0) return nullptr;
  PyObject* m = PyModule_Create(&def);
  Py_INCREF(&ExporterType);
  PyModule_AddObject(m, "Exporter", (PyObject*)&ExporterType);
  return m;
}
