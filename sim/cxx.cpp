/* operator new and delete on the simulated heap while os_cxx_on is set */
#include "os.h"
#include <new>
#include <cstdlib>
extern "C" { void *sim_malloc(size_t); void sim_free(void *); int os_cxx_on; }
static void *get(size_t n) { void *p = os_cxx_on ? sim_malloc(n ? n : 1) : malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
static void put(void *p) { if (!p) return; if (os_heap_owns(p)) sim_free(p); else if (!os_cxx_on) free(p); else free(p); }
void *operator new(size_t n) { return get(n); }
void *operator new[](size_t n) { return get(n); }
void operator delete(void *p) noexcept { put(p); }
void operator delete[](void *p) noexcept { put(p); }
void operator delete(void *p, size_t) noexcept { put(p); }
void operator delete[](void *p, size_t) noexcept { put(p); }
extern "C" int sim___cxa_atexit(void (*)(void *), void *, void *) { return 0; }      /* a run is not a process: nothing is destroyed at its end */
