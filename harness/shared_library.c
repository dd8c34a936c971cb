// Loading libraries and looking up symbols, over every behaviour of the dynamic linker.
#include "vp_alloc.h"
#include "vp_err.h"
#include <dlfcn.h>
#include <link.h>
#include <stdarg.h>
#include "rcutils/shared_library.h"
#include "vp_capture.h"
static int the_lib;                          // its address is the handle
static struct link_map map_;
static size_t refs, opens, closes;
static const char * pending;                 // what dlerror reports next
static bool open_fails, info_fails, close_fails;
static uint32_t kind;                        // of the symbol: found, missing, found with value null
static uint64_t value;
static char * want_path; static const char * want_sym;
#ifdef VP_NATIVE
void * VP_REAL(dlopen)(const char *, int); int VP_REAL(dlclose)(void *); void * VP_REAL(dlsym)(void *, const char *); char * VP_REAL(dlerror)(void);
static bool active;
#endif
void * VP_STUB(dlopen)(const char * p, int flags)
{
#ifdef VP_NATIVE
  if (!active) {return VP_REAL(dlopen)(p, flags);}
#endif
  VP_ASSERT(p != NULL && strcmp(p, want_path) == 0, "the library opened is the one asked for");
  VP_ASSERT((flags & (RTLD_LAZY | RTLD_NOW)) != 0, "with a valid binding mode");
  VP_ASSERT(!(flags & RTLD_NOLOAD), "and loaded");
  if (open_fails) {pending = "cannot open"; return NULL;}
  refs++; opens++;
  return &the_lib;
}
int VP_STUB(dlclose)(void * h)
{
#ifdef VP_NATIVE
  if (!active) {return VP_REAL(dlclose)(h);}
#endif
  VP_ASSERT(h == &the_lib && refs > 0, "only an open library is closed");
  refs--; closes++;
  if (close_fails) {pending = "cannot close"; return -1;}
  return 0;
}
char * VP_STUB(dlerror)(void)
{
#ifdef VP_NATIVE
  if (!active) {return VP_REAL(dlerror)();}
#endif
  const char * r = pending;
  pending = NULL;
  return (char *)r;
}
void * VP_STUB(dlsym)(void * h, const char * name)
{
#ifdef VP_NATIVE
  if (!active || h != &the_lib) {return VP_REAL(dlsym)(h, name);}
#endif
  VP_ASSERT(h == &the_lib && refs > 0, "symbols are looked up in an open library");
  VP_ASSERT(name != NULL && strcmp(name, want_sym) == 0, "the symbol looked up is the one asked for");
  if (kind == 1) {pending = "undefined symbol"; return NULL;}
  return (void *)(uintptr_t)(kind == 2 ? 0 : value);
}
#ifdef VP_NATIVE
int VP_STUB(dlinfo)(void * h, int request, void * arg)
#else
int dlinfo(void * h, int request, void * arg)
#endif
{
  VP_ASSERT(h == &the_lib && refs > 0, "an open library is asked about");
  if (info_fails) {pending = "no info"; return -1;}
  if (request == RTLD_DI_LINKMAP) {*(struct link_map **)arg = &map_;}
  return 0;
}
static bool zeroed(rcutils_shared_library_t * l) {return l->lib_pointer == NULL && l->library_path == NULL;}
static void name_of_library(void)
{
  size_t n, L = vp_param("L", 4);
  char * name = vp_heap_text(L, &n);
  bool debug = vp_choose(2);
  size_t need = n + (debug ? 8 : 7), room = vp_param("long", 0) ? need - 1 + vp_choose(2) : vp_choose((uint32_t)(L + 10));
  char * b = (char *)vp_heap_alloc(room ? room : 1);
  vp_readonly(name, 1);
  rcutils_ret_t r = rcutils_get_platform_library_name(name, b, (unsigned)room, debug);
  VP_ASSERT(r == (room >= need ? RCUTILS_RET_OK : RCUTILS_RET_ERROR), "the name is given exactly when it fits");
  if (r == RCUTILS_RET_OK) {
    VP_ASSERT(vp_same(b, "lib", 3) && vp_same(b + 3, name, n) && vp_same(b + 3 + n, debug ? "d.so" : ".so", debug ? 5 : 4), "prefix, name and suffix");
    VP_COVER(room == need, "exact fit");
  } else {
    VP_ASSERT(vp_error_set, "with an error message");
    VP_COVER(room + 1 == need, "one short");
  }
  VP_ASSERT(rcutils_get_platform_library_name(NULL, b, (unsigned)room, debug) == RCUTILS_RET_INVALID_ARGUMENT &&
    rcutils_get_platform_library_name(name, NULL, 100, debug) == RCUTILS_RET_INVALID_ARGUMENT, "null is refused");
}
static void body(void)
{
  if (vp_choose(3) == 0) {name_of_library(); return;}
  size_t n, K = vp_param("K", 3);
  map_.l_name = vp_heap_text(2, &n);
  char path[] = "libx.so", symbol[] = "f";
  want_path = path; want_sym = symbol;
  rcutils_allocator_t al = vp_allocator();
  rcutils_shared_library_t lib = rcutils_get_zero_initialized_shared_library();
  VP_ASSERT(zeroed(&lib) && !rcutils_is_shared_library_loaded(&lib), "a new library is not loaded");
  bool loaded = false;
  vp_alloc_arm(VP_ANY_FAIL, 0);
  for (size_t k = 0; k < K; ++k) {
    if (vp_choose(2)) {pending = "an earlier error of someone else";}
    vp_error_set = false;
    switch (vp_choose(4)) {
      case 0: {
          open_fails = vp_choose(2); info_fails = !open_fails && vp_choose(2); close_fails = vp_choose(2);
          size_t f = vp_failures, o = opens;
          rcutils_ret_t r = rcutils_load_shared_library(&lib, path, al);
          if (loaded) {
            VP_ASSERT(r == RCUTILS_RET_INVALID_ARGUMENT && opens == o, "a loaded library is not loaded over");
            VP_COVER(1, "load twice");
          } else if (open_fails) {
            VP_ASSERT(r == RCUTILS_RET_ERROR, "a library that cannot be opened is an error");
          } else if (vp_failures > f) {
            VP_ASSERT(r == RCUTILS_RET_BAD_ALLOC, "refused memory is reported"); VP_COVER(1, "refused");
          } else if (r != RCUTILS_RET_OK) {
            VP_ASSERT(info_fails && r == RCUTILS_RET_ERROR, "an unknown library is an error");
          } else {
            loaded = true;
            VP_ASSERT(vp_same(lib.library_path, map_.l_name, n + 1) && lib.library_path != map_.l_name, "the path is a copy of what the linker says");
          }
          VP_ASSERT(r == RCUTILS_RET_OK || vp_error_set, "a failure sets an error message");
          VP_ASSERT(refs == loaded, "the library is open exactly when loaded");
          VP_ASSERT(vp_live == loaded, "nothing leaks");
          break;
        }
      case 1: {
          kind = vp_choose(3); value = vp_in64();
          VP_ASSUME(value != 0);
          void * r = rcutils_get_symbol(&lib, symbol);
          if (loaded && kind == 0) {
            VP_ASSERT((uint64_t)(uintptr_t)r == value, "the symbol is found"); VP_COVER(1, "found");
          } else {
            VP_ASSERT(r == NULL && vp_error_set, "no symbol, and an error message");
          }
          VP_ASSERT(rcutils_get_symbol(&lib, NULL) == NULL && rcutils_get_symbol(NULL, symbol) == NULL, "null is refused");
          break;
        }
      case 2: {
          kind = vp_choose(3); value = vp_in64();
          VP_ASSUME(value != 0);
          VP_ASSERT(rcutils_has_symbol(&lib, symbol) == (loaded && kind == 0), "a symbol is there exactly when it is");
          VP_ASSERT(!rcutils_has_symbol(&lib, NULL) && !rcutils_has_symbol(NULL, symbol), "null is refused");
          break;
        }
      default: {
          close_fails = vp_choose(2);
          rcutils_ret_t r = rcutils_unload_shared_library(&lib);
          VP_ASSERT(r == (!loaded ? RCUTILS_RET_INVALID_ARGUMENT : close_fails ? RCUTILS_RET_ERROR : RCUTILS_RET_OK), "unloading reports what happened");
          VP_ASSERT(r == RCUTILS_RET_OK || vp_error_set, "a failure sets an error message");
          VP_COVER(loaded, "unloaded");
          loaded = false;
          VP_ASSERT(zeroed(&lib) && refs == 0 && vp_live == 0, "after which nothing is left");
          break;
        }
    }
    VP_ASSERT(rcutils_is_shared_library_loaded(&lib) == loaded, "loaded exactly between load and unload");
  }
  rcutils_shared_library_t other = rcutils_get_zero_initialized_shared_library();
  rcutils_allocator_t bad = al;
  bad.deallocate = NULL;
  size_t o = opens;
  VP_ASSERT(rcutils_load_shared_library(NULL, path, al) == RCUTILS_RET_INVALID_ARGUMENT && rcutils_load_shared_library(&other, NULL, al) == RCUTILS_RET_INVALID_ARGUMENT &&
    rcutils_load_shared_library(&other, path, bad) == RCUTILS_RET_INVALID_ARGUMENT && opens == o && rcutils_unload_shared_library(NULL) == RCUTILS_RET_INVALID_ARGUMENT, "invalid arguments are refused");
}
void vp_main(void)
{
#ifdef VP_NATIVE
  active = true;
#endif
  body();
#ifdef VP_NATIVE
  active = false;
#endif
}
