// Path functions: joining, native separators, the home directory, the working directory.
#include "vp_alloc.h"
#include <errno.h>
#include <stdlib.h>
#include <unistd.h>
#include "rcutils/filesystem.h"
static const char * home_;
#ifdef VP_NATIVE
char * VP_REAL(getenv)(const char *);
#endif
char * VP_STUB(getenv)(const char * n)
{
#ifdef VP_NATIVE
  if (n[0] == 'V' && n[1] == 'P') {return VP_REAL(getenv)(n);}
#endif
  return strcmp(n, "HOME") == 0 ? (char *)home_ : NULL;
}
static char * cwd_want_buf; static size_t cwd_want_size, cwd_calls; static bool cwd_fails;
char * VP_STUB(getcwd)(char * b, size_t n)
{
  cwd_calls++;
  if (b == cwd_want_buf) {VP_ASSERT(n <= cwd_want_size, "the working directory goes to the caller's buffer, within its size");}
  if (cwd_fails || n < 3) {errno = ERANGE; return NULL;}
  b[0] = '/'; b[1] = 'w'; b[2] = '\0';
  return b;
}
static void taken(char * r, const char * a, size_t na, const char * sep, const char * b, size_t nb)
{
  if (!r) {
    VP_ASSERT(vp_failures > 0 && vp_live == 0, "fails only when memory is refused, leaking nothing");
    VP_COVER(1, "refused");
    return;
  }
  size_t ns = strlen(sep);
  VP_ASSERT(vp_live == 1, "one block is handed out");
  VP_ASSERT(vp_heap_size(r) >= na + ns + nb + 1, "the result fits its memory");
  VP_ASSERT(vp_same(r, a, na), "the first part is kept");
  VP_ASSERT(vp_same(r + na, sep, ns), "one separator joins the parts");
  VP_ASSERT(vp_same(r + na + ns, b, nb) && r[na + ns + nb] == '\0', "the second part is kept, and terminated");
  vp_free(r);
}
static char * text(size_t max, size_t * n)          // up to max symbolic characters, or a long text
{
  size_t big = vp_param("long", 0);
  if (!big || !vp_choose(2)) {return vp_heap_string(max, n);}
  static const size_t lens[] = {250, 254, 255, 256, 1022, 1023, 1024, 2040, 2045, 2046, 2047, 2048, 2049, 4094, 4095, 4096, 4097, 5000};
  size_t len = lens[vp_choose(18)];
  char * s = (char *)vp_heap_alloc(len + 1);
  memset(s, 'p', len);
  for (size_t i = 0; i < 3; ++i) {                   // some of it symbolic
    uint8_t c = vp_in8();
    VP_ASSUME(c != 0);
    s[i == 2 ? len - 1 : i * (len / 2)] = (char)c;
  }
  s[len] = '\0';
  *n = len;
  return s;
}
void vp_main(void)
{
  size_t L = vp_param("L", 3), na, nb;
  uint32_t what = vp_choose(4);
  rcutils_allocator_t al = vp_allocator();
  if (what == 0) {
    char * a = text(L, &na), * b = text(L, &nb);
    vp_alloc_arm(VP_ANY_FAIL, 0);
    vp_readonly(a, 1); vp_readonly(b, 1);
    taken(rcutils_join_path(a, b, al), a, na, "/", b, nb);
    VP_ASSERT(rcutils_join_path(NULL, b, al) == NULL && rcutils_join_path(a, NULL, al) == NULL && rcutils_join_path(NULL, NULL, al) == NULL,
      "a null part gives null");
  } else if (what == 1) {
    char * a = text(L, &na);
    vp_alloc_arm(VP_ANY_FAIL, 0);
    vp_readonly(a, 1);
    taken(rcutils_to_native_path(a, al), a, na, "", "", 0);
    VP_ASSERT(rcutils_to_native_path(NULL, al) == NULL, "a null path gives null");
  } else if (what == 2) {
    char * a = text(L, &na), * h = NULL;
    nb = 0;
    if (vp_choose(2)) {h = text(L, &nb);}
    home_ = h;
    vp_alloc_arm(VP_ANY_FAIL, 0);
    char * r = rcutils_expand_user(a, al);
    if (a[0] != '~') {
      taken(r, a, na, "", "", 0);
    } else if (h == NULL || nb == 0) {
      VP_ASSERT(r == NULL && vp_live == 0, "without a home directory there is no expansion");
      VP_COVER(1, "no home");
    } else {
      VP_COVER(na > 2, "expanded");
      taken(r, h, nb, "", a + 1, na - 1);
    }
    VP_ASSERT(rcutils_expand_user(NULL, al) == NULL, "a null path gives null");
  } else {
    size_t n = vp_choose(6);
    char * b = (char *)vp_heap_alloc(n ? n : 1);
    cwd_want_buf = b; cwd_want_size = n;
    cwd_fails = vp_choose(2);
    VP_ASSERT(!rcutils_get_cwd(NULL, n) && cwd_calls == 0, "a null buffer is refused");
    bool ok = rcutils_get_cwd(b, n);
    VP_ASSERT(n != 0 || cwd_calls == 0, "an empty buffer is refused");
    VP_ASSERT(ok == (!cwd_fails && n >= 3), "the working directory is given exactly when the system gives it");
    VP_ASSERT(!ok || strcmp(b, "/w") == 0, "and as the system gives it");
    VP_COVER(ok, "cwd");
  }
  VP_ASSERT(vp_live == 0, "nothing leaks");
}
