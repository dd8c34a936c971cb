// Environment variables, over an environment that holds one variable and may refuse changes.
#include "vp_alloc.h"
#include "vp_err.h"
#include <errno.h>
#include <stdlib.h>
#include "rcutils/env.h"
static char name_[5100], value_[5100];
static bool is_set, may_fail, failed;
static size_t calls;
#ifdef VP_NATIVE
char * VP_REAL(getenv)(const char *);
#endif
static bool same(const char * a, const char * b)
{
  for (size_t i = 0;; ++i) {if (a[i] != b[i]) {return false;} if (!a[i]) {return true;}}
}
static bool bad(const char * n)
{
  if (n[0] == '\0') {return true;}
  for (size_t i = 0; n[i]; ++i) {if (n[i] == '=') {return true;}}
  return false;
}
char * VP_STUB(getenv)(const char * n)
{
#ifdef VP_NATIVE
  if (n[0] == 'V' && n[1] == 'P') {return VP_REAL(getenv)(n);}
#endif
  return is_set && same(n, name_) ? value_ : NULL;
}
static int change(const char * n)
{
  calls++;
  if (bad(n)) {errno = EINVAL; failed = true; return -1;}
  if (may_fail && vp_choose(2)) {errno = ENOMEM; failed = true; return -1;}
  return 0;
}
int VP_STUB(setenv)(const char * n, const char * v, int overwrite)
{
  if (change(n)) {return -1;}
  if (is_set && same(n, name_) && !overwrite) {return 0;}
  is_set = true;
  size_t i = 0;
  for (; n[i]; ++i) {name_[i] = n[i];}
  name_[i] = '\0';
  for (i = 0; v[i]; ++i) {value_[i] = v[i];}
  value_[i] = '\0';
  return 0;
}
int VP_STUB(unsetenv)(const char * n)
{
  if (change(n)) {return -1;}
  if (is_set && same(n, name_)) {is_set = false;}
  return 0;
}
void vp_main(void)
{
  size_t L = vp_param("L", 2);
  char v0[8];
  size_t vn;
  const char * got = NULL;
  char * n = vp_heap_text(L, &vn), * v = vp_heap_text(L, &vn);
  bool was = vp_choose(2), home = vp_choose(2);
  if (home) {
    bool other = vp_choose(2);
    is_set = was;
    memcpy(name_, other ? "HOMES" : "HOME", other ? 6 : 5);
    memcpy(value_, v, vn + 1);
    const char * h = rcutils_get_home_dir();
    if (was && !other && v[0] != '\0') {
      VP_ASSERT(h != NULL && same(h, v), "the home directory is the value of HOME");
      VP_COVER(1, "home");
    } else {VP_ASSERT(h == NULL, "there is none without HOME, or when it is empty");}
    return;
  }
  if (was) {
    VP_ASSUME(!bad(n));
    vp_string(v0, L);
    is_set = true; strcpy(name_, n); memcpy(value_, v0, 8);
    got = NULL;
    VP_ASSERT(rcutils_get_env(n, &got) == NULL && got && same(got, v0), "a variable that is set reads back");
  } else if (!bad(n)) {
    VP_ASSERT(rcutils_get_env(n, &got) == NULL && got && got[0] == '\0', "a variable that is not set reads as empty");
  }
  may_fail = true;
  bool unset = vp_choose(2);
  uint32_t how = vp_choose(3);      // set_env; set_env_overwrite(true); set_env_overwrite(false)
  bool ok = how == 0 ? rcutils_set_env(n, unset ? NULL : v) : rcutils_set_env_overwrite(n, unset ? NULL : v, how == 1);
  VP_ASSERT(ok == !failed, "the call succeeds exactly when the environment could be changed");
  VP_ASSERT(ok || vp_error_set, "a failure sets an error message");
  VP_ASSERT(!ok || !bad(n), "an invalid name is refused");
  VP_COVER(!ok && !bad(n), "refused"); VP_COVER(how == 2 && was, "kept");
  const char * e = rcutils_get_env(n, &got);
  VP_ASSERT(e == NULL && got, "reading succeeds");
  if (!ok || (how == 2 && was)) {
    VP_ASSERT(same(got, was ? v0 : ""), "a variable that was not to be overwritten keeps its value");
  } else if (unset) {
    VP_ASSERT(got[0] == '\0' && !is_set, "null unsets the variable");
  } else {
    VP_ASSERT(same(got, v), "the variable has the new value");
  }
  VP_ASSERT(!rcutils_set_env(NULL, v) && !rcutils_set_env_overwrite(NULL, v, true), "a null name is refused");
  VP_ASSERT(rcutils_get_env(NULL, &got) != NULL && rcutils_get_env(n, NULL) != NULL, "null arguments give an error string");
}
