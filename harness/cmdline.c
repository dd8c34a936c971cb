// Options on a command line of any words.
#include "vp.h"
#include "rcutils/cmdline_parser.h"
#define MAXA 4
static bool eq(const char * a, const char * b)
{
  for (size_t i = 0;; ++i) {if (a[i] != b[i]) {return false;} if (!a[i]) {return true;}}
}
static char * word(size_t L, size_t prefix)               // a fixed beginning, then any text
{
  size_t n = vp_choose((uint32_t)L + 1);
  char * s = vp_heap_alloc(prefix + n + 1);
  memset(s, '-', prefix);
  vp_string_len(s + prefix, n);
  return s;
}
void vp_main(void)
{
  if (vp_param("many", 0)) {
    // many arguments, the option at any of some places
    static const size_t places[] = {0, 1, 126, 127, 128, 254, 255, 256, 257, 299};
    size_t m = vp_param("many", 0), k = places[vp_choose(10)];
    char ** v = vp_heap_alloc(m * sizeof(char *)), * o = vp_heap_alloc(3), * other = vp_heap_alloc(3);
    vp_string_len(o, 2); vp_string_len(other, 2);
    bool same = eq(o, other), there = vp_choose(2);
    for (size_t i = 0; i < m; ++i) {v[i] = there && i == k ? o : other;}
    VP_ASSERT(rcutils_cli_option_exist(v, v + m, o) == (there || same), "an option exists when it is one of the arguments, wherever");
    char * r = rcutils_cli_get_option(v, v + m, o);
    VP_ASSERT(r == (same ? (k == 1 && there ? o : other) : there && k + 1 < m ? v[k + 1] : NULL), "its value is the argument after its first occurrence, if any");
    return;
  }
  size_t prefix = vp_param("prefix", 0), L = vp_param("L", 2), A = vp_param("A", 3), n = vp_choose((uint32_t)A + 1);
  char ** argv = vp_heap_alloc(n * sizeof(char *));     // exactly n entries
  for (size_t i = 0; i < n; ++i) {argv[i] = word(L, prefix);}
  char * opt = word(L, prefix);
  size_t at = n;
  for (size_t i = n; i-- > 0;) {if (eq(argv[i], opt)) {at = i;}}
  VP_ASSERT(rcutils_cli_option_exist(argv, argv + n, opt) == (at < n), "an option exists when it is one of the arguments");
  char * v = rcutils_cli_get_option(argv, argv + n, opt);
  VP_ASSERT(v == (at + 1 < n ? argv[at + 1] : NULL), "its value is the argument after its first occurrence, if any");
  VP_COVER(v != NULL, "value found"); VP_COVER(at + 1 == n && n > 0, "no value"); VP_COVER(n == 0, "no arguments");
}
