// The text of the current error in a buffer of any size. strerror_r behaves as the GNU one: it may return
// a string of its own, or fill the buffer.
#include "vp.h"
#include <errno.h>
#include "rcutils/strerror.h"
static char text[16];
static size_t text_len;
static bool own;
static int asked;
char * VP_STUB(strerror_r)(int e, char * buf, size_t n)
{
  asked = e;
  if (own) {return text;}
  if (n > 0) {
    size_t k = text_len < n ? text_len : n - 1;
    memcpy(buf, text, k);
    buf[k] = '\0';
  }
  return buf;
}
char * VP_STUB(strerror)(int e) {asked = e; return text;}
void vp_main(void)
{
  size_t N = vp_param("N", 6), T = vp_param("T", 5);
  text_len = vp_string(text, T);
  own = vp_choose(2);
  int e = (int)vp_in32();
  size_t n = vp_choose((uint32_t)N + 1);
  char * buf = vp_heap_alloc(n);
  errno = e;
  rcutils_strerror(buf, n);
  if (n > 0) {
    VP_ASSERT(asked == e, "the text is that of errno");
    size_t k = text_len < n ? text_len : n - 1;
    VP_ASSERT(vp_same(buf, text, k), "the buffer holds the text, cut to its size");
    VP_ASSERT(buf[k] == '\0', "and is null terminated");
    VP_COVER(own && k < text_len, "own string cut"); VP_COVER(own && k + 1 < n, "own string fits");
  }
}
