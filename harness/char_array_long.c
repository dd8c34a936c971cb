// Char arrays holding texts around the limits of narrower integers and of fixed buffers.
#include "vp_alloc.h"
#include "rcutils/types/char_array.h"
static const size_t sizes[] = {0, 1, 15, 16, 63, 64, 127, 128, 255, 256, 257, 511, 512, 1023, 1024, 1025, 2047, 2048, 4096, 5000};
#define SIZES 20
static rcutils_char_array_t c;
static rcutils_ret_t vs(const char * format, ...)
{
  va_list ap;
  va_start(ap, format);
  rcutils_ret_t r = rcutils_char_array_vsprintf(&c, format, ap);
  va_end(ap);
  return r;
}
static char model[12000];
static size_t len;              // of the text
static char * text(size_t n)
{
  char * s = vp_heap_alloc(n + 1);
  memset(s, 't', n);
  if (n) {uint8_t x = vp_in8(); VP_ASSUME(x != 0); s[n - 1] = (char)x;}
  if (n > 1) {uint8_t x = vp_in8(); VP_ASSUME(x != 0); s[0] = (char)x;}
  s[n] = '\0';
  return s;
}
void vp_main(void)
{
  rcutils_allocator_t a = vp_allocator();
  c = rcutils_get_zero_initialized_char_array();
  bool two = vp_param("two", 0);
  size_t cap = two ? 0 : sizes[vp_choose(2) * 9 + vp_choose(2) * 3];
  VP_ASSERT(rcutils_char_array_init(&c, cap, &a) == RCUTILS_RET_OK, "init");
  for (size_t k = 0; k < (two ? 2u : 1u); ++k) {
    size_t n = two ? sizes[8 + vp_choose(4) * 2 + (k ? 1 : 0)] : sizes[vp_choose(SIZES)];
    char * s = text(n);
    switch (vp_choose(5)) {
      case 0:
        VP_ASSERT(rcutils_char_array_strcpy(&c, s) == RCUTILS_RET_OK, "copied");
        memcpy(model, s, n); len = n;
        break;
      case 1:
        VP_ASSERT(rcutils_char_array_strcat(&c, s) == RCUTILS_RET_OK, "appended");
        memcpy(model + len, s, n); len += n;
        break;
      case 2: {
          size_t m = vp_choose(2) ? n / 2 : n + 1;
          VP_ASSERT(rcutils_char_array_strncat(&c, s, m) == RCUTILS_RET_OK, "appended in part");
          if (m > n) {m = n;}
          memcpy(model + len, s, m); len += m;
          break;
        }
      case 3:
        VP_ASSERT(vs("[%s]", s) == RCUTILS_RET_OK, "formatted");
        model[0] = '['; memcpy(model + 1, s, n); model[n + 1] = ']'; len = n + 2;
        break;
      default:
        VP_ASSERT(rcutils_char_array_memcpy(&c, s, n + 1) == RCUTILS_RET_OK, "copied as bytes");
        memcpy(model, s, n); len = n;
        break;
    }
    model[len] = '\0';
    VP_ASSERT(c.buffer_length == len + 1 && c.buffer_capacity >= len + 1, "the length is that of the text and its end");
    VP_ASSERT(vp_same(c.buffer, model, len + 1), "the text is exactly the one built");
    c.buffer[c.buffer_capacity - 1] = c.buffer[c.buffer_capacity - 1];
    vp_heap_free(s);
  }
  VP_ASSERT(rcutils_char_array_fini(&c) == RCUTILS_RET_OK && vp_live == 0, "fini releases everything");
}
