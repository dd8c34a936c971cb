// More tokens than small counts hold: N one-character pieces, with any character anywhere.
#include "vp_alloc.h"
#include "rcutils/split.h"
void vp_main(void)
{
  size_t N = vp_param("N", 300), n = 2 * N - 1;
  char * s = vp_heap_alloc(n + 1);
  for (size_t i = 0; i < n; ++i) {s[i] = i % 2 ? ',' : (char)('a' + i % 26);}
  s[n] = '\0';
  static const size_t places[] = {0, 1, 2, 254, 255, 256, 257, 510, 511, 512, 513, 514, 596, 597, 598};
  size_t p = places[vp_choose(15)];
  VP_ASSUME(p < n);
  s[p] = (char)vp_in8();
  VP_ASSUME(s[p] != '\0');
  bool last = vp_choose(2);
  if (last) {VP_ASSUME(s[0] != ',' && s[n - 1] != ',');}     // see split_last.c for those
  rcutils_string_array_t t = rcutils_get_zero_initialized_string_array();
  VP_ASSERT((last ? rcutils_split_last(s, ',', vp_allocator(), &t) : rcutils_split(s, ',', vp_allocator(), &t)) == RCUTILS_RET_OK, "the text is split");
  if (last) {
    size_t b = 0, e = n, cut = 0;
    while (s[b] == ',') {++b;}
    while (s[e - 1] == ',') {--e;}
    for (size_t i = b; i < e; ++i) {if (s[i] == ',') {cut = i;}}
    VP_ASSERT(t.size == 2 && strlen(t.data[1]) == e - cut - 1 && vp_same(t.data[1], s + cut + 1, e - cut - 1), "the last piece");
    size_t before = s[cut - 1] == ',' ? cut - 1 : cut;          // a doubled delimiter counts as one
    VP_ASSERT(vp_same(t.data[0], s + b, before - b) && t.data[0][before - b] == '\0', "what is before it");
  } else {
    size_t k = 0;
    for (size_t i = 0; i < n; ) {
      if (s[i] == ',') {++i; continue;}
      VP_ASSERT(k < t.size, "every piece is there");
      size_t j = 0;
      for (; i < n && s[i] != ','; ++i, ++j) {VP_ASSERT(t.data[k][j] == s[i], "each piece is the text between delimiters");}
      VP_ASSERT(t.data[k][j] == '\0', "and ends there");
      ++k;
    }
    VP_ASSERT(k == t.size, "there are no other pieces");
    VP_COVER(k == N - 1, "two pieces became one"); VP_COVER(k == N, "all");
  }
  VP_ASSERT(rcutils_string_array_fini(&t) == RCUTILS_RET_OK && vp_live == 0, "the array owns everything");
}
