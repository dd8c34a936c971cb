// Directory sizes of chains of directories and of directories with many entries.
#include "vp_alloc.h"
#include "vp_err.h"
#include <dirent.h>
#include <errno.h>
#include <sys/stat.h>
#include "rcutils/filesystem.h"
#include "vp_capture.h"
// /r holds "wide" files f<i>, and a chain of directories below it, each with a name of "len" characters and one file "f0"
static size_t chain, len, wide, opens, closes, open_now, open_most;
static uint64_t size_of_top, size_of_deep, deep_at;
struct vp_dir {struct dirent e; size_t level, pos;};
// the level of the directory a path names (0: the root), or -1; *file: the number of the file in it, or -1
static int resolve(const char * p, int * file)
{
  *file = -1;
  if (p[0] != '/' || p[1] != 'r') {errno = ENOENT; return -1;}
  p += 2;
  int level = 0;
  for (;;) {
    while (*p == '/') {++p;}
    if (*p == '\0') {return level;}
    if (*file >= 0) {errno = ENOTDIR; return -1;}
    size_t n = 0;
    while (p[n] && p[n] != '/') {++n;}
    if (p[0] == 'f') {
      size_t v = 0;
      for (size_t i = 1; i < n; ++i) {v = v * 10 + (size_t)(p[i] - '0');}
      if (n < 2 || v >= (level == 0 ? wide : 1)) {errno = ENOENT; return -1;}
      *file = (int)v;
    } else if (n == 1 && p[0] == '.') {
    } else if (n == 2 && p[0] == '.' && p[1] == '.') {
      level -= level > 0;
    } else {
      bool ok = n == len && (size_t)level < chain;
      for (size_t i = 0; i < n; ++i) {ok = ok && p[i] == 'd';}
      if (!ok) {errno = ENOENT; return -1;}
      level++;
    }
    p += n;
  }
}
static uint64_t size_(int level, int file) {return level == 0 ? (file == 0 ? size_of_top : 3) : (size_t)level == deep_at ? size_of_deep : 5;}
static int answer(const char * p, struct stat * b)
{
  int f, l = resolve(p, &f);
  if (l < 0) {return -1;}
  memset(b, 0, sizeof *b);
  b->st_mode = (f >= 0 ? S_IFREG : S_IFDIR) | 0644u;
  b->st_size = (off_t)(f >= 0 ? size_(l, f) : 4096);
  return 0;
}
int VP_STUB(stat)(const char * p, struct stat * b) {return answer(p, b);}
int VP_STUB(lstat)(const char * p, struct stat * b) {return answer(p, b);}
DIR * VP_STUB(opendir)(const char * p)
{
  int f, l = resolve(p, &f);
  if (l >= 0 && f >= 0) {errno = ENOTDIR; l = -1;}
  if (l < 0) {return NULL;}
  struct vp_dir * d = (struct vp_dir *)vp_heap_alloc(sizeof *d);
  d->level = (size_t)l; d->pos = 0;
  opens++; open_now++;
  if (open_now > open_most) {open_most = open_now;}
  return (DIR *)d;
}
struct dirent * VP_STUB(readdir)(DIR * dir)
{
  struct vp_dir * d = (struct vp_dir *)dir;
  memset(d->e.d_name, 0x7f, 8);
  size_t files = d->level == 0 ? wide : 1, i = d->pos++;
  char * n = d->e.d_name;
  if (i == 0) {strcpy(n, ".");} else if (i == 1) {strcpy(n, "..");} else if (i - 2 < files) {
    size_t v = i - 2, k = 0;
    char digits[24];
    do {digits[k++] = (char)('0' + v % 10); v /= 10;} while (v);
    *n++ = 'f';
    while (k) {*n++ = digits[--k];}
    *n = '\0';
  } else if (i - 2 == files && d->level < chain) {
    memset(n, 'd', len); n[len] = '\0';
  } else {d->pos = i; return NULL;}
  return &d->e;
}
int VP_STUB(closedir)(DIR * d) {VP_ASSERT(d != NULL, "a stream is closed"); vp_heap_free(d); closes++; open_now--; return 0;}
void vp_main(void)
{
  static const size_t chains[] = {300, 256, 16}, lens[] = {1, 1, 255}, wides[] = {1, 300, 257, 0};
  uint32_t which = vp_choose(3);
  bool broad = vp_choose(2);
  chain = broad ? 1 : chains[which]; len = broad ? 1 : lens[which]; wide = broad ? wides[vp_choose(4)] : 1;
  size_of_top = vp_range(0, (1ull << 48) - 1); size_of_deep = vp_range(0, (1ull << 48) - 1);
  deep_at = chain;
  rcutils_allocator_t al = vp_allocator();
  size_t depth = broad ? 0 : vp_choose(2) ? chain + 1 - vp_choose(3) : 0;
  uint64_t size = 0, want = wide == 0 ? 0 : size_of_top + 3 * (wide - 1);
  for (size_t l = 1; l <= chain; ++l) {if (depth == 0 || l + 1 <= depth) {want += size_((int)l, 0);}}
  rcutils_ret_t r = rcutils_calculate_directory_size_with_recursion("/r", depth, &size, al);
  VP_ASSERT(r == RCUTILS_RET_OK, "any tree can be measured");
  VP_ASSERT(size == want, "the size is the sum of the files down to the depth");
  VP_ASSERT(vp_live == 0 && opens == closes, "nothing leaks and every stream is closed");
}
