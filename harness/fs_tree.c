// Directory iteration and directory sizes, over every small file system: files, directories, symbolic links,
// pipes and entries that vanish, arbitrary sizes, entry orders, open failures and refused allocations.
#include "vp_alloc.h"
#include "vp_err.h"
#include <dirent.h>
#include <errno.h>
#include <sys/stat.h>
#include "rcutils/filesystem.h"
#include "vp_capture.h"
#define MAXN 5
enum {FILE_, DIR_, LINK, PIPE, GONE, KINDS};
static const char * const names[MAXN] = {"r", "a", "..b", ".c", "d"};
static struct {uint32_t kind, parent, target; uint64_t size;} node[MAXN];
static size_t N;                         // nodes; 0 is the root directory /r
static size_t opens, closes, open_fails_at, read_fails_at, links_followed;
static bool dots, reversed_, failed;

struct vp_dir {struct dirent e; uint32_t node, pos;};
static int find_child(uint32_t d, const char * s, size_t n)
{
  for (uint32_t i = 1; i < N; ++i) {
    if (node[i].parent == d && node[i].kind != GONE && strlen(names[i]) == n && memcmp(names[i], s, n) == 0) {return (int)i;}
  }
  return -1;
}
static int resolve(const char * p, bool follow)          // the node a path names, or -1
{
  int cur = -2;                                          // above the root: holds only r
  while (*p == '/') {++p;}
  size_t hops = 0;
  while (*p) {
    size_t n = 0;
    while (p[n] && p[n] != '/') {++n;}
    const char * q = p + n;
    while (*q == '/') {++q;}
    bool last = *q == '\0';
    if (cur == -2) {
      if (n != 1 || *p != 'r') {errno = ENOENT; return -1;}
      cur = 0;
    } else if (node[cur].kind != DIR_) {
      errno = ENOTDIR; return -1;
    } else if (n == 1 && p[0] == '.') {
    } else if (n == 2 && p[0] == '.' && p[1] == '.') {
      cur = cur == 0 ? 0 : (int)node[cur].parent;
    } else {
      cur = find_child((uint32_t)cur, p, n);
      if (cur < 0) {errno = ENOENT; return -1;}
    }
    while (node[cur].kind == LINK && (follow || !last || p[n] == '/')) {
      if (++hops > 3) {errno = ELOOP; return -1;}
      links_followed++;
      if (node[cur].target >= N || node[node[cur].target].kind == GONE) {errno = ENOENT; return -1;}
      cur = (int)node[cur].target;
    }
    p = q;
  }
  if (cur < 0) {errno = ENOENT; return -1;}
  return cur;
}
static int answer(const char * p, struct stat * b, bool follow)
{
  if (!p) {errno = EFAULT; return -1;}
  int i = resolve(p, follow);
  if (i < 0) {return -1;}
  memset(b, 0, sizeof *b);
  static const uint32_t modes[] = {S_IFREG, S_IFDIR, S_IFLNK, S_IFIFO};
  b->st_mode = modes[node[i].kind] | 0644u;
  b->st_size = (off_t)(node[i].size);
  return 0;
}
int VP_STUB(stat)(const char * p, struct stat * b) {return answer(p, b, true);}
int VP_STUB(lstat)(const char * p, struct stat * b) {return answer(p, b, false);}
DIR * VP_STUB(opendir)(const char * p)
{
  int i = resolve(p, true);
  if (i >= 0 && node[i].kind != DIR_) {errno = ENOTDIR; i = -1;}
  if (i >= 0 && open_fails_at && --open_fails_at == 0) {errno = EACCES; i = -1;}
  if (i < 0) {failed = true; return NULL;}
  struct vp_dir * d = (struct vp_dir *)vp_heap_alloc(sizeof *d);
  d->node = (uint32_t)i; d->pos = 0;
  opens++;
  return (DIR *)d;
}
struct dirent * VP_STUB(readdir)(DIR * dir)
{
  struct vp_dir * d = (struct vp_dir *)dir;
  if (d->pos == 0 && read_fails_at && --read_fails_at == 0) {errno = EIO; failed = true; return NULL;}
  memset(&d->e, 0x7f, sizeof d->e);                     // the previous entry is overwritten
  for (;;) {
    uint32_t k = d->pos++;
    if (k > N) {d->pos = N + 1; return NULL;}
    uint32_t i = reversed_ ? (uint32_t)N - k : k;       // 0: "."; N: ".."; otherwise a node
    if (i == 0 || i == N) {
      if (!dots) {continue;}
      strcpy(d->e.d_name, i == 0 ? "." : "..");
      return &d->e;
    }
    if (node[i].parent != d->node) {continue;}
    strcpy(d->e.d_name, names[i]);
    return &d->e;
  }
}
int VP_STUB(closedir)(DIR * d) {VP_ASSERT(d != NULL, "a stream is closed"); vp_heap_free(d); closes++; return 0;}

void vp_main(void)
{
  size_t most = vp_param("N", 3), D = vp_param("D", 3);
  bool fail = vp_param("fail", 0), iterate = vp_param("iter", 0), plain = vp_param("plain", 0);
  node[0].kind = DIR_;
  N = plain ? 1 + most : 1 + vp_choose((uint32_t)most + 1);
  for (uint32_t i = 1; i < N; ++i) {
    node[i].kind = vp_choose(plain ? LINK : KINDS);        // plain: files and directories only
    uint32_t parents[MAXN], n = 0;
    for (uint32_t k = 0; k < i; ++k) {if (node[k].kind == DIR_) {parents[n++] = k;}}
    node[i].parent = parents[vp_choose(n)];
    if (node[i].kind == LINK) {node[i].target = vp_choose((uint32_t)most + 2);}       // the last one dangles
    node[i].size = vp_range(0, (1ull << 48) - 1);
  }
  dots = plain ? true : vp_choose(2); reversed_ = vp_choose(2);
  rcutils_allocator_t al = vp_allocator();
  bool slash = fail || plain ? false : vp_choose(2);
  const char * root = slash ? "/r/" : "/r";
  if (fail) {
    vp_alloc_arm(VP_NEVER_FAIL, 0);
    switch (vp_choose(3)) {
      case 0: open_fails_at = 1 + vp_choose(3); break;
      case 1: read_fails_at = 1 + vp_choose(3); break;
      default: vp_alloc_arm(VP_FAIL_ONE, vp_choose(14)); break;
    }
  } else {vp_alloc_arm(VP_NEVER_FAIL, 0);}
  if (iterate) {
    size_t seen[MAXN] = {0}, dot = 0, dotdot = 0, total = 0;
    vp_error_set = false;
    rcutils_dir_iter_t * it = rcutils_dir_iter_start(root, al);
    if (!it) {
      VP_ASSERT((failed || vp_failures > 0) && vp_live == 0 && opens == closes, "fails only for a reason, leaking nothing");
      VP_COVER(failed, "stream failed"); VP_COVER(vp_failures > 0, "memory refused");
      return;
    }
    VP_ASSERT(!failed && vp_failures == 0, "a failure is not ignored");
    if (it->entry_name != NULL) {
      do {
        VP_ASSERT(it->entry_name != NULL, "an entry has a name");
        VP_ASSERT(++total <= N + 2, "the stream ends");
        if (strcmp(it->entry_name, ".") == 0) {dot++;} else if (strcmp(it->entry_name, "..") == 0) {dotdot++;} else {
          bool known = false;
          for (uint32_t i = 1; i < N; ++i) {if (node[i].parent == 0 && strcmp(it->entry_name, names[i]) == 0) {seen[i]++; known = true;}}
          VP_ASSERT(known, "only entries of the directory are listed");
        }
      } while (rcutils_dir_iter_next(it));
    }
    for (uint32_t i = 1; i < N; ++i) {VP_ASSERT(seen[i] == (node[i].parent == 0), "every entry is listed once");}
    VP_ASSERT(dot == dots && dotdot == dots, "as are the dot entries");
    VP_ASSERT(!rcutils_dir_iter_next(it), "past the end there is nothing");
    VP_ASSERT(!rcutils_dir_iter_next(NULL) && rcutils_dir_iter_start(NULL, al) == NULL, "null is refused");
    rcutils_dir_iter_end(it);
    rcutils_dir_iter_end(NULL);
    VP_ASSERT(vp_live == 0 && opens == 1 && closes == 1, "the stream is closed and nothing leaks");
    rcutils_allocator_t bad = al;
    bad.allocate = NULL;
    VP_ASSERT(rcutils_dir_iter_start(root, bad) == NULL && opens == 1, "an incomplete allocator is refused");
    rcutils_dir_iter_t invalid = {NULL, al, NULL};
    VP_ASSERT(!rcutils_dir_iter_next(&invalid), "an invalid iterator is refused");
    VP_COVER(total == 0, "nothing listed"); VP_COVER(total > 3, "several entries");
    return;
  }
  size_t depth = vp_choose((uint32_t)D + 1);
  bool flat = !plain && depth == 1 && vp_choose(2);
  uint64_t size = vp_in64(), want = 0;
  bool deep = false;
  for (uint32_t i = 1; i < N; ++i) {
    size_t d = 1;
    for (uint32_t k = node[i].parent; k != 0; k = node[k].parent) {++d;}
    if (node[i].kind == FILE_ && (depth == 0 || d <= depth)) {want += node[i].size;}
    deep = deep | (node[i].kind == FILE_ && d == 3);
  }
  rcutils_ret_t r = flat ? rcutils_calculate_directory_size(root, &size, al) : rcutils_calculate_directory_size_with_recursion(root, depth, &size, al);
  VP_ASSERT(vp_live == 0 && opens == closes, "nothing leaks and every stream is closed");
  if (failed || vp_failures > 0) {
    VP_ASSERT(r == RCUTILS_RET_ERROR || r == RCUTILS_RET_BAD_ALLOC, "a failure is reported");
    VP_COVER(failed && opens > 0, "failed below the root"); VP_COVER(vp_failures > 0 && opens > 1, "memory refused below the root");
    return;
  }
  VP_ASSERT(r == RCUTILS_RET_OK, "success otherwise");
  VP_ASSERT(size == want, "the size is the sum of the files down to the depth, links not followed");
  VP_COVER(deep && depth == 0, "three levels"); VP_COVER(deep && depth == 2, "cut off");
  if (!fail && !plain) {
    uint64_t other = 0;
    VP_ASSERT(rcutils_calculate_directory_size_with_recursion(NULL, 0, &other, al) == RCUTILS_RET_INVALID_ARGUMENT &&
      rcutils_calculate_directory_size_with_recursion(root, 0, NULL, al) == RCUTILS_RET_INVALID_ARGUMENT &&
      rcutils_calculate_directory_size(NULL, &other, al) == RCUTILS_RET_INVALID_ARGUMENT, "null is refused");
    rcutils_allocator_t bad = al;
    bad.zero_allocate = NULL;
    VP_ASSERT(rcutils_calculate_directory_size_with_recursion(root, 0, &other, bad) == RCUTILS_RET_INVALID_ARGUMENT, "an incomplete allocator is refused");
    VP_ASSERT(rcutils_calculate_directory_size("/q", &other, al) == RCUTILS_RET_ERROR, "a missing directory is an error");
    VP_ASSERT(vp_live == 0 && opens == closes, "nothing leaks");
  }
}
