// Predicates on paths, mkdir and file size, over any answer of the system.
#include "vp_alloc.h"
#include <errno.h>
#include <sys/stat.h>
#include "rcutils/filesystem.h"
#include "vp_capture.h"
static const char * path_;
static uint32_t mode_; static uint64_t size_; static bool missing_, always_dir_check;
static size_t mkdirs; static int mkdir_err; static uint32_t mkdir_mode;
static int answer(const char * p, struct stat * b)
{
  if (p == NULL) {errno = EFAULT; return -1;}
  VP_ASSERT(strcmp(p, path_) == 0, "the path asked about is the one given");
  if (missing_) {errno = ENOENT; return -1;}
  memset(b, 0, sizeof *b);
  b->st_mode = mode_;
  b->st_size = (off_t)size_;
  return 0;
}
int VP_STUB(stat)(const char * p, struct stat * b) {return answer(p, b);}
int VP_STUB(lstat)(const char * p, struct stat * b) {return answer(p, b);}
int VP_STUB(mkdir)(const char * p, mode_t m)
{
  VP_ASSERT(p && strcmp(p, path_) == 0, "the directory made is the one given");
  mkdirs++; mkdir_mode = m;
  if (mkdir_err) {errno = mkdir_err; return -1;}
  return 0;
}
void vp_main(void)
{
  size_t n;
  char * p = vp_heap_text(2, &n);
  path_ = p;
  mode_ = vp_in32(); size_ = vp_range(0, (uint64_t)INT64_MAX); missing_ = vp_choose(2);
  bool there = !missing_;
  if (vp_choose(2)) {
    uint32_t w = vp_choose(6);
    bool dir = there & ((mode_ & 0170000u) == 0040000u), reg = there & ((mode_ & 0170000u) == 0100000u);
    bool rd = there & ((mode_ & 0400u) != 0), wr = there & ((mode_ & 0200u) != 0);
    switch (w) {
      case 0: VP_ASSERT(rcutils_is_directory(p) == dir, "a directory is what the system says is one"); VP_COVER(dir, "dir"); break;
      case 1: VP_ASSERT(rcutils_is_file(p) == reg, "a file is a regular file"); VP_COVER(reg, "file"); break;
      case 2: VP_ASSERT(rcutils_exists(p) == there, "a path exists when the system knows it"); break;
      case 3: VP_ASSERT(rcutils_is_readable(p) == rd, "readable by its owner"); break;
      case 4: VP_ASSERT(rcutils_is_writable(p) == wr, "writable by its owner"); break;
      default: VP_ASSERT(rcutils_is_readable_and_writable(p) == (rd & wr), "both"); VP_COVER(rd & !wr, "read only"); VP_COVER(wr & !rd, "write only"); break;
    }
    VP_ASSERT(!rcutils_is_directory(NULL) && !rcutils_is_file(NULL) && !rcutils_exists(NULL) && !rcutils_is_readable(NULL) &&
      !rcutils_is_writable(NULL) && !rcutils_is_readable_and_writable(NULL), "null is nothing");
    return;
  }
  if (vp_choose(2)) {
    bool reg = there & ((mode_ & 0170000u) == 0100000u);
    size_t r = rcutils_get_file_size(p);
    VP_ASSERT(r == (reg ? size_ : 0), "the size of a file is what the system says, and nothing else has one");
    VP_COVER(reg && size_ > 0xFFFFFFFFull, "large file");
    VP_COVER(!there, "no file");
    VP_ASSERT(rcutils_get_file_size(NULL) == 0 || 0, "null has no size");
    return;
  }
  static const int errs[] = {0, EEXIST, ENOENT, EACCES, ENOTDIR, ENAMETOOLONG, EROFS, ENOSPC};
  mkdir_err = errs[vp_choose(8)];
  errno = vp_choose(2) ? EEXIST : 0;                 // left over from earlier
  bool dir = there & ((mode_ & 0170000u) == 0040000u);
  bool ok = rcutils_mkdir(p);
  VP_ASSERT(!rcutils_mkdir(NULL), "a null path is refused");
  if (p[0] != '/') {
    VP_ASSERT(!ok && mkdirs == 0, "only absolute paths are made");
    VP_COVER(n == 0, "empty"); VP_COVER(n > 0, "relative");
    return;
  }
  VP_ASSERT(mkdirs == 1, "it is made once");
  VP_ASSERT(ok == (mkdir_err == 0 || (mkdir_err == EEXIST && dir)), "it succeeds when the directory is made, or already is one");
  VP_ASSERT((mkdir_mode & 0700u) == 0700u && !(mkdir_mode & 02u), "usable by its owner, not writable for all");
  VP_COVER(ok && mkdir_err, "exists");
}
