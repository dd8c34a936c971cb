// Captures what the code under test writes to its output streams. Jobs using it wrap VP_CAPTURE functions
// (checks.py: CAPTURE).
#ifndef VP_CAPTURE_H_
#define VP_CAPTURE_H_
#include "vp.h"
#include <stdarg.h>
#include <stdio.h>
#ifndef VP_CAPTURE_MAX
#define VP_CAPTURE_MAX 8192
#endif
typedef struct {char text[VP_CAPTURE_MAX]; size_t n; size_t writes;} vp_stream_t;
static vp_stream_t vp_err_out, vp_std_out;
#ifndef VP_NATIVE
FILE * stderr = (FILE *)&vp_err_out; FILE * stdout = (FILE *)&vp_std_out;
#endif
static bool vp_write_fails;            // the stream takes nothing
static void vp_capture_clear(void) {vp_err_out.n = vp_std_out.n = vp_err_out.writes = vp_std_out.writes = 0;}
static size_t vp_capture(FILE * f, const char * p, size_t n)
{
  vp_stream_t * s = f == stderr ? &vp_err_out : f == stdout ? &vp_std_out : NULL;
  VP_ASSERT(s != NULL, "output goes to the standard streams only");
  s->writes++;
  if (vp_write_fails) {return 0;}
  VP_ASSERT(s->n + n <= VP_CAPTURE_MAX, "the harness can hold the output");
  memcpy(s->text + s->n, p, n);
  s->n += n;
  return n;
}
size_t VP_STUB(fwrite)(const void * p, size_t s, size_t n, FILE * f) {return s == 0 ? 0 : vp_capture(f, (const char *)p, s * n) / s;}
int VP_STUB(fputs)(const char * p, FILE * f) {return vp_capture(f, p, strlen(p)) == strlen(p) ? 1 : -1;}
int VP_STUB(puts)(const char * p) {vp_capture(stdout, p, strlen(p)); vp_capture(stdout, "\n", 1); return 1;}
int VP_STUB(fputc)(int c, FILE * f) {char x = (char)c; return vp_capture(f, &x, 1) == 1 ? c : -1;}
#undef putc
int VP_STUB(putc)(int c, FILE * f) {return VP_STUB(fputc)(c, f);}
int VP_STUB(putchar)(int c) {char x = (char)c; return vp_capture(stdout, &x, 1) == 1 ? c : -1;}
int VP_STUB(vfprintf)(FILE * f, const char * fmt, va_list ap)
{
  char b[2048];
  int n = vsnprintf(b, sizeof b, fmt, ap);
  if (n < 0) {return n;}
  VP_ASSERT((size_t)n < sizeof b || (fmt[0] == '%' && fmt[1] == 's'), "the harness can hold the output");
  return vp_capture(f, b, (size_t)n < sizeof b ? (size_t)n : sizeof b - 1) == (size_t)n ? n : -1;
}
int VP_STUB(fprintf)(FILE * f, const char * fmt, ...)
{
  va_list ap; va_start(ap, fmt);
  int r;
  if (fmt[0] == '%' && fmt[1] == 's' && (fmt[2] == '\0' || (fmt[2] == '\n' && fmt[3] == '\0'))) {   // texts of any length
    const char * t = va_arg(ap, const char *);
    r = (int)vp_capture(f, t, strlen(t));
    if (fmt[2]) {r += (int)vp_capture(f, "\n", 1);}
  } else {r = VP_STUB(vfprintf)(f, fmt, ap);}
  va_end(ap);
  return r;
}
int VP_STUB(printf)(const char * fmt, ...)
{
  va_list ap; va_start(ap, fmt);
  int r = VP_STUB(vfprintf)(stdout, fmt, ap);
  va_end(ap);
  return r;
}
int VP_STUB(fflush)(FILE * f) {(void)f; return 0;}
static bool vp_tty[3];                 // which streams are terminals
static size_t vp_setvbufs; static FILE * vp_setvbuf_stream; static int vp_setvbuf_mode; static size_t vp_setvbuf_size; static bool vp_setvbuf_fails;
int VP_STUB(fileno)(FILE * f) {return f == stdout ? 1 : f == stderr ? 2 : -1;}
int VP_STUB(isatty)(int fd) {return fd >= 0 && fd < 3 && vp_tty[fd];}
int VP_STUB(setvbuf)(FILE * f, char * b, int mode, size_t n)
{
  VP_ASSERT(b == NULL, "the system provides the buffer");
  vp_setvbufs++; vp_setvbuf_stream = f; vp_setvbuf_mode = mode; vp_setvbuf_size = n;
  return vp_setvbuf_fails ? -1 : 0;
}
// branch-free search for a text of concrete length
static bool vp_contains(const vp_stream_t * s, const char * t, size_t n)
{
  bool r = false;
  for (size_t i = 0; i + n <= s->n; ++i) {r = r | vp_same(s->text + i, t, n);}
  return r;
}
#endif
