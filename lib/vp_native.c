// Native replay runtime: feeds the recorded inputs to the harness, which runs the real code compiled
// with AddressSanitizer and UndefinedBehaviorSanitizer.
// exit 0: ran to the end; 66: an assumption does not hold for these inputs; 77: a property assertion failed.
#include "vp.h"
#include <malloc.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
static uint64_t * vals; static size_t nvals, pos; static int fill = 0xA5;
static unsigned char * sched; static size_t nsched, spos;
void vp_main(void);
static pthread_mutex_t in_m = PTHREAD_MUTEX_INITIALIZER;
static uint64_t next(void)
{
  pthread_mutex_lock(&in_m);
  uint64_t v = pos < nvals ? vals[pos] : 0; pos++;
  pthread_mutex_unlock(&in_m);
  return v;
}
uint64_t vp_in64(void) {return next();}
uint32_t vp_in32(void) {return (uint32_t)next();}
uint8_t vp_in8(void) {return (uint8_t)next();}
_Bool vp_in1(void) {return next() & 1;}
uint32_t vp_choose(uint32_t n) {uint32_t v = (uint32_t)next(); if (v >= n) {dprintf(2, "VP choice out of range\n"); _exit(66);} return v;}
uint64_t vp_concretize(uint64_t v) {return v;}
uint64_t vp_param(const char * name, uint64_t dflt)
{
  char k[128]; snprintf(k, sizeof k, "VPP_%s", name);
  const char * e = getenv(k);
  return e ? strtoull(e, NULL, 0) : dflt;
}
void vp_assume_(_Bool c) {if (!c) {dprintf(2, "VP_ASSUME_FAILED\n"); _exit(66);}}
void vp_assert_(_Bool c, const char * m) {if (!c) {dprintf(2, "VP_ASSERT_FAILED: %s\n", m); _exit(77);}}
void vp_cover_(_Bool c, const char * l) {if (c && getenv("VP_SHOW_COVER")) {dprintf(2, "VP_COVER: %s\n", l);}}
void * vp_heap_alloc(size_t n) {void * p = malloc(n); if (p) {memset(p, fill, n);} return p;}
void vp_heap_free(void * p) {free(p);}
size_t vp_heap_size(void * p) {return malloc_usable_size(p);}   // exact under ASan
int vp_engine(void) {return 0;}
void vp_readonly(const void * p, _Bool on) {(void)p; (void)on;}
void vp_print(const char * s, uint64_t v) {if (getenv("VP_SHOW_COVER")) {dprintf(2, "%s %llu\n", s, (unsigned long long)v);}}
// ---- threads: one runs at a time; at every synchronising access the recorded schedule decides who is next
#define MAXT 8
static sem_t tsem[MAXT]; static int tdone[MAXT]; static int nthreads = 1; static pthread_t th[MAXT];
static __thread int me = 0;
static int joining = 0;
struct start {void (*fn)(void *); void * arg; int id;};
static int want(void) {return spos < nsched ? sched[spos] : -1;}
static void hand_over(int to) {if (to != me) {sem_post(&tsem[to]); sem_wait(&tsem[me]);}}
void vp_native_sync(void)
{
  if (nthreads == 1) {return;}
  for (;;) {
    int w = want();
    if (w < 0 || w == me || tdone[w]) {break;}
    hand_over(w);
  }
  spos++;
}
void vp_yield(void) {vp_native_sync();}
static int pick(void)
{
  int w = want();
  if (w >= 0 && w < nthreads && !tdone[w] && !(w == 0 && joining)) {return w;}
  for (int i = 1; i < nthreads; ++i) {if (!tdone[i]) {return i;}}
  return 0;
}
static void * thread_main(void * p)
{
  struct start * s = p;
  me = s->id;
  sem_wait(&tsem[me]);
  s->fn(s->arg);
  tdone[me] = 1;
  sem_post(&tsem[pick()]);
  return NULL;
}
uint32_t vp_spawn(void (*fn)(void *), void * arg)
{
  int id = nthreads++;
  struct start * s = malloc(sizeof *s);
  s->fn = fn; s->arg = arg; s->id = id;
  sem_init(&tsem[id], 0, 0);
  pthread_create(&th[id], NULL, thread_main, s);
  return (uint32_t)id;
}
void vp_join_all(void)
{
  joining = 1;
  for (;;) {
    int left = 0;
    for (int i = 1; i < nthreads; ++i) {left += !tdone[i];}
    if (!left) {break;}
    hand_over(pick());
  }
  for (int i = 1; i < nthreads; ++i) {pthread_join(th[i], NULL);}
  joining = 0;
}
int main(int argc, char ** argv)
{
  sem_init(&tsem[0], 0, 0);
  if (getenv("VP_FILL")) {fill = atoi(getenv("VP_FILL"));}
  vals = malloc(sizeof *vals * 1000000); sched = malloc(1000000);
  if (argc > 1) {
    FILE * f = fopen(argv[1], "r");
    if (!f) {return 65;}
    unsigned long long v; unsigned t;
    while (fscanf(f, " %llu", &v) == 1) {vals[nvals++] = v;}
    if (fscanf(f, " S") != EOF) {while (fscanf(f, " %u", &t) == 1) {sched[nsched++] = (unsigned char)t;}}
    fclose(f);
  }
  alarm(20);
  vp_main();
  _exit(0);
}
