// Histories of operations on a char array, against a model of its contents. The array starts out either
// owning its buffer or wrapping one of the user's.
#include "vp_alloc.h"
#include "rcutils/types/char_array.h"
#define MAXB 40
static uint8_t model[MAXB];     // contents, model_len bytes
static size_t model_len;
static bool is_string;          // the contents end with a null byte
static rcutils_char_array_t c;
static rcutils_ret_t vs(const char * format, ...)
{
  va_list ap;
  va_start(ap, format);
  rcutils_ret_t r = rcutils_char_array_vsprintf(&c, format, ap);
  va_end(ap);
  return r;
}
static void usable(void)
{
  VP_ASSERT(c.buffer_length <= c.buffer_capacity, "the contents fit the capacity");
  VP_ASSERT(c.buffer != NULL || c.buffer_capacity == 0, "a capacity comes with a buffer");
  if (c.buffer_capacity) {                       // all of the capacity is usable memory
    char last = c.buffer[c.buffer_capacity - 1], first = c.buffer[0];
    c.buffer[c.buffer_capacity - 1] = last; c.buffer[0] = first;
  }
}
void vp_main(void)
{
  size_t K = vp_param("K", 2), S = vp_param("S", 2), N = vp_param("N", 4), fail = vp_param("fail", 0);
  rcutils_allocator_t a = vp_allocator();
  c = rcutils_get_zero_initialized_char_array();
  VP_ASSERT(c.buffer == NULL && c.buffer_length == 0 && c.buffer_capacity == 0, "zero initialized");
  if (fail) {vp_alloc_arm(VP_ANY_FAIL, 0);}
  char * user = NULL, user_copy[MAXB];
  size_t user_cap = 0;
  bool wrapped = vp_choose(2);
  if (wrapped) {
    user_cap = vp_choose((uint32_t)N + 1);
    user = vp_heap_alloc(user_cap);
    c.owns_buffer = false; c.buffer = user; c.buffer_capacity = user_cap; c.allocator = a;
    if (user_cap) {
      size_t l = vp_choose((uint32_t)user_cap);
      for (size_t i = 0; i < user_cap; ++i) {user[i] = 'u';}
      vp_string_len(user, l);
      c.buffer_length = model_len = l + 1;
      memcpy(model, user, l + 1);
      is_string = true;
    }
  } else {
    size_t cap = vp_choose((uint32_t)N + 1);
    rcutils_ret_t r = rcutils_char_array_init(&c, cap, &a);
    if (r != RCUTILS_RET_OK) {
      VP_ASSERT(r == RCUTILS_RET_BAD_ALLOC && vp_failures > 0, "init fails only when memory is refused");
      VP_ASSERT(vp_live == 0 && c.buffer_capacity == 0 && c.buffer_length == 0, "a failed init leaves an empty array");
      VP_ASSERT(rcutils_char_array_fini(&c) == RCUTILS_RET_OK && vp_live == 0, "which can be finalized");
      return;
    }
    VP_ASSERT(c.owns_buffer && c.buffer_capacity == cap && c.buffer_length == 0, "init provides the capacity asked for");
    VP_ASSERT((c.buffer == NULL) == (cap == 0), "no memory for a capacity of zero");
  }
  for (size_t k = 0; k < K; ++k) {
    size_t f0 = vp_failures, old_cap = c.buffer_capacity, need = 0;
    bool owned = c.owns_buffer;
    rcutils_ret_t r;
    uint8_t next[MAXB];
    size_t next_len = model_len;
    bool next_string = is_string;
    memcpy(next, model, MAXB);
    if (wrapped && !owned) {memcpy(user_copy, user, user_cap);}
    uint32_t op = vp_choose(7);
    switch (op) {
      case 0: {
          size_t l;
          char * s = vp_heap_string(S, &l);
          r = rcutils_char_array_strcpy(&c, s);
          memcpy(next, s, l + 1);
          need = next_len = l + 1;
          next_string = true;
          vp_heap_free(s);
          break;
        }
      case 1: case 2: {
          VP_ASSUME(is_string || model_len == 0);
          size_t l, base = model_len ? model_len - 1 : 0, m;
          char * s = vp_heap_string(S, &l);
          if (op == 1) {
            m = l;
            r = rcutils_char_array_strcat(&c, s);
          } else {
            uint64_t n = vp_in64();
            if (!vp_param("longn", 0)) {VP_ASSUME(n <= S + 2);}
            r = rcutils_char_array_strncat(&c, s, n);
            m = n < l ? vp_concretize(n) : l;
            VP_COVER(n > l, "strncat with a limit beyond the string");
          }
          memcpy(next + base, s, m);
          next[base + m] = '\0';
          need = next_len = base + m + 1;
          next_string = true;
          vp_heap_free(s);
          break;
        }
      case 3: {
          size_t n = 1 + vp_choose((uint32_t)S + 2);
          char * p = vp_heap_alloc(n);
          vp_bytes(p, n);
          r = rcutils_char_array_memcpy(&c, p, n);
          memcpy(next, p, n);
          need = next_len = n;
          next_string = false;
          vp_heap_free(p);
          break;
        }
      case 4: {
          size_t l;
          char * s = vp_heap_string(S, &l);
          r = vs("<%s%c", s, 'z');
          next[0] = '<'; memcpy(next + 1, s, l); next[l + 1] = 'z'; next[l + 2] = '\0';
          need = next_len = l + 3;
          next_string = true;
          vp_heap_free(s);
          break;
        }
      case 5: {
          need = vp_choose(2 * (uint32_t)N + 2);
          r = rcutils_char_array_resize(&c, need);
          if (need == 0) {
            VP_ASSERT(r == RCUTILS_RET_INVALID_ARGUMENT, "a size of zero is refused");
            r = RCUTILS_RET_OK;
            break;
          }
          if (r == RCUTILS_RET_OK) {
            VP_ASSERT(c.buffer_capacity == need, "resize provides the capacity asked for");
            if (!owned && need < old_cap && need <= next_len) {   // a copy that cuts the buffer short is null terminated
              next_len = need; next[need - 1] = '\0'; next_string = true;
              VP_COVER(1, "truncated copy");
            }
            if (need < next_len) {
              next_len = need; next_string = false;
              VP_COVER(owned, "truncated");
            }
          }
          break;
        }
      default:
        need = vp_choose(2 * (uint32_t)N + 2);
        r = rcutils_char_array_expand_as_needed(&c, need);
        break;
    }
    usable();
    if (vp_failures != f0) {
      VP_ASSERT(r == RCUTILS_RET_BAD_ALLOC, "refused memory is reported");
      VP_COVER(owned && old_cap > 0, "failed while owning a buffer");
      break;                                  // the array is still safe to use and to finalize
    }
    VP_ASSERT(r == RCUTILS_RET_OK, "the operation succeeds when memory is available");
    VP_ASSERT(op == 5 || c.buffer_capacity >= need, "the buffer grew as needed");
    VP_ASSERT(op == 5 || c.buffer_capacity >= old_cap, "only resize shrinks the buffer");
    memcpy(model, next, MAXB); model_len = next_len; is_string = next_string;
    VP_ASSERT(c.buffer_length == model_len, "the length counts the contents with the trailing null byte");
    VP_ASSERT(vp_same(c.buffer, model, model_len), "the contents are as specified");
    VP_ASSERT(c.owns_buffer || (wrapped && c.buffer == user), "memory of the user's stays in use until more is needed");
    if (wrapped && c.owns_buffer && !owned) {VP_ASSERT(op == 4 || vp_same(user, user_copy, user_cap), "the user's buffer is left alone once outgrown"); VP_COVER(1, "outgrew the user's buffer");}
  }
  if (vp_failures) {
    vp_alloc_arm(VP_NEVER_FAIL, 0);
    VP_ASSERT(rcutils_char_array_strcpy(&c, "again") == RCUTILS_RET_OK && vp_same(c.buffer, "again", 6) && c.buffer_length == 6,
      "after a failure the array can be used again");
  }
  if (K == 1) {
    rcutils_allocator_t bad = a;
    bad.reallocate = NULL;
    rcutils_char_array_t other = rcutils_get_zero_initialized_char_array();
    VP_ASSERT(rcutils_char_array_init(NULL, 1, &a) != RCUTILS_RET_OK && rcutils_char_array_init(&other, 1, NULL) != RCUTILS_RET_OK && rcutils_char_array_init(&other, 1, &bad) != RCUTILS_RET_OK
      && rcutils_char_array_fini(NULL) != RCUTILS_RET_OK && rcutils_char_array_resize(NULL, 1) != RCUTILS_RET_OK && rcutils_char_array_expand_as_needed(NULL, 1) != RCUTILS_RET_OK,
      "null arguments and incomplete allocators are refused");
    VP_ASSERT(vp_same(c.buffer, model, vp_failures ? 0 : model_len), "and change nothing");
  }
  VP_ASSERT(rcutils_char_array_fini(&c) == RCUTILS_RET_OK, "fini succeeds");
  VP_ASSERT(c.buffer == NULL && c.buffer_length == 0 && c.buffer_capacity == 0, "fini empties the array");
  VP_ASSERT(vp_live == 0, "fini releases everything the array owned");
  if (user) {vp_heap_free(user);}            // still the user's, exactly once
}
