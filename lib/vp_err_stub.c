// Error-state stub for harnesses whose subject is not the error state: records that an error was set and
// discards the text. The error state itself is decided by its own check.
#include "vp.h"
#include "vp_err.h"
#include "rcutils/error_handling.h"
bool vp_error_set = false;
static rcutils_error_state_t vp_es;
rcutils_ret_t rcutils_initialize_error_handling_thread_local_storage(rcutils_allocator_t allocator)
{(void)allocator; return RCUTILS_RET_OK;}
void rcutils_set_error_state(const char * m, const char * f, size_t l)
{(void)m; (void)f; (void)l; vp_error_set = true;}
bool rcutils_error_is_set(void) {return vp_error_set;}
const rcutils_error_state_t * rcutils_get_error_state(void) {return &vp_es;}
rcutils_error_string_t rcutils_get_error_string(void)
{rcutils_error_string_t s; s.str[0] = 'e'; s.str[1] = '\0'; return s;}
void rcutils_reset_error(void) {vp_error_set = false;}
