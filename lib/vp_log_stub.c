// Stands in for logging.c in harnesses whose subject only reports errors through it: counts the messages.
#include "vp.h"
#include "vp_log_stub.h"
#include "rcutils/logging.h"
size_t vp_logged;
bool g_rcutils_logging_initialized = true;
const char * const g_rcutils_log_severity_names[RCUTILS_LOG_SEVERITY_FATAL + 1] = {0};
rcutils_ret_t rcutils_logging_initialize_with_allocator(rcutils_allocator_t a) {(void)a; return RCUTILS_RET_OK;}
rcutils_ret_t rcutils_logging_initialize(void) {return RCUTILS_RET_OK;}
rcutils_ret_t rcutils_logging_shutdown(void) {return RCUTILS_RET_OK;}
bool rcutils_logging_logger_is_enabled_for(const char * name, int severity) {(void)name; (void)severity; return true;}
void rcutils_log(const rcutils_log_location_t * l, int severity, const char * name, const char * format, ...)
{(void)l; (void)severity; (void)name; (void)format; vp_logged++;}
void rcutils_log_internal(const rcutils_log_location_t * l, int severity, const char * name, const char * format, ...)
{(void)l; (void)severity; (void)name; (void)format; vp_logged++;}
