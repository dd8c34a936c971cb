#ifndef VP_LOG_STUB_H_
#define VP_LOG_STUB_H_
#include <stddef.h>
extern size_t vp_logged;
#endif
