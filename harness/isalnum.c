// ASCII letters and digits, whatever the character and its sign.
#include "vp.h"
#include "rcutils/isalnum_no_locale.h"
void vp_main(void)
{
  uint8_t c = vp_in8();
  bool want = ((c >= '0') & (c <= '9')) | ((c >= 'A') & (c <= 'Z')) | ((c >= 'a') & (c <= 'z'));
  VP_ASSERT(rcutils_isalnum_no_locale((char)c) == want, "letters and digits, and nothing else");
  VP_COVER(want, "alnum"); VP_COVER(!want && c > 127, "not ASCII");
}
