// The inline helpers of iso7816_apdu.h are C only
#include <iso7816_apdu.h>
int shim_case(const void* p, size_t n) { return iso7816_apdu_case(p, n); }
int shim_case_code(int i) { static const int c[] = { ISO7816_APDU_CASE_1, ISO7816_APDU_CASE_2S, ISO7816_APDU_CASE_2E, ISO7816_APDU_CASE_3S, ISO7816_APDU_CASE_3E, ISO7816_APDU_CASE_4S, ISO7816_APDU_CASE_4E }; return c[i]; }
size_t shim_len3(const void* p) { return iso7816_apdu_case_3s_length(p); }
size_t shim_len4(const void* p) { return iso7816_apdu_case_4s_length(p); }
int shim_sw(int what, uint8_t a, uint8_t b) { return what == 0 ? iso7816_sw1sw2_is_success(a, b) : what == 1 ? iso7816_sw1sw2_is_normal(a, b) : what == 2 ? iso7816_sw1sw2_is_warning(a, b) : iso7816_sw1sw2_is_error(a, b); }
