// Events as an application or the library emits them; the macros are C only
#include <stddef.h>
#include <stdint.h>
static int src;
#define EMV_DEBUG_SOURCE src
#include <emv_debug.h>
#include <iso7816.h>
void shim_emit(int source, int kind, const char* text, unsigned n, const void* buf, size_t len) {
	src = source;
	switch (kind) {
		case 0: emv_debug_error("%s", text); break;
		case 1: emv_debug_info("%s", text); break;
		case 2: emv_debug_info_data("%s", buf, len, text); break;
		case 3: emv_debug_info_tlv("%s", buf, len, text); break;
		case 4: emv_debug_apdu("%s", text); break;
		case 5: emv_debug_capdu(buf, len); break;
		case 6: emv_debug_rapdu(buf, len); break;
		case 7: emv_debug_ctpdu(buf, len); break;
		case 8: emv_debug_rtpdu(buf, len); break;
		case 9: emv_debug_trace_data("%s", buf, len, text); break;
		case 10: emv_debug_trace_msg("%s", text); break;
		case 11: emv_debug_info("%u%s%02X%5d|%-6s|%zu%%", n, text, n & 0xFF, -(int)(n & 0xFFF), text, len); break;
		case 12: emv_debug_trace_data("%s=%u %p %d", buf, len, text, n, buf, n); break;
		case 13: { const struct iso7816_atr_info_t* i = buf; emv_debug_atr_info(i); } break;
	}
}
size_t shim_atr_size(void) { return sizeof(struct iso7816_atr_info_t); }
