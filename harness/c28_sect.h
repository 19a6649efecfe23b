// every static variable of the tool goes here, so that each execution starts as a new process would
#pragma clang section bss="decbss" data="decdata"
