#ifndef REF_STDIO
#define REF_STDIO
int printf(const char *format, ...);
#endif
