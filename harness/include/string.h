#ifndef REF_STRING
#define REF_STRING
#ifndef NULL
#define NULL ((void*)0)
#endif
#ifndef REF_SIZE_T
#define REF_SIZE_T
typedef unsigned int size_t;
#endif
size_t strlen(const char *s);
char *strstr(const char *, const char *);
#endif
