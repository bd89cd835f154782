#ifndef REF_STDDEF
#define REF_STDDEF
#ifndef NULL
#define NULL ((void*)0)
#endif
#ifndef REF_SIZE_T
#define REF_SIZE_T
typedef unsigned int size_t;
#endif
typedef int ptrdiff_t;
typedef int wchar_t;
#endif
