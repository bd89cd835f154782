#ifndef REF_CTYPE
#define REF_CTYPE
int isalnum(int c);
int isalpha(int c);
int iscntrl(int c);
int isdigit(int c);
int isxdigit(int c);
int isgraph(int c);
int ispunct(int c);
int isprint(int c);
int islower(int c);
int isupper(int c);
int isspace(int c);
int tolower(int c);
int toupper(int c);
#endif
