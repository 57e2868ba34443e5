#ifndef VP_CTYPE_H
#define VP_CTYPE_H
int isalnum(int), isalpha(int), isblank(int), iscntrl(int), isdigit(int), isgraph(int), islower(int), isprint(int), ispunct(int), isspace(int), isupper(int), isxdigit(int), tolower(int), toupper(int);
#endif
