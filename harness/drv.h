#ifndef DRV_H
#define DRV_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <math.h>
#include <signal.h>
extern char *strdup(const char *);
extern ssize_t getline(char **, size_t *, FILE *);
#include "except.h"
#include "global.h"
/* one command line, split on spaces */
extern char *tok[];
extern int ntok;
long ti(int i);                      /* token as integer */
char *ts(int i, int *len);           /* token hex-decoded (malloced, NUL terminated); "-" is empty */
void J(const char *fmt, ...);        /* append to the JSON reply */
void Jstr(const char *s, int len);   /* append a hex string atom */
void Jtxt(const char *s);            /* append a plain JSON string (ASCII, escaped) */
typedef int (*mod_fn)(const char *cmd);   /* returns 1 if it handled the command */
void bad(const char *why);
#endif
