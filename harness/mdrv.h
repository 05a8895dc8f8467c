#ifndef MDRV_H
#define MDRV_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
typedef void (*history_fn)(FILE *o, char **lines, size_t n);
void sql_history(FILE *o, char **lines, size_t n);
void store_history(FILE *o, char **lines, size_t n);
void ds_history(FILE *o, char **lines, size_t n);
void conc_history(FILE *o, char **lines, size_t n);
void unescape(char *s);
void json_str(FILE *o, const char *s, size_t max);
void time_limit(int s);
bool many_hangs(void);
bool watch(int pid, int *st, int limit_s);
#endif
