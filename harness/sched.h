#ifndef VERIF_SCHED_H
#define VERIF_SCHED_H
#include <stdio.h>
void __attribute__((weak)) sched_report(FILE *o);
void __attribute__((weak)) sched_conflicts(FILE *o);
void __attribute__((weak)) sched_start(FILE *o, int n, unsigned long long seed, long mean, long points, long range, long lock_percent, long hot_places, long fine_steps);
void __attribute__((weak)) sched_enter(int t);
void __attribute__((weak)) sched_go(void);
void __attribute__((weak)) sched_between(void);
void __attribute__((weak)) sched_leave(void);
long __attribute__((weak)) sched_stop(void);
#endif
