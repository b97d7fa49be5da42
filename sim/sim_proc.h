#ifndef SIM_PROC_H
#define SIM_PROC_H
#include "sim.h"
extern int sim_in_child;
void sim_child_dup2(int a, int b);
void sim_child__exit(int code);
int sim_obj_hold(int fd);          /* new descriptor outside the program's table */
void sim_obj_drop(int h);
ssize_t sim_obj_read(int h, void *b, size_t n);
ssize_t sim_obj_write(int h, const void *b, size_t n);
void sim_actor(void *(*fn)(void *), void *arg);
void sim_raise(int s);
#endif
