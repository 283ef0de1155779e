/* Starting the library in a driver. */
#ifndef EV_H
#define EV_H
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <pthread.h>
/* the system's own functions, not the library's replacements */
#undef open
#undef close
#undef connect
#undef read
#undef mkfifo
/* One thread of tasks over one loop: what events_start does, without the thread pools. */
static void ev_run(param_func_t fn) {
	events_t *loop;
	if (events_init(1024)) vh_broken("events_init");
	loop = events_create(60);
	if (!loop) vh_broken("events_create");
	events_set_main((main_cb)fn);
	async_task(fn, 0);
	async_run(loop);
}
/* as many tasks as asked for with ids=N, so that the ids of those that follow are large */
static void *ev_one(param_t a) { (void)a; return (void *)5L; }
static void __attribute__((unused)) ev_ids(void) {
	long n = vh_arg("ids", 0);
	while (n-- > 0) {
		async_task(ev_one, 0);
		if (n % 64 == 0) { yield(); vh_beat(); }
	}
}
#endif
