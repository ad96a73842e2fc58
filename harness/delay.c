/* Preloaded into the tools: every new thread waits a while before and after its work, and the order in which threads begin and
   end their work is logged (DELAY_LOG), so that the workload sees many schedules and can tell how many. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>

typedef int (*create_t)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
struct job { void * (*f)(void *); void * a; unsigned n; };
static unsigned counter;
static pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER;

static unsigned mix(unsigned x) { x ^= x >> 16; x *= 0x7feb352du; x ^= x >> 15; x *= 0x846ca68bu; x ^= x >> 16; return x; }
static void event(char c, unsigned n) {
	const char * p = getenv("DELAY_LOG");
	if (!p) return;
	char b[32]; int k = snprintf(b, sizeof b, "%c%u ", c, n);
	pthread_mutex_lock(&m);
	int fd = open(p, O_WRONLY | O_APPEND | O_CREAT, 0600);
	if (fd >= 0) { if (write(fd, b, k) < 0) {} close(fd); }
	pthread_mutex_unlock(&m);
}
static void pause_(unsigned n, unsigned k) {
	const char * s = getenv("DELAY_SEED"), * u = getenv("DELAY_US");
	unsigned r = mix((unsigned)atoi(s ? s : "0") * 977u + n * 31u + k), us = (unsigned)atoi(u ? u : "0");
	if (us && (r & 3)) usleep((r >> 4) % us);
}
static void * wrapped(void * p) {
	struct job j = *(struct job *)p;
	free(p);
	pause_(j.n, 1);
	event('b', j.n);
	void * r = j.f(j.a);
	pause_(j.n, 2);
	event('e', j.n);
	return r;
}
int pthread_create(pthread_t * t, const pthread_attr_t * at, void * (*f)(void *), void * a) {
	static create_t real;
	if (!real) real = (create_t)dlsym(RTLD_NEXT, "pthread_create");
	struct job * j = malloc(sizeof *j);
	j->f = f; j->a = a; j->n = counter++;
	return real(t, at, wrapped, j);
}
