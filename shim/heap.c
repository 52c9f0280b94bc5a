/* Preloaded: everything the program is handed by the allocator holds a
 * pattern, blocks start at varying distances, and freed memory is overwritten
 * before it is given back.  HEAP_SEED chooses the patterns; 0 is all zeros. */
#define _GNU_SOURCE
#include <malloc.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void __libc_free(void *);

static uint32_t st = 1;
static int zero, ready;

static unsigned rnd(void) {
	if (!ready) {
		ready = 1;
		char *s = getenv("HEAP_SEED");
		st = s ? (uint32_t)atoi(s) : 1;
		zero = st == 0;
		st = st * 2654435761u + 12345;
	}
	st = st * 1664525u + 1013904223u;
	return st >> 8;
}

static void fill(void *p, size_t n) {
	rnd();
	if (zero) {
		memset(p, 0, n);
		return;
	}
	unsigned char *b = p;
	unsigned k = rnd() % 4;
	if (k == 0)
		memset(b, 0xff, n);
	else if (k == 1)
		memset(b, rnd(), n);
	else for (size_t i = 0; i < n; i++)
		b[i] = rnd();
}

void *malloc(size_t n) {
	unsigned k = rnd();
	if (!zero && k % 8 == 0) {
		/* leave holes, so that addresses don't follow order */
		void *h = __libc_malloc(16 + k / 8 % 300);
		void *p = __libc_malloc(n);
		__libc_free(h);
		if (p)
			fill(p, malloc_usable_size(p));
		return p;
	}
	void *p = __libc_malloc(n);
	if (p)
		fill(p, malloc_usable_size(p));
	return p;
}

void *calloc(size_t a, size_t b) {
	return __libc_calloc(a, b);
}

void *realloc(void *q, size_t n) {
	if (!q)
		return malloc(n);
	if (n == 0)
		return __libc_realloc(q, n);
	size_t old = malloc_usable_size(q);
	if (n <= old && rnd() % 2)
		return __libc_realloc(q, n);
	/* always moves */
	void *p = malloc(n);
	if (!p)
		return NULL;
	memcpy(p, q, old < n ? old : n);
	free(q);
	return p;
}

void free(void *p) {
	if (!p)
		return;
	fill(p, malloc_usable_size(p));
	__libc_free(p);
}
