/* Heap accounting for the code under test, interposed at link time (-Wl,--wrap=malloc ...).
 *
 * Inside a case, every allocation made by YASL comes from a private arena: blocks are never reused within
 * the case, fresh memory is filled with 0xA5 (calloc: 0), freed memory with 0xDD, every block carries a
 * header and a trailing canary, realloc always moves.  At the end of the case the arena is walked:
 * blocks still live are leaks, a damaged canary or a write to a freed block is a heap fault, as is a
 * double or wild free.  Deterministic, and a stale pointer is visible at once.
 *
 * With MC_ASAN the real (AddressSanitizer) allocator is used and only the live count is kept.
 */
#define _GNU_SOURCE
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>

void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
FILE *__real_fopen(const char *, const char *);
int __real_fclose(FILE *);

int mc_heap_on;
long mc_live, mc_bad, mc_files;
char mc_heapmsg[256];

static void bad(const char *msg) {
	if (!mc_bad) snprintf(mc_heapmsg, sizeof mc_heapmsg, "%s", msg);
	mc_bad++;
}

/* ---- FILE handles opened by the code under test */
#define MAXF 64
static FILE *open_files[MAXF];
FILE *(*mc_fopen_hook)(const char *, const char *);
FILE *__wrap_fopen(const char *p, const char *m) {
	FILE *f = mc_fopen_hook ? mc_fopen_hook(p, m) : __real_fopen(p, m);
	if (f && mc_heap_on) {
		mc_files++;
		for (int i = 0; i < MAXF; i++) if (!open_files[i]) { open_files[i] = f; break; }
	}
	return f;
}
int __wrap_fclose(FILE *f) {
	if (mc_heap_on) {
		int i;
		for (i = 0; i < MAXF; i++) if (open_files[i] == f) break;
		if (i == MAXF) { bad("fclose of a FILE that is not open"); return -1; }
		open_files[i] = NULL;
		mc_files--;
	}
	return __real_fclose(f);
}
void mc_close_leftover_files(void) {
	for (int i = 0; i < MAXF; i++) if (open_files[i]) { __real_fclose(open_files[i]); open_files[i] = NULL; }
}

#ifdef MC_ASAN
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); if (mc_heap_on && p) mc_live++; return p; }
void *__wrap_calloc(size_t a, size_t b) { void *p = __real_calloc(a, b); if (mc_heap_on && p) mc_live++; return p; }
void *__wrap_realloc(void *p, size_t n) {
	void *q = __real_realloc(p, n);
	if (mc_heap_on && !p && q) mc_live++;
	return q;
}
void __wrap_free(void *p) { if (mc_heap_on && p) mc_live--; __real_free(p); }
void mc_heap_start(void) { mc_live = mc_bad = mc_files = 0; mc_heapmsg[0] = 0; mc_heap_on = 1; }
void mc_heap_stop(void) { mc_heap_on = 0; mc_close_leftover_files(); }
#else

#define ARENA ((size_t)1 << 30)
#define HUGE_REQ ((size_t)1 << 28)
#define LIVE 0x4c495645a1b2c3d4ull
#define DEAD 0x44454144d4c3b2a1ull
#define TAIL 0x5441494c5441494cull

struct hdr { uint64_t magic; uint64_t size; };

static char *arena, *top;
static size_t peak;

static inline int inside(void *p) { return (char *)p >= arena && (char *)p < arena + ARENA && arena; }
static inline size_t padded(size_t n) { return (n + 15) & ~(size_t)15; }

static void *arena_alloc(size_t n, int fill) {
	if (n > HUGE_REQ) { bad("absurd allocation request"); return NULL; }
	size_t need = sizeof(struct hdr) + padded(n) + 16;
	if (top + need > arena + ARENA) { bad("arena exhausted"); return NULL; }
	struct hdr *h = (struct hdr *)top;
	h->magic = LIVE;
	h->size = n;
	char *p = top + sizeof(struct hdr);
	memset(p, fill, n);
	memset(p + n, 0x7e, padded(n) - n);
	uint64_t t[2] = { TAIL, TAIL };
	memcpy(p + padded(n), t, 16);
	top += need;
	mc_live++;
	return p;
}

static int tail_ok(struct hdr *h) {
	char *p = (char *)(h + 1);
	uint64_t t[2];
	memcpy(t, p + padded(h->size), 16);
	if (t[0] != TAIL || t[1] != TAIL) return 0;
	for (size_t i = h->size; i < padded(h->size); i++) if (p[i] != 0x7e) return 0;
	return 1;
}

static void arena_free(void *p) {
	struct hdr *h = (struct hdr *)p - 1;
	if (h->magic == DEAD) { bad("double free"); return; }
	if (h->magic != LIVE) { bad("free of a pointer that was never allocated"); return; }
	if (!tail_ok(h)) bad("write past the end of a heap block");
	h->magic = DEAD;
	memset(p, 0xDD, h->size);
	mc_live--;
}

void *__wrap_malloc(size_t n) { return mc_heap_on ? arena_alloc(n, 0xA5) : __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) {
	if (!mc_heap_on) return __real_calloc(a, b);
	if (b && a > HUGE_REQ / b) { bad("absurd allocation request"); return NULL; }
	return arena_alloc(a * b, 0);
}
void __wrap_free(void *p) {
	if (!p) return;
	if (inside(p)) arena_free(p); else if (mc_heap_on) bad("free of a pointer outside the heap"); else __real_free(p);
}
void *__wrap_realloc(void *p, size_t n) {
	if (!mc_heap_on && !inside(p)) return __real_realloc(p, n);
	if (!p) return arena_alloc(n, 0xA5);
	if (!inside(p)) { bad("realloc of a pointer outside the heap"); return NULL; }
	struct hdr *h = (struct hdr *)p - 1;
	if (h->magic != LIVE) { bad(h->magic == DEAD ? "realloc of a freed block" : "realloc of a pointer that was never allocated"); return NULL; }
	void *q = arena_alloc(n, 0xA5);
	if (!q) return NULL;
	memcpy(q, p, n < h->size ? n : h->size);
	arena_free(p);
	return q;
}

void mc_heap_start(void) {
	if (!arena) {
		arena = mmap(NULL, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (arena == MAP_FAILED) abort();
	}
	top = arena;
	mc_live = mc_bad = mc_files = 0;
	mc_heapmsg[0] = 0;
	mc_heap_on = 1;
}

void mc_heap_stop(void) {
	mc_heap_on = 0;
	mc_close_leftover_files();
	char *q = arena;
	while (q < top) {
		struct hdr *h = (struct hdr *)q;
		if (h->magic != LIVE && h->magic != DEAD) { bad("block header overwritten"); break; }
		if (!tail_ok(h)) { bad("write past the end of a heap block"); break; }
		if (h->magic == DEAD) {
			const unsigned char *p = (const unsigned char *)(h + 1);
			size_t n = h->size, i = 0;
			const uint64_t dd = 0xDDDDDDDDDDDDDDDDull;
			for (; i + 8 <= n; i += 8) { uint64_t v; memcpy(&v, p + i, 8); if (v != dd) break; }
			for (; i < n; i++) if (p[i] != 0xDD) break;
			if (i < n) { bad("write to a freed block"); break; }
		}
		q += sizeof(struct hdr) + padded(h->size) + 16;
	}
	size_t used = top - arena;
	if (used > ((size_t)32 << 20)) madvise(arena, used, MADV_DONTNEED);
	if (used > peak) peak = used;
}
#endif

#include "yasl_state.h"
void mc_make_room(struct YASL_State *S) {
	if (S->vm.sp > STACK_SIZE - 8) S->vm.sp = STACK_SIZE - 8;
}
