#include <stdlib.h>
#include <string.h>
#include <stdint.h>
/* numpy data allocators that fail on request; one per simulated thread */
typedef struct { long count, fail_at, fired, len; } slot_t;
typedef struct {
    char name[127]; uint8_t version;
    struct { void *ctx; void *(*malloc)(void *, size_t); void *(*calloc)(void *, size_t, size_t);
             void *(*realloc)(void *, void *, size_t); void (*free)(void *, void *, size_t); } a;
} handler_t;
#define N 16
static slot_t slots[N];
static handler_t handlers[N];
static int due(slot_t *s)
{
    s->count++;
    if (s->fail_at > 0 && s->count >= s->fail_at && s->count < s->fail_at + s->len) { s->fired++; return 1; }
    return 0;
}
static void *my_malloc(void *c, size_t n) { return due(c) ? NULL : malloc(n ? n : 1); }
static void *my_calloc(void *c, size_t n, size_t m) { return due(c) ? NULL : calloc(n ? n : 1, m ? m : 1); }
static void *my_realloc(void *c, void *p, size_t n) { return due(c) ? NULL : realloc(p, n ? n : 1); }
static void my_free(void *c, void *p, size_t n) { free(p); }
void *sim_handler(int i)
{
    handler_t *h = &handlers[i];
    memset(h, 0, sizeof *h);
    strcpy(h->name, "sim");
    h->version = 1;
    h->a.ctx = &slots[i]; h->a.malloc = my_malloc; h->a.calloc = my_calloc; h->a.realloc = my_realloc; h->a.free = my_free;
    return h;
}
slot_t *sim_slot(int i) { return &slots[i]; }
