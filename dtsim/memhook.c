/* numpy's memory handler (NEP 49) for the simulator: blocks hold a pattern until they are written, and chosen
   allocations fail, whether Python or C++ code asked for them.  See seams.py. */
#include <stddef.h>
#include <string.h>

static void *(*m0)(void *, size_t);
static void *(*c0)(void *, size_t, size_t);
static long k = -1;                  /* the k-th block of `want` bytes from here on is refused; -1: none */
static size_t want;
static long fired, blocks;

static int due(size_t n)
{
  if (k < 0 || n != want) return 0;
  if (k-- > 0) return 0;
  fired++;
  return 1;                          /* k is -1 now */
}

void *dtsim_malloc(void *ctx, size_t n)
{
  if (due(n)) return NULL;
  char *p = m0(ctx, n);
  blocks++;
  if (p)
    {
      static const unsigned char pat[4] = {0x5a, 0x5a, 0xf8, 0x7f};   /* NaN as a float or double, huge as an integer */
      size_t m = n < 65536 ? n : 65536;
      for (size_t i = 0; i < m; i++) p[i] = pat[i & 3];
    }
  return p;
}

void *dtsim_calloc(void *ctx, size_t n, size_t e)
{
  return due(n * e) ? NULL : c0(ctx, n, e);
}

void dtsim_set(void *m, void *c) { m0 = m; c0 = c; }
void dtsim_arm(long kk, size_t size) { k = kk; want = size; fired = 0; }
long dtsim_fired(void) { return fired; }
long dtsim_blocks(void) { return blocks; }
