// Edge counters of the instrumented code, and moved bytes: a deterministic work limit per call and a coverage map.
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#define MAP (1u << 16)
static __thread int64_t fuel;
static __thread int armed;
static __thread uint8_t *map;
extern void mvdcheck_fuel_exhausted(void);
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) {
  static uint32_t n;
  if (a == b || *a) return;
  for (; a < b; a++) *a = ++n;
}
void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
  if (!armed) return;
  if (map) {
    uint8_t *c = &map[*g & (MAP - 1)];
    if (*c != 255) ++*c;
  }
  if (--fuel < 0) {
    armed = 0;
    mvdcheck_fuel_exhausted();
  }
}
// Bytes that are moved around are work too.
extern void *__memmove_chk(void *, const void *, size_t, size_t);
extern void *__memcpy_chk(void *, const void *, size_t, size_t);
static inline void moved(size_t n) {
  if (!armed || n < 16) return;
  fuel -= (int64_t)(n / 16);
  if (fuel < 0) {
    armed = 0;
    mvdcheck_fuel_exhausted();
  }
}
void *memmove(void *d, const void *s, size_t n) {
  moved(n);
  return __memmove_chk(d, s, n, (size_t)-1);
}
void *memcpy(void *d, const void *s, size_t n) {
  moved(n);
  return __memcpy_chk(d, s, n, (size_t)-1);
}
void mvdcheck_fuel_arm(int64_t limit) { fuel = limit; armed = 1; }
int64_t mvdcheck_fuel_disarm(void) { armed = 0; return fuel; }
int mvdcheck_fuel_armed(void) { return armed; }
void mvdcheck_cov_map(uint8_t *m) { map = m; }
