/* replay: values stored in the database come back unchanged, with their type */
#include "wit.h"
static long rint_(void) {
  static const long e[] = {0, 1, -1, 5, 1L << 28, (1L << 28) - 1, -(1L << 28), 1L << 31, -(1L << 31), 1L << 32, 1L << 60, (1L << 60) - 1, -(1L << 60), -(1L << 60) - 1, (1L << 60) + 1, 1L << 61, 1L << 62, (long)1 << 63, 0x7fffffffffffffffL, 0x7ffffffffffffffeL};
  int r = rn(4);
  if (r == 0) return e[rn(sizeof e / sizeof *e)] + rn(3) - 1;
  { long v = ((long)rnd() << 40) ^ ((long)rnd() << 20) ^ rnd(); return v >> rn(62); }
}
int main(int argc, char **argv) {
  long it = 0; int kb = argc > 3 && !strcmp(argv[3], "kb");
  wit_init(argc, argv); (void)kb;
  while (!timeup() && it < 1200000) {
    gint e; it++;
    switch (rn(6)) {
      case 0: { long v = rint_(); e = wg_encode_int(db_, v); if (wg_get_encoded_type(db_, e) != WG_INTTYPE) FAIL("int %ld encoded as type %ld", v, (long)wg_get_encoded_type(db_, e)); if (wg_decode_int(db_, e) != v) FAIL("int %ld decodes as %ld", v, (long)wg_decode_int(db_, e)); break; }
      case 1: { double d; long b = rint_(); if (rn(2)) { b ^= ((long)rnd() << 33); } memcpy(&d, &b, 8); e = wg_encode_double(db_, d); if (wg_get_encoded_type(db_, e) != WG_DOUBLETYPE) FAIL("double %g encoded as type %ld", d, (long)wg_get_encoded_type(db_, e)); { double q = wg_decode_double(db_, e); if (memcmp(&q, &d, 8)) FAIL("double %.17g decodes as %.17g", d, q); } break; }
      case 2: { char c = (char)rn(256); e = wg_encode_char(db_, c); if (wg_get_encoded_type(db_, e) != WG_CHARTYPE) FAIL("char %d has type %ld", c, (long)wg_get_encoded_type(db_, e)); if (wg_decode_char(db_, e) != c) FAIL("char %d decodes as %d", c, wg_decode_char(db_, e)); break; }
      case 3: { int v = rn(MAXDATE + 1); if (rn(4) == 0) v = rn(4); if (rn(4) == 0) v = MAXDATE - rn(3); if (rn(2)) v = -v; e = wg_encode_date(db_, v); if (wg_get_encoded_type(db_, e) != WG_DATETYPE) FAIL("date %d has type %ld", v, (long)wg_get_encoded_type(db_, e)); if (wg_decode_date(db_, e) != v) FAIL("date %d decodes as %d", v, wg_decode_date(db_, e)); break; }
      case 4: { int v = rn(8640001); e = wg_encode_time(db_, v); if (wg_get_encoded_type(db_, e) != WG_TIMETYPE) FAIL("time %d has type %ld", v, (long)wg_get_encoded_type(db_, e)); if (wg_decode_time(db_, e) != v) FAIL("time %d decodes as %d", v, wg_decode_time(db_, e)); break; }
      case 5: { int v = rn(rn(2) ? 10 : 1 << 27); e = wg_encode_var(db_, v); if (wg_get_encoded_type(db_, e) != WG_VARTYPE) FAIL("variable %d has type %ld", v, (long)wg_get_encoded_type(db_, e)); if (wg_decode_var(db_, e) != v) FAIL("variable %d decodes as %d", v, (int)wg_decode_var(db_, e)); break; }
    }
  }
  printf("ok %ld values\n", it);
  return 0;
}
