// Number parsing used for the job count, timestamps and indexes.
//@ entry: n_strtol mode=native props=C26,C02,C30 functions=utils_strtol,utils_strtoll nlimit=20
#include <errno.h>
#include "vf.h"
#include "vf_libc.h"
#include "vf_log.h"
#include "xstr.c"
#include "utils.c"
void n_strtol(void) {
  static const char *t[] = { "0", "7", "-3", "12x", "x", "99999999999999999999", "2147483648", "-99999999999999999999", "5\n", "1 2" };
  static const long long w[] = { 0, 7, -3, 0, 0, 0, 2147483648LL, 0, 5, 0 };
  static const int bad[] = { 0, 0, 0, 1, 1, 1, 0, 1, 0, 1 };
  int i = nd_range("t", 0, 9), rc = 5;
  errno = nd_bool("stale") ? ERANGE : 0;
  long a = utils_strtol(t[i], 10, &rc);
  if (i != 8) ENSURE("strtol/value", bad[i] ? rc != 0 : rc == 0 && a == w[i]);
  errno = nd_bool("stale2") ? ERANGE : 0;
  rc = 5;
  long long b = utils_strtoll(t[i], 10, &rc);
  ENSURE("strtoll/value", bad[i] ? rc != 0 : rc == 0 && b == w[i]);
}
