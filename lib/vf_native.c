/* Native side of a replay: feeds recorded inputs, reports the first violated obligation. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static FILE *vf_f;
static int vf_used;
long long vf_next(const char *name) {
  if (!vf_f) { vf_f = fopen(getenv("VF_INPUTS"), "r"); if (!vf_f) { fprintf(stderr, "no inputs\n"); exit(3); } }
  char nm[128]; long long v;
  if (fscanf(vf_f, "%127s %lld", nm, &v) != 2) { return 0; }
  ++vf_used;
  if (strcmp(nm, name)) { fprintf(stderr, "REPLAY-DIVERGED: wanted %s have %s\n", name, nm); exit(4); }
  return v;
}
void vf_violation(const char *id) { printf("REPLAY-VIOLATED %s\n", id); fflush(stdout); _Exit(10); }
void vf_assume_failed(const char *what) { printf("REPLAY-ASSUME-FAILED %s\n", what); fflush(stdout); _Exit(5); }
void vf_end(void) { printf("REPLAY-PATH-END\n"); fflush(stdout); _Exit(6); }
extern void VF_ENTRY(void);
int main(void) { VF_ENTRY(); printf("REPLAY-OK\n"); return 0; }
