/* truth MAX: reads programs, prints for each how its run ends within MAX
   steps: kind (u undefined, s spin-out, a neither), steps, state, color,
   marks, and state:step of the first blank tapes.  Only to choose which
   claims to put to the specification.                                    */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#define MS 12
#define MC 12
#define CELLS (1 << 22)

static int ns, nc;
static signed char P[MS][MC][3];
static unsigned char tape[CELLS];

static int readprog(char *s)
{
  int q = 0, h = 0;
  memset(P, -1, sizeof P);
  ns = nc = 0;
  while (*s && *s != '\n') {
    if (q >= MS || h >= MC) return 0;
    if (s[0] != '.') {
      P[q][h][0] = s[0] - '0'; P[q][h][1] = s[1] == 'R';
      P[q][h][2] = s[2] - 'A';
      if (P[q][h][0] >= MC || P[q][h][2] >= MS) return 0;
    }
    s += 3; h++;
    if (h > nc) nc = h;
    if (s[0] == ' ') { s++; if (s[0] == ' ') { s++; q++; h = 0; } }
  }
  ns = q + 1;
  return 1;
}

int main(int argc, char **argv)
{
  if (argc < 2) return 2;
  int max = atoi(argv[1]);
  static char line[4096];
  while (fgets(line, sizeof line, stdin)) {
    if (!readprog(line)) { printf("? 0 0 0 0 -\n"); continue; }
    int pos = CELLS / 2, lo = pos, hi = pos, q = 0, nz = 0, n, h = 0;
    char res = 'a';
    int first[MS], order[MS], no = 0;
    memset(first, -1, sizeof first);
    for (n = 0; n < max; n++) {
      h = tape[pos];
      signed char *i = P[q][h];
      if (i[0] < 0) { res = 'u'; break; }
      if (i[2] == q && h == 0) {
        int k = pos;
        if (i[1]) { while (k <= hi && !tape[k]) k++; if (k > hi) { res = 's'; break; } }
        else { while (k >= lo && !tape[k]) k--; if (k < lo) { res = 's'; break; } }
      }
      nz += (i[0] != 0) - (h != 0);
      tape[pos] = i[0];
      pos += i[1] ? 1 : -1;
      if (pos < lo) lo = pos;
      if (pos > hi) hi = pos;
      q = i[2];
      if (!nz && first[q] < 0) { first[q] = n + 1; order[no++] = q; }
      if (lo < 2 || hi > CELLS - 2) { n++; break; }
    }
    printf("%c %d %d %d %d ", res, n, q, h, nz);
    for (int k = 0; k < no; k++)
      printf("%s%d:%d", k ? "," : "", order[k], first[order[k]]);
    printf("%s\n", no ? "" : "-");
    memset(tape + lo, 0, hi - lo + 1);
  }
  return 0;
}
