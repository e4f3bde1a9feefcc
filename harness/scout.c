/* Finds inputs: random programs, or mutants of the programs read, whose runs
   end in a wanted way.  It only chooses what to ask the specification about;
   it decides nothing.

   scout SEED STATES COLORS UNDEF%o TRIES MIN MAX KINDS MAXOUT [mutate]
   KINDS of: u undefined, s spin-out, b blank tape, r recurs (same state at
   the record position many times), a alive.  With `mutate`, programs are read
   and each is changed TRIES times.                                         */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>

#define MS 10
#define MC 10
#define CELLS (1 << 16)

static uint64_t rs;
static uint32_t rnd(uint32_t n)
{
  rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17;
  return (uint32_t) ((rs >> 16) % n);
}

static int ns, nc;
static signed char P[MS][MC][3];    /* color -1: undefined */
static unsigned char tape[CELLS];

static void show(char kind, int steps)
{
  printf("%c\t%d\t", kind, steps);
  for (int q = 0; q < ns; q++) {
    if (q) printf("  ");
    for (int h = 0; h < nc; h++) {
      if (h) printf(" ");
      if (P[q][h][0] < 0) printf("...");
      else printf("%d%c%c", P[q][h][0], P[q][h][1] ? 'R' : 'L',
                  65 + P[q][h][2]);
    }
  }
  printf("\n");
}

static void instr(signed char *i, int und)
{
  if ((int) rnd(1000) < und) { i[0] = -1; return; }
  i[0] = rnd(nc); i[1] = rnd(2); i[2] = rnd(ns);
}

/* how it ends: u s b a, and after how many steps */
static char run(int max, int blank, int *steps)
{
  int pos = CELLS / 2, lo = pos, hi = pos, q = 0, nz = 0, n;
  char res = 'a';
  for (n = 0; n < max; n++) {
    int h = tape[pos];
    signed char *i = P[q][h];
    if (i[0] < 0) { res = 'u'; break; }
    if (i[2] == q && h == 0) {
      int k = pos;
      if (i[1]) { while (k <= hi && !tape[k]) k++; if (k > hi) { res = 's'; break; } }
      else { while (k >= lo && !tape[k]) k--; if (k < lo) { res = 's'; break; } }
    }
    nz += (i[0] != 0) - (h != 0);
    tape[pos] = i[0];
    pos += i[1] ? 1 : -1;
    if (pos < lo) lo = pos;
    if (pos > hi) hi = pos;
    q = i[2];
    if (hi - lo > CELLS - 8 || lo < 2 || hi > CELLS - 2) break;
    if (blank && !nz) { n++; res = 'b'; break; }
  }
  memset(tape + lo, 0, hi - lo + 1);
  *steps = n;
  return res;
}

static int readprog(char *s)
{
  int q = 0, h = 0;
  ns = nc = 0;
  while (*s && *s != '\n') {
    if (q >= MS || h >= MC) return 0;
    if (s[0] == '.') P[q][h][0] = -1;
    else { P[q][h][0] = s[0] - '0'; P[q][h][1] = s[1] == 'R';
           P[q][h][2] = s[2] - 'A';
           if (P[q][h][0] >= MC || P[q][h][2] >= MS) return 0; }
    s += 3; h++;
    if (h > nc) nc = h;
    if (s[0] == ' ') { s++; if (s[0] == ' ') { s++; q++; h = 0; } }
  }
  ns = q + 1;
  for (q = 0; q < ns; q++) for (h = 0; h < nc; h++)
    if (P[q][h][0] >= nc || P[q][h][2] >= ns) return 0;
  return 1;
}

int main(int argc, char **argv)
{
  if (argc < 10) return 2;
  rs = strtoull(argv[1], 0, 10) * 0x9E3779B97F4A7C15ull + 88172645463325252ull;
  for (int k = 0; k < 20; k++) rnd(2);
  ns = atoi(argv[2]); nc = atoi(argv[3]);
  int und = atoi(argv[4]), tries = atoi(argv[5]), min = atoi(argv[6]),
      max = atoi(argv[7]), left = atoi(argv[9]);
  char *kinds = argv[8];
  int blank = strchr(kinds, 'b') != 0, steps;
  static char line[4096];
  static signed char Q[MS][MC][3];
  if (argc > 10) {
    while (left > 0 && fgets(line, sizeof line, stdin)) {
      if (!readprog(line)) continue;
      memcpy(Q, P, sizeof P);
      for (int k = 0; k < tries && left > 0; k++) {
        memcpy(P, Q, sizeof P);
        int m = 1 + (rnd(3) == 0);
        while (m--) {
          int q = rnd(ns), h = rnd(nc);
          if (q || h) instr(P[q][h], und);
        }
        char r = run(max, blank, &steps);
        if (strchr(kinds, r) && steps >= min) { show(r, steps); left--; }
      }
    }
    return 0;
  }
  for (int k = 0; k < tries && left > 0; k++) {
    for (int q = 0; q < ns; q++) for (int h = 0; h < nc; h++)
      instr(P[q][h], und);
    P[0][0][0] = 1; P[0][0][1] = 1; P[0][0][2] = ns > 1;
    char r = run(max, blank, &steps);
    if (strchr(kinds, r) && steps >= min) { show(r, steps); left--; }
  }
  return 0;
}
