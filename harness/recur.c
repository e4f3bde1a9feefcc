/* When the run of each program read repeats: it only chooses what to ask the
   specification about (see spec/Recur.tla); it decides nothing.
   recur MOST: per line one program; prints KIND CYCLE FROM, with KIND one of
   u undefined, s spins out, r repeats by then, a none of these.            */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#define MS 16
#define MC 12
#define MAXC 1024
#define W 4096

static signed char P[MS][MC][3];
static unsigned char tape[MAXC + 1][W];
static int pos[MAXC + 1], st[MAXC + 1];

static int readprog(char *s)
{
  int q = 0, h = 0;
  memset(P, -1, sizeof P);
  while (*s && *s != '\n') {
    if (q >= MS || h >= MC) return 0;
    if (s[0] != '.') { P[q][h][0] = s[0] - '0'; P[q][h][1] = s[1] == 'R';
                       P[q][h][2] = s[2] - 'A';
                       if (P[q][h][0] >= MC || P[q][h][2] >= MS) return 0; }
    s += 3; h++;
    if (s[0] == ' ') { s++; if (s[0] == ' ') { s++; q++; h = 0; } }
  }
  return 1;
}

static int repeats(int a, int b, int lo, int hi)
{
  if (st[a] != st[b] || tape[a][pos[a]] != tape[b][pos[b]]) return 0;
  int d = pos[b] - pos[a], x = 0, y = W - 1;
  if (d > 0) x = lo; else if (d < 0) y = hi;
  for (int k = x; k <= y; k++) {
    int m = k + d;
    if ((m < 0 || m >= W ? 0 : tape[b][m]) != tape[a][k]) return 0;
  }
  return 1;
}

int main(int argc, char **argv)
{
  int most = atoi(argv[1]);
  static char line[4096];
  if (most > MAXC) most = MAXC;
  while (fgets(line, sizeof line, stdin)) {
    char kind = 'a';
    int n = 1, from = 0;
    if (!readprog(line)) { printf("a 0 0\n"); continue; }
    memset(tape[1], 0, W);
    pos[1] = W / 2; st[1] = 1; tape[1][W / 2 - 1] = 1;
    int min = pos[1] - 1, max = pos[1];
    for (;; n++) {
      for (int lo = pos[n], hi = pos[n], a = n - 1; a >= 1; a--) {
        if (pos[a] < lo) lo = pos[a];
        if (pos[a] > hi) hi = pos[a];
        if (repeats(a, n, lo, hi)) { kind = 'r'; from = a; goto out; }
      }
      unsigned char *t = tape[n + 1];
      if (n >= most) break;
      memcpy(t, tape[n], W);
      int p = pos[n], q = st[n], h = t[p];
      signed char *i = P[q][h];
      if (i[0] < 0) { kind = 'u'; break; }
      if (h == 0 && i[2] == q) {
        int k = p;
        if (i[1]) { while (k <= max && !t[k]) k++; if (k > max) { kind = 's'; break; } }
        else { while (k >= min && !t[k]) k--; if (k < min) { kind = 's'; break; } }
      }
      do {
        t[p] = i[0];
        p += i[1] ? 1 : -1;
      } while (i[2] == q && p > 1 && p < W - 2 && t[p] == h);
      if (p <= 1 || p >= W - 2) break;
      if (p < min) min = p;
      if (p > max) max = p;
      pos[n + 1] = p; st[n + 1] = i[2];
    }
out:
    printf("%c %d %d\n", kind, n, from);
  }
  return 0;
}
