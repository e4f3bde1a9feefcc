/* Looks for rows of a displayed run in the run itself, to choose which rows
   to ask the specification about; it decides nothing.

   In: a line "PROGRAM|MAX|ROWS", rows separated by ';', each
   "STEP STATE SCAN LEFT RIGHT", sides "c^n,c^n" nearest first or "-".
   Out: "WHAT ROW AT END HOW", WHAT: ok (all met), lost (the machine ends
   without meeting row ROW, met the row before at step AT and ends at END),
   late (row ROW met at another step than said), far (not met in time).    */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>

typedef unsigned __int128 u128;
typedef uint64_t u64;
#define M ((1ull << 61) - 1)
static u64 mul(u64 a, u64 b)
{
  u128 p = (u128) a * b;
  u64 r = (u64) (p & M) + (u64) (p >> 61);
  return r >= M ? r - M : r;
}
static u64 add(u64 a, u64 b) { u64 r = a + b; return r >= M ? r - M : r; }
static u64 power(u64 a, u64 n)
{
  u64 r = 1;
  for (; n; n >>= 1, a = mul(a, a)) if (n & 1) r = mul(r, a);
  return r;
}

#define MS 26
#define MC 10
#define CELLS (1 << 22)
static int ns, nc;
static signed char P[MS][MC][3];
static unsigned char tape[CELLS];
static u64 B = 1099511627791ull, BI, BM1I;

static int readprog(char *s)
{
  int q = 0, h = 0;
  memset(P, -1, sizeof P);
  ns = nc = 0;
  while (*s) {
    if (q >= MS || h >= MC) return 0;
    if (s[0] != '.') { P[q][h][0] = s[0] - '0'; P[q][h][1] = s[1] == 'R';
                       P[q][h][2] = s[2] - 'A'; }
    s += 3; h++;
    if (h > nc) nc = h;
    if (s[0] == ' ') { s++; if (s[0] == ' ') { s++; q++; h = 0; } }
  }
  ns = q + 1;
  return 1;
}

/* hash of a side: sum of (color) * B^distance, nearest first */
static u64 side(char *s)
{
  u64 r = 0, at = 1;
  if (*s == '-') return 0;
  while (*s) {
    u64 c = strtoull(s, &s, 10), n = 1;
    if (*s == '^') n = strtoull(s + 1, &s, 10);
    u64 bn = power(B, n);
    /* c * at * (B^n - 1) / (B - 1) */
    r = add(r, mul(mul(mul(c, at), add(bn, M - 1)), BM1I));
    at = mul(at, bn);
    if (*s == ',') s++;
  }
  return r;
}

int main(void)
{
  static char line[1 << 24];
  BI = power(B, M - 2);
  BM1I = power(B - 1, M - 2);
  while (fgets(line, sizeof line, stdin)) {
    line[strcspn(line, "\n")] = 0;
    char *bar = strchr(line, '|'), *rows = strchr(bar + 1, '|');
    *bar = *rows = 0;
    rows++;
    long max = atol(bar + 1);
    if (!readprog(line)) { printf("far 0 0 0 -\n"); continue; }
    int pos = CELLS / 2, lo = pos, hi = pos, q = 0, k = 0;
    long n = 0, at = 0;
    u64 L = 0, R = 0;
    char how = 0;
    const char *what = 0;
    char *row = strtok(rows, ";");
    for (;;) {
      while (row) {
        long step; int st, sc, c;
        sscanf(row, "%ld %d %d %n", &step, &st, &sc, &c);
        char *l = row + c, *r = strchr(l, ' ');
        *r = 0;
        u64 hl = side(l), hr = side(r + 1);
        *r = ' ';
        /* on until the row is met */
        while (!(q == st && tape[pos] == sc && L == hl && R == hr)) {
          if (how || n >= max) break;
          int h = tape[pos];
          signed char *i = (q < ns && h < nc) ? P[q][h] : P[MS - 1][MC - 1];
          if (i[0] < 0) { how = 'u'; break; }
          if (i[2] == q && h == 0 && (i[1] ? R == 0 : L == 0)) {
            how = 's'; break; }
          tape[pos] = i[0];
          if (i[1]) {
            L = add(i[0], mul(L, B)); pos++;
            if (pos > hi) hi = pos;
            R = mul(add(R, M - tape[pos] % M), BI);
          } else {
            R = add(i[0], mul(R, B)); pos--;
            if (pos < lo) lo = pos;
            L = mul(add(L, M - tape[pos] % M), BI);
          }
          q = i[2];
          n++;
          if (lo < 2 || hi > CELLS - 3) max = n;
        }
        if (!(q == st && tape[pos] == sc && L == hl && R == hr)) {
          what = how ? "lost" : "far"; break; }
        if (step >= 0 && step != n) { what = "late"; break; }
        at = n; k++;
        row = strtok(0, ";");
      }
      break;
    }
    printf("%s %d %ld %ld %c\n", what ? what : "ok", k, at, n,
           how ? how : '-');
    memset(tape + lo, 0, hi - lo + 1);
  }
  return 0;
}
