From 1c89e912143f572f19bfbc9176add4647abb1756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:42 +0000
Subject: [PATCH 01/10] fix: subtract, rather than add, when a rule shrinks a
 block

apply_plus used the magnitude of the diff for decreasing blocks too, so any
rule with two decreasing blocks grew the one that was not the minimum.
For example run_prover on '1RB 2RB 3LA 2RA  1LB 1LA 1LB 3RB' reported 8 marks
after 3000 cycles where the tape has 62.
---
 src/rules.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/rules.rs b/src/rules.rs
index 43a6fbf..3718bf2 100644
--- a/src/rules.rs
+++ b/src/rules.rs
@@ -170,9 +170,13 @@ pub fn apply_rule(
 }
 
 fn apply_plus(count: Count, diff: Diff, times: Count) -> Option<Count> {
-    let diff: Count = diff.unsigned_abs().into();
+    let absdiff: Count = diff.unsigned_abs().into();
 
-    let mult = diff.checked_mul(times)?;
+    let mult = absdiff.checked_mul(times)?;
 
-    Some(count + mult)
+    if diff < 0 {
+        count.checked_sub(mult)
+    } else {
+        Some(count + mult)
+    }
 }
-- 
2.43.0


From c5ff6625076dd75cb9a25c5d3961ed6c78798d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:51 +0000
Subject: [PATCH 02/10] fix: count states and colors that have no instruction
 in segment params

py_segment_cant_halt sized the program by its defined slots only, so a
program that prints a color or enters a state with no defined slot
panicked or was wrongly reported as unable to halt.
---
 src/lib.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5b6dcbf..cf7a5a4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -83,9 +83,12 @@ mod wrappers {
     ) -> Option<usize> {
         let prog = &CompProg::from_str(prog);
 
-        let (states, colors) = prog
-            .keys()
-            .fold((0, 0), |acc, &(a, b)| (acc.0.max(a), acc.1.max(b)));
+        let (states, colors) = prog.iter().fold(
+            (0, 0),
+            |acc, (&(ss, sc), &(ic, _, is))| {
+                (acc.0.max(ss).max(is), acc.1.max(sc).max(ic))
+            },
+        );
 
         let params = (1 + states, 1 + colors);
 
-- 
2.43.0


From c5da222e0d86801e4c1f2c281b90e6ea44d5a3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:51 +0000
Subject: [PATCH 03/10] fix: count states and colors that have no instruction
 in macro params

prog_params counted defined slots only, so a program that prints a color or
enters a state with no defined slot got too small a radix, and the macro
machine's encodings of distinct configurations collided.  For example
'1RB ...  1LA ...' with a backsymbol macro halted in state C.
---
 tm/macro.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/tm/macro.py b/tm/macro.py
index 097d68b..543ec3b 100644
--- a/tm/macro.py
+++ b/tm/macro.py
@@ -126,8 +126,17 @@ def prog_params(comp: GetInstr) -> Params:
     else:
         assert isinstance(comp, dict)
 
-        base_states = len(set(map(lambda s: s[0], comp)))
-        base_colors = len(set(map(lambda s: s[1], comp)))
+        base_states = 1 + max(
+            state
+            for (src, _), (_, _, dst) in comp.items()
+            for state in (src, dst)
+        )
+
+        base_colors = 1 + max(
+            color
+            for (_, scan), (pr, _, _) in comp.items()
+            for color in (scan, pr)
+        )
 
     return base_states, base_colors
 
-- 
2.43.0


From 033473708a884c7beeb3e3b187de5faea621c3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:51 +0000
Subject: [PATCH 04/10] fix: two wrong residues in Exp.__mod__

2 ** (4k) is 16 mod 30, not 15, and the powers of 3 mod 4 have period 2,
not 1, so that 3 ** (odd) is 3 mod 4, not 1.
---
 tm/num.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tm/num.py b/tm/num.py
index 20a4360..b53706a 100644
--- a/tm/num.py
+++ b/tm/num.py
@@ -901,7 +901,7 @@ class Exp(Num):
                             case 3:
                                 return 8
                             case 0:  # no-cover
-                                return 15
+                                return 16
                             case 1:  # no-cover
                                 return 2
                             case 2:  # no-cover
@@ -912,7 +912,7 @@ class Exp(Num):
                     return 3
 
                 if int(log_mod := log2(mod)) == log_mod:  # no-branch
-                    exp %= int(2 ** (int(log_mod) - 2))
+                    exp %= int(2 ** max(1, int(log_mod) - 2))
 
             case 6:
                 if mod == 10:  # no-branch
-- 
2.43.0


From 5d0f8f7135981e5bd1703f611e5901c9d2d64e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:06 +0000
Subject: [PATCH 05/10] fix: compare small powers and negative coefficients
 exactly

Comparisons assumed that every power exceeds every integer and every small
multiple of a smaller power, that coefficients are positive, and went
through float division.  For example 7 * 2**44 < 2**45, and
not (2**40 * 33 > -(2**60)), were answered the wrong way.
---
 tm/num.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/tm/num.py b/tm/num.py
index b53706a..2acb34f 100644
--- a/tm/num.py
+++ b/tm/num.py
@@ -586,7 +586,7 @@ class Mul(Num):
             lo, ro = other.l, other.r
 
             if l == lo:
-                return r < ro
+                return r < ro if l > 0 else ro < r
 
             if r == ro:
                 return l < lo
@@ -609,15 +609,15 @@ class Mul(Num):
 
                 if rexp < roexp:
                     if not isinstance(diff := roexp - rexp, int):  # no-branch
-                        return True  # no-cover
+                        return lo > 0  # no-cover
 
-                    return ceil(l / lo) <= (base ** diff)  # type: ignore[no-any-return]
+                    return l < lo * base ** diff  # type: ignore[no-any-return]
 
                 else:
                     if not isinstance(diff := rexp - roexp, int):  # no-branch
-                        return False  # no-cover
+                        return l < 0  # no-cover
 
-                    return ceil(lo / l) > (base ** diff)  # type: ignore[no-any-return]
+                    return l * base ** diff < lo  # type: ignore[no-any-return]
 
         if l < 0:
             if other < 0:  # no-cover
@@ -636,6 +636,12 @@ class Mul(Num):
 
         if isinstance(other, Exp):
             if 0 < l < 10:
+                if (isinstance(r, Exp)
+                        and r.base == other.base
+                        and isinstance(rexp := r.exp, int)
+                        and isinstance(oexp := other.exp, int)):
+                    return rexp < oexp and l < r.base ** (oexp - rexp)
+
                 return r < other
 
         if 0 < l and isinstance(r, Add) and r.l == -1 and r.r == other:
@@ -1124,11 +1130,15 @@ class Exp(Num):
         )
 
     def __lt__(self, other: Count) -> bool:
-        if isinstance(other, int):
-            return False
-
         base, exp = self.base, self.exp
 
+        if isinstance(other, int):
+            return (
+                isinstance(exp, int)
+                and exp < other.bit_length()
+                and base ** exp < other
+            )
+
         if isinstance(other, Exp):
             assert base == other.base
             return exp < other.exp
-- 
2.43.0


From 60d39e0e8614508966ffa24af8472f67b4fb6066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:22 +0000
Subject: [PATCH 06/10] fix: follow the renamed state and color in tree_norm

After swapping the state or color just reached with the next available
one, tree_norm went on simulating under the old name, and counted the old
name as the last one used.  The result was not in tree normal form: for
'1RB 1LC  1RD ...'-like programs the states were not numbered in the order
the machine enters them.
---
 tools/tree_norm.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/tools/tree_norm.py b/tools/tree_norm.py
index 4351abd..874ba63 100644
--- a/tools/tree_norm.py
+++ b/tools/tree_norm.py
@@ -17,13 +17,22 @@ def tree_norm(prog: str) -> str:
             avail_state += 1
         elif state > avail_state:
             norm.swap_states(state, avail_state)
-            avail_state = state
+            state = avail_state
+            avail_state += 1
 
         if (scan := tape.scan) == avail_color:
             avail_color += 1
         elif scan > avail_color:
             norm.swap_colors(scan, avail_color)
-            avail_color = scan
+
+            for block in tape.lspan + tape.rspan:
+                if block.color == scan:
+                    block.color = avail_color
+                elif block.color == avail_color:
+                    block.color = scan
+
+            tape.scan = scan = avail_color
+            avail_color += 1
 
         if (avail_state >= len(norm.states)
                 and avail_color >= len(norm.colors)):
-- 
2.43.0


From cffe00cef8d4990f1ad8ad62d8d27989eb5b38b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:19 +0000
Subject: [PATCH 07/10] fix: only claim a linear rule that explains every
 sample

---
 tm/rules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tm/rules.py b/tm/rules.py
index 6b007ad..9b56a0d 100644
--- a/tm/rules.py
+++ b/tm/rules.py
@@ -109,8 +109,8 @@ def calculate_diff(*counts: Count) -> Op | None:
 
     div_diff = count_2 - (count_1 * (1 + div))
 
-    if all(aft - (bef * (1 + divv)) == div_diff
-           for bef, aft, divv, _ in divmods):
+    if all(aft - (bef * (1 + div)) == div_diff
+           for bef, aft, _, _ in divmods):
         return 1 + div, div_diff
 
     for add, sub in POSSIBLE_RULE_PAIRS:
-- 
2.43.0


From 32fa2829d175a4ba31fc627066a555d7c11417b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:09 +0000
Subject: [PATCH 08/10] fix: add quotients with a common divisor over the right
 denominator

The case for denominators with a common divisor took the larger one
as a multiple of the smaller one: x // 8 + y // 6 came out as
(x + y) // 8.
---
 tm/num.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tm/num.py b/tm/num.py
index 2acb34f..9a441c0 100644
--- a/tm/num.py
+++ b/tm/num.py
@@ -725,7 +725,7 @@ class Div(Num):
         if den < oden:
             return other + self
 
-        if pgcd(den, oden) > 1:
+        if den % oden == 0:
             return (num + ((den // oden) * other.num)) // den
 
         return ((oden * num) + (den * other.num)) // (den * oden)
-- 
2.43.0


From ae5713307992ec385cd4a1aacbad4b2f11eb2c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:57 +0000
Subject: [PATCH 09/10] fix: order 3 * 2**(6 + x) after 2**(7 + x), and sums
 with a negative part

A small multiple of a power was ordered like the power when the
exponents are formulas, and a sum was taken to be at least its left
part even when its right part is negative.
---
 tm/num.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/tm/num.py b/tm/num.py
index 9a441c0..b4b959c 100644
--- a/tm/num.py
+++ b/tm/num.py
@@ -316,7 +316,7 @@ class Add(Num):
             if isinstance(l, int) and isinstance(lo, int):
                 return r < ro
 
-            if l < lo and r < lo:  # no-branch
+            if l < lo and r < lo and 0 < ro:  # no-branch
                 return True
 
         if other == r:
@@ -636,11 +636,12 @@ class Mul(Num):
 
         if isinstance(other, Exp):
             if 0 < l < 10:
-                if (isinstance(r, Exp)
-                        and r.base == other.base
-                        and isinstance(rexp := r.exp, int)
-                        and isinstance(oexp := other.exp, int)):
-                    return rexp < oexp and l < r.base ** (oexp - rexp)
+                if isinstance(r, Exp) and r.base == other.base:
+                    rint, rrest = split_int(r.exp)
+                    oint, orest = split_int(other.exp)
+
+                    if rrest == orest:
+                        return rint < oint and l < r.base ** (oint - rint)
 
                 return r < other
 
@@ -1302,6 +1303,16 @@ def add_exponents(
     return (l_co + (r_co * diff_exp)) * l_exp
 
 
+def split_int(num: Count) -> tuple[int, Num | None]:
+    if isinstance(num, int):
+        return num, None
+
+    if isinstance(num, Add) and isinstance(l := num.l, int):
+        return l, num.r
+
+    return 0, num
+
+
 def gcd(l: int, r: Count) -> int:
     if l == 1:  # no-cover
         return 1
-- 
2.43.0


From 6a256757fbe05271e4a07adab95b3a4fe27a5f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:44 +0000
Subject: [PATCH 10/10] fix: powers of large squares were taken to be powers of
 their roots

---
 tm/num.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tm/num.py b/tm/num.py
index b4b959c..e3a41c9 100644
--- a/tm/num.py
+++ b/tm/num.py
@@ -5,7 +5,7 @@ from __future__ import annotations
 
 import itertools
 from abc import abstractmethod
-from math import sqrt, floor, ceil, log, log2, log10, gcd as pgcd
+from math import isqrt, log, log2, log10, gcd as pgcd
 from functools import cache
 from collections import defaultdict
 
@@ -812,11 +812,11 @@ def make_exp(base: int, exp: Count) -> Exp:
             exp *= 3
             break
 
-        if floor(root := sqrt(base)) != ceil(root):
+        if (root := isqrt(base)) ** 2 != base:
             break
 
-        exp *= int(log(base, root))
-        base = int(root)
+        exp *= 2
+        base = root
 
     exps = EXPS[base]
 
-- 
2.43.0

