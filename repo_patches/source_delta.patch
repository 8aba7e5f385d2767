From dc753c4d22e45357ce2d05614450109fb3add96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:52:13 +0000
Subject: [PATCH 01/79] fix: guard quotient digit correction in BigInteger long
 division against overflow

The correction tests of the long division shifted rhat by one limb even when rhat
did not fit into a limb. The shift overflowed and the quotient digit was lowered
although it was already correct, e.g. for 0xfffffffe97535abffffffffe // 0xffffffffffffffff.
---
 .../arithmetic/jasp_arithmetic/jasp_bigintiger.py           | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_bigintiger.py b/src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_bigintiger.py
index feefe67..7644447 100644
--- a/src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_bigintiger.py
+++ b/src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_bigintiger.py
@@ -1227,14 +1227,16 @@ def _remainder_division_knuth(u: jnp.ndarray, v: jnp.ndarray) -> tuple[jnp.ndarr
                         vm2 = jnp.uint64(v_norm[m - 2])
                         u0 = jnp.uint64(u_norm[ujm - 2])
 
+                        # The correction tests only apply as long as rhat fits into one limb:
+                        # for larger rhat, (rhat << 32) would overflow and qhat is not too large.
                         cond1 = jnp.logical_and(
-                            qhat == jnp.uint64(0xFFFFFFFF),
+                            jnp.logical_and(qhat == jnp.uint64(0xFFFFFFFF), rhat < BASE64),
                             qhat * vm2 > (rhat << jnp.uint64(32)) + u0,
                         )
                         qhat = jnp.where(cond1, qhat - jnp.uint64(1), qhat)
                         rhat = jnp.where(cond1, rhat + den, rhat)
 
-                        cond2 = qhat * vm2 > (rhat << jnp.uint64(32)) + u0
+                        cond2 = jnp.logical_and(rhat < BASE64, qhat * vm2 > (rhat << jnp.uint64(32)) + u0)
                         qhat = jnp.where(cond2, qhat - jnp.uint64(1), qhat)
                         rhat = jnp.where(cond2, rhat + den, rhat)
 
-- 
2.43.0


From 85b6ff3814563c8cd5108bb1fe063b66b050074f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:52:13 +0000
Subject: [PATCH 02/79] fix: compute BigInteger.bit_size with integer
 arithmetic

The floating point logarithm is not exact for some powers of two, so that
for instance the bit size of 4096 was reported as 12 instead of 13.
---
 .../arithmetic/jasp_arithmetic/jasp_bigintiger.py               | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_bigintiger.py b/src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_bigintiger.py
index 7644447..8cfe3c8 100644
--- a/src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_bigintiger.py
+++ b/src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_bigintiger.py
@@ -909,7 +909,7 @@ class BigInteger:
             ms = lax.while_loop(cond_fun, body_fun, n - 1)
             limb = self.digits[ms]
             # bit length of a 32-bit limb
-            limb_bits = jnp.floor(jnp.log2(jnp.float64(limb))).astype(jnp.int64) + 1
+            limb_bits = jnp.int64(32) - jnp.int64(_clz32(limb))
             return jnp.int64(32) * jnp.int64(ms) + limb_bits
 
         return lax.cond(is_zero, lambda: jnp.int64(0), nonzero_len)
-- 
2.43.0


From 81738a94c4d71db9fdcad629f003f8f03f105b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:56:33 +0000
Subject: [PATCH 03/79] fix: make the BigInteger continued fraction loop
 runnable

The loop body was called with a single state tuple, jax.lax.select was applied to
BigIntegers and the unbounded limit was built inside a jitted function, so every call raised a TypeError.
---
 .../jasp_arithmetic/jasp_bigintiger.py        | 28 +++++++++++--------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_bigintiger.py b/src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_bigintiger.py
index 8cfe3c8..5b15025 100644
--- a/src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_bigintiger.py
+++ b/src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_bigintiger.py
@@ -1528,7 +1528,11 @@ def bi_montgomery_decode(x_mon: BigInteger, R: BigInteger, modulus: BigInteger)
     return BigInteger(rem2.digits[:n])
 
 
-@jax.jit
+def _bi_select(pred, x: BigInteger, y: BigInteger) -> BigInteger:
+    """Internal: x if pred else y."""
+    return BigInteger(jnp.where(pred, x.digits, y.digits))
+
+
 def _bi_all_ones(n_limbs: int) -> BigInteger:
     """Internal: BigInteger with all digits set to 0xFFFFFFFF (acts like +infinity bound).
 
@@ -1646,21 +1650,21 @@ def bi_contfrac_best_approx(
         q_bound = t * q1 + q0
 
         # Choose final result when done at this step
-        sel_p = jax.lax.select(exceed, p_bound, pn)
-        sel_q = jax.lax.select(exceed, q_bound, qn)
+        sel_p = _bi_select(exceed, p_bound, pn)
+        sel_q = _bi_select(exceed, q_bound, qn)
 
         # Update result slots if we finish now
-        res_p_next = jax.lax.select(jnp.logical_or(exceed, exact_end), sel_p, res_p)
-        res_q_next = jax.lax.select(jnp.logical_or(exceed, exact_end), sel_q, res_q)
+        res_p_next = _bi_select(jnp.logical_or(exceed, exact_end), sel_p, res_p)
+        res_q_next = _bi_select(jnp.logical_or(exceed, exact_end), sel_q, res_q)
         done_next = jnp.logical_or(done, jnp.logical_or(exceed, exact_end))
 
         # Prepare state for next iteration (if not done)
-        a_next = jax.lax.select(done_next, a0, b0)
-        b_next = jax.lax.select(done_next, b0, rem)
-        p0_next = jax.lax.select(done_next, p0, p1)
-        p1_next = jax.lax.select(done_next, p1, pn)
-        q0_next = jax.lax.select(done_next, q0, q1)
-        q1_next = jax.lax.select(done_next, q1, qn)
+        a_next = _bi_select(done_next, a0, b0)
+        b_next = _bi_select(done_next, b0, rem)
+        p0_next = _bi_select(done_next, p0, p1)
+        p1_next = _bi_select(done_next, p1, pn)
+        q0_next = _bi_select(done_next, q0, q1)
+        q1_next = _bi_select(done_next, q1, qn)
         i_next = i + jnp.int32(1)
         return (
             a_next,
@@ -1682,7 +1686,7 @@ def bi_contfrac_best_approx(
 
     # Initial CF state: p[-2]=0, p[-1]=1; q[-2]=1, q[-1]=0
     init_state = (a, b, bi0, bi1, bi1, bi0, bi0, bi1, jnp.bool_(False), jnp.int32(0))
-    final_state = lax.while_loop(cond_fn, _loop, init_state)
+    final_state = lax.while_loop(cond_fn, lambda state: _loop(*state), init_state)
     _, _, _, _, _, _, out_p, out_q, _, _ = final_state
     return out_p, out_q
 
-- 
2.43.0


From 70ab670929df481433ebb0eb8dbab70ed7fcf96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:07:49 +0000
Subject: [PATCH 04/79] fix: make the carry-out of the controlled Cuccaro adder
 depend on the control

---
 src/qrisp/alg_primitives/arithmetic/adders/cuccaro_adder.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/adders/cuccaro_adder.py b/src/qrisp/alg_primitives/arithmetic/adders/cuccaro_adder.py
index dade943..a3710a4 100644
--- a/src/qrisp/alg_primitives/arithmetic/adders/cuccaro_adder.py
+++ b/src/qrisp/alg_primitives/arithmetic/adders/cuccaro_adder.py
@@ -152,7 +152,10 @@ def cuccaro_adder(
 
     # cnot
     if c_out is not None:
-        cx(a[-1], ancilla2)
+        if ctrl is None:
+            cx(a[-1], ancilla2)
+        else:
+            mcx([ctrl, a[-1]], ancilla2)
 
     if ctrl is None:
         # iterator uma gate application
-- 
2.43.0


From 5049143ce4b94f4e1be13108ea959fc4c2527201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:07:49 +0000
Subject: [PATCH 05/79] fix: let the Remaud adder slice plain qubit lists of
 width 8 and above

---
 src/qrisp/alg_primitives/arithmetic/adders/remaud.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/adders/remaud.py b/src/qrisp/alg_primitives/arithmetic/adders/remaud.py
index b800b65..809a716 100644
--- a/src/qrisp/alg_primitives/arithmetic/adders/remaud.py
+++ b/src/qrisp/alg_primitives/arithmetic/adders/remaud.py
@@ -177,7 +177,7 @@ def ladder2_synth_jax(x, y, method="khattar"):
         for i in jrange(1, ((N >> (k + 1)) + 1) // 2 - 1):
             mcx(
                 x[X_prime_func(2 * i - 1, k, N >> k)]
-                + y.reg[X_prime_func(2 * i - 1, k, N >> k) : X_prime_func(2 * i, k, N >> k)],
+                + y[X_prime_func(2 * i - 1, k, N >> k) : X_prime_func(2 * i, k, N >> k)],
                 x[X_prime_func(2 * i, k, N >> k)],
                 method=method,
             )
@@ -206,7 +206,7 @@ def ladder2_synth_jax(x, y, method="khattar"):
             for i in jrange(1, ((N >> (k + 1)) + 1) // 2 - 1):
                 mcx(
                     x[X_prime_func(2 * i, k, N >> k)]
-                    + y.reg[X_prime_func(2 * i, k, N >> k) : X_prime_func(2 * i + 1, k, N >> k)],
+                    + y[X_prime_func(2 * i, k, N >> k) : X_prime_func(2 * i + 1, k, N >> k)],
                     x[X_prime_func(2 * i + 1, k, N >> k)],
                     method=method,
                 )
-- 
2.43.0


From 215b9121d228efb26837076aef93d465915d939f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:11:03 +0000
Subject: [PATCH 06/79] fix: keep the controlled Gidney adder free of relative
 phases

---
 .../arithmetic/adders/gidney_adder.py         | 23 +++++++++++++++----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/adders/gidney_adder.py b/src/qrisp/alg_primitives/arithmetic/adders/gidney_adder.py
index bcdefe7..b6062f2 100644
--- a/src/qrisp/alg_primitives/arithmetic/adders/gidney_adder.py
+++ b/src/qrisp/alg_primitives/arithmetic/adders/gidney_adder.py
@@ -125,6 +125,19 @@ def _apply_x_bit(target, ctrl=None):
         x(target)
 
 
+def _apply_controlled_cx(ctrl, source, target):
+    """XOR ``ctrl AND source`` onto a (possibly non-zero) target qubit.
+
+    Gidney's logical AND is only phase-exact on a clean target, so the AND is
+    computed into a temporary qubit, copied and uncomputed.
+    """
+    and_anc = QuantumVariable(1, name="gidney_ctrl_anc*")
+    mcx([ctrl, source], and_anc[0], method="gidney")
+    cx(and_anc[0], target)
+    mcx([ctrl, source], and_anc[0], method="gidney_inv")
+    and_anc.delete()
+
+
 def _apply_classical_carry_chain(gidney_anc, b_qbs, n, a_int, ctrl):
     """Apply carry-chain phases for classical input values.
 
@@ -267,9 +280,9 @@ def _apply_quantum_carry_chain(gidney_anc, a_qbs, b_qbs, n, c_in_qb, c_out_qb, c
     # MSB carry-out and sum.
     # The carry from position n-2 toggles b_qbs[n-1].
     if ctrl is not None:
-        mcx([ctrl, gidney_anc[n - 2]], b_qbs[n - 1], method="gidney")
+        _apply_controlled_cx(ctrl, gidney_anc[n - 2], b_qbs[n - 1])
         if c_out_qb is None:
-            mcx([ctrl, a_qbs[n - 1]], b_qbs[n - 1], method="gidney")
+            _apply_controlled_cx(ctrl, a_qbs[n - 1], b_qbs[n - 1])
     # When c_out_qb is None:  b_qbs[n-1] is b's MSB
     #   — both the carry and a_qbs[n-1] contribute (full b += a).
     # When c_out_qb is not None:  c_out_qb was appended to b_qbs,
@@ -290,7 +303,7 @@ def _apply_quantum_carry_chain(gidney_anc, a_qbs, b_qbs, n, c_in_qb, c_out_qb, c
         if ctrl is not None:
             # ctrl is already in the qubit list, so CustomControlEnvironment
             # takes the targeting_control=True path (no double-add).
-            mcx([ctrl, a_qbs[i]], b_qbs[i], method="gidney")
+            _apply_controlled_cx(ctrl, a_qbs[i], b_qbs[i])
             cx(gidney_anc[i - 1], a_qbs[i])
             cx(gidney_anc[i - 1], b_qbs[i])
         else:
@@ -484,7 +497,7 @@ def gidney_adder(
     if c_in_qb is not None:
         with control(n <= 1):
             if ctrl is not None:
-                mcx([ctrl, c_in_qb], b_qbs[0], method="gidney")
+                _apply_controlled_cx(ctrl, c_in_qb, b_qbs[0])
             else:
                 cx(c_in_qb, b_qbs[0])
 
@@ -498,7 +511,7 @@ def gidney_adder(
     # The carry chain handles positions 1 .. n-1; the least-significant
     # bit is the only remaining XOR not yet performed.
     if ctrl is not None:
-        mcx([ctrl, a_qbs[0]], b_qbs[0], method="gidney")
+        _apply_controlled_cx(ctrl, a_qbs[0], b_qbs[0])
     else:
         cx(a_qbs[0], b_qbs[0])
 
-- 
2.43.0


From 7eca82e3cc855afb818fd6c4d3eeb39444a8960a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:12:42 +0000
Subject: [PATCH 07/79] fix: repair the look-ahead adder without T-depth
 reduction for unequal widths and radix one

---
 .../adders/qcla/classical_quantum/cq_sum_path.py |  9 ++++++---
 .../adders/qcla/quantum_quantum/qq_qcla_adder.py |  2 +-
 .../adders/qcla/quantum_quantum/qq_sum_path.py   | 16 ++++++----------
 3 files changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/adders/qcla/classical_quantum/cq_sum_path.py b/src/qrisp/alg_primitives/arithmetic/adders/qcla/classical_quantum/cq_sum_path.py
index d8fe76e..13458bd 100644
--- a/src/qrisp/alg_primitives/arithmetic/adders/qcla/classical_quantum/cq_sum_path.py
+++ b/src/qrisp/alg_primitives/arithmetic/adders/qcla/classical_quantum/cq_sum_path.py
@@ -40,11 +40,14 @@ def cq_sum_path(a, b, c, R, ctrl=None):
         # https://arxiv.org/abs/quant-ph/0406142
         # We can use the formula
         # S = A (+) B (+) C
-        cx(c[:-1], b[1:])
+        cx(c, b[1:])
 
         for i in range(len(a)):
             if a[i] == "1":
-                x(b)
+                if ctrl is None:
+                    x(b[i])
+                else:
+                    cx(ctrl, b[i])
     else:
         # Execute addition using the corresponding carry values
         for i in range(len(c) + 1):
@@ -56,7 +59,7 @@ def cq_sum_path(a, b, c, R, ctrl=None):
                 gidney_adder(a_block, b_block, ctrl=ctrl)
             elif a_block != len(a_block) * "0":
                 gidney_adder(a_block, b_block, c_in=c[i - 1], ctrl=ctrl)
-            elif not check_if_fresh([c[i - 1]], c[i - 1].qs()):
+            elif i != 0 and not check_if_fresh([c[i - 1]], c[i - 1].qs()):
                 lin_incr(b_block, c_in=c[i - 1])
 
 
diff --git a/src/qrisp/alg_primitives/arithmetic/adders/qcla/quantum_quantum/qq_qcla_adder.py b/src/qrisp/alg_primitives/arithmetic/adders/qcla/quantum_quantum/qq_qcla_adder.py
index d1337ec..86bb9af 100644
--- a/src/qrisp/alg_primitives/arithmetic/adders/qcla/quantum_quantum/qq_qcla_adder.py
+++ b/src/qrisp/alg_primitives/arithmetic/adders/qcla/quantum_quantum/qq_qcla_adder.py
@@ -84,7 +84,7 @@ def qq_qcla(a, b, radix_base=2, radix_exponent=1, t_depth_reduction=True):
         x(b)
 
     # In the case R = 1 we can use automatic uncomputation which seems to perform better
-    if R == 1:
+    if R == 1 and t_depth_reduction:
         c.uncompute()
         return
     # Delete c
diff --git a/src/qrisp/alg_primitives/arithmetic/adders/qcla/quantum_quantum/qq_sum_path.py b/src/qrisp/alg_primitives/arithmetic/adders/qcla/quantum_quantum/qq_sum_path.py
index 5308fe1..f791e79 100644
--- a/src/qrisp/alg_primitives/arithmetic/adders/qcla/quantum_quantum/qq_sum_path.py
+++ b/src/qrisp/alg_primitives/arithmetic/adders/qcla/quantum_quantum/qq_sum_path.py
@@ -19,7 +19,7 @@ def qq_sum_path(a, b, c, R):
         # https://arxiv.org/abs/quant-ph/0406142
         # We can use the formula
         # S = A (+) B (+) C
-        cx(c[:-1], b[1:])
+        cx(c, b[1:])
         cx(a, b[: len(a)])
     else:
         i = 0
@@ -39,6 +39,7 @@ def qq_sum_path(a, b, c, R):
 
             # If a_block and b_block have different sizes, we create a padding
             # variable to fill up the remaining entries
+            padding_var = None
             if not len(a_block) == len(b_block):
                 padding_var = QuantumVariable(len(b_block) - len(a_block))
                 a_block = a_block + list(padding_var)
@@ -51,11 +52,9 @@ def qq_sum_path(a, b, c, R):
                 # cuccaro_procedure(a.qs, a_block, b_block, carry_in = c[i-1])
                 gidney_adder(a_block, b_block, c[i - 1])
 
-            # Delete carry var
-            try:
-                padding_var.delete(verify=bool(verify_manual_uncomputations[0]))
-            except NameError:
-                pass
+            # Delete padding var
+            if padding_var is not None:
+                padding_var.delete(verify=False)
 
         # This loop treats the case that len(a) != len(b)
         # In this case we need to perform the increment function on the remaining
@@ -68,10 +67,7 @@ def qq_sum_path(a, b, c, R):
                 continue
 
             # Perform incrementation function
-            if R * j == 0:
-                lin_incr(b_block, c_out=c[j])
-            else:
-                lin_incr(b_block, c_in=c[j - 1], c_out=c[j])
+            lin_incr(b_block, c_in=c[j - 1])
 
 
 # This function is a version of the sum path that requires no uncomputation after
-- 
2.43.0


From d4d5fac4537bae32c69198899def77a603236059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:17:15 +0000
Subject: [PATCH 08/79] fix: honour carry-out and controlled carry-in of the
 venting adder for wide registers

---
 .../arithmetic/adders/gidney_venting_adder.py | 29 ++++++++++++++++---
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/adders/gidney_venting_adder.py b/src/qrisp/alg_primitives/arithmetic/adders/gidney_venting_adder.py
index f87f1c9..69b4880 100644
--- a/src/qrisp/alg_primitives/arithmetic/adders/gidney_venting_adder.py
+++ b/src/qrisp/alg_primitives/arithmetic/adders/gidney_venting_adder.py
@@ -781,6 +781,10 @@ def gidney_cq_venting_adder(
     from qrisp.jasp.program_control.prefix_control import q_cond
 
     num_targets = jlen(target)
+    if c_out is not None:
+        # The carry-out is the most significant bit of the extended register.
+        d = d & ((1 << num_targets) - 1)
+        num_targets = num_targets + 1
     n_half = (num_targets - 1) >> 1
 
     # ---- Path selection ---------------------------------------------------
@@ -821,6 +825,20 @@ def gidney_cq_venting_adder(
         corrected by a CZ sandwich with two carry_xor passes (Fig. 3).
         n_half, d_lo, and d_hi are closed over from the outer scope.
         """
+        if c_out is not None:
+            target = target[:] + c_out[:]
+
+        # The carry-in may only be added if the control is active.
+        if c_in is not None and ctrl is not None:
+            try:
+                carry_in = c_in[0]
+            except (TypeError, AttributeError, IndexError):
+                carry_in = c_in
+            effective_c_in = QuantumBool()
+            mcx([ctrl, carry_in], effective_c_in[0])
+        else:
+            effective_c_in = c_in
+
         clean0 = clean_anc[0]  # mid-carry ancilla (clean0 in paper notation)
 
         # Step 1: Place clean0 into target[n_half].
@@ -834,7 +852,7 @@ def gidney_cq_venting_adder(
         # Step 2: Vented addition on bottom half (Fig. 2).
         # carry_venting_adder vents carries in the X-basis and returns
         # an integer ventmask whose k-th bit holds the k-th vent outcome.
-        ventmask_lo, _ = carry_venting_adder(d_lo, target[: n_half + 1], clean_anc[1:], c_in=c_in, ctrl=ctrl)
+        ventmask_lo, _ = carry_venting_adder(d_lo, target[: n_half + 1], clean_anc[1:], c_in=effective_c_in, ctrl=ctrl)
 
         # Step 3: Swap clean0 back out — clean0 now holds the carry into
         # the top half (the carry out of the bottom half).
@@ -852,7 +870,6 @@ def gidney_cq_venting_adder(
             ancilla=clean_anc[1:],
             c_in=clean0,
             ctrl=ctrl,
-            c_out=c_out,
         )
 
         # Step 5: MX measurement on clean0 (X-basis: H then Z-measurement).
@@ -881,17 +898,21 @@ def gidney_cq_venting_adder(
             with control((full_ventmask >> k) & 1):
                 z(workspace[k])
         # 6c — First carry_xor pass (second-pass carries into workspace)
-        carry_xor_block(d_lo, workspace, bottom, c_in, ctrl=ctrl)
+        carry_xor_block(d_lo, workspace, bottom, effective_c_in, ctrl=ctrl)
         # 6d — CZ again
         for k in jrange(n_half):
             with control((full_ventmask >> k) & 1):
                 z(workspace[k])
         # 6e — Second carry_xor pass (restore workspace)
-        carry_xor_block(d_lo, workspace, bottom, c_in, ctrl=ctrl)
+        carry_xor_block(d_lo, workspace, bottom, effective_c_in, ctrl=ctrl)
         # 6f — Restore bottom half: NOT cancels the complement from 6a
         for i in jrange(n_half):
             x(bottom[i])
 
+        if c_in is not None and ctrl is not None:
+            mcx([ctrl, carry_in], effective_c_in[0])
+            effective_c_in.delete()
+
         clean_anc.delete()
 
     # initialize 3 clean ancillae
-- 
2.43.0


From d81d1dbc94e23807ea02149bfaaee8eba73d6bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:23:09 +0000
Subject: [PATCH 09/79] fix: control the carry-in free phase correction of the
 venting adder

---
 .../arithmetic/adders/gidney_venting_adder.py | 41 +++++++++++++++++--
 1 file changed, 37 insertions(+), 4 deletions(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/adders/gidney_venting_adder.py b/src/qrisp/alg_primitives/arithmetic/adders/gidney_venting_adder.py
index 69b4880..2347fe1 100644
--- a/src/qrisp/alg_primitives/arithmetic/adders/gidney_venting_adder.py
+++ b/src/qrisp/alg_primitives/arithmetic/adders/gidney_venting_adder.py
@@ -23,7 +23,7 @@ from typing import TYPE_CHECKING
 import jax.numpy as jnp
 from jax.numpy import bitwise_count
 
-from qrisp import QuantumVariable, cx, h, mcx, measure, reset, x, z
+from qrisp import QuantumVariable, cx, cz, h, mcx, measure, reset, x, z
 from qrisp.environments import control, custom_control
 from qrisp.jasp import check_for_tracing_mode
 from qrisp.qtypes import QuantumBool
@@ -231,6 +231,7 @@ def carry_venting_adder(
     ctrl: QuantumVariable | None = None,
     vent_final: bool = True,
     c_out: QuantumBool | None = None,
+    first_carry_target: QuantumVariable | None = None,
 ) -> tuple[int, int]:
     r"""Fig. 2 — carry-venting CQ in-place adder.
 
@@ -341,6 +342,10 @@ def carry_venting_adder(
         cx(clean_anc[1], carry_xor_target[carry_xor_cnt])
         carry_xor_cnt = carry_xor_cnt + 1
 
+    # Keep a copy of the carry into bit 1 (needed by the controlled phase correction)
+    if first_carry_target is not None:
+        cx(clean_anc[1], first_carry_target[0])
+
     # Vent clean_anc[1] (carry into bit 1) — X-basis measurement
     h(clean_anc[1])
     m0 = measure(clean_anc[1])
@@ -498,6 +503,7 @@ def carry_xor_block(
     target: QuantumVariable,
     c_in: QuantumBool | None = None,
     ctrl: QuantumVariable | None = None,
+    first_carry: QuantumVariable | None = None,
 ) -> None:
     """Fig. 3 — carry-XOR block: second pass of the two-pass phase correction.
 
@@ -556,6 +562,11 @@ def carry_xor_block(
     if carry_in is not None:
         d0 = _extract_bit(d, 0)
         bit_inverted_zz_zz_mcx(carry_in, target[0], dirty_ancillas[0], d0, ctrl=ctrl)
+    elif first_carry is not None:
+        # The flip above already applied d_0 to dirty_ancillas[0]
+        cx(first_carry[0], dirty_ancillas[0])
+        with control(_extract_bit(d, 0)):
+            cx(ctrl, dirty_ancillas[0])
     else:
         d0 = _extract_bit(d, 0)
         with control(d0):
@@ -839,6 +850,10 @@ def gidney_cq_venting_adder(
         else:
             effective_c_in = c_in
 
+        # Without a carry-in, the first carry is ctrl AND d_0 AND target[0]. A copy of it
+        # is kept for the phase correction, since the control must not be ignored there.
+        first_carry = QuantumVariable(1) if c_in is None and ctrl is not None else None
+
         clean0 = clean_anc[0]  # mid-carry ancilla (clean0 in paper notation)
 
         # Step 1: Place clean0 into target[n_half].
@@ -852,7 +867,14 @@ def gidney_cq_venting_adder(
         # Step 2: Vented addition on bottom half (Fig. 2).
         # carry_venting_adder vents carries in the X-basis and returns
         # an integer ventmask whose k-th bit holds the k-th vent outcome.
-        ventmask_lo, _ = carry_venting_adder(d_lo, target[: n_half + 1], clean_anc[1:], c_in=effective_c_in, ctrl=ctrl)
+        ventmask_lo, _ = carry_venting_adder(
+            d_lo,
+            target[: n_half + 1],
+            clean_anc[1:],
+            c_in=effective_c_in,
+            ctrl=ctrl,
+            first_carry_target=first_carry,
+        )
 
         # Step 3: Swap clean0 back out — clean0 now holds the carry into
         # the top half (the carry out of the bottom half).
@@ -898,17 +920,28 @@ def gidney_cq_venting_adder(
             with control((full_ventmask >> k) & 1):
                 z(workspace[k])
         # 6c — First carry_xor pass (second-pass carries into workspace)
-        carry_xor_block(d_lo, workspace, bottom, effective_c_in, ctrl=ctrl)
+        carry_xor_block(d_lo, workspace, bottom, effective_c_in, ctrl=ctrl, first_carry=first_carry)
         # 6d — CZ again
         for k in jrange(n_half):
             with control((full_ventmask >> k) & 1):
                 z(workspace[k])
         # 6e — Second carry_xor pass (restore workspace)
-        carry_xor_block(d_lo, workspace, bottom, effective_c_in, ctrl=ctrl)
+        carry_xor_block(d_lo, workspace, bottom, effective_c_in, ctrl=ctrl, first_carry=first_carry)
         # 6f — Restore bottom half: NOT cancels the complement from 6a
         for i in jrange(n_half):
             x(bottom[i])
 
+        if first_carry is not None:
+            # Measurement based uncomputation of ctrl AND d_0 AND (NOT target[0])
+            h(first_carry[0])
+            m_first = measure(first_carry[0])
+            reset(first_carry[0])
+            with control(m_first & _extract_bit(d_lo, 0)):
+                x(target[0])
+                cz(ctrl, target[0])
+                x(target[0])
+            first_carry.delete()
+
         if c_in is not None and ctrl is not None:
             mcx([ctrl, carry_in], effective_c_in[0])
             effective_c_in.delete()
-- 
2.43.0


From 054931fa09a4f286e7780ddff6c51131c12728c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:30:44 +0000
Subject: [PATCH 10/79] fix: use the correct sign in the decomposition of
 controlled Y gates

---
 src/qrisp/circuit/controlled_operations.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/circuit/controlled_operations.py b/src/qrisp/circuit/controlled_operations.py
index 07dde7d..334efbb 100644
--- a/src/qrisp/circuit/controlled_operations.py
+++ b/src/qrisp/circuit/controlled_operations.py
@@ -134,9 +134,10 @@ def multi_controlled_u3_circ(u3_gate, control_amount, ctrl_state, method=None):
 
     # Treat pauli gates
     elif u3_gate.name == "y":
-        qc.s(target_qubit)
-        qc.append(XGate().control(control_amount, method=method), qc.qubits)
+        # Y = S X S_DG
         qc.s_dg(target_qubit)
+        qc.append(XGate().control(control_amount, method=method), qc.qubits)
+        qc.s(target_qubit)
 
     elif u3_gate.name == "z":
         qc.h(target_qubit)
-- 
2.43.0


From 9e601639767fcee3f8c51e55c577377a68391631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:31:38 +0000
Subject: [PATCH 11/79] fix: apply control patterns of controlled global phases
 to the right qubits

---
 src/qrisp/circuit/operation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/qrisp/circuit/operation.py b/src/qrisp/circuit/operation.py
index 0be1812..35cb135 100644
--- a/src/qrisp/circuit/operation.py
+++ b/src/qrisp/circuit/operation.py
@@ -679,17 +679,17 @@ class PTControlledOperation(Operation):
 
             if num_ctrl_qubits > 1:
                 temp_gate = PGate(base_operation.params[0]).control(
-                    num_ctrl_qubits - 1, ctrl_state=self.ctrl_state[1:], method=method
+                    num_ctrl_qubits - 1, ctrl_state=self.ctrl_state[:-1], method=method
                 )
             else:
                 temp_gate = PGate(base_operation.params[0])
 
-            if self.ctrl_state[0] == "0":
+            if self.ctrl_state[-1] == "0":
                 definition_circ.x(definition_circ.qubits[-2])
 
             definition_circ.append(temp_gate, definition_circ.qubits[:num_ctrl_qubits])
 
-            if self.ctrl_state[0] == "0":
+            if self.ctrl_state[-1] == "0":
                 definition_circ.x(definition_circ.qubits[-2])
 
         elif self.base_operation.name == "gray_phase_gate":
-- 
2.43.0


From 5432ed69b1352aff08894e1daf4c22707b4ca06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:34:29 +0000
Subject: [PATCH 12/79] fix: remove the stray phase of the measurement based
 Jones Toffoli

---
 src/qrisp/alg_primitives/mcx_algs/circuit_library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/alg_primitives/mcx_algs/circuit_library.py b/src/qrisp/alg_primitives/mcx_algs/circuit_library.py
index 2152324..6aaa90a 100644
--- a/src/qrisp/alg_primitives/mcx_algs/circuit_library.py
+++ b/src/qrisp/alg_primitives/mcx_algs/circuit_library.py
@@ -145,7 +145,7 @@ selinger_toffoli_qc.h(2)
 # Implementation of the T-Depth 1 Toffoli found in https://arxiv.org/pdf/1212.5069.pdf
 jones_toffoli_qc = QuantumCircuit(5, 1)
 jones_toffoli_qc.append(selinger_toffoli_qc.to_gate("selinger_quasi_toffoli"), [0, 1, 3, 4])
-jones_toffoli_qc.s(3)
+jones_toffoli_qc.s_dg(3)
 jones_toffoli_qc.cx(3, 2)
 jones_toffoli_qc.h(3)
 jones_toffoli_qc.measure(3, 0)
-- 
2.43.0


From 27e1844543ab8cacf01c1252330f46edd7ac65f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:35:25 +0000
Subject: [PATCH 13/79] fix: apply ancilla supported phases to the inputs when
 no reduction layer is needed

---
 src/qrisp/alg_primitives/mcx_algs/balauca.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/qrisp/alg_primitives/mcx_algs/balauca.py b/src/qrisp/alg_primitives/mcx_algs/balauca.py
index 9e908c9..5cbc4c7 100644
--- a/src/qrisp/alg_primitives/mcx_algs/balauca.py
+++ b/src/qrisp/alg_primitives/mcx_algs/balauca.py
@@ -131,10 +131,18 @@ def hybrid_mcx(
                 input_qubits + target,
             )
         else:
-            qs.append(
-                PGate(phase).control(len(input_qubits), ctrl_state=ctrl_state),
-                input_qubits + target,
-            )
+            # The target is a clean ancilla here, so the phase has to be applied
+            # to the input qubits
+            if ctrl_state[-1] == "0":
+                qs.append(XGate(), input_qubits[-1:])
+
+            gate = PGate(phase)
+            if len(input_qubits) > 1:
+                gate = gate.control(len(input_qubits) - 1, ctrl_state=ctrl_state[:-1])
+            qs.append(gate, input_qubits)
+
+            if ctrl_state[-1] == "0":
+                qs.append(XGate(), input_qubits[-1:])
         return
 
     structure = structure_decider(len(input_qubits), num_ancilla)  # [::-1]
-- 
2.43.0


From 39a2add34f95fc525ccf4e17d1bc9d23508c10d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:36:47 +0000
Subject: [PATCH 14/79] fix: revert phase tolerant gates in the four control
 Khattar gate by their inverse

---
 src/qrisp/alg_primitives/mcx_algs/khattar.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/alg_primitives/mcx_algs/khattar.py b/src/qrisp/alg_primitives/mcx_algs/khattar.py
index bf81040..632eece 100644
--- a/src/qrisp/alg_primitives/mcx_algs/khattar.py
+++ b/src/qrisp/alg_primitives/mcx_algs/khattar.py
@@ -113,9 +113,11 @@ def cca_4ctrls(ctrls, target):
 
     mcx([ctrls[1], cca4_anc[0]], target[0])
 
-    mcx([ctrls[2], ctrls[3]], ctrls[1], method="gray_pt")
+    # The phase tolerant gates have to be reverted by their actual inverse,
+    # such that the relative phases cancel
+    mcx([ctrls[3], ctrls[2]], ctrls[1], method="gray_pt_inv")
     x(ctrls[1])
-    mcx([ctrls[0], ctrls[1]], cca4_anc[0], method="gray_pt")
+    mcx([ctrls[1], ctrls[0]], cca4_anc[0], method="gray_pt_inv")
 
     cca4_anc.delete()
 
-- 
2.43.0


From 7c5d00633f06f223f06f8978494ca61b2aec1db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:38:00 +0000
Subject: [PATCH 15/79] fix: interpret control patterns identically in traced
 and direct multi-controlled gates

---
 src/qrisp/core/gate_application_functions.py | 25 +++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/qrisp/core/gate_application_functions.py b/src/qrisp/core/gate_application_functions.py
index 3be22a1..401bb54 100644
--- a/src/qrisp/core/gate_application_functions.py
+++ b/src/qrisp/core/gate_application_functions.py
@@ -528,6 +528,8 @@ def mcx(controls, target, method="auto", ctrl_state=-1, num_ancilla=1):
         qubits_0 = controls
         if isinstance(qubits_0, (QuantumVariable, DynamicQubitArray)) and method not in ["balauca", "khattar"]:
             method = "balauca"
+        if method == "balauca" and isinstance(ctrl_state, str):
+            ctrl_state = int(ctrl_state[::-1], 2)
         qubits_1 = [target]
     from qrisp.alg_primitives.mcx_algs import (
         balauca_dirty,
@@ -538,6 +540,16 @@ def mcx(controls, target, method="auto", ctrl_state=-1, num_ancilla=1):
         yong_mcx,
     )
 
+    def flip_zero_controls():
+        # The traced version of the Gidney logical AND always controls on "11"
+        if isinstance(ctrl_state, str):
+            pattern = ctrl_state
+        else:
+            pattern = bin_rep(ctrl_state % 4, 2)[::-1]
+        for i in range(2):
+            if pattern[i] == "0":
+                x(qubits_0[i])
+
     if method in ["gray", "gray_pt", "gray_pt_inv"]:
         append_operation(
             std_ops.MCXGate(len(qubits_0), ctrl_state, method=method),
@@ -548,7 +560,9 @@ def mcx(controls, target, method="auto", ctrl_state=-1, num_ancilla=1):
             raise Exception(f"Tried to call Gidney logical AND with {len(qubits_0)} controls instead of two")
 
         if check_for_tracing_mode():
+            flip_zero_controls()
             jasp_gidney_mcx(qubits_0[0], qubits_0[1], qubits_1[0])
+            flip_zero_controls()
         else:
             append_operation(
                 GidneyLogicalAND(ctrl_state=ctrl_state),
@@ -560,8 +574,10 @@ def mcx(controls, target, method="auto", ctrl_state=-1, num_ancilla=1):
             raise Exception(f"Tried to call Gidney logical AND with {len(qubits_0)} controls instead of two")
 
         if check_for_tracing_mode():
+            flip_zero_controls()
             with invert():
                 jasp_gidney_mcx(qubits_0[0], qubits_0[1], qubits_1[0])
+            flip_zero_controls()
         else:
             append_operation(
                 GidneyLogicalAND(ctrl_state=ctrl_state, inv=True),
@@ -706,7 +722,7 @@ def mcz(qubits, method="auto", ctrl_state=-1, num_ancilla=1):
         if method == "auto":
             method = "balauca"
         if isinstance(ctrl_state, str):
-            ctrl_state = int(ctrl_state, 2)
+            ctrl_state = int(ctrl_state[::-1], 2)
         return jasp_mcz_inner(qubits, method=method, ctrl_state=ctrl_state)
 
     if method in ["gray", "auto"]:
@@ -788,8 +804,11 @@ def mcp(phi, qubits, method="auto", ctrl_state=-1):
     else:
         if method == "auto":
             method = "balauca"
-        if isinstance(ctrl_state, str):
-            ctrl_state = int(ctrl_state, 2)
+        if method in ["gray", "gray_pt"]:
+            if not isinstance(ctrl_state, str):
+                ctrl_state = bin_rep(ctrl_state % 2**n, n)[::-1]
+        elif isinstance(ctrl_state, str):
+            ctrl_state = int(ctrl_state[::-1], 2)
 
     if method == "gray" or method == "gray_pt":
         if ctrl_state[-1] == "0":
-- 
2.43.0


From 45a6426844f503e02beba6406a832f787331c803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:46:01 +0000
Subject: [PATCH 16/79] fix: keep imaginary ladder coefficients and handle
 trivial operators in the qubit operator algebra

---
 src/qrisp/operators/qubit/qubit_operator.py | 27 +++++++++++++++------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/qrisp/operators/qubit/qubit_operator.py b/src/qrisp/operators/qubit/qubit_operator.py
index c2c34cf..255b0e1 100644
--- a/src/qrisp/operators/qubit/qubit_operator.py
+++ b/src/qrisp/operators/qubit/qubit_operator.py
@@ -513,17 +513,12 @@ class QubitOperator(Hamiltonian):
 
 
         """
-        res = 0
+        res = QubitOperator({})
 
         for term_self, coeff_self in self.terms_dict.items():
             for term_other, coeff_other in other.terms_dict.items():
                 res += coeff_self * coeff_other * term_self.commutator(term_other)
 
-        min_coeff_self = min([abs(coeff) for coeff in self.terms_dict.values()])
-        min_coeff_other = min([abs(coeff) for coeff in other.terms_dict.values()])
-
-        res.apply_threshold(min_coeff_self * min_coeff_other / 2)
-
         return res
 
     def apply_threshold(self, threshold):
@@ -780,7 +775,7 @@ class QubitOperator(Hamiltonian):
         res = 0
         for term, coeff in self.terms_dict.items():
             res += coeff * term.to_pauli()
-        if isinstance(res, (float, int)):
+        if isinstance(res, (float, int, complex)):
             return QubitOperator({QubitTerm({}): res})
         return res
 
@@ -880,6 +875,10 @@ class QubitOperator(Hamiltonian):
 
     def eliminate_ladder_conjugates(self):
         new_terms_dict = {}
+        # The terms (and coefficients) are treated as if their hermitian conjugate is
+        # contained as well. This can only represent real coefficients - the imaginary
+        # part is therefore expressed in terms of Pauli operators.
+        imaginary_part = QubitOperator({})
         for term, coeff in self.terms_dict.items():
             for factor in term.factor_dict.values():
                 if factor in ["A", "C"]:
@@ -888,12 +887,21 @@ class QubitOperator(Hamiltonian):
                 new_terms_dict[term] = coeff
                 continue
 
+            if isinstance(coeff, complex):
+                if abs(coeff.imag) > threshold:
+                    imaginary_part += QubitOperator({term: 1j * coeff.imag})
+                coeff = coeff.real
+
             if term.adjoint() in new_terms_dict:
                 new_terms_dict[term.adjoint()] += coeff
             else:
                 new_terms_dict[term] = coeff
 
-        return QubitOperator(new_terms_dict).apply_threshold(0)
+        res = QubitOperator(new_terms_dict)
+        if imaginary_part.terms_dict:
+            res = res + imaginary_part.to_pauli()
+
+        return res.apply_threshold(0)
 
     def ground_state_energy(self):
         """Calculates the ground state energy (i.e., the minimum eigenvalue) of the operator classically.
@@ -914,6 +922,9 @@ class QubitOperator(Hamiltonian):
             return 0
 
         M = self.hermitize().to_sparse_matrix()
+        if M.shape[0] <= 2:
+            # The sparse eigensolver requires at least two excess dimensions
+            return np.linalg.eigvalsh(M.toarray())[0]
         # Compute the smallest eigenvalue
         eigenvalues, _ = eigsh(M, k=1, which="SA")  # 'SA' stands for smallest algebraic
         E = eigenvalues[0]
-- 
2.43.0


From d4f0ab978ce38395379c8cdc3efc713dc4fc8682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:50:33 +0000
Subject: [PATCH 17/79] fix: simulate fermionic operators with complex
 coefficients through their qubit representation

---
 src/qrisp/operators/fermionic/trotterization.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/qrisp/operators/fermionic/trotterization.py b/src/qrisp/operators/fermionic/trotterization.py
index e50f3e9..9145764 100644
--- a/src/qrisp/operators/fermionic/trotterization.py
+++ b/src/qrisp/operators/fermionic/trotterization.py
@@ -26,6 +26,11 @@ def fermionic_trotterization(H, forward_evolution=True):
 
     H = H.hermitize()
     reduced_H = H.reduce(assume_hermitian=True)
+
+    # The simulation of ladder terms requires real coefficients
+    for coeff in reduced_H.terms_dict.values():
+        if isinstance(coeff, complex) and abs(coeff.imag) > threshold:
+            return H.to_qubit_operator().trotterization(forward_evolution=forward_evolution)
     groups = reduced_H.group_up(denominator=lambda a, b: a.unipolars_agree(b))
 
     def meta_group_denominator(H0, H1):
-- 
2.43.0


From 70f959d1ec4f028efa6a78fa7b9b872c71847cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:50:33 +0000
Subject: [PATCH 18/79] fix: order repeated fermionic ladder operators and
 compare reduced fermionic operators correctly

---
 .../operators/fermionic/fermionic_operator.py |  8 +++++--
 .../operators/fermionic/fermionic_term.py     | 24 +++++++++++--------
 src/qrisp/operators/qubit/qubit_operator.py   |  2 +-
 3 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/qrisp/operators/fermionic/fermionic_operator.py b/src/qrisp/operators/fermionic/fermionic_operator.py
index ec15357..a8c1f1e 100644
--- a/src/qrisp/operators/fermionic/fermionic_operator.py
+++ b/src/qrisp/operators/fermionic/fermionic_operator.py
@@ -148,6 +148,7 @@ class FermionicOperator(Hamiltonian):
                 if daggered_sorted_term in new_terms_dict:
                     sorted_term = daggered_sorted_term
                     flip_sign = daggered_flip_sign
+                    coeff = np.conj(coeff)
 
             # Compute the new coefficient.
             new_terms_dict[sorted_term] = flip_sign * coeff + new_terms_dict.get(sorted_term, 0)
@@ -269,11 +270,13 @@ class FermionicOperator(Hamiltonian):
             return False
 
         for term, coeff in reduced_self.terms_dict.items():
-            if term not in other.terms_dict:
+            if term not in reduced_other.terms_dict:
                 daggered_sorted_term, flip_sign = term.dagger().sort()
                 if daggered_sorted_term not in reduced_other.terms_dict:
                     return False
-                elif reduced_self.terms_dict[term] != flip_sign * reduced_other.terms_dict[daggered_sorted_term]:
+                elif reduced_self.terms_dict[term] != flip_sign * np.conj(
+                    reduced_other.terms_dict[daggered_sorted_term]
+                ):
                     return False
                 continue
 
@@ -500,6 +503,7 @@ class FermionicOperator(Hamiltonian):
                 res_terms_dict[curr_ladder_term] = res_terms_dict.get(curr_ladder_term, 0) + coeff1 * coeff2
 
         self.terms_dict = res_terms_dict
+        return self
 
     #
     # Miscellaneous
diff --git a/src/qrisp/operators/fermionic/fermionic_term.py b/src/qrisp/operators/fermionic/fermionic_term.py
index dcc0b1d..8006b8f 100644
--- a/src/qrisp/operators/fermionic/fermionic_term.py
+++ b/src/qrisp/operators/fermionic/fermionic_term.py
@@ -122,16 +122,20 @@ class FermionicTerm:
         ladder_list = [self.ladder_list[i] for i in perm]
         flip_sign = permutation_signature(perm)
 
-        for i in range(len(ladder_list) - 1):
-            if ladder_list[i][0] == ladder_list[i + 1][0]:
-                if ladder_list[i][1] == ladder_list[i + 1][1]:
-                    flip_sign = 0
-                    break
-                if i > 1 and ladder_list[i][0] == ladder_list[i - 1][0]:
-                    flip_sign = 0
-                    break
-
-        return FermionicTerm(ladder_list), flip_sign
+        reduced_ladder_list = []
+        for ladder in ladder_list:
+            if reduced_ladder_list and reduced_ladder_list[-1] == ladder:
+                # a*a = c*c = 0
+                return FermionicTerm(ladder_list), 0
+
+            reduced_ladder_list.append(ladder)
+
+            # a*c*a = a and c*a*c = c
+            if len(reduced_ladder_list) > 2 and reduced_ladder_list[-3] == ladder:
+                if reduced_ladder_list[-2][0] == ladder[0]:
+                    reduced_ladder_list = reduced_ladder_list[:-2]
+
+        return FermionicTerm(reduced_ladder_list), flip_sign
 
     def fermionic_swap(self, permutation):
 
diff --git a/src/qrisp/operators/qubit/qubit_operator.py b/src/qrisp/operators/qubit/qubit_operator.py
index 255b0e1..8406494 100644
--- a/src/qrisp/operators/qubit/qubit_operator.py
+++ b/src/qrisp/operators/qubit/qubit_operator.py
@@ -702,7 +702,7 @@ class QubitOperator(Hamiltonian):
                 factor_amount = max(participating_indices) + 1
             else:
                 res = 1
-                M = sp.csr_matrix((1, 1))
+                M = sp.csr_matrix((1, 1), dtype=complex)
                 for coeff in coeffs:
                     res *= coeff
                 if coeffs:
-- 
2.43.0


From 013ff66f5d4bf3b9a369b18a0d5ba668a39985ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:10:32 +0000
Subject: [PATCH 19/79] fix: unpack the loop state of the traceable extended
 gcd correctly

---
 .../alg_primitives/arithmetic/jasp_arithmetic/jasp_mod_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_mod_tools.py b/src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_mod_tools.py
index 872b4fa..6851621 100644
--- a/src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_mod_tools.py
+++ b/src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_mod_tools.py
@@ -281,7 +281,7 @@ def egcd(a: int, b: int):
     """
 
     def cond_fun(state):
-        r, _, _, _ = state
+        r = state[0]
         return jnp.logical_not(r == 0)
 
     def body_fun(state):
-- 
2.43.0


From 0f5222a0be982e1ea336e1ff2be45f8a65cf3675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:13:21 +0000
Subject: [PATCH 20/79] fix: compare signed quantum numbers of differing
 formats for equality by value

---
 .../alg_primitives/arithmetic/comparisons.py  | 27 ++++++++++++++-----
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/comparisons.py b/src/qrisp/alg_primitives/arithmetic/comparisons.py
index 0f7c872..84a61ce 100644
--- a/src/qrisp/alg_primitives/arithmetic/comparisons.py
+++ b/src/qrisp/alg_primitives/arithmetic/comparisons.py
@@ -208,8 +208,7 @@ def equal(qf_0, qf_1):
         mcx_qubits = []
         mcx_qubits += qf_0.reg
 
-        if qf_1.signed and qf_0.signed:
-            cx(qf_1.sign(), qf_0.sign())
+        both_signed = qf_1.signed and qf_0.signed
 
         m0 = qf_0.msize
         m1 = qf_1.msize
@@ -221,19 +220,33 @@ def equal(qf_0, qf_1):
         r = jnp.minimum(e0 + m0, e1 + m1)
         d = r - l
 
+        # The amount of bits, which are more significant than every mantissa bit of the other operand.
+        h0 = jnp.clip(e0 + m0 - e1 - m1, 0, m0)
+        h1 = jnp.clip(e1 + m1 - e0 - m0, 0, m1)
+
         def conjugator(qf_0, qf_1):
             for i in jrange(d):
                 cx(qf_1[i + l - e1], qf_0[i + l - e0])
 
-        mcx_qubits += qf_1.reg[: l - e1]
-        mcx_qubits += qf_1.reg[e0 + m0 - e1 : e1 + m1 - e1]
+            if both_signed:
+                # The more significant bits need to agree with the sign of the other operand.
+                for i in jrange(h1):
+                    cx(qf_0.sign(), qf_1[i + m1 - h1])
+                for i in jrange(h0):
+                    cx(qf_1.sign(), qf_0[i + m0 - h0])
+                cx(qf_1.sign(), qf_0.sign())
+
+        mcx_qubits += qf_1.reg[: jnp.clip(l - e1, 0, m1)]
+        mcx_qubits += qf_1.reg[m1 - h1 : m1]
+
+        if both_signed:
+            # If the operands have no common significance, only zero can be equal.
+            gap = jnp.int64(d < 0)
+            mcx_qubits += qf_1.reg[m1 : m1 + gap]
 
         with conjugate(conjugator)(qf_0, qf_1):
             mcx(mcx_qubits, eq_qbl, ctrl_state=0)
 
-        if qf_1.signed and qf_0.signed:
-            cx(qf_1.sign(), qf_0.sign())
-
         return eq_qbl
 
     # if qf_0.truncate(qf_1) != qf_1:
-- 
2.43.0


From d1214062732db4e0ded9eefe4ae467fbee946f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:14:23 +0000
Subject: [PATCH 21/79] fix: encode into signed quantum floats with negative
 exponents in traced programs

---
 src/qrisp/qtypes/quantum_float.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/qtypes/quantum_float.py b/src/qrisp/qtypes/quantum_float.py
index 6d2a920..93c2bb9 100644
--- a/src/qrisp/qtypes/quantum_float.py
+++ b/src/qrisp/qtypes/quantum_float.py
@@ -425,7 +425,7 @@ class QuantumFloat(QuantumVariable):
                 )
 
         if self.signed:
-            res = _signed_int_iso(i / jnp.float64(2**self.exponent), self.msize)
+            res = _signed_int_iso(i / jnp.float64(2) ** self.exponent, self.msize)
         else:
             res = i / jnp.float64(2) ** self.exponent
 
-- 
2.43.0


From b174af1c0f56f122444f567db9908010427f5e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:19:42 +0000
Subject: [PATCH 22/79] fix: encode and decode quantum floats of every size
 exactly in static mode

---
 src/qrisp/qtypes/quantum_float.py | 33 ++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/qrisp/qtypes/quantum_float.py b/src/qrisp/qtypes/quantum_float.py
index 93c2bb9..e438e52 100644
--- a/src/qrisp/qtypes/quantum_float.py
+++ b/src/qrisp/qtypes/quantum_float.py
@@ -15,6 +15,8 @@
 ********************************************************************************
 """
 
+from fractions import Fraction
+
 import jax.numpy as jnp
 import numpy as np
 import sympy as sp
@@ -367,17 +369,21 @@ class QuantumFloat(QuantumVariable):
     # Define outcome_labels
     def decoder(self, i):
         """Convert measurement outcome (integer) back to human-readable value."""
+        if not check_for_tracing_mode() and not isinstance(i, Tracer):
+            # Use Python integers in static mode to be exact for every register size
+            i, exponent = int(i), int(self.exponent)
+            if self.signed:
+                i &= (1 << self.size) - 1
+                if (i >> self.msize) & 1:
+                    i -= 1 << self.size
+            return i << exponent if exponent >= 0 else i / (1 << -exponent)
+
         if self.signed:
             res = _signed_int_iso_inv(i, self.msize) * jnp.float64(2) ** self.exponent
         else:
             res = i * jnp.float64(2) ** self.exponent
 
-        if check_for_tracing_mode():
-            return res
-        elif self.exponent >= 0:
-            return int(res)
-        else:
-            return float(res)
+        return res
 
     def jdecoder(self, i):
         return self.decoder(i)
@@ -424,15 +430,20 @@ class QuantumFloat(QuantumVariable):
                     + f" of {self.msize} qubits and exponent {self.exponent}."
                 )
 
+            # Use Python integers to be exact for every register size
+            exponent = int(self.exponent)
+            if isinstance(i, (int, np.integer)):
+                res = int(i) << -exponent if exponent <= 0 else int(Fraction(int(i), 1 << exponent))
+            else:
+                res = int(i / 2.0**exponent)
+            return res % (1 << self.size)
+
         if self.signed:
             res = _signed_int_iso(i / jnp.float64(2) ** self.exponent, self.msize)
         else:
             res = i / jnp.float64(2) ** self.exponent
 
-        if isinstance(res, (int, float)):
-            return int(res)
-        else:
-            return res.astype(int)
+        return res.astype(int)
 
     def sb_poly(self, m=0):
         """Returns the semi-boolean polynomial of this `QuantumFloat` where `m` specifies
@@ -1217,7 +1228,7 @@ def copy_qf(qf1, qf2, ignore_overflow_errors=False, ignore_rounding_errors=False
     qf2_sign_list = [qf2.exponent + i for i in range(qf2.size)]
 
     # Check overflow/underflow
-    if max(qf1_sign_list) < max(qf2_sign_list) and not ignore_overflow_errors:
+    if qf1.mshape[1] < qf2.mshape[1] and not ignore_overflow_errors:
         raise Exception("Copy operation would result in overflow (use ignore_overflow_errors = True)")
 
     if min(qf1_sign_list) > min(qf2_sign_list) and not ignore_rounding_errors:
-- 
2.43.0


From 85626d9d35091783733ee4d45ae01edb9b96ca2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:33:32 +0000
Subject: [PATCH 23/79] fix: do not group gates across a classically controlled
 multi-qubit gate

The simulator encodes such instructions as negative qubit masks. The
intersection with a group was computed on the negative number, so a gate
behind the instruction could be moved in front of it.
---
 src/qrisp/simulator/circuit_preprocessing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/qrisp/simulator/circuit_preprocessing.py b/src/qrisp/simulator/circuit_preprocessing.py
index ea9f8a2..5738b1b 100644
--- a/src/qrisp/simulator/circuit_preprocessing.py
+++ b/src/qrisp/simulator/circuit_preprocessing.py
@@ -565,7 +565,7 @@ def binary_get_circuit_block_jitted(int_qc_list, qubits, n, established_indices)
         # Determine the intersection between the qubits of the instruction
         # and the qubits of the group
         # intersection = instr_qubits.intersection(qubits)
-        intersection = qubits & instr_qubits
+        intersection = qubits & abs(instr_qubits)
 
         # If the intersection is empty, this instruction is not part of the group
         # and no further action needs to be taken
@@ -627,7 +627,7 @@ def binary_get_circuit_block(int_qc_list, qubits, n, established_indices):
         # Determine the intersection between the qubits of the instruction
         # and the qubits of the group
         # intersection = instr_qubits.intersection(qubits)
-        intersection = qubits & instr_qubits
+        intersection = qubits & abs(instr_qubits)
 
         # If the intersection is empty, this instruction is not part of the group
         # and no further action needs to be taken
@@ -637,7 +637,7 @@ def binary_get_circuit_block(int_qc_list, qubits, n, established_indices):
         # If the instruction is non-unitary, no further instruction
         # on this qubit can be part of the group
         if instr_qubits < 0:
-            qubits = qubits & (((1 << n) - 1) ^ instr_qubits)
+            qubits = qubits & (((1 << n) - 1) ^ -instr_qubits)
             # qubits = qubits - instr_qubits
             continue
 
-- 
2.43.0


From e757491349b98c515557abb4c99dd5552396ed97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:33:39 +0000
Subject: [PATCH 24/79] fix: keep resets and overwritten bits in the simulator

A reset was dropped when the qubit was only measured or used as a control
afterwards. A reset behind a measurement was moved in front of gates that
still needed the value. A measurement into an already used classical bit
reported both outcomes. Classically controlled gates on a measured qubit
raised an error when their permeability was unknown.
---
 src/qrisp/simulator/circuit_preprocessing.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/qrisp/simulator/circuit_preprocessing.py b/src/qrisp/simulator/circuit_preprocessing.py
index 5738b1b..bb7751b 100644
--- a/src/qrisp/simulator/circuit_preprocessing.py
+++ b/src/qrisp/simulator/circuit_preprocessing.py
@@ -744,14 +744,21 @@ def insert_multiverse_measurements(qc):
             meas_clbit = instr.clbits[0]
 
             next_instr_is_reset = False
+            qubit_is_used = False
             for j in range(len(data)):
                 if meas_qubit in data[j].qubits:
                     if data[j].op.name == "reset":
-                        next_instr_is_reset = True
-                        data.pop(j)
+                        # The reset can only be merged into the measurement if
+                        # no other operation needs the value in between.
+                        if not qubit_is_used:
+                            next_instr_is_reset = True
+                            data.pop(j)
                         break
-                    elif not is_permeable(data[j].op, [data[j].qubits.index(meas_qubit)]):
+                    elif isinstance(data[j].op, ClControlledOperation) or not is_permeable(
+                        data[j].op, [data[j].qubits.index(meas_qubit)]
+                    ):
                         break
+                    qubit_is_used = True
                 if meas_clbit in data[j].clbits and not isinstance(data[j], ClControlledOperation):
                     break
 
@@ -762,6 +769,8 @@ def insert_multiverse_measurements(qc):
                     break
             else:
                 new_data.append(Instruction(disentangler, [meas_qubit]))
+                # An earlier outcome stored in this clbit is overwritten
+                cb_to_qb_dic.pop(meas_clbit, None)
                 new_measurements.append((instr.qubits[0], instr.clbits[0]))
                 continue
 
@@ -781,10 +790,10 @@ def insert_multiverse_measurements(qc):
             meas_qubit = instr.qubits[0]
             new_data.append(Instruction(Disentangler(warning=False), [meas_qubit]))
 
+            # The reset can only be omitted if the qubit is never used again
             for j in range(len(data)):
                 if meas_qubit in data[j].qubits:
-                    if not is_permeable(data[j].op, [data[j].qubits.index(meas_qubit)]):
-                        break
+                    break
             else:
                 continue
 
-- 
2.43.0


From 8b42f3be370ef46a8d85cec1476aef29229949c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:37:56 +0000
Subject: [PATCH 25/79] fix: return the result of a Qiskit job whose status was
 polled before

result() returned None if done() or status() had already seen the job
finish.
---
 src/qrisp/interface/provider_backends/qiskit_backend.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qrisp/interface/provider_backends/qiskit_backend.py b/src/qrisp/interface/provider_backends/qiskit_backend.py
index b751f18..c1dfd3f 100644
--- a/src/qrisp/interface/provider_backends/qiskit_backend.py
+++ b/src/qrisp/interface/provider_backends/qiskit_backend.py
@@ -139,7 +139,9 @@ class QiskitJob(Job):
         """
         if self._last_known_status in JOB_FINAL_STATES:
             self._raise_for_status(self._last_known_status)
-            return cast(JobResult, self._cached_result)
+            # The status may have been polled before the result was retrieved
+            if self._cached_result is not None:
+                return self._cached_result
 
         try:
             # Only pass timeout when explicitly requested: local backends such
-- 
2.43.0


From 3e6d88cbe7f38f2b1ce9b8ac1d2f2a975924c124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:37:56 +0000
Subject: [PATCH 26/79] fix: add up equal outcomes in multi_measurement

Bit strings that decode to the same labels overwrote each other, so
probability was lost, e.g. after a mid-circuit measurement.
---
 src/qrisp/interface/measurement_result.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/interface/measurement_result.py b/src/qrisp/interface/measurement_result.py
index 10e81c3..536a143 100644
--- a/src/qrisp/interface/measurement_result.py
+++ b/src/qrisp/interface/measurement_result.py
@@ -429,7 +429,7 @@ class MultiMeasurementResult(LazyDict):
 
             outcome = tuple(labels)
             try:
-                new_counts[outcome] = count / total
+                new_counts[outcome] = new_counts.get(outcome, 0) + count / total
             except TypeError as exc:
                 raise TypeError(
                     "Tried to create measurement outcome dic for QuantumVariable with unhashable labels"
-- 
2.43.0


From b325fe473d07409b1b971c64dbac389be06a46e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:37:56 +0000
Subject: [PATCH 27/79] fix: report a wrong number of results in a batched job

Results beyond the returned list stayed pending without any error.
---
 src/qrisp/interface/batched_backend.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qrisp/interface/batched_backend.py b/src/qrisp/interface/batched_backend.py
index 638055b..94f9c8a 100644
--- a/src/qrisp/interface/batched_backend.py
+++ b/src/qrisp/interface/batched_backend.py
@@ -296,6 +296,10 @@ class BatchedBackend:
         unique = set(chunk_shots)
         effective_shots = chunk_shots[0] if len(unique) == 1 else chunk_shots
         chunk_counts = self._backend.run_async(chunk_circuits, shots=effective_shots).result(timeout=timeout).all_counts
+        if len(chunk_counts) != len(chunk_raws):
+            raise RuntimeError(
+                f"The backend returned {len(chunk_counts)} result(s) for a job with {len(chunk_raws)} circuit(s)."
+            )
         for raw, counts in zip(chunk_raws, chunk_counts):
             raw._inject(counts)
 
-- 
2.43.0


From 2e6babff94a0f9ee91dc2a2c232ac6cebd14850c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:44:51 +0000
Subject: [PATCH 28/79] fix: respect controls on zero in convert_to_cx and
 convert_to_cz

The passes identified CX, CY and CZ by name only. Gates that are controlled
on |0> carry the same name and were converted to the |1>-controlled gate.
---
 .../circuit/pass_management/passes/convert_to_cx.py      | 9 +++++++++
 .../circuit/pass_management/passes/convert_to_cz.py      | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/src/qrisp/circuit/pass_management/passes/convert_to_cx.py b/src/qrisp/circuit/pass_management/passes/convert_to_cx.py
index 8c5d89c..59ce6ef 100644
--- a/src/qrisp/circuit/pass_management/passes/convert_to_cx.py
+++ b/src/qrisp/circuit/pass_management/passes/convert_to_cx.py
@@ -93,7 +93,14 @@ def convert_to_cx(
         for instr in qc.data:
             op = instr.op
 
+            # A control on |0> is turned into a control on |1> by conjugation with X
+            negated_control = (
+                op.num_qubits == 2 and op.name in ("cx", "cy", "cz") and getattr(op, "ctrl_state", "1") == "0"
+            )
+
             if op.num_qubits == 2 and op.name not in ("cx", "barrier"):
+                if negated_control:
+                    qc_new.x(instr.qubits[0])
                 if op.name == "cz":
                     qc_new.h(instr.qubits[1])
                     qc_new.cx(instr.qubits[0], instr.qubits[1])
@@ -110,6 +117,8 @@ def convert_to_cx(
                     raise ValueError(f"Don't know how to convert two-qubit gate {op.name!r} to CX")
                 else:
                     qc_new.append(instr)
+                if negated_control:
+                    qc_new.x(instr.qubits[0])
             else:
                 qc_new.append(instr)
 
diff --git a/src/qrisp/circuit/pass_management/passes/convert_to_cz.py b/src/qrisp/circuit/pass_management/passes/convert_to_cz.py
index d209dc8..cdea2a3 100644
--- a/src/qrisp/circuit/pass_management/passes/convert_to_cz.py
+++ b/src/qrisp/circuit/pass_management/passes/convert_to_cz.py
@@ -94,7 +94,14 @@ def convert_to_cz(
         for instr in qc.data:
             op = instr.op
 
+            # A control on |0> is turned into a control on |1> by conjugation with X
+            negated_control = (
+                op.num_qubits == 2 and op.name in ("cx", "cy", "cz") and getattr(op, "ctrl_state", "1") == "0"
+            )
+
             if op.num_qubits == 2 and op.name not in ("cz", "barrier"):
+                if negated_control:
+                    qc_new.x(instr.qubits[0])
                 if op.name == "cx":
                     qc_new.h(instr.qubits[1])
                     qc_new.cz(instr.qubits[0], instr.qubits[1])
@@ -121,6 +128,8 @@ def convert_to_cz(
                     raise ValueError(f"Don't know how to convert two-qubit gate {op.name!r} to CZ")
                 else:
                     qc_new.append(instr)
+                if negated_control:
+                    qc_new.x(instr.qubits[0])
             else:
                 qc_new.append(instr)
 
-- 
2.43.0


From f369bccfd4d016d57f245d6410bdade325055dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:44:51 +0000
Subject: [PATCH 29/79] fix: keep phase gates with a control on zero in
 cancel_zero_controls

---
 .../circuit/pass_management/passes/cancel_zero_controls.py  | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/circuit/pass_management/passes/cancel_zero_controls.py b/src/qrisp/circuit/pass_management/passes/cancel_zero_controls.py
index 243223b..88546e5 100644
--- a/src/qrisp/circuit/pass_management/passes/cancel_zero_controls.py
+++ b/src/qrisp/circuit/pass_management/passes/cancel_zero_controls.py
@@ -34,11 +34,13 @@ def _is_cancelled_by_zero(op: Operation, qubits: list[Qubit], fresh: set[Qubit])
     r"""Return True if *op* on *qubits* is a no-op given a set of \|0⟩ qubits."""
     # Symmetric controlled-phase gates: diag(1,1,1,e^{iφ}).
     # Identity whenever *either* qubit is \|0⟩.
-    if op.name in ("cp", "cz"):
+    # (A control on |0> makes the gate act on the fresh state.)
+    symmetric = getattr(op, "ctrl_state", "1") == "1"
+    if op.name in ("cp", "cz") and symmetric:
         return any(qb in fresh for qb in qubits)
 
     # PTControlledOperation wrapping a phase gate on 2 qubits (≡ CP)
-    if isinstance(op, PTControlledOperation) and op.base_operation.name == "p" and op.num_qubits == 2:
+    if isinstance(op, PTControlledOperation) and op.base_operation.name == "p" and op.num_qubits == 2 and symmetric:
         return any(qb in fresh for qb in qubits)
 
     # General controlled operations: cancel when a control-on-\|1⟩ is still \|0⟩.
-- 
2.43.0


From 1bd2f8d718581309b508423494ed888f0d36c463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:45:07 +0000
Subject: [PATCH 30/79] fix: pass the classical bits of conditional gates
 through convert_to_prx

---
 src/qrisp/circuit/pass_management/passes/convert_to_prx.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/qrisp/circuit/pass_management/passes/convert_to_prx.py b/src/qrisp/circuit/pass_management/passes/convert_to_prx.py
index e68edfd..163cee7 100644
--- a/src/qrisp/circuit/pass_management/passes/convert_to_prx.py
+++ b/src/qrisp/circuit/pass_management/passes/convert_to_prx.py
@@ -123,7 +123,11 @@ def convert_to_prx(qc: QuantumCircuit) -> QuantumCircuit:
                 # Append gate if not identity
                 if abs(conversion_op.theta % (2 * np.pi)) >= 1e-5:
                     if isinstance(op, ClControlledOperation):
-                        qc_new.append(prx_0.c_if(op.num_control, op.ctrl_state), qc.data[i].qubits)  # type: ignore[arg-type]
+                        qc_new.append(
+                            prx_0.c_if(op.num_control, op.ctrl_state),  # type: ignore[arg-type]
+                            qc.data[i].qubits,
+                            qc.data[i].clbits,
+                        )
                     else:
                         qc_new.append(prx_0, qc.data[i].qubits)
 
-- 
2.43.0


From d4defd58e3a7a403ff97b7fbfbe716864cc2badc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:52:15 +0000
Subject: [PATCH 31/79] fix: fuse_adjacents respects controls on zero, symbolic
 gates and resets

---
 .../pass_management/passes/fuse_adjacents.py  | 32 +++++++++++++++----
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/qrisp/circuit/pass_management/passes/fuse_adjacents.py b/src/qrisp/circuit/pass_management/passes/fuse_adjacents.py
index 876a857..34b52c0 100644
--- a/src/qrisp/circuit/pass_management/passes/fuse_adjacents.py
+++ b/src/qrisp/circuit/pass_management/passes/fuse_adjacents.py
@@ -87,6 +87,9 @@ from qrisp.circuit.pass_management.passes.combine_single_qubit_gates import comb
 # Sentinel object returned when two operations cancel completely.
 _FUSION_CANCEL = object()
 
+# Operations that are not allowed to become part of a fused gate.
+_NON_UNITARY = frozenset({"reset", "barrier", "qb_alloc", "qb_dealloc"})
+
 
 # =============================================================================
 # Operation-level fusion logic — dispatched by _fuse_operations
@@ -118,6 +121,11 @@ def _fuse_swap_with_neighbour(op_a, op_b):
         the neighbour is not a recognised symmetric two-qubit gate.
 
     """
+    # Gates with a control on zero carry the same name but are not covered
+    # by the identities below
+    if getattr(op_a, "ctrl_state", "1") != "1" or getattr(op_b, "ctrl_state", "1") != "1":
+        return None
+
     with fast_append(0):
         # --- swap-a then something ---
         if "swap" == op_a.name:
@@ -425,11 +433,11 @@ def _check_inverse_cancel(op_a, op_b):
         try:
             unitary_a = inv_op.get_unitary()
             unitary_b = op_b.get_unitary()
-        except:
-            return None
 
-        # Compare
-        if np.linalg.norm(unitary_a - unitary_b) > 1e-4:
+            # Compare (not possible for symbolic parameters)
+            if np.linalg.norm(unitary_a - unitary_b) > 1e-4:
+                return None
+        except:
             return None
 
         # Mark as cancelled
@@ -507,6 +515,9 @@ def _fuse_operations(op_a, op_b, gphase_array):
     #    cancellation only becomes visible after decomposition.
     #    This is an escape hatch for cases where the inverse names
     #    don't match but the decompositions partially cancel.
+    #    Non-unitary operations must not end up inside a composite gate.
+    if op_a.name in _NON_UNITARY or op_b.name in _NON_UNITARY:
+        return None
     if (op_a.definition or op_b.definition) and op_a.num_clbits == 0 == op_b.num_clbits:
         result = _fuse_via_transpile(op_a, op_b)
         if result is not None:
@@ -523,6 +534,15 @@ def _fuse_operations(op_a, op_b, gphase_array):
 _SYMMETRIC_GATES = frozenset({"cz", "swap", "cp", "rzz"})
 
 
+def _is_symmetric(op):
+    """Return whether the qubit arguments of the operation can be exchanged.
+
+    Gates with a control on zero carry the same name as the ones with a
+    control on one but are not symmetric.
+    """
+    return op.name in _SYMMETRIC_GATES and getattr(op, "ctrl_state", "1") == "1"
+
+
 def _resolve_qubit_order(instr_a, instr_b):
     """Determine the correct qubit order for the fused instruction.
 
@@ -546,8 +566,8 @@ def _resolve_qubit_order(instr_a, instr_b):
         if the qubits cannot be matched.
 
     """
-    a_sym = instr_a.op.name in _SYMMETRIC_GATES
-    b_sym = instr_b.op.name in _SYMMETRIC_GATES
+    a_sym = _is_symmetric(instr_a.op)
+    b_sym = _is_symmetric(instr_b.op)
 
     if a_sym or b_sym:
         # Symmetric match by set — qubit order difference is tolerated.
-- 
2.43.0


From 05c94e757cc37dd5da0361ca55fe1ecb5dd5ca33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:52:15 +0000
Subject: [PATCH 32/79] fix: keep the order of instructions sharing a classical
 bit in commute_swaps and reverse_parallelize

---
 .../circuit/pass_management/passes/commute_swaps.py | 13 +++++++++++++
 src/qrisp/permeability/permeability_dag.py          |  2 +-
 .../qc_transformations/qc_parallelization.py        | 10 ++++++++++
 3 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/qrisp/circuit/pass_management/passes/commute_swaps.py b/src/qrisp/circuit/pass_management/passes/commute_swaps.py
index a7e470d..c93d3a5 100644
--- a/src/qrisp/circuit/pass_management/passes/commute_swaps.py
+++ b/src/qrisp/circuit/pass_management/passes/commute_swaps.py
@@ -114,6 +114,19 @@ def commute_swaps(qc: QuantumCircuit) -> QuantumCircuit:
         else:
             instr_index = len(qc_new.data) - 1
 
+            # Earlier instructions on other qubits that access one of the classical
+            # bits of this instruction (and everything before them) have to stay
+            # in front of it
+            if instr.clbits:
+                for qb in qc_new.qubits:
+                    indices = last_instruction_dic[qb]
+                    if qb in instr.qubits:
+                        continue
+                    for k in range(len(indices) - 1, -1, -1):
+                        if set(qc_new.data[indices[k]].clbits) & set(instr.clbits):
+                            last_instruction_dic[qb] = indices[k + 1 :]
+                            break
+
             if instr.op.num_qubits == 1 and len(instr.qubits) == 1:
                 qb = instr.qubits[0]
                 last_instruction_dic[qb].append(instr_index)
diff --git a/src/qrisp/permeability/permeability_dag.py b/src/qrisp/permeability/permeability_dag.py
index 829b08e..05bd044 100644
--- a/src/qrisp/permeability/permeability_dag.py
+++ b/src/qrisp/permeability/permeability_dag.py
@@ -480,7 +480,7 @@ def dag_from_qc(dag, qc, remove_artificials=False):
         # This treats the case of a deallocation node
         else:
             node = DeallocNode(instr)
-            perm_dic = {0: "neutral"}
+            perm_dic = {j: "neutral" for j in range(len(instr.qubits))}
 
         # We add the index of the corresponding gate to the node object,
         # because this information can be used for stable topological ordering:
diff --git a/src/qrisp/permeability/qc_transformations/qc_parallelization.py b/src/qrisp/permeability/qc_transformations/qc_parallelization.py
index b8c5882..3d5b0bc 100644
--- a/src/qrisp/permeability/qc_transformations/qc_parallelization.py
+++ b/src/qrisp/permeability/qc_transformations/qc_parallelization.py
@@ -104,6 +104,16 @@ def parallelize_qc(qc, depth_indicator=None):
     dag = PermeabilityGraph(qc, remove_artificials=True)
     # dag = dag_from_qc(qc, True)
 
+    # The PermeabilityGraph only contains the dependencies due to the qubits.
+    # Instructions that access the same classical bit also need to keep their order.
+    if qc.clbits:
+        recent_clbit_node_dic = {}
+        for n in sorted((n for n in dag.nodes() if not isinstance(n, TerminatorNode)), key=lambda n: n.qc_index):
+            for cb in n.instr.clbits:
+                if cb in recent_clbit_node_dic:
+                    dag.add_edge(recent_clbit_node_dic[cb], n, edge_type="neutral")
+                recent_clbit_node_dic[cb] = n
+
     sprs_mat = nx.to_scipy_sparse_array(dag, format="csr")
 
     node_list = list(dag.nodes())
-- 
2.43.0


From 81e6d025fd30e28bc96956ebaf607c177c2a20ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:55:54 +0000
Subject: [PATCH 33/79] fix: decompose circuits consisting of symbolic global
 phases only

---
 src/qrisp/circuit/pass_management/passes/decompose.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/circuit/pass_management/passes/decompose.py b/src/qrisp/circuit/pass_management/passes/decompose.py
index a281561..0a8f6ed 100644
--- a/src/qrisp/circuit/pass_management/passes/decompose.py
+++ b/src/qrisp/circuit/pass_management/passes/decompose.py
@@ -51,7 +51,7 @@ def _collect_gphases(qc: QuantumCircuit) -> QuantumCircuit:
 
     # Emit accumulated phase
     accumulated_phase = accumulated_phase % (2 * np.pi)
-    if isinstance(accumulated_phase, sp.Expr) or (abs(accumulated_phase) > 1e-10 and anchor_qubit is not None):
+    if anchor_qubit is not None and (isinstance(accumulated_phase, sp.Expr) or abs(accumulated_phase) > 1e-10):
         new_qc.gphase(accumulated_phase, anchor_qubit)
 
     return new_qc
-- 
2.43.0


From 7c093c60d1c95382bc6d9c5bdeaa2a2fbdf79bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:20:53 +0000
Subject: [PATCH 34/79] fix: correct relative phases of products that overflow
 or accumulate in their output

---
 .../alg_primitives/arithmetic/SBP_arithmetic.py    | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py b/src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py
index 0f5eef2..15410e0 100644
--- a/src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py
+++ b/src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py
@@ -722,6 +722,12 @@ def hybrid_mult(
     # If no output_qf is given, create one
     from qrisp.qtypes.quantum_float import create_output_qf
 
+    # The phases introduced by the multiplication can only be corrected from the
+    # output if the output contains precisely the product of the factors. This is
+    # not the case if the output might overflow or contained another value before.
+    output_correction = output_qf is None and init_op == "h" and terminal_op == "qft" and cl_factor == 1
+    ancilla_correction = not phase_tolerant and not output_correction
+
     if isinstance(output_qf, type(None)):
         output_qf = create_output_qf([y, x], op="mul")
 
@@ -806,7 +812,7 @@ def hybrid_mult(
 
     # Negate output_qf in order to perform the conditional addition/subtraction
 
-    if not phase_tolerant and terminal_op != "qft":
+    if ancilla_correction:
         hybrid_mult_anc = QuantumVariable(1)
         if y.signed:
             cx(y[-1], hybrid_mult_anc[0])
@@ -823,7 +829,7 @@ def hybrid_mult(
         # because if y[i] is active output_qf has been negated
         applied_phases = U_g_inpl_adder(output_qf, x, -(2**i) * cl_factor)
 
-        if not phase_tolerant and terminal_op != "qft":
+        if ancilla_correction:
             if i != 0:
                 cx(y[i - 1], hybrid_mult_anc[0])
             cx(y[i], hybrid_mult_anc[0])
@@ -848,7 +854,7 @@ def hybrid_mult(
             # of y (command [6])
             cx(y[i], output_qf)  # command [5]
 
-    if not phase_tolerant and terminal_op != "qft":
+    if ancilla_correction:
         cx(y[i], hybrid_mult_anc[0])
         if y.signed:
             cx(y[-1], hybrid_mult_anc[0])
@@ -883,7 +889,7 @@ def hybrid_mult(
     if terminal_op == "qft":
         QFT(output_qf, inv=True, exec_swap=False)
 
-    if not phase_tolerant and terminal_op == "qft":
+    if not phase_tolerant and output_correction:
         # This is a phase tolerant correction using only single qubit gates.
         # We found it by looking at the sbp of the correction using cp gates and
         # identified the sbp of x*y in it.
-- 
2.43.0


From d019801dd1ecdbad735d1d5ddc1ba521d0250784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:20:53 +0000
Subject: [PATCH 35/79] fix: xor of registers of different length keeps the
 upper bits

---
 src/qrisp/core/quantum_variable.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qrisp/core/quantum_variable.py b/src/qrisp/core/quantum_variable.py
index ed7f7f8..276b093 100644
--- a/src/qrisp/core/quantum_variable.py
+++ b/src/qrisp/core/quantum_variable.py
@@ -388,8 +388,10 @@ class QuantumVariable:
         else:
             and_res = other.duplicate()
 
-        for i in range(min(len(self), len(other))):
+        for i in range(len(self)):
             cx(self[i], and_res[i])
+
+        for i in range(len(other)):
             cx(other[i], and_res[i])
 
         return and_res
-- 
2.43.0


From 50132cc26a46c2a5e4f35de24888569898c4bd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:20:53 +0000
Subject: [PATCH 36/79] fix: multiplication of a quantum number with zero
 terminates

---
 src/qrisp/qtypes/quantum_float.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qrisp/qtypes/quantum_float.py b/src/qrisp/qtypes/quantum_float.py
index e438e52..f273b23 100644
--- a/src/qrisp/qtypes/quantum_float.py
+++ b/src/qrisp/qtypes/quantum_float.py
@@ -513,6 +513,9 @@ class QuantumFloat(QuantumVariable):
         if isinstance(other, QuantumFloat):
             return q_mult(self, other)
         elif isinstance(other, (int, np.integer)):
+            if other == 0:
+                return self.duplicate()
+
             bit_shift = 0
             while not other % 2:
                 other = other >> 1
-- 
2.43.0


From 4ecf1035a8d52881561526ab2edad9bece4e0027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:20:53 +0000
Subject: [PATCH 37/79] fix: correct phases of matrix products with safe result
 format, remove debug print

---
 .../arithmetic/matrix_multiplication.py       | 46 +------------------
 1 file changed, 1 insertion(+), 45 deletions(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/matrix_multiplication.py b/src/qrisp/alg_primitives/arithmetic/matrix_multiplication.py
index 3bba091..707c93a 100644
--- a/src/qrisp/alg_primitives/arithmetic/matrix_multiplication.py
+++ b/src/qrisp/alg_primitives/arithmetic/matrix_multiplication.py
@@ -23,7 +23,6 @@ from qrisp.alg_primitives.arithmetic.SBP_arithmetic import (
     polynomial_encoder,
 )
 from qrisp.core import QuantumArray
-from qrisp.core.gate_application_functions import p, z
 
 
 def q_matmul(q_array_0, q_array_1, output_array=None, res_bit_shape="eq", phase_tolerant=False):
@@ -140,49 +139,7 @@ def q_matmul(q_array_0, q_array_1, output_array=None, res_bit_shape="eq", phase_
                         )
                     continue
 
-                # If the res_bit_shape is safe,we can use the strategy
-                # of correcting phases on the result as displayed in hybrid mult
-                if res_bit_shape == "safe" and not phase_tolerant:
-                    if k == 0:
-                        hybrid_mult(
-                            q_array_0[i, k],
-                            q_array_1[k, j],
-                            output_qf=res[i, j],
-                            init_op="h",
-                            terminal_op=None,
-                            phase_tolerant=True,
-                        )
-
-                    elif k == K - 1:
-                        hybrid_mult(
-                            q_array_0[i, k],
-                            q_array_1[k, j],
-                            output_qf=res[i, j],
-                            init_op=None,
-                            terminal_op="qft",
-                            phase_tolerant=True,
-                        )
-
-                    elif k != q_array_0.shape[1] - 1:
-                        hybrid_mult(
-                            q_array_0[i, k],
-                            q_array_1[k, j],
-                            output_qf=res[i, j],
-                            init_op=None,
-                            terminal_op=None,
-                            phase_tolerant=True,
-                        )
-
-                        for m in range(res[i, j].size):
-                            p(
-                                -(2 * np.pi) * 2**l / 2 ** (res[i, j].size + 1),
-                                res[i, j][m],
-                            )
-
-                        if res[i, j].signed and K % 2:
-                            z(res[i, j][-1])
-
-                elif k == 0:
+                if k == 0:
                     if output_array is not None:
                         hybrid_mult(
                             q_array_0[i, k],
@@ -490,7 +447,6 @@ def inplace_matrix_app(vector, matrix):
 
         # Now determine the remaining polynomial
         eval_poly = eval_eq[i].subs({x[elim_var]: 0})
-        print(inplace_mult_coeff)
         polynomial_encoder(
             non_elim_var_list,
             vector[elim_var],
-- 
2.43.0


From e4490767dcf1fd28f550dd3b3f9759dc8f91e0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:20:53 +0000
Subject: [PATCH 38/79] fix: in-place multiplication extends unsigned numbers
 at the top, zero is rejected

---
 src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py b/src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py
index 15410e0..edd7d3c 100644
--- a/src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py
+++ b/src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py
@@ -1021,6 +1021,9 @@ def inpl_mult(qf, mult_int, treat_overflow=True):
     if mult_int < 0 and not qf.signed:
         raise Exception("Tried to inplace-multiply unsigned QuantumFloat with negative factor")
 
+    if mult_int == 0:
+        raise Exception("Tried to inplace-multiply QuantumFloat with zero (not reversible)")
+
     bit_shift = 0
 
     if int(mult_int) != mult_int:
@@ -1043,9 +1046,11 @@ def inpl_mult(qf, mult_int, treat_overflow=True):
     if mult_int != 1:
         if treat_overflow:
             extension_size = int(np.ceil(np.log2(abs(mult_int))))
-            qf.extend(extension_size, position=qf.size - 1)
             if qf.signed:
+                qf.extend(extension_size, position=qf.size - 1)
                 cx(qf[-1], qf[-1 - extension_size : -1])
+            else:
+                qf.extend(extension_size, position=qf.size)
 
         from qrisp.alg_primitives.arithmetic.SBP_arithmetic import QFT_inpl_mult
 
-- 
2.43.0


From 2fcab7c3f9b346511ffc7f5aa9a8a7a1553111d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:23:54 +0000
Subject: [PATCH 39/79] fix: size of negated signed numbers, maximum and
 minimum of signed numbers of different format

---
 .../arithmetic/SBP_arithmetic.py              |  3 +++
 .../arithmetic/arithmetic_tools.py            | 24 +++++++++++--------
 src/qrisp/qtypes/quantum_float.py             |  3 ++-
 3 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py b/src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py
index edd7d3c..fc2246c 100644
--- a/src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py
+++ b/src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py
@@ -1046,6 +1046,9 @@ def inpl_mult(qf, mult_int, treat_overflow=True):
     if mult_int != 1:
         if treat_overflow:
             extension_size = int(np.ceil(np.log2(abs(mult_int))))
+            if mult_int == -1:
+                # The negation of the smallest value requires another bit
+                extension_size = 1
             if qf.signed:
                 qf.extend(extension_size, position=qf.size - 1)
                 cx(qf[-1], qf[-1 - extension_size : -1])
diff --git a/src/qrisp/alg_primitives/arithmetic/arithmetic_tools.py b/src/qrisp/alg_primitives/arithmetic/arithmetic_tools.py
index 67ea8a2..a55fc1e 100644
--- a/src/qrisp/alg_primitives/arithmetic/arithmetic_tools.py
+++ b/src/qrisp/alg_primitives/arithmetic/arithmetic_tools.py
@@ -60,7 +60,7 @@ def q_max(a: QuantumFloat, b: QuantumFloat) -> QuantumFloat:
 
     # We calculate the overlap of bits with the same significance of a and b.
     l = jnp.maximum(a.mshape[0], b.mshape[0])
-    r = jnp.minimum(a.mshape[1], b.mshape[1])
+    r = jnp.maximum(l, jnp.minimum(a.mshape[1], b.mshape[1]))
 
     c = QuantumBool()
 
@@ -78,7 +78,7 @@ def q_max(a: QuantumFloat, b: QuantumFloat) -> QuantumFloat:
                 )
 
         with control(c):
-            up_bd = jnp.minimum(a.size, l - a.exponent)
+            up_bd = jnp.minimum(a.msize, l - a.exponent)
             cx(a[:up_bd], res[:up_bd])
             lw_bd = jnp.maximum(r, a.exponent)
             cx(
@@ -86,10 +86,11 @@ def q_max(a: QuantumFloat, b: QuantumFloat) -> QuantumFloat:
                 res[lw_bd - new_exponent : a.mshape[1] - new_exponent],
             )
             if a.signed:
-                cx(a.sign(), res.sign())
+                for i in jrange(a.mshape[1] - new_exponent, res.size):
+                    cx(a.sign(), res[i])
 
         with control(c, 0):
-            up_bd = jnp.minimum(b.size, l - b.exponent)
+            up_bd = jnp.minimum(b.msize, l - b.exponent)
             cx(b[:up_bd], res[:up_bd])
             lw_bd = jnp.maximum(r, b.exponent)
             cx(
@@ -97,7 +98,8 @@ def q_max(a: QuantumFloat, b: QuantumFloat) -> QuantumFloat:
                 res[lw_bd - new_exponent : b.mshape[1] - new_exponent],
             )
             if b.signed:
-                cx(b.sign(), res.sign())
+                for i in jrange(b.mshape[1] - new_exponent, res.size):
+                    cx(b.sign(), res[i])
 
     c.delete()
 
@@ -140,7 +142,7 @@ def q_min(a: QuantumFloat, b: QuantumFloat) -> QuantumFloat:
 
     # We calculate the overlap of bits with the same significance of a and b.
     l = jnp.maximum(a.mshape[0], b.mshape[0])
-    r = jnp.minimum(a.mshape[1], b.mshape[1])
+    r = jnp.maximum(l, jnp.minimum(a.mshape[1], b.mshape[1]))
 
     c = QuantumBool()
 
@@ -158,7 +160,7 @@ def q_min(a: QuantumFloat, b: QuantumFloat) -> QuantumFloat:
                 )
 
         with control(c):
-            up_bd = jnp.minimum(a.size, l - a.exponent)
+            up_bd = jnp.minimum(a.msize, l - a.exponent)
             cx(a[:up_bd], res[:up_bd])
             lw_bd = jnp.maximum(r, a.exponent)
             cx(
@@ -166,10 +168,11 @@ def q_min(a: QuantumFloat, b: QuantumFloat) -> QuantumFloat:
                 res[lw_bd - new_exponent : a.mshape[1] - new_exponent],
             )
             if a.signed:
-                cx(a.sign(), res.sign())
+                for i in jrange(a.mshape[1] - new_exponent, res.size):
+                    cx(a.sign(), res[i])
 
         with control(c, 0):
-            up_bd = jnp.minimum(b.size, l - b.exponent)
+            up_bd = jnp.minimum(b.msize, l - b.exponent)
             cx(b[:up_bd], res[:up_bd])
             lw_bd = jnp.maximum(r, b.exponent)
             cx(
@@ -177,7 +180,8 @@ def q_min(a: QuantumFloat, b: QuantumFloat) -> QuantumFloat:
                 res[lw_bd - new_exponent : b.mshape[1] - new_exponent],
             )
             if b.signed:
-                cx(b.sign(), res.sign())
+                for i in jrange(b.mshape[1] - new_exponent, res.size):
+                    cx(b.sign(), res[i])
 
     c.delete()
 
diff --git a/src/qrisp/qtypes/quantum_float.py b/src/qrisp/qtypes/quantum_float.py
index f273b23..74f8246 100644
--- a/src/qrisp/qtypes/quantum_float.py
+++ b/src/qrisp/qtypes/quantum_float.py
@@ -523,7 +523,8 @@ class QuantumFloat(QuantumVariable):
 
             if self.signed or other < 0:
                 output_qf = QuantumFloat(
-                    self.msize + int(np.ceil(np.log2(abs(other)))),
+                    # The negation of the smallest signed value requires another bit
+                    self.msize + int(np.ceil(np.log2(abs(other)))) + int(self.signed and other == -1),
                     self.exponent,
                     signed=True,
                 )
-- 
2.43.0


From 170ec37e2fe06237c7795bfa28879a070c18af81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:24:19 +0000
Subject: [PATCH 40/79] fix: powers, squares and shifts of quantum numbers with
 exponents or signs

---
 src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py        | 5 ++---
 .../arithmetic/jasp_arithmetic/jasp_multiplyers.py           | 4 ++--
 src/qrisp/qtypes/quantum_float.py                            | 4 ++--
 3 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py b/src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py
index fc2246c..cdde7b1 100644
--- a/src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py
+++ b/src/qrisp/alg_primitives/arithmetic/SBP_arithmetic.py
@@ -1061,9 +1061,6 @@ def inpl_mult(qf, mult_int, treat_overflow=True):
 
     quantum_bit_shift(qf, bit_shift, treat_overflow)
 
-    if treat_overflow and bit_shift < 0 and qf.signed:
-        cx(qf[-1], qf[bit_shift - 1 : -1])
-
 
 def quantum_bit_shift(qf, bit_shift, treat_overflow=True):
 
@@ -1092,6 +1089,8 @@ def quantum_bit_shift(qf, bit_shift, treat_overflow=True):
 
     if qf.signed:
         cyclic_shift(qf[:-1], bit_shift)
+        if treat_overflow and bit_shift < 0:
+            cx(qf[-1], qf[bit_shift - 1 : -1])
     else:
         cyclic_shift(qf, bit_shift)
 
diff --git a/src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_multiplyers.py b/src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_multiplyers.py
index 0027b5a..3d6b792 100644
--- a/src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_multiplyers.py
+++ b/src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_multiplyers.py
@@ -25,7 +25,7 @@ from qrisp.qtypes import QuantumBool, QuantumFloat
 @qache(static_argnames="inpl_adder")
 def jasp_controlling_multiplyer(a, b, inpl_adder=gidney_adder):
 
-    s = QuantumFloat(a.size + b.size)
+    s = QuantumFloat(a.size + b.size, a.exponent + b.exponent)
 
     for i in jrange(b.size):
         with control(b[i]):
@@ -37,7 +37,7 @@ def jasp_controlling_multiplyer(a, b, inpl_adder=gidney_adder):
 @qache(static_argnames="inpl_adder")
 def jasp_squaring(a, inpl_adder=gidney_adder):
 
-    s = QuantumFloat(2 * a.size)
+    s = QuantumFloat(2 * a.size, 2 * a.exponent)
     temp = QuantumBool()
 
     for i in jrange(a.size):
diff --git a/src/qrisp/qtypes/quantum_float.py b/src/qrisp/qtypes/quantum_float.py
index 74f8246..02c92a3 100644
--- a/src/qrisp/qtypes/quantum_float.py
+++ b/src/qrisp/qtypes/quantum_float.py
@@ -647,9 +647,9 @@ class QuantumFloat(QuantumVariable):
                     (temp_results[i + 1] << jasp_multiplyer)(base, temp_results[i])
                     # (temp_results[i+1] << (lambda a, b : a * b))(base, temp_results[i])
 
-            temp_results = [QuantumFloat((i + 1) * self.size) for i in range(power)]
+            temp_results = [QuantumFloat((i + 1) * self.size, (i + 1) * self.exponent) for i in range(power)]
 
-            res = QuantumFloat(self.size * power)
+            res = QuantumFloat(self.size * power, self.exponent * power)
             with conjugate(power_conjugator)(self, power, temp_results):
                 cx(temp_results[-1], res)
 
-- 
2.43.0


From f09b19c2a0c470bc6cece2b34d8f03b0ef50e37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:30:06 +0000
Subject: [PATCH 41/79] fix: division of numbers whose divisor exceeds the
 range of the numerator

---
 src/qrisp/alg_primitives/arithmetic/ripple_division.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qrisp/alg_primitives/arithmetic/ripple_division.py b/src/qrisp/alg_primitives/arithmetic/ripple_division.py
index 39ee0f7..4e47477 100644
--- a/src/qrisp/alg_primitives/arithmetic/ripple_division.py
+++ b/src/qrisp/alg_primitives/arithmetic/ripple_division.py
@@ -82,7 +82,7 @@ def q_int_div(numerator, divisor, adder="thapliyal", n=None, log_output=True):
     # We need one additional bit (why?)
 
     if n is None:
-        n = int(numerator.mshape[1] - divisor.exponent) + 1
+        n = max(int(numerator.mshape[1] - divisor.exponent) + 1, 1)
 
     # The quotient bits will successively be calculated/
     # added starting at the most significant bit.
-- 
2.43.0


From 9cc07da43ba44ebf2ea104fcbdc9508773114b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:37:39 +0000
Subject: [PATCH 42/79] fix: views of quantum arrays can be concatenated,
 duplicated and deleted, indices are range checked, outcomes of large integers

---
 src/qrisp/core/quantum_array.py | 50 +++++++++++++++++++++++----------
 1 file changed, 35 insertions(+), 15 deletions(-)

diff --git a/src/qrisp/core/quantum_array.py b/src/qrisp/core/quantum_array.py
index 81f8b94..584318f 100644
--- a/src/qrisp/core/quantum_array.py
+++ b/src/qrisp/core/quantum_array.py
@@ -265,7 +265,11 @@ class QuantumArray:
         # Retrieve the index address
         # This can either be an integer or an array slice, depending on what
         # the type of key is
-        sliced_ind_array = self.ind_array[key]
+        if check_for_tracing_mode():
+            sliced_ind_array = self.ind_array[key]
+        else:
+            # In contrast to Jax, Numpy raises an error if the index is out of bounds
+            sliced_ind_array = jnp.array(np.array(self.ind_array)[key])
 
         if len(sliced_ind_array.shape):
             # If the sliced_ind_array has a non trivial shape,
@@ -288,9 +292,6 @@ class QuantumArray:
                 qv.qs = self.qs
                 return qv
             else:
-                for i in range(len(key)):
-                    if key[i] >= self.shape[i]:
-                        raise Exception(f"Index {key} out of bounds for QuantumArray with shape {self.shape}")
                 return self.qv_list[index]
 
     def __setitem__(self, key, value):
@@ -581,8 +582,8 @@ class QuantumArray:
         if check_for_tracing_mode():
             self.qs.clear_qubits(self.qb_array)
         else:
-            for i in range(self.size):
-                self.qv_list[i].delete(verify=verify)
+            for qv in self.flatten():
+                qv.delete(verify=verify)
 
     def measure(self):
         from qrisp.core.gate_application_functions import measure
@@ -748,7 +749,7 @@ class QuantumArray:
 
         if isinstance(self.qtype, QuantumFloat):
             if self.qtype.exponent >= 0:
-                res = np.zeros(len(flattened_array), dtype=np.int32)
+                res = np.zeros(len(flattened_array), dtype=np.int64)
             else:
                 res = np.zeros(len(flattened_array))
         else:
@@ -765,6 +766,9 @@ class QuantumArray:
                 res = res.astype("object")
                 res[i] = self.qtype.decoder(int(bin_string[i * n : (i + 1) * n], 2))
 
+        if res.dtype == np.int64:
+            res = to_int32_if_possible(res)
+
         return OutcomeArray(res.reshape(self.shape))
 
     def __len__(self):
@@ -961,7 +965,13 @@ class QuantumArray:
 
         res = copy.copy(self)
 
-        ind_array_other_shifted = other.ind_array + self.size
+        # self might be a view on a larger array
+        if check_for_tracing_mode():
+            self_base_size = self.qb_array.size // self.qtype_size
+        else:
+            self_base_size = len(self.qv_list)
+
+        ind_array_other_shifted = other.ind_array + self_base_size
 
         concat_ind_array = jnp.concatenate((self.ind_array, ind_array_other_shifted), axis=axis)
 
@@ -1023,6 +1033,7 @@ class QuantumArray:
 
         """
         res = copy.copy(self)
+        res.ind_array = jnp.arange(self.size).reshape(self.shape)
 
         if check_for_tracing_mode():
             qs = self.qs
@@ -1032,8 +1043,10 @@ class QuantumArray:
             if init:
                 from qrisp import cx
 
-                for i in jrange(self.size * self.qtype_size):
-                    cx(self.qb_array[i], res.qb_array[i])
+                flat_self = self.flatten()
+                flat_res = res.flatten()
+                for i in jrange(self.size):
+                    cx(flat_self[i], flat_res[i])
 
         else:
             if qs is None:
@@ -1042,8 +1055,8 @@ class QuantumArray:
                 res.qs = qs
 
             res.qv_list = []
-            for i in range(self.size):
-                res.qv_list.append(self.qv_list[i].duplicate(name=self.qtype.name + "*", qs=res.qs, init=init))
+            for qv in self.flatten():
+                res.qv_list.append(qv.duplicate(name=self.qtype.name + "*", qs=res.qs, init=init))
 
         return res
 
@@ -2208,13 +2221,21 @@ def manipulate_array(q_array, index):
     return q_array[0]
 
 
+def to_int32_if_possible(array):
+    # Outcomes are represented by 32 bit integers unless they exceed this range
+    info = np.iinfo(np.int32)
+    if array.size == 0 or (array.min() >= info.min and array.max() <= info.max):
+        return array.astype(np.int32)
+    return array
+
+
 class OutcomeArray(np.ndarray):
     def __new__(subtype, ndarray):
         if isinstance(ndarray, list):
             ndarray = np.array(ndarray)
 
             if ndarray.dtype == np.int64:
-                ndarray = np.array(ndarray, dtype=np.int32)
+                ndarray = to_int32_if_possible(ndarray)
 
         obj = super().__new__(subtype, ndarray.shape, dtype=ndarray.dtype)
         indices = product(*[list(range(i)) for i in ndarray.shape])
@@ -2225,8 +2246,7 @@ class OutcomeArray(np.ndarray):
         return obj
 
     def __hash__(self):
-        return hash(self.ravel().data.tobytes())
-        # return hash(str(self))
+        return hash(tuple(self.ravel().tolist()))
 
     def __eq__(self, other):
         return np.array_equal(self, other)
-- 
2.43.0


From 426f179daae4a060ffef164d82b120e1cc97126c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:37:39 +0000
Subject: [PATCH 43/79] fix: phases of multi-output truth table synthesis

---
 src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py b/src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py
index 5835e76..547ad69 100644
--- a/src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py
+++ b/src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py
@@ -574,6 +574,8 @@ def gray_logic_synth(input_var, output_var, tt, phase_tolerant=False, lin_solve=
     input_var_dupl.qs.data = []
 
     if not phase_tolerant:
+        # The phase synthesis treats the first qubit as the most significant bit
+        residual_phases = residual_phases.reshape(tt.bit_amount * [2]).transpose().flatten()
         gray_phase_synth(input_var_dupl, residual_phases)
 
     qc.data.extend(input_var_dupl.qs.data)
-- 
2.43.0


From 9955c488e597287bd935a2f1aa91cb6bc21fa749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:48:46 +0000
Subject: [PATCH 44/79] fix: make the inverse phase tolerant truth table
 synthesis usable

The method "gray_pt_inv" imported a function that does not exist.
---
 src/qrisp/alg_primitives/logic_synthesis/truth_tables.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/qrisp/alg_primitives/logic_synthesis/truth_tables.py b/src/qrisp/alg_primitives/logic_synthesis/truth_tables.py
index 41420ac..0227b13 100644
--- a/src/qrisp/alg_primitives/logic_synthesis/truth_tables.py
+++ b/src/qrisp/alg_primitives/logic_synthesis/truth_tables.py
@@ -187,12 +187,10 @@ class TruthTable:
             gray_logic_synth(input_var, output_var, self, phase_tolerant=True)
 
         elif method == "gray_pt_inv":
-            from qrisp.alg_primitives.logic_synthesis.gray_synthesis import (
-                gray_logic_synth,
+            input_var.qs.append(
+                self.gate_synth(method="gray_pt", inv=True),
+                list(input_var.reg) + list(output_var.reg),
             )
-            from qrisp.misc import quantum_invert
-
-            quantum_invert(gray_logic_synth, [input_var, output_var, self, True], input_var.qs)
 
         elif method == "pprm_pt":
             from qrisp.alg_primitives.logic_synthesis.pprm_synthesis import pprm
-- 
2.43.0


From ed98d049acd45d7a5d64066675de799014d19e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:48:58 +0000
Subject: [PATCH 45/79] fix: keep the parity traversal of phase synthesis
 connected

Steps from and back to the empty parity could cover several qubits at once
but only emitted one CNOT. Phase functions of a single parity over three or
more qubits permuted the basis states.
---
 src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py b/src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py
index 547ad69..b86c513 100644
--- a/src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py
+++ b/src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py
@@ -234,10 +234,10 @@ def single_qb_traversal(locations, bit_amount):
 
     # Make sure 0 appears last
     if tr_seq[-1] != 0:
-        tr_seq = tr_seq + [0]
+        tr_seq = tr_seq + hamming_movement(tr_seq[-1], 0, bit_amount)
 
     if tr_seq[0] != 0:
-        tr_seq = [0] + tr_seq
+        tr_seq = [0] + hamming_movement(0, tr_seq[0], bit_amount)[:-1] + tr_seq
 
     # Turn into binaries
     tr_seq_bin = [int_as_array(x, bit_amount) for x in tr_seq]
-- 
2.43.0


From 945d4f3cd530a98ccf4112024620d9e56d3c0142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:48:58 +0000
Subject: [PATCH 46/79] fix: synthesize the phase of the zero state in phase
 functions

The offset was dropped, which is a relative phase once the gate is controlled.
---
 src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py b/src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py
index b86c513..09de4ff 100644
--- a/src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py
+++ b/src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py
@@ -390,6 +390,11 @@ def gray_synth_qc(target_phases, phase_tolerant=False, flip_bit_order=False):
         except TypeError:
             pass
 
+    # The traversal synthesizes the phases relative to the phase of the 0 state.
+    # This offset is a relative phase as soon as the gate is controlled.
+    if not phase_tolerant and target_phases[0] != 0:
+        qc.gphase(target_phases[0], qc.qubits[0])
+
     if not phase_tolerant and not flip_bit_order and len(qc.qubits) < 9:
         definition_reversed_bit = gray_synth_qc(target_phases, phase_tolerant, flip_bit_order=True)
         if qc.depth() > definition_reversed_bit.depth():
-- 
2.43.0


From 1b08283daa13283b9ad04430586ee0548e9ae4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:48:58 +0000
Subject: [PATCH 47/79] fix: remove the global phase of multi output truth
 table synthesis

The offset turned into a relative phase under control.
---
 src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py b/src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py
index 09de4ff..026cff5 100644
--- a/src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py
+++ b/src/qrisp/alg_primitives/logic_synthesis/gray_synthesis.py
@@ -564,7 +564,9 @@ def gray_logic_synth(input_var, output_var, tt, phase_tolerant=False, lin_solve=
     for i in range(tt.shape[1]):
         gray_logic_synth_single_qb(input_var_dupl, output_var_dupl, i, tt.sub_table(i), phase_tolerant=True)
 
-        temp = (tt.sub_table(i).n_rep - 1 / 2) * np.pi / 2
+        # The phase tolerant synthesis leaves phases relative to the 0 state
+        n_rep = tt.sub_table(i).n_rep
+        temp = (n_rep - n_rep[0]) * np.pi / 2
         temp = temp.transpose()[0]
 
         residual_phases += temp
-- 
2.43.0


From c512855b7e7bed17aeb5bb45de728b9a04462e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:25:22 +0000
Subject: [PATCH 48/79] fix: honor control patterns and inversion of classical
 control environments

String patterns were read in reverse order, the invert option was ignored outside
of tracing and skipped blocks kept the temporary qubits of nested environments.
---
 .../classical_control_environment.py          | 33 +++++++++++--------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/qrisp/environments/classical_control_environment.py b/src/qrisp/environments/classical_control_environment.py
index 7847134..44d0a4a 100644
--- a/src/qrisp/environments/classical_control_environment.py
+++ b/src/qrisp/environments/classical_control_environment.py
@@ -163,18 +163,28 @@ class ClControlEnvironment(QuantumEnvironment):
             if ctrl_state == len(ctrl_bls) * "1":
                 self.ctrl_state = -1
             else:
-                self.ctrl_state = int(self.ctrl_state, 2)
+                # The i-th character belongs to the i-th control value
+                self.ctrl_state = int(self.ctrl_state[::-1], 2)
 
         self.ctrl_state = self.ctrl_state % (2 ** len(self.ctrl_bls))
 
         self.invert = invert
 
+    def condition_fulfilled(self):
+        fulfilled = all(bool(self.ctrl_bls[i]) == bool((self.ctrl_state >> i) & 1) for i in range(len(self.ctrl_bls)))
+        return fulfilled != self.invert
+
     def compile(self):
-        for i in range(len(self.ctrl_bls)):
-            if self.ctrl_bls[i] != bool((self.ctrl_state >> i) & 1):
-                break
+        if self.condition_fulfilled():
+            QuantumEnvironment.compile(self)
         else:
+            # The content is not executed but environments within this environment
+            # might have allocated temporary qubits that need to be released.
+            original_data = list(self.env_qs.data)
+            self.env_qs.data = []
             QuantumEnvironment.compile(self)
+            allocations = [instr for instr in self.env_qs.data if instr.op.name in ["qb_alloc", "qb_dealloc"]]
+            self.env_qs.data = original_data + allocations
 
     def __exit__(self, exception_type, exception_value, traceback):
 
@@ -192,15 +202,12 @@ class ClControlEnvironment(QuantumEnvironment):
         static_error_appeared = False
         if not check_for_tracing_mode():
             if exception_type is not None:
-                for i in range(len(self.ctrl_bls)):
-                    ctrl_bl = self.ctrl_bls[i]
-                    if (ctrl_bl ^ (self.ctrl_state >> i)) & 1:
-                        self.env_qs.data = []
-                        static_error_appeared = True
-                        exception_type = None
-                        exception_value = None
-                        traceback = None
-                        break
+                if not self.condition_fulfilled():
+                    self.env_qs.data = []
+                    static_error_appeared = True
+                    exception_type = None
+                    exception_value = None
+                    traceback = None
 
         QuantumEnvironment.__exit__(self, exception_type, exception_value, traceback)
 
-- 
2.43.0


From bbd33b81323af8586fda2f72e52e3fa175c85a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:25:22 +0000
Subject: [PATCH 49/79] fix: find the calling line in scripts and retarget
 custom controlled content

Conditions opened at the top level of a script did not provide their truth value.
Code with custom control inside nested control environments kept the original
control qubit.
---
 src/qrisp/misc/utility.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/qrisp/misc/utility.py b/src/qrisp/misc/utility.py
index 32bd0bf..4533dec 100644
--- a/src/qrisp/misc/utility.py
+++ b/src/qrisp/misc/utility.py
@@ -1342,18 +1342,36 @@ def get_measurement_from_qc(qc, qubits, backend: "BackendLike", shots=None) -> "
 
 def find_calling_line(level=0):
     stack = traceback.extract_stack(limit=level + 3)
-    return str(traceback.format_list(stack)[1].split("\n")[1].strip())  # prints "a = fct1()"
+    # Count from the end, since the stack is shorter than the limit for calls
+    # from the top level of a script
+    frame_index = max(len(stack) - (level + 2), 0)
+    return str(traceback.format_list(stack)[frame_index].split("\n")[1].strip())  # prints "a = fct1()"
 
 
-def retarget_instructions(data, source_qubits, target_qubits):
+def retarget_instructions(data, source_qubits, target_qubits, retarget_controls=False):
     from qrisp import QuantumEnvironment
 
+    def retarget(qubits):
+        return [target_qubits[source_qubits.index(qb)] if qb in source_qubits else qb for qb in qubits]
+
     for i in range(len(data)):
         instr = data[i]
 
         if isinstance(instr, QuantumEnvironment):
-            retarget_instructions(instr.original_data, source_qubits, target_qubits)
-            retarget_instructions(instr.env_data, source_qubits, target_qubits)
+            # The content of custom control environments is controlled on the qubit
+            # handed to the custom control function
+            retarget_content = retarget_controls
+
+            if hasattr(instr, "control_qb") and instr.control_qb in source_qubits:
+                instr.control_qb = retarget([instr.control_qb])[0]
+                retarget_content = True
+
+            if retarget_controls and hasattr(instr, "ctrl_qubits"):
+                instr.ctrl_qubits = retarget(instr.ctrl_qubits)
+                instr.condition_truth_value = retarget([instr.condition_truth_value])[0]
+
+            retarget_instructions(instr.original_data, source_qubits, target_qubits, retarget_content)
+            retarget_instructions(instr.env_data, source_qubits, target_qubits, retarget_content)
             continue
 
         for j in range(len(instr.qubits)):
-- 
2.43.0


From 0276199c24af42e8195e5e39ce275cc0d4ec9fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:25:22 +0000
Subject: [PATCH 50/79] fix: nested inverted and flipped conditions

An inverted control environment, or a flipped condition truth value, inside of another
condition was executed if the outer condition did not hold. Conditions inside of a
control environment with control state 0 ignored the state. The traced control
environment ignored inversion. Empty blocks kept their truth value qubit.
---
 src/qrisp/environments/control_environment.py | 103 ++++++++++++++----
 .../environments/quantum_conditionals.py      |  22 ++--
 .../environments/quantum_environments.py      |   2 +-
 3 files changed, 100 insertions(+), 27 deletions(-)

diff --git a/src/qrisp/environments/control_environment.py b/src/qrisp/environments/control_environment.py
index d75dd67..77de980 100644
--- a/src/qrisp/environments/control_environment.py
+++ b/src/qrisp/environments/control_environment.py
@@ -19,8 +19,8 @@ import numpy as np
 from jax._src.array import ArrayImpl
 from jax.core import ShapedArray
 
-from qrisp.circuit import QuantumCircuit, Qubit, XGate
-from qrisp.core import mcx, p, rz, x
+from qrisp.circuit import QuantumCircuit, Qubit, RZGate, XGate
+from qrisp.core import mcx, p
 from qrisp.core.session_merging_tools import merge, merge_sessions, multi_session_merge
 from qrisp.environments import ClControlEnvironment, QuantumEnvironment
 from qrisp.jasp import check_for_tracing_mode, get_last_equation
@@ -77,6 +77,8 @@ class ControlEnvironment(QuantumEnvironment):
         else:
             self.ctrl_state = str(ctrl_state)
 
+        self.invert = invert
+
         if check_for_tracing_mode():
             QuantumEnvironment.__init__(self, list(ctrl_qubits))
             if not isinstance(ctrl_qubits, list):
@@ -94,7 +96,6 @@ class ControlEnvironment(QuantumEnvironment):
                 ctrl_qubits = [ctrl_qubits]
 
             self.ctrl_qubits = ctrl_qubits
-            self.invert = invert
 
             self.manual_allocation_management = True
 
@@ -195,18 +196,7 @@ class ControlEnvironment(QuantumEnvironment):
 
                 ctrl_qubits.append(self.parent_cond_env.condition_truth_value)
 
-                parent_ctrl_state = "1"
-
-                if isinstance(self.parent_cond_env, ControlEnvironment):
-                    if len(self.parent_cond_env.ctrl_qubits) == 1:
-                        if self.parent_cond_env.ctrl_state == "0" and not hasattr(self.parent_cond_env, "qbool"):
-                            parent_ctrl_state = "0"
-
-                    if self.parent_cond_env.invert:
-                        if parent_ctrl_state == "0":
-                            parent_ctrl_state = "1"
-                        elif parent_ctrl_state == "1":
-                            parent_ctrl_state = "0"
+                parent_ctrl_state = self.parent_cond_env.get_truth_value_state()
 
                 cond_compile_ctrl_state = cond_compile_ctrl_state + parent_ctrl_state
 
@@ -223,6 +213,13 @@ class ControlEnvironment(QuantumEnvironment):
                     method=method,
                 )
 
+            # An inverted environment within a parent environment is executed if the
+            # parent condition holds but the condition of this environment does not.
+            invert_within_parent = self.invert and self.parent_cond_env is not None
+            if invert_within_parent:
+                apply_on_truth_value(self, XGate())
+                self.invert = False
+
             perm_lock(ctrl_qubits)
             # unlock(self.condition_truth_value)
 
@@ -286,11 +283,11 @@ class ControlEnvironment(QuantumEnvironment):
                 ):
                     if instruction.op.name == "x":
                         inversion_tracker *= -1
-                        x(self.condition_truth_value)
+                        apply_on_truth_value(self, XGate())
                     elif instruction.op.name == "p":
                         p(instruction.op.params[0], self.condition_truth_value)
                     elif instruction.op.name == "rz":
-                        rz(instruction.op.params[0], self.condition_truth_value)
+                        apply_on_truth_value(self, RZGate(instruction.op.params[0]))
                     elif instruction.op.name in ["qb_alloc", "qb_dealloc"]:
                         pass
                     else:
@@ -341,7 +338,10 @@ class ControlEnvironment(QuantumEnvironment):
             perm_unlock(ctrl_qubits)
 
             if inversion_tracker == -1:
-                x(self.condition_truth_value)
+                apply_on_truth_value(self, XGate())
+
+            if invert_within_parent:
+                apply_on_truth_value(self, XGate())
 
             if len(ctrl_qubits) > 1:
                 if len(ctrl_qubits) > 5:
@@ -357,9 +357,52 @@ class ControlEnvironment(QuantumEnvironment):
                 )
                 self.qbool.delete()
 
+        elif hasattr(self, "qbool"):
+            self.qbool.delete()
+
         if self.parent_cond_env is not None:
             self.parent_cond_env.sub_condition_envs.extend(self.sub_condition_envs + [self])
 
+    # Returns the state of the condition truth value qubit, for which the content
+    # of this environment is executed
+    def get_truth_value_state(self):
+
+        # Within a parent environment, the truth value is computed into a separate
+        # qubit during compilation. Environments within this environment can be
+        # compiled earlier than that (if they are uncomputed).
+        if self.find_parent_cond_env() is not None:
+            return "1"
+
+        state = "1"
+
+        if len(self.ctrl_qubits) == 1 and self.ctrl_state == "0":
+            state = "0"
+
+        if self.invert:
+            state = "0" if state == "1" else "1"
+
+        return state
+
+    def find_parent_cond_env(self):
+        from qrisp.environments import ConditionEnvironment, ConjugationEnvironment, InversionEnvironment
+
+        # Already determined when the environment was exited
+        if hasattr(self, "parent_cond_env"):
+            return self.parent_cond_env
+
+        env_stack = list(self.env_qs.env_stack)
+        if self in env_stack:
+            env_stack = env_stack[: env_stack.index(self)]
+
+        for env in env_stack[::-1]:
+            if isinstance(env, (ControlEnvironment, ConditionEnvironment)):
+                return env
+            if not isinstance(env, (InversionEnvironment, ConjugationEnvironment)):
+                if not type(env) == QuantumEnvironment:
+                    break
+
+        return None
+
     def jcompile(self, eqn, context_dic):
 
         from qrisp.jasp import extract_invalues, insert_outvalues
@@ -369,7 +412,15 @@ class ControlEnvironment(QuantumEnvironment):
 
         num_ctrl = len(args) - len(body_jaspr.invars)
         flattened_jaspr = body_jaspr.flatten_environments()
-        controlled_jaspr = flattened_jaspr.control(num_ctrl, ctrl_state=self.ctrl_state)
+        ctrl_state = self.ctrl_state
+        if self.invert:
+            if num_ctrl > 1:
+                raise NotImplementedError(
+                    "Inverted control environments with several control qubits are not available in tracing mode"
+                )
+            ctrl_state = "0" if ctrl_state == "1" else "1"
+
+        controlled_jaspr = flattened_jaspr.control(num_ctrl, ctrl_state=ctrl_state)
 
         import jax
 
@@ -392,6 +443,20 @@ class ControlEnvironment(QuantumEnvironment):
 # on the control_qubit are also CustomControlOperations.
 # For the conversion process, this function turns all Operations which are NO custom
 # controls into their regular controls.
+# Applies a gate on the condition truth value of a control/condition environment.
+# Within a parent environment the truth value is the conjunction with the parent
+# condition, which must not be modified, if the parent condition doesn't hold.
+def apply_on_truth_value(env, gate):
+    if env.parent_cond_env is None:
+        env.env_qs.append(gate, [env.condition_truth_value])
+    else:
+        parent_ctrl_state = env.parent_cond_env.get_truth_value_state()
+        env.env_qs.append(
+            gate.control(1, ctrl_state=parent_ctrl_state),
+            [env.parent_cond_env.condition_truth_value, env.condition_truth_value],
+        )
+
+
 def convert_to_custom_control(instruction, control_qubit, invert_control=False):
 
     from qrisp.environments import CustomControlOperation
diff --git a/src/qrisp/environments/quantum_conditionals.py b/src/qrisp/environments/quantum_conditionals.py
index fd309b7..be4372c 100644
--- a/src/qrisp/environments/quantum_conditionals.py
+++ b/src/qrisp/environments/quantum_conditionals.py
@@ -15,8 +15,8 @@
 ********************************************************************************
 """
 
-from qrisp.circuit import fast_append
-from qrisp.core.gate_application_functions import p, rz, x, z
+from qrisp.circuit import RZGate, XGate, fast_append
+from qrisp.core.gate_application_functions import p, z
 from qrisp.core.quantum_variable import QuantumVariable
 from qrisp.core.session_merging_tools import merge
 from qrisp.environments.quantum_environments import QuantumEnvironment
@@ -361,10 +361,16 @@ class ConditionEnvironment(QuantumEnvironment):
                 if not type(env) == QuantumEnvironment:
                     break
 
+    # Returns the state of the condition truth value qubit, for which the content
+    # of this environment is executed
+    def get_truth_value_state(self):
+        return "1"
+
     # Compile method
     def compile(self):
         from qrisp.environments.control_environment import (
             ControlEnvironment,
+            apply_on_truth_value,
             convert_to_custom_control,
         )
         from qrisp.qtypes.quantum_bool import QuantumBool
@@ -407,7 +413,9 @@ class ConditionEnvironment(QuantumEnvironment):
 
                 from qrisp import mcx
 
-                mcx(toffoli_qb_list, self.condition_truth_value, method="gray_pt")
+                toffoli_ctrl_state = self.parent_cond_env.get_truth_value_state() + "1"
+
+                mcx(toffoli_qb_list, self.condition_truth_value, method="gray_pt", ctrl_state=toffoli_ctrl_state)
 
             else:
                 # Without any parent environment we can simply synhesize the
@@ -475,12 +483,12 @@ class ConditionEnvironment(QuantumEnvironment):
                     if instruction.op.name == "x":
                         inversion_tracker *= -1
                         perm_unlock(self.condition_truth_value)
-                        x(self.condition_truth_value)
+                        apply_on_truth_value(self, XGate())
                         perm_lock(self.condition_truth_value)
                     elif instruction.op.name == "p":
                         p(instruction.op.params[0], self.condition_truth_value)
                     elif instruction.op.name == "rz":
-                        rz(instruction.op.params[0], self.condition_truth_value)
+                        apply_on_truth_value(self, RZGate(instruction.op.params[0]))
                     elif instruction.op.name == "z":
                         z(self.condition_truth_value)
                     else:
@@ -505,7 +513,7 @@ class ConditionEnvironment(QuantumEnvironment):
             unlock(self.condition_truth_value)
             perm_unlock(self.condition_truth_value)
             if inversion_tracker == -1:
-                x(self.condition_truth_value)
+                apply_on_truth_value(self, XGate())
 
             perm_unlock(recursive_qv_search(self.args))
 
@@ -516,7 +524,7 @@ class ConditionEnvironment(QuantumEnvironment):
             # this environments truth value
             if self.parent_cond_env is not None:
                 self.parent_cond_env.sub_condition_envs.extend(self.sub_condition_envs + [self])
-                mcx(toffoli_qb_list, self.qbool, method="gray_pt_inv")
+                mcx(toffoli_qb_list, self.qbool, method="gray_pt_inv", ctrl_state=toffoli_ctrl_state)
                 self.qbool.delete()
 
             # We now uncompute the environments' truth value
diff --git a/src/qrisp/environments/quantum_environments.py b/src/qrisp/environments/quantum_environments.py
index ab26444..475a6a4 100644
--- a/src/qrisp/environments/quantum_environments.py
+++ b/src/qrisp/environments/quantum_environments.py
@@ -505,7 +505,7 @@ class QuantumEnvironment(QuantumPrimitive):
 
         # Otherwise, we append self to the data of the parent environment
         else:
-            if len(self.env_data):
+            if len(self.env_data) or hasattr(self, "qbool"):
                 self.env_qs.data.append(self)
             self.parent.deallocated_qubits.extend(dealloc_qubit_list)
 
-- 
2.43.0


From 77e006f6fb22e08d93daebd0a79e272f9ab76c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:25:22 +0000
Subject: [PATCH 51/79] fix: condition environments within controlled
 conjugations

They were linked to the wrong parent environment, which raised an exception or
dropped the outer control. Rejected iteration environments are now left properly.
---
 .../environments/conjugation_environment.py   | 22 ++++++++++++++++++-
 .../environments/iteration_environment.py     |  9 +++++++-
 2 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/environments/conjugation_environment.py b/src/qrisp/environments/conjugation_environment.py
index bf05c78..b1c21a9 100644
--- a/src/qrisp/environments/conjugation_environment.py
+++ b/src/qrisp/environments/conjugation_environment.py
@@ -220,8 +220,16 @@ class ConjugationEnvironment(QuantumEnvironment):
             self.env_qs.append(instr)
 
         if ctrl is not None:
-            with control(ctrl, ctrl_method=ctrl_method):
+            control_env = control(ctrl, ctrl_method=ctrl_method)
+            with control_env:
                 self.env_qs.data.extend(conjugation_center_data)
+            set_parent_cond_env(conjugation_center_data, control_env)
+
+            # Environments, that have already been compiled (because they were uncomputed)
+            # took the truth value of the surrounding environment into account.
+            for env in self.env_qs.env_stack:
+                if getattr(env, "condition_truth_value", None) is ctrl:
+                    control_env.sub_condition_envs.extend(env.sub_condition_envs)
         else:
             self.env_qs.data.extend(conjugation_center_data)
 
@@ -355,6 +363,18 @@ class ConjugationEnvironment(QuantumEnvironment):
             self.env_qs.append(instr)
 
 
+# The condition environments within the conjugation center were created before the
+# control environment that wraps the center.
+def set_parent_cond_env(data, control_env):
+    from qrisp.environments import ConditionEnvironment, ControlEnvironment, InversionEnvironment
+
+    for instr in data:
+        if isinstance(instr, (ControlEnvironment, ConditionEnvironment)):
+            instr.parent_cond_env = control_env
+        elif isinstance(instr, (InversionEnvironment, ConjugationEnvironment)) or type(instr) == QuantumEnvironment:
+            set_parent_cond_env(instr.env_data, control_env)
+
+
 class ConjugatedOperation(Operation):
     def __init__(self, conjugation_circ, content_circ):
 
diff --git a/src/qrisp/environments/iteration_environment.py b/src/qrisp/environments/iteration_environment.py
index 36bf057..905e67f 100644
--- a/src/qrisp/environments/iteration_environment.py
+++ b/src/qrisp/environments/iteration_environment.py
@@ -144,7 +144,14 @@ class IterationEnvironment(QuantumEnvironment):
 
         if set(self.env_qs.qv_list) != self.inital_qvs and self.iteration_amount > 1:
             if exception_value is None:
-                raise Exception("Tried to invoke IterationEnvironment with code creating/deleting QuantumVariables")
+                exception_type = Exception
+                exception_value = Exception(
+                    "Tried to invoke IterationEnvironment with code creating/deleting QuantumVariables"
+                )
+
+        # Don't keep references to the variables (some of them are uncomputed as soon as
+        # they are no longer referenced)
+        del self.inital_qvs
 
         QuantumEnvironment.__exit__(self, exception_type, exception_value, traceback)
 
-- 
2.43.0


From acbabc328a2b2954efbbf84212ee335aa62f8fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:33:20 +0000
Subject: [PATCH 52/79] fix: repeated maslov mcx in one session, import of the
 automatic uncomputation pass

---
 src/qrisp/core/compilation.py                | 2 +-
 src/qrisp/core/gate_application_functions.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/core/compilation.py b/src/qrisp/core/compilation.py
index 486d1ca..011aa43 100644
--- a/src/qrisp/core/compilation.py
+++ b/src/qrisp/core/compilation.py
@@ -76,7 +76,7 @@ def qompiler(
         if not disable_uncomputation:
             local_qvs = qs.get_local_qvs()
 
-            from qrisp.permeability.unqomp import uncompute_qc
+            from qrisp.permeability.qc_transformations.unqomp import uncompute_qc
 
             for qv in local_qvs:
                 try:
diff --git a/src/qrisp/core/gate_application_functions.py b/src/qrisp/core/gate_application_functions.py
index 401bb54..ea9a9b7 100644
--- a/src/qrisp/core/gate_application_functions.py
+++ b/src/qrisp/core/gate_application_functions.py
@@ -588,7 +588,7 @@ def mcx(controls, target, method="auto", ctrl_state=-1, num_ancilla=1):
         from qrisp import QuantumBool
 
         if n >= 3:
-            ancilla = [QuantumBool(name="maslov_anc_")]
+            ancilla = [QuantumBool(name="maslov_anc*")]
         else:
             ancilla = []
         append_operation(maslov_mcx(n, ctrl_state), qubits_0 + ancilla + qubits_1)
-- 
2.43.0


From 2475b35f210c87df8d24f1788f413a35dfae2b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:41:09 +0000
Subject: [PATCH 53/79] fix: gate wrapping in sessions that contain classical
 bits

---
 src/qrisp/environments/gate_wrap_environment.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qrisp/environments/gate_wrap_environment.py b/src/qrisp/environments/gate_wrap_environment.py
index dd2c6e1..96f8a23 100644
--- a/src/qrisp/environments/gate_wrap_environment.py
+++ b/src/qrisp/environments/gate_wrap_environment.py
@@ -180,6 +180,10 @@ class GateWrapEnvironment(QuantumEnvironment):
                     qc.qubits.pop(i)
                     break
 
+        # Classical bits that are not used within the environment don't participate
+        used_clbits = {cb for instr in qc.data for cb in instr.clbits}
+        qc.clbits = [cb for cb in qc.clbits if cb in used_clbits]
+
         translation_dic_inv = {translation_dic[key]: key for key in translation_dic.keys()}
 
         gate = qc.to_gate(self.name)
-- 
2.43.0


From 467e284f04303b21d20e3e26fb63850a97ecebba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:00:09 +0000
Subject: [PATCH 54/79] fix: uncomputation of qubits reached from one gate both
 as control and target, verification of declared permeability, unbound
 parameters in permeability checks

---
 src/qrisp/misc/utility.py                     | 18 ++++++++---------
 src/qrisp/permeability/permeability_dag.py    | 20 +++++++++++--------
 .../permeability/qc_transformations/unqomp.py |  3 ++-
 src/qrisp/permeability/type_checker.py        |  9 ++++++---
 src/qrisp/permeability/uncomputation.py       |  7 ++++---
 5 files changed, 33 insertions(+), 24 deletions(-)

diff --git a/src/qrisp/misc/utility.py b/src/qrisp/misc/utility.py
index 4533dec..6b98ff7 100644
--- a/src/qrisp/misc/utility.py
+++ b/src/qrisp/misc/utility.py
@@ -648,19 +648,19 @@ def gate_wrap_inner(function, permeability=None, is_qfree=None, name=None, verif
                 #     if permeability_dict[i] is None:
                 #         permeability_dict[i] = False
 
-                if verify:
-                    from qrisp.permeability import is_permeable
+            if verify:
+                from qrisp.permeability import is_permeable
 
-                    permeable_qubit_indices = []
+                permeable_qubit_indices = []
 
-                    for i in range(gwe.instruction.op.num_qubits):
-                        if permeability_dict[i]:
-                            permeable_qubit_indices.append(i)
+                for i in range(gwe.instruction.op.num_qubits):
+                    if permeability_dict[i]:
+                        permeable_qubit_indices.append(i)
 
-                    if not is_permeable(gwe.instruction.op, permeable_qubit_indices):
-                        raise Exception(f"Verification of permeability for function {function.__name__} failed")
+                if not is_permeable(gwe.instruction.op, permeable_qubit_indices):
+                    raise Exception(f"Verification of permeability for function {function.__name__} failed")
 
-                gwe.instruction.op.permeability = permeability_dict
+            gwe.instruction.op.permeability = permeability_dict
 
         return result
 
diff --git a/src/qrisp/permeability/permeability_dag.py b/src/qrisp/permeability/permeability_dag.py
index 05bd044..2f89468 100644
--- a/src/qrisp/permeability/permeability_dag.py
+++ b/src/qrisp/permeability/permeability_dag.py
@@ -227,9 +227,15 @@ class PermeabilityGraph(nx.DiGraph):
             return
 
         if self.has_edge(in_node, out_node):
-            nx.DiGraph.get_edge_data(self, in_node, out_node)["qubits"].extend(qubits)
+            data = nx.DiGraph.get_edge_data(self, in_node, out_node)
+            data["qubits"].extend(qubits)
         else:
-            nx.DiGraph.add_edge(self, in_node, out_node, edge_type=edge_type, qubits=list(qubits))
+            nx.DiGraph.add_edge(self, in_node, out_node, edge_type=edge_type, qubits=list(qubits), qubit_types={})
+            data = nx.DiGraph.get_edge_data(self, in_node, out_node)
+
+        # Two nodes can be connected via several qubits with differing types
+        for qb in qubits:
+            data["qubit_types"].setdefault(qb, edge_type)
 
     def get_target_qubits(self, node):
         """Returns the target qubits of a node, i.e. the qubits that have either neutral or X-permeability.
@@ -257,8 +263,7 @@ class PermeabilityGraph(nx.DiGraph):
 
         in_edges = self.in_edges(node, data=True)
         for in_node, _, data in in_edges:
-            if data["edge_type"] != "Z":
-                target_qubits.extend(data["qubits"])
+            target_qubits.extend([qb for qb in data["qubits"] if data["qubit_types"][qb] != "Z"])
 
         return target_qubits
 
@@ -291,8 +296,7 @@ class PermeabilityGraph(nx.DiGraph):
 
         in_edges = self.in_edges(node, data=True)
         for in_node, _, data in in_edges:
-            if data["edge_type"] == "Z":
-                control_qubits.extend(data["qubits"])
+            control_qubits.extend([qb for qb in data["qubits"] if data["qubit_types"][qb] == "Z"])
 
         return control_qubits
 
@@ -323,7 +327,7 @@ class PermeabilityGraph(nx.DiGraph):
 
         in_edges = self.in_edges(node, data=True)
         for in_node, _, data in in_edges:
-            if data["edge_type"] == "Z":
+            if "Z" in data["qubit_types"].values():
                 control_nodes.append(in_node)
 
         return control_nodes
@@ -355,7 +359,7 @@ class PermeabilityGraph(nx.DiGraph):
 
         in_edges = self.in_edges(node, data=True)
         for in_node, _, data in in_edges:
-            if data["edge_type"] != "Z":
+            if set(data["qubit_types"].values()) - {"Z"} or not data["qubits"]:
                 target_nodes.append(in_node)
 
         return target_nodes
diff --git a/src/qrisp/permeability/qc_transformations/unqomp.py b/src/qrisp/permeability/qc_transformations/unqomp.py
index f34f3e8..b015e7d 100644
--- a/src/qrisp/permeability/qc_transformations/unqomp.py
+++ b/src/qrisp/permeability/qc_transformations/unqomp.py
@@ -281,7 +281,8 @@ def uncompute_node(pdag, node, uncomp_qbs, recompute_qubits=[]):
     # This dictionary will hold the control qubits of each control edge
     ctrl_qubit_dic = {}
     for c in ctrls:
-        ctrl_qubit_dic[c] = pdag.get_edge_qubits(c, node)
+        types = pdag.get_edge_data(c, node)["qubit_types"]
+        ctrl_qubit_dic[c] = [qb for qb in pdag.get_edge_qubits(c, node) if types[qb] == "Z"]
 
     while len(ctrls):
         # Set alias
diff --git a/src/qrisp/permeability/type_checker.py b/src/qrisp/permeability/type_checker.py
index 1987f75..5ea8f41 100644
--- a/src/qrisp/permeability/type_checker.py
+++ b/src/qrisp/permeability/type_checker.py
@@ -78,9 +78,9 @@ def is_permeable(gate, qubit_indices):
 
             return True
 
-    for par in gate.params:
-        if isinstance(par, sp.Expr):
-            return False
+    # The unitary of a gate with unbound parameters can't be inspected
+    if gate.abstract_params or any(isinstance(par, sp.Expr) for par in gate.params):
+        return False
 
     # Create qubit order
     qubit_order = []
@@ -130,6 +130,9 @@ def is_qfree(gate):
             gate.is_qfree = True
             return True
 
+    if gate.abstract_params:
+        return False
+
     unitary = np.around(gate.get_unitary(), 5)
     # Check if the unitary has only one non-zero entry in each line
     for i in range(unitary.shape[0]):
diff --git a/src/qrisp/permeability/uncomputation.py b/src/qrisp/permeability/uncomputation.py
index f6345d6..c028891 100644
--- a/src/qrisp/permeability/uncomputation.py
+++ b/src/qrisp/permeability/uncomputation.py
@@ -56,19 +56,20 @@ def auto_uncompute_inner(function):
         qs = qs_list[0]
 
         # Determine quantum variables to uncompute
-        initial_qvs = set([hash(qv()) for qv in QuantumVariable.live_qvs])
+        # (creation times are unique, in contrast to the ids of garbage collected variables)
+        initial_qvs = set([qv().creation_time for qv in QuantumVariable.live_qvs if qv() is not None])
 
         # Execute function
         result = function(*args, **kwargs)
 
         multi_session_merge(recursive_qs_search(result) + [qs])
 
-        result_vars = set([hash(qv) for qv in recursive_qv_search(result)])
+        result_vars = set([qv.creation_time for qv in recursive_qv_search(result)])
 
         uncomp_vars = []
 
         for qv in qs.qv_list:
-            if hash(qv) not in initial_qvs.union(result_vars):
+            if qv.creation_time not in initial_qvs.union(result_vars):
                 uncomp_vars.append(qv)
 
         uncompute(qs, uncomp_vars)
-- 
2.43.0


From 60a5181f1f8d895748b777163f88799e657b421b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:07:26 +0000
Subject: [PATCH 55/79] fix: two-qubit and T depth of circuits with cy, id and
 u3 gates, composition of circuits with classical bits, identifiers of added
 bits

---
 src/qrisp/circuit/quantum_circuit.py | 20 ++++++++++++++------
 src/qrisp/circuit/transpiler.py      |  4 ++--
 src/qrisp/misc/utility.py            |  7 ++++---
 3 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/qrisp/circuit/quantum_circuit.py b/src/qrisp/circuit/quantum_circuit.py
index 8f4a4df..ab75565 100644
--- a/src/qrisp/circuit/quantum_circuit.py
+++ b/src/qrisp/circuit/quantum_circuit.py
@@ -296,11 +296,11 @@ class QuantumCircuit:
         [Qubit(qb_0)]
 
         """
-        self.qubit_index_counter[0] += 1
-
         if qubit is None:
             qubit = Qubit(f"qb_{self.qubit_index_counter[0]}")
 
+        self.qubit_index_counter[0] += 1
+
         if not isinstance(qubit, Qubit):
             raise TypeError(f"Tried to add type {type(qubit)} as a qubit")
 
@@ -336,11 +336,11 @@ class QuantumCircuit:
         [Clbit(cb_0)]
 
         """
-        self.clbit_index_counter[0] += 1
-
         if clbit is None:
             clbit = Clbit(f"cb_{self.clbit_index_counter[0]}")
 
+        self.clbit_index_counter[0] += 1
+
         if not isinstance(clbit, Clbit):
             raise TypeError(f"Tried to add type {type(clbit)} as a classical bit")
 
@@ -1051,12 +1051,20 @@ class QuantumCircuit:
             The composed QuantumCircuit. Only returned if inplace is False.
 
         """
+        if qubits is None:
+            own_qubits = {qb.identifier: qb for qb in self.qubits}
+            qubits = [own_qubits.get(qb.identifier, qb) for qb in other.qubits]
+
+        if clbits is None:
+            own_clbits = {cb.identifier: cb for cb in self.clbits}
+            clbits = [own_clbits.get(cb.identifier, cb) for cb in other.clbits]
+
         if inplace:
-            self.append(other.to_gate(), qubits, clbits)
+            self.append(other.to_op(), qubits, clbits)
             return None
 
         qc = self.copy()
-        qc.append(other.to_gate(), qubits, clbits)
+        qc.append(other.to_op(), qubits, clbits)
         return qc
 
     def bind_parameters(self, subs_dic: dict) -> QuantumCircuit:
diff --git a/src/qrisp/circuit/transpiler.py b/src/qrisp/circuit/transpiler.py
index 5666ee4..55d76ec 100644
--- a/src/qrisp/circuit/transpiler.py
+++ b/src/qrisp/circuit/transpiler.py
@@ -42,7 +42,7 @@ def transpile(qc, transpilation_level=np.inf, transpile_predicate=None, **kwargs
                 transpiled_qc.add_qubit(Qubit(qb.identifier))
 
         for cb in qc.clbits:
-            if isinstance(qb, Qubit):
+            if isinstance(cb, Clbit):
                 transpiled_qc.add_clbit(cb)
             else:
                 transpiled_qc.add_clbit(Clbit(cb.identifier))
@@ -133,7 +133,7 @@ def extend(qc_0, qc_1, translation_dic="id"):
                 qc_0.add_qubit(qb)
 
         for cb in qc_1.clbits:
-            translation_dic[qb] = qb
+            translation_dic[cb] = cb
             if cb not in qc_0.clbits:
                 qc_0.add_clbit(cb)
 
diff --git a/src/qrisp/misc/utility.py b/src/qrisp/misc/utility.py
index 6b98ff7..738af84 100644
--- a/src/qrisp/misc/utility.py
+++ b/src/qrisp/misc/utility.py
@@ -1928,8 +1928,9 @@ def t_depth_indicator(op, epsilon):
         return op.definition.t_depth(epsilon)
     elif op.name in [
         "cx",
-        "cx",
+        "cy",
         "cz",
+        "id",
         "x",
         "y",
         "z",
@@ -1959,7 +1960,7 @@ def t_depth_indicator(op, epsilon):
     elif op.name == "u3":
         res = 0
         for i in range(3):
-            par = op.params[0] / (np.pi) % 1
+            par = op.params[i] / (np.pi) % 1
             if par in [0, 1 / 2]:
                 pass
             elif par in [1 / 4, 3 / 4]:
@@ -1997,7 +1998,7 @@ def cnot_depth_indicator(op):
         return op.definition.cnot_depth()
     if op.num_qubits == 1 or op.name == "barrier":
         return 0
-    elif op.name in ["cx", "cx", "cz"]:
+    elif op.name in ["cx", "cy", "cz"]:
         return 1
     else:
         raise Exception(f"Gate {op.name} not implemented")
-- 
2.43.0


From 0b70e165ce2f5ae8aa3df20e62156e3015f96e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:21:51 +0000
Subject: [PATCH 56/79] fix: circuit conversion of controlled phases, negated
 classical and quantum controls, R gates, if-else blocks and nested parameters

---
 src/qrisp/circuit/operation.py                |   8 +-
 .../interface/converter/cirq_converter.py     |  18 +++
 .../interface/converter/pytket_converter.py   |  31 ++--
 .../interface/converter/qiskit_converter.py   | 135 ++++++++++++++----
 .../interface/converter/stim_converter.py     |   3 +
 5 files changed, 148 insertions(+), 47 deletions(-)

diff --git a/src/qrisp/circuit/operation.py b/src/qrisp/circuit/operation.py
index 35cb135..00af414 100644
--- a/src/qrisp/circuit/operation.py
+++ b/src/qrisp/circuit/operation.py
@@ -490,7 +490,7 @@ class U3Gate(Operation):
         # The inverse of a product of matrices if the reverted product of the inverses,
         # i.e. (A*B*C)^(-1) = C^-1 * B^-1 * A^-1
 
-        if self.name in ["p", "rz", "rx", "ry", "gphase", "h"]:
+        if self.name in ["p", "rz", "rx", "ry", "gphase", "h", "id", "u1", "r"]:
             new_name = str(self.name)
         elif self.name[-3:] == "_dg":
             new_name = self.name[:-3]
@@ -510,6 +510,12 @@ class U3Gate(Operation):
 
         if self.name == "u3":
             res.name = "u3"
+        elif self.name == "id":
+            res.params = list(self.params)
+        elif self.name == "u1":
+            res.params = [-par for par in self.params]
+        elif self.name == "r":
+            res.params = [-self.params[0], self.params[1]]
 
         if res.is_qfree is not None:
             res.is_qfree = bool(self.is_qfree)
diff --git a/src/qrisp/interface/converter/cirq_converter.py b/src/qrisp/interface/converter/cirq_converter.py
index 9ede12b..fb7b036 100644
--- a/src/qrisp/interface/converter/cirq_converter.py
+++ b/src/qrisp/interface/converter/cirq_converter.py
@@ -313,6 +313,8 @@ def convert_from_cirq(cirq_circuit):
         # argument, so map it to the first available qubit.  Handled
         # outside the dict because of this special qubit-mapping logic.
         if isinstance(gate, cirq.GlobalPhaseGate):
+            if extra_controls is not None:
+                raise ValueError(f"Controlled global phase {op} is not supported by the Cirq to Qrisp converter.")
             phi = np.angle(gate.coefficient)
             if cirq_qubits:
                 qc.append(ops.GPhaseGate(phi), [qubit_map[cirq_qubits[0]]])
@@ -321,6 +323,8 @@ def convert_from_cirq(cirq_circuit):
         # Measurement uses the circuit's measure() method for automatic
         # classical-bit allocation.  Cannot go through the gate dict.
         if isinstance(gate, cirq.MeasurementGate):
+            if any(gate.full_invert_mask()) or gate.confusion_map:
+                raise ValueError(f"Measurement {op} with inverted or confused outcomes is not supported.")
             qrisp_qubits = [qubit_map[q] for q in op.qubits]
             if len(qrisp_qubits) == 1:
                 qc.measure(qrisp_qubits[0])
@@ -349,6 +353,9 @@ def convert_from_cirq(cirq_circuit):
         # Convert the innermost gate to a Qrisp operation
         qrisp_op = None
 
+        # Phase that is missing in the Qrisp operation. This phase is irrelevant unless the gate is controlled.
+        phase = np.pi * getattr(inner_gate, "exponent", 0) * getattr(inner_gate, "global_shift", 0)
+
         # Dict lookup by exact type for gates whose Qrisp equivalent is
         # fixed or follows a simple (attr, multiplier) pattern.
         converter = gate_map.get(type(inner_gate))
@@ -371,12 +378,14 @@ def convert_from_cirq(cirq_circuit):
                 qrisp_op = ops.RXGate(exp * np.pi)
             elif np.isclose(exp % 4, 1.0):
                 qrisp_op = ops.XGate()
+                phase -= exp * np.pi / 2
             elif np.isclose(exp % 4, 0.5):
                 qrisp_op = ops.SXGate()
             elif np.isclose(exp % 4, 3.5):
                 qrisp_op = ops.SXDGGate()
             else:
                 qrisp_op = ops.RXGate(exp * np.pi)
+            phase += exp * np.pi / 2
 
         # YPowGate: same subclass issue with cirq.Y (type _PauliY).
         elif isinstance(inner_gate, cirq.YPowGate):
@@ -385,8 +394,10 @@ def convert_from_cirq(cirq_circuit):
                 qrisp_op = ops.RYGate(exp * np.pi)
             elif np.isclose(exp % 4, 1.0):
                 qrisp_op = ops.YGate()
+                phase -= exp * np.pi / 2
             else:
                 qrisp_op = ops.RYGate(exp * np.pi)
+            phase += exp * np.pi / 2
 
         # ZPowGate: catches cirq.Z (type _PauliZ) and exponent-based
         # variants like S (exp=0.5), T (exp=0.25), etc.
@@ -394,6 +405,7 @@ def convert_from_cirq(cirq_circuit):
             exp = inner_gate.exponent
             if isinstance(inner_gate, cirq.Rz):
                 qrisp_op = ops.RZGate(exp * np.pi)
+                phase = 0
             elif np.isclose(exp % 4, 1.0):
                 qrisp_op = ops.ZGate()
             elif np.isclose(exp % 4, 0.5):
@@ -410,6 +422,12 @@ def convert_from_cirq(cirq_circuit):
         else:
             raise ValueError(f"Gate {gate} is not supported by the Cirq to Qrisp converter.")
 
+        if (ctrl_layers or extra_controls is not None) and abs((phase + np.pi) % (2 * np.pi) - np.pi) > 1e-10:
+            phase_qc = QuantumCircuit(qrisp_op.num_qubits)
+            phase_qc.append(qrisp_op, phase_qc.qubits)
+            phase_qc.gphase(phase, phase_qc.qubits[0])
+            qrisp_op = phase_qc.to_gate()
+
         # Wrap any ControlledGate layers (inside-out)
         for num_ctrl, ctrl_state in reversed(ctrl_layers):
             qrisp_op = ControlledOperation(
diff --git a/src/qrisp/interface/converter/pytket_converter.py b/src/qrisp/interface/converter/pytket_converter.py
index d8986c6..f465619 100644
--- a/src/qrisp/interface/converter/pytket_converter.py
+++ b/src/qrisp/interface/converter/pytket_converter.py
@@ -139,30 +139,18 @@ def pytket_converter(qc, boxFlag=False):
         if op.name in ["qb_alloc", "qb_dealloc"]:
             continue
 
-        elif op.name == "cx":
-            # maybe adjustment necessary here
-            if hasattr(op, "ctrl_state"):
-                tket_ins = OpType.CX
-            else:
-                tket_ins = OpType.CX
+        # Gates with ctrl_state "0" are converted via their definition (see below)
+        elif op.name == "cx" and getattr(op, "ctrl_state", "1") == "1":
+            tket_ins = OpType.CX
 
-        elif op.name == "cy":
-            if hasattr(op, "ctrl_state"):
-                tket_ins = OpType.CY
-            else:
-                tket_ins = OpType.CY
+        elif op.name == "cy" and getattr(op, "ctrl_state", "1") == "1":
+            tket_ins = OpType.CY
 
-        elif op.name == "cz":
-            if hasattr(op, "ctrl_state"):
-                tket_ins = OpType.CZ
-            else:
-                tket_ins = OpType.CZ
+        elif op.name == "cz" and getattr(op, "ctrl_state", "1") == "1":
+            tket_ins = OpType.CZ
 
-        elif op.name == "cp":
-            if hasattr(op, "ctrl_state"):
-                tket_ins = OpType.CRz
-            else:
-                tket_ins = OpType.Rz
+        elif op.name == "cp" and getattr(op, "ctrl_state", "1") == "1":
+            tket_ins = OpType.CU1
 
         elif op.name == "sx":
             # bugged -> params empty
@@ -174,7 +162,6 @@ def pytket_converter(qc, boxFlag=False):
             tket_ins = OpType.SXdg
 
         elif op.name == "u1":
-            params[0] = params[0] / np.pi
             # bugged
             tket_ins = OpType.Rz
         elif op.name == "id":
diff --git a/src/qrisp/interface/converter/qiskit_converter.py b/src/qrisp/interface/converter/qiskit_converter.py
index b59daa4..bf40e35 100644
--- a/src/qrisp/interface/converter/qiskit_converter.py
+++ b/src/qrisp/interface/converter/qiskit_converter.py
@@ -15,6 +15,8 @@
 ********************************************************************************
 """
 
+from uuid import NAMESPACE_OID, uuid5
+
 import numpy as np
 from sympy import Expr, lambdify
 
@@ -70,7 +72,8 @@ def convert_to_qiskit(qc, transpile=False):
 
                 for s in free_symbols:
                     if s not in symbol_param_dic:
-                        symbol_param_dic[s] = Parameter(str(s))
+                        # Parameters of nested circuits are identified by their name
+                        symbol_param_dic[s] = Parameter(str(s), uuid=uuid5(NAMESPACE_OID, str(s)))
 
                     qiskit_symbs.append(symbol_param_dic[s])
                 qiskit_params.append(lambd_expr(*qiskit_symbs))
@@ -92,12 +95,6 @@ def convert_to_qiskit(qc, transpile=False):
             qiskit_ins = temp.to_gate()
             qiskit_ins.name = op.name
 
-        elif op.name == "gphase":
-            temp_qc = QuantumCircuit(1)
-            temp_qc.global_phase += float(params[0])
-            qiskit_ins = temp_qc.to_gate()
-            qiskit_ins.name = "gphase"
-
         elif isinstance(op, ClControlledOperation):
             q_reg = QuantumRegister(op.num_qubits)
 
@@ -112,7 +109,16 @@ def convert_to_qiskit(qc, transpile=False):
                 else:
                     base_qiskit_ins = create_qiskit_instruction(op.base_op, params)
                     body_qc.append(base_qiskit_ins, qubit_list)
-                qiskit_ins = IfElseOp((clbit_list[0], 1), true_body=body_qc)
+                if len(clbit_list) == 1:
+                    condition = (clbit_list[0], int(op.ctrl_state))
+                else:
+                    from qiskit.circuit.classical import expr
+
+                    condition = None
+                    for clbit, value in zip(clbit_list, op.ctrl_state):
+                        literal = expr.lift(clbit) if value == "1" else expr.logic_not(clbit)
+                        condition = literal if condition is None else expr.logic_and(condition, literal)
+                qiskit_ins = IfElseOp(condition, true_body=body_qc)
                 clbit_list = []
             except ImportError:
                 base_qiskit_ins = create_qiskit_instruction(op.base_op, params)
@@ -140,17 +146,35 @@ def convert_to_qiskit(qc, transpile=False):
             elif op.num_qubits == op.base_operation.num_qubits:
                 qiskit_ins = create_qiskit_instruction(op.base_operation, params)
             else:
-                base_gate = create_qiskit_instruction(op.base_operation, params)
+                base_gate = create_qiskit_base_gate(op.base_operation, params)
                 qiskit_ins = base_gate.control(len(op.controls), ctrl_state=op.ctrl_state[::-1])
         else:
             qiskit_ins = create_qiskit_instruction(op, params)
 
+            # The square root of X differs by a phase between Qrisp and Qiskit
+            if op.name == "sx":
+                qiskit_qc.global_phase -= np.pi / 4
+            elif op.name == "sx_dg":
+                qiskit_qc.global_phase += np.pi / 4
+
         # Append to qiskit circuit
         qiskit_qc.append(qiskit_ins, qubit_list, clbit_list)
     # Return result
     return qiskit_qc
 
 
+# Creates the Qiskit gate with exactly the same matrix (i.e. including the phase),
+# which is required if the gate is going to be controlled
+def create_qiskit_base_gate(op, params=[]):
+    import qiskit.circuit.library.standard_gates as qsk_gates
+
+    if op.name == "sx":
+        return qsk_gates.RXGate(np.pi / 2)
+    if op.name == "sx_dg":
+        return qsk_gates.RXGate(-np.pi / 2)
+    return create_qiskit_instruction(op, params)
+
+
 def create_qiskit_instruction(op, params=[]):
     import qiskit.circuit.library.standard_gates as qsk_gates
     from qiskit import QiskitError
@@ -187,8 +211,15 @@ def create_qiskit_instruction(op, params=[]):
             qiskit_ins = base_gate.control(len(op.controls), ctrl_state=op.ctrl_state[::-1])
 
         else:
-            base_gate = create_qiskit_instruction(op.base_operation, params)
+            base_gate = create_qiskit_base_gate(op.base_operation, params)
             qiskit_ins = base_gate.control(len(op.controls), ctrl_state=op.ctrl_state[::-1])
+    elif op.name == "gphase":
+        from qiskit import QuantumCircuit
+
+        temp_qc = QuantumCircuit(1)
+        temp_qc.global_phase += params[0]
+        qiskit_ins = temp_qc.to_gate()
+        qiskit_ins.name = "gphase"
     elif op.name == "rxx":
         qiskit_ins = qsk_gates.RXXGate(*params)
     elif op.name == "rzz":
@@ -223,7 +254,7 @@ def create_qiskit_instruction(op, params=[]):
     elif op.name == "p":
         qiskit_ins = qsk_gates.PhaseGate(params[0])
     elif op.name == "u1":
-        qiskit_ins = qsk_gates.PhaseGate(params[0])
+        qiskit_ins = qsk_gates.RZGate(params[0])
     elif op.name == "s":
         qiskit_ins = qsk_gates.SGate()
     elif op.name == "s_dg":
@@ -243,7 +274,8 @@ def create_qiskit_instruction(op, params=[]):
     elif op.name == "u3":
         qiskit_ins = qsk_gates.U3Gate(*params)
     elif op.name == "r":
-        qiskit_ins = qsk_gates.RGate(*params)
+        # The rotation axes of both conventions differ by a quarter turn
+        qiskit_ins = qsk_gates.RGate(params[0], params[1] - np.pi / 2)
     elif isinstance(op, PRXGate):
         qiskit_ins = qsk_gates.RGate(op.alpha, op.beta)
     elif op.name == "id":
@@ -268,9 +300,46 @@ op_dic = {op().name: op for op in op_list}
 op_dic["u"] = op_dic["u3"]
 
 
-def convert_from_qiskit(qiskit_qc):
+# Appends the bodies of a Qiskit if-else block as classically controlled operations
+def append_if_else(qc, qiskit_ins, qb_dic, cb_dic):
     from qiskit import QuantumCircuit as QiskitQuantumCircuit
-    from qiskit.circuit import ControlledGate, ParameterExpression
+    from qiskit.circuit import Clbit as QiskitClbit
+    from qiskit.circuit import IfElseOp
+
+    qiskit_op = qiskit_ins.operation
+
+    if not isinstance(qiskit_op, IfElseOp) or not isinstance(qiskit_op.condition, tuple):
+        raise NotImplementedError(f"Could not convert Qiskit control flow operation {qiskit_op.name} to Qrisp")
+
+    target, value = qiskit_op.condition
+    condition_bits = [target] if isinstance(target, QiskitClbit) else list(target)
+    bodies = [(qiskit_op.blocks[0], int(value))]
+
+    if len(qiskit_op.blocks) > 1:
+        if len(condition_bits) > 1:
+            raise NotImplementedError("Could not convert Qiskit else block conditioned on more than one bit to Qrisp")
+        bodies.append((qiskit_op.blocks[1], 1 - int(value)))
+
+    for body, body_value in bodies:
+        if any(body_ins.clbits for body_ins in body.data):
+            raise NotImplementedError("Could not convert Qiskit if-else block with classical operations to Qrisp")
+
+        quantum_body = QiskitQuantumCircuit(body.qubits, global_phase=body.global_phase)
+        for body_ins in body.data:
+            quantum_body.append(body_ins.operation, body_ins.qubits)
+
+        op = convert_from_qiskit(quantum_body).to_gate()
+        ctrl_state = bin_rep(body_value, len(condition_bits))[::-1]
+
+        qc.append(
+            op.c_if(len(condition_bits), ctrl_state),
+            [qb_dic[qb] for qb in qiskit_ins.qubits],
+            [cb_dic[cb] for cb in condition_bits],
+        )
+
+
+def convert_from_qiskit(qiskit_qc):
+    from qiskit.circuit import ControlFlowOp, ControlledGate, Gate, Instruction, ParameterExpression
 
     from qrisp import Barrier, Clbit, ControlledOperation, QuantumCircuit, Qubit
 
@@ -311,6 +380,8 @@ def convert_from_qiskit(qiskit_qc):
 
     from sympy import sympify
 
+    global_phase = getattr(qiskit_qc, "global_phase", 0)
+
     for i in range(len(qiskit_qc.data)):
         qiskit_op = qiskit_qc.data[i].operation
 
@@ -318,9 +389,9 @@ def convert_from_qiskit(qiskit_qc):
             condition_bits = [cb_dic[cb] for cb in qiskit_op.condition_bits]
             if condition_bits:
                 condition_value = qiskit_op.condition[1]
-        elif hasattr(qiskit_op, "is_control_flow") and qiskit_op.is_control_flow():
-            condition_bits = [cb_dic[cb] for cb in qiskit_qc.data[i].clbits]
-            condition_value = qiskit_op.condition[1]
+        elif isinstance(qiskit_op, ControlFlowOp):
+            append_if_else(qc, qiskit_qc.data[i], qb_dic, cb_dic)
+            continue
         else:
             condition_bits = []
 
@@ -343,27 +414,41 @@ def convert_from_qiskit(qiskit_qc):
                 qrisp_params.append(float(p))
             elif isinstance(p, complex):
                 qrisp_params.append(p)
-            elif isinstance(p, QiskitQuantumCircuit):
-                qiskit_op = p.to_gate()
-                break
             else:
                 print(p)
                 raise Exception(f"Could not convert parameter type {type(p)}")
 
         params = qrisp_params
 
-        if isinstance(qiskit_op, ControlledGate):
+        # The base gate of Qiskits CU gate doesn't contain the relative phase (i.e. the 4th parameter)
+        if isinstance(qiskit_op, ControlledGate) and len(qiskit_op.params) == len(qiskit_op.base_gate.params):
             controlled_gate = True
             qiskit_op = qiskit_op.base_gate
         else:
             controlled_gate = False
 
+        # Custom gates are described by their definition, regardless of their name
+        if type(qiskit_op) in [Gate, Instruction] and qiskit_op.definition is not None:
+            definition_qc = convert_from_qiskit(qiskit_op.definition)
+            if qiskit_op.name == "gphase" and [ins.op.name for ins in definition_qc.data] == ["gphase"]:
+                op = definition_qc.data[0].op
+            else:
+                op = definition_qc.to_gate(name=None if qiskit_op.name in op_dic else qiskit_op.name)
         # Qiskit RGate → PRXGate
-        if qiskit_op.name == "r":
+        elif qiskit_op.name == "r":
             from qrisp.circuit import PRXGate as _PRXGate
 
             op = _PRXGate(params[0], params[1])
+        # Qiskits U1 gate is a phase gate
+        elif qiskit_op.name == "u1":
+            op = op_dic["p"](*params)
+        # The square root of X differs by a phase between Qrisp and Qiskit
+        elif qiskit_op.name == "sx" and controlled_gate:
+            op = convert_from_qiskit(qiskit_op.definition).to_gate(name=qiskit_op.name)
         else:
+            if qiskit_op.name == "sx":
+                global_phase += np.pi / 4
+
             try:
                 op = op_dic[qiskit_op.name](*params)
             except KeyError:
@@ -398,7 +483,9 @@ def convert_from_qiskit(qiskit_qc):
     # Propagate Qiskit's global phase (stored as a circuit attribute,
     # not an instruction).  Dropping it changes the unitary — critical
     # for controlled operations built from gate definitions with phase.
-    if abs(getattr(qiskit_qc, "global_phase", 0)) > 1e-10:
-        qc.gphase(qiskit_qc.global_phase, qc.qubits[0])
+    if isinstance(global_phase, ParameterExpression):
+        qc.gphase(sympify(ParameterExpression.sympify(global_phase)), qc.qubits[0])
+    elif abs((global_phase + np.pi) % (2 * np.pi) - np.pi) > 1e-10:
+        qc.gphase(global_phase, qc.qubits[0])
 
     return qc
diff --git a/src/qrisp/interface/converter/stim_converter.py b/src/qrisp/interface/converter/stim_converter.py
index ae6d3fb..5756aae 100644
--- a/src/qrisp/interface/converter/stim_converter.py
+++ b/src/qrisp/interface/converter/stim_converter.py
@@ -360,6 +360,9 @@ def qrisp_to_stim(
 
             # Apply the conditional gate for each target qubit
             for q_idx in qubit_indices:
+                if op.ctrl_state == "0":
+                    # Condition on the outcome 0: apply always and revert for the outcome 1
+                    stim_circuit.append(base_op_name.upper(), [q_idx])
                 stim_circuit.append(stim_gate, [rec_target, q_idx])
 
         # Unknown gate
-- 
2.43.0


From 9930682215fe2ede2ec16dfc283f8bd718d03fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:47:48 +0000
Subject: [PATCH 57/79] fix: iteration environments with an empty body

---
 src/qrisp/environments/iteration_environment.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/qrisp/environments/iteration_environment.py b/src/qrisp/environments/iteration_environment.py
index 905e67f..7c1c3d1 100644
--- a/src/qrisp/environments/iteration_environment.py
+++ b/src/qrisp/environments/iteration_environment.py
@@ -142,7 +142,10 @@ class IterationEnvironment(QuantumEnvironment):
 
     def __exit__(self, exception_type, exception_value, traceback):
 
-        if set(self.env_qs.qv_list) != self.inital_qvs and self.iteration_amount > 1:
+        # The session of the environment is empty if nothing happened inside the environment
+        is_empty = not self.env_qs.qv_list and not self.env_qs.data
+
+        if not is_empty and set(self.env_qs.qv_list) != self.inital_qvs and self.iteration_amount > 1:
             if exception_value is None:
                 exception_type = Exception
                 exception_value = Exception(
-- 
2.43.0


From d34b643c899ac80a1ea2ee24db52fce6fc4d422c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:47:48 +0000
Subject: [PATCH 58/79] fix: classical switch with a single branch in traced
 programs

---
 src/qrisp/jasp/program_control/prefix_control.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qrisp/jasp/program_control/prefix_control.py b/src/qrisp/jasp/program_control/prefix_control.py
index a4b15db..981f3e2 100644
--- a/src/qrisp/jasp/program_control/prefix_control.py
+++ b/src/qrisp/jasp/program_control/prefix_control.py
@@ -423,6 +423,10 @@ def _q_switch_c(index, branches, *operands):
     if not check_for_tracing_mode():
         return branches[index](*operands)
 
+    # Jax executes the only branch without creating a switch equation
+    if len(branches) == 1:
+        return branches[0](*operands)
+
     def convert_branch(branch):
 
         def new_branch(*operands):
-- 
2.43.0


From 9eaa3765b0df26dba22736104af09f4708a20e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:47:48 +0000
Subject: [PATCH 59/79] fix: signs, grouping and workspace of commuting
 Hamiltonian simulation and measurement, constant and complex-typed
 coefficients

---
 .../operators/fermionic/trotterization.py     |  9 +++++---
 src/qrisp/operators/qubit/jasp_measurement.py |  4 ++--
 src/qrisp/operators/qubit/measurement.py      |  4 ++--
 src/qrisp/operators/qubit/qubit_operator.py   | 13 ++++++------
 src/qrisp/operators/qubit/qubit_term.py       | 21 ++++++++++++++++++-
 5 files changed, 37 insertions(+), 14 deletions(-)

diff --git a/src/qrisp/operators/fermionic/trotterization.py b/src/qrisp/operators/fermionic/trotterization.py
index 9145764..4388d62 100644
--- a/src/qrisp/operators/fermionic/trotterization.py
+++ b/src/qrisp/operators/fermionic/trotterization.py
@@ -15,6 +15,8 @@
 ********************************************************************************
 """
 
+import numpy as np
+
 from qrisp import IterationEnvironment, conjugate, merge
 from qrisp.jasp import check_for_tracing_mode, jrange
 from qrisp.operators.hamiltonian_tools import group_up_iterable
@@ -43,7 +45,7 @@ def fermionic_trotterization(H, forward_evolution=True):
 
     def trotter_step(qarg, t, steps):
 
-        n = H.find_minimal_qubit_amount()
+        n = max(H.find_minimal_qubit_amount(), 1)
         qarg = [qarg[i] for i in range(n)]
 
         for group in groups:
@@ -103,7 +105,8 @@ def fermionic_trotterization(H, forward_evolution=True):
             # perform the fermionic swap
             with conjugate(apply_fermionic_swaps)(qarg, swaps) as new_qarg:
                 for ferm_term in terms:
-                    coeff = reduced_H.terms_dict[ferm_term]
+                    # The coefficients are real (see above) but might have complex type
+                    coeff = np.real(reduced_H.terms_dict[ferm_term])
 
                     # This function permutes the indices of the fermionic term
                     qubit_operator = ferm_term.fermionic_swap(permutation).to_qubit_term()
@@ -115,7 +118,7 @@ def fermionic_trotterization(H, forward_evolution=True):
                                 raise Exception("Fermionic matching failed: Z Operator found")
 
                     qubit_term.simulate(
-                        -coeff * t / steps * qubit_operator.terms_dict[qubit_term] * (-1) ** int(forward_evolution),
+                        -coeff * t / steps * np.real(qubit_operator.terms_dict[qubit_term]) * (-1) ** int(forward_evolution),
                         new_qarg,
                     )
 
diff --git a/src/qrisp/operators/qubit/jasp_measurement.py b/src/qrisp/operators/qubit/jasp_measurement.py
index c9a71bd..b8aa21d 100644
--- a/src/qrisp/operators/qubit/jasp_measurement.py
+++ b/src/qrisp/operators/qubit/jasp_measurement.py
@@ -72,7 +72,7 @@ def get_jasp_measurement(
             groups.extend(group.group_up(lambda a, b: a.ladders_agree(b) or not a.ladders_intersect(b)))
 
     elif diagonalisation_method == "commuting":
-        temp_groups = hamiltonian.group_up(lambda a, b: a.commute_pauli(b))
+        temp_groups = hamiltonian.group_up(lambda a, b: a.commute_pauli(b) and not a.projectors_intersect(b))
         groups = []
         # In order for the change of basis function (below) to work properly,
         # the ladder terms either need to completely agree or completely disagree
@@ -105,7 +105,7 @@ def get_jasp_measurement(
             group.change_of_basis(qv, method=diagonalisation_method)
             return qv
 
-        shots = int(shots_list[index] / precision**2)
+        shots = max(int(shots_list[index] / precision**2), 1)
         res = sample(new_state_prep, shots=shots)(state_args)
 
         samples.append(jnp.int64(res))
diff --git a/src/qrisp/operators/qubit/measurement.py b/src/qrisp/operators/qubit/measurement.py
index 98fc7b6..35ad94d 100644
--- a/src/qrisp/operators/qubit/measurement.py
+++ b/src/qrisp/operators/qubit/measurement.py
@@ -158,7 +158,7 @@ class QubitOperatorMeasurement:
                 self.groups.extend(group.group_up(lambda a, b: a.ladders_agree(b) or not a.ladders_intersect(b)))
 
         elif diagonalisation_method == "commuting":
-            temp_groups = hamiltonian.group_up(lambda a, b: a.commute_pauli(b))
+            temp_groups = hamiltonian.group_up(lambda a, b: a.commute_pauli(b) and not a.projectors_intersect(b))
             self.groups = []
             # In order for the change of basis function (below) to work properly,
             # the ladder terms either need to completely agree or completely disagree
@@ -198,7 +198,7 @@ class QubitOperatorMeasurement:
             self.change_of_basis_gates,
             self.shots_list,
         ):
-            shots = int(shots_base / precision**2)
+            shots = max(int(shots_base / precision**2), 1)
 
             qubits = [qubit_list[j] for j in range(gate.num_qubits)]
 
diff --git a/src/qrisp/operators/qubit/qubit_operator.py b/src/qrisp/operators/qubit/qubit_operator.py
index 8406494..b6c36dd 100644
--- a/src/qrisp/operators/qubit/qubit_operator.py
+++ b/src/qrisp/operators/qubit/qubit_operator.py
@@ -1184,7 +1184,7 @@ class QubitOperator(Hamiltonian):
 
                     new_factor_dict[j] = "Z"
 
-        if method == "commuting":
+        if method == "commuting" and self.terms_dict:
             # Calculate S: Matrix where the colums correspond to the binary representation (Z/X) of the Pauli terms
             x_vectors = []
             z_vectors = []
@@ -1241,11 +1241,12 @@ class QubitOperator(Hamiltonian):
                 # For the original Pauli terms this translates to: Factor (-1) appears if S gate is applied to Y, or Hadamard gate H is applied to Y
                 # No factor (-1) occurs if H S^{-1} P S H is applied (i.e., H and S) for any P in {X,Y,Z}
 
+                # The S gates are applied to the permuted qubits
                 s_vector = np.zeros(m, dtype=int)
-                s_vector[s_list] = 1
+                s_vector[perm[s_list]] = 1
                 h_vector = np.zeros(m, dtype=int)
                 h_vector[h_list] = 1
-                sh_vector = s_vector[perm] + h_vector % 2
+                sh_vector = (s_vector + h_vector) % 2
                 sign_vector = sh_vector @ (x_matrix[qb_indices] * z_matrix[qb_indices]) % 2
 
                 # Lower triangular part of A
@@ -1703,7 +1704,7 @@ class QubitOperator(Hamiltonian):
                 )
             else:
                 if precompiled_qc is not None:
-                    qarg = QuantumVariable(self.find_minimal_qubit_amount())
+                    qarg = QuantumVariable(max(self.find_minimal_qubit_amount(), 1))
                 else:
                     qarg = state_prep(*args)
 
@@ -1832,9 +1833,9 @@ class QubitOperator(Hamiltonian):
 
             def trotter_step(qarg, t, steps):
                 for com_group in commuting_groups:
-                    qw_groups = com_group.group_up(lambda a, b: a.ladders_agree(b))
+                    qw_groups = com_group.group_up(lambda a, b: a.ladders_agree(b) and not a.projectors_intersect(b))
                     for qw_group in qw_groups:
-                        with conjugate(com_group.change_of_basis)(qarg, method="commuting") as diagonal_operator:
+                        with conjugate(qw_group.change_of_basis)(qarg, method="commuting") as diagonal_operator:
                             intersect_groups = diagonal_operator.group_up(lambda a, b: not a.intersect(b))
                             for intersect_group in intersect_groups:
                                 for term, coeff in intersect_group.terms_dict.items():
diff --git a/src/qrisp/operators/qubit/qubit_term.py b/src/qrisp/operators/qubit/qubit_term.py
index 32e1571..c0270ac 100644
--- a/src/qrisp/operators/qubit/qubit_term.py
+++ b/src/qrisp/operators/qubit/qubit_term.py
@@ -469,7 +469,7 @@ class QubitTerm:
                 else:
                     rz(coeff * 2, qv[anchor_index])
 
-        if len(projector_indices) >= 2:
+        if len(projector_qubits) >= 2:
             # Delete ancilla
             hs_anc_qbl.delete()
             balauca_ancillae.delete()
@@ -751,3 +751,22 @@ class QubitTerm:
         ladder_indices_self = [factor[0] for factor in self.factor_dict.items() if factor[1] in ["A", "C"]]
         ladder_indices_other = [factor[0] for factor in other.factor_dict.items() if factor[1] in ["A", "C"]]
         return len(set(ladder_indices_self).intersection(ladder_indices_other)) != 0
+
+    def projectors_intersect(self, other):
+        """Checks if one of the terms contains a projector on a qubit where the other term contains a Pauli operator.
+
+        Parameters
+        ----------
+        other : QubitTerm
+            The term to check against.
+
+        Returns
+        -------
+        bool
+
+        """
+        for a, b in ((self.factor_dict, other.factor_dict), (other.factor_dict, self.factor_dict)):
+            for index, factor in a.items():
+                if factor in ["P0", "P1"] and b.get(index, "I") in ["X", "Y", "Z"]:
+                    return True
+        return False
-- 
2.43.0


From cf0ee432f1f2630f1a9237a7ffb8bd5f37ba0695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:55:34 +0000
Subject: [PATCH 60/79] fix: negated static control values in traced programs

---
 .../environments/classical_control_environment.py      | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/qrisp/environments/classical_control_environment.py b/src/qrisp/environments/classical_control_environment.py
index 44d0a4a..aeda9ce 100644
--- a/src/qrisp/environments/classical_control_environment.py
+++ b/src/qrisp/environments/classical_control_environment.py
@@ -230,25 +230,29 @@ class ClControlEnvironment(QuantumEnvironment):
         if len(body_jaspr.outvars) > 1:
             raise Exception("Found ClControlEnvironment with carry value")
 
+        def negate(bl):
+            # The inversion operator of static bools is integer valued
+            return (not bl) if isinstance(bl, bool) else ~bl
+
         # Compute the control bool
         tmp = ctrl_vars[0]
         cond_bl = tmp
 
         # Process the control state requirement
         if self.ctrl_state != -1 and ((self.ctrl_state & 1) == 0):
-            cond_bl = ~tmp
+            cond_bl = negate(tmp)
 
         # If there is more than one control variable, loop through
         if len(ctrl_vars) > 1:
             for i in range(1, len(ctrl_vars)):
                 tmp = ctrl_vars[i]
                 if self.ctrl_state != -1 and ((self.ctrl_state & 1 << i) == 0):
-                    tmp = ~tmp
+                    tmp = negate(tmp)
 
                 cond_bl = cond_bl & tmp
 
         if self.invert:
-            cond_bl = ~cond_bl
+            cond_bl = negate(cond_bl)
 
         @jax.jit
         def identity_fun(*args):
-- 
2.43.0


From f1e07480ade66ff7247068e3d65528177ff58c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:00:12 +0000
Subject: [PATCH 61/79] fix: measured bits, register resets and parities in
 classical lowering

---
 .../interpreters/cl_func_interpreter.py              | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/qrisp/jasp/interpreter_tools/interpreters/cl_func_interpreter.py b/src/qrisp/jasp/interpreter_tools/interpreters/cl_func_interpreter.py
index a1b781f..6e7b59c 100644
--- a/src/qrisp/jasp/interpreter_tools/interpreters/cl_func_interpreter.py
+++ b/src/qrisp/jasp/interpreter_tools/interpreters/cl_func_interpreter.py
@@ -486,7 +486,7 @@ def process_measurement(invars: list[Var], outvars: list[Var], context_dic: Cont
         bit_array, meas_res = exec_multi_measurement(bit_array, qubit_reg)
     else:
         # Single qubit measurement: return the bit value
-        meas_res = get_bit_array(bit_array, context_dic[invars[0]])
+        meas_res = get_bit_array(bit_array, context_dic[invars[0]]).astype(bool)
 
     # Store results in context dictionary
     context_dic[outvars[1]] = (bit_array, context_dic[invars[1]][1])
@@ -544,7 +544,7 @@ def process_parity(eqn, context_dic):
         def warn_mismatch():
             debug.print(
                 "WARNING: Parity expectation deviated from simulation result {inval}",
-                inval=invalues[1],
+                inval=result,
             )
 
         def no_warning():
@@ -994,15 +994,15 @@ def process_reset(eqn: JaxprEqn, context_dic: ContextDict) -> None:
 
     if isinstance(eqn.invars[0].aval, AbstractQubitArray):
         # Reset all qubits in the array
-        start = invalues[0][0]
-        stop = start + invalues[0][1]
+        qubit_reg = invalues[0]
 
         def loop_body(i: int, bit_array: BitArray) -> BitArray:
             """Reset a single qubit by flipping it if it's 1."""
-            bit_array = conditional_bit_flip_bit_array(bit_array, i, get_bit_array(bit_array, i))
+            qubit = qubit_reg[i]
+            bit_array = conditional_bit_flip_bit_array(bit_array, qubit, get_bit_array(bit_array, qubit))
             return bit_array
 
-        bit_array = fori_loop(start, stop, loop_body, bit_array)
+        bit_array = fori_loop(0, qubit_reg.counter, loop_body, bit_array)
     else:
         # Reset a single qubit
         bit_array = conditional_bit_flip_bit_array(bit_array, invalues[0], get_bit_array(bit_array, invalues[0]))
-- 
2.43.0


From 651bc4883d916cf87d0f01798251689c2f56cbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:01:50 +0000
Subject: [PATCH 62/79] fix: reset of register slices in traced programs

---
 src/qrisp/core/gate_application_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/core/gate_application_functions.py b/src/qrisp/core/gate_application_functions.py
index ea9a9b7..157c09a 100644
--- a/src/qrisp/core/gate_application_functions.py
+++ b/src/qrisp/core/gate_application_functions.py
@@ -1288,7 +1288,7 @@ def reset(qubits):
         return None
     else:
         from qrisp import QuantumVariable
-        from qrisp.jasp import AbstractQubit, AbstractQubitArray, reset_p
+        from qrisp.jasp import AbstractQubit, DynamicQubitArray, reset_p
 
         if isinstance(qubits, QuantumVariable):
             abs_qst = reset_p.bind(qubits.reg.tracer, qs.abs_qst)
@@ -1297,7 +1297,7 @@ def reset(qubits):
             for i in jrange(qubits.size):
                 reset(flattened_qa[i])
             return
-        elif isinstance(qubits.aval, AbstractQubitArray):
+        elif isinstance(qubits, DynamicQubitArray):
             abs_qst = reset_p.bind(qubits.tracer, qs.abs_qst)
         elif isinstance(qubits.aval, AbstractQubit):
             abs_qst = reset_p.bind(qubits, qs.abs_qst)
-- 
2.43.0


From 731311e9d1558883415e2e990e92051c7ce6f621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:06:17 +0000
Subject: [PATCH 63/79] fix: conditions and switches whose branches leave the
 quantum state unchanged

---
 src/qrisp/jasp/program_control/prefix_control.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/qrisp/jasp/program_control/prefix_control.py b/src/qrisp/jasp/program_control/prefix_control.py
index 981f3e2..44c04e7 100644
--- a/src/qrisp/jasp/program_control/prefix_control.py
+++ b/src/qrisp/jasp/program_control/prefix_control.py
@@ -221,6 +221,13 @@ def q_fori_loop(lower, upper, body_fun, init_val):
     return q_while_loop(new_cond_fun, new_body_fun, (init_val, lower, upper))[0]
 
 
+# Jax removes the outputs that are forwarded by all branches, so the list of
+# outvars of a branch can be empty
+def returns_quantum_state(branch_jaxpr):
+    outvars = branch_jaxpr.jaxpr.outvars
+    return len(outvars) > 0 and isinstance(outvars[-1].aval, AbstractQuantumState)
+
+
 def q_cond(pred, true_fun, false_fun, *operands):
     r"""Jasp compatible version of
     `jax.lax.cond <https://jax.readthedocs.io/en/latest/_autosummary/jax.lax.cond.html#jax.lax.cond>`_.
@@ -341,9 +348,7 @@ def q_cond(pred, true_fun, false_fun, *operands):
 
     from qrisp.jasp import Jaspr
 
-    if (not isinstance(false_jaxpr.jaxpr.outvars[-1].aval, AbstractQuantumState)) and (
-        not isinstance(true_jaxpr.jaxpr.outvars[-1].aval, AbstractQuantumState)
-    ):
+    if not returns_quantum_state(false_jaxpr) and not returns_quantum_state(true_jaxpr):
         eqn.invars.pop(-1)
         false_jaxpr.jaxpr.invars.pop(-1)
         true_jaxpr.jaxpr.invars.pop(-1)
@@ -468,9 +473,7 @@ def _q_switch_c(index, branches, *operands):
 
     from qrisp.jasp import Jaspr
 
-    if all(
-        [not isinstance(branch_jaxpr.jaxpr.outvars[-1].aval, AbstractQuantumState) for branch_jaxpr in branch_jaxprs]
-    ):
+    if not any(returns_quantum_state(branch_jaxpr) for branch_jaxpr in branch_jaxprs):
         eqn.invars.pop(-1)
         [branch_jaxpr.jaxpr.invars.pop(-1) for branch_jaxpr in branch_jaxprs]
         return switch_res[0]
-- 
2.43.0


From 350a7cb228e08b00514cb3851542ca686371ea03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:08:03 +0000
Subject: [PATCH 64/79] fix: sampling with non-injective post processing,
 direct sampling with post processing, empty slices in classical lowering

---
 src/qrisp/jasp/evaluation_tools/terminal_sampling.py  |  9 ++++++---
 src/qrisp/jasp/interpreter_tools/dynamic_list.py      |  4 ++--
 .../interpreters/terminal_sampling_interpreter.py     | 11 +++++++----
 src/qrisp/jasp/program_control/sampling.py            |  2 +-
 4 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/qrisp/jasp/evaluation_tools/terminal_sampling.py b/src/qrisp/jasp/evaluation_tools/terminal_sampling.py
index 7be5417..aeb34c6 100644
--- a/src/qrisp/jasp/evaluation_tools/terminal_sampling.py
+++ b/src/qrisp/jasp/evaluation_tools/terminal_sampling.py
@@ -18,7 +18,7 @@
 from qrisp.jasp.jasp_expression import make_jaspr
 
 
-def terminal_sampling(func=None, shots=0):
+def terminal_sampling(func=None, shots=0, post_processor=None):
     """The ``terminal_sampling`` decorator performs a hybrid simulation and afterwards
     samples from the resulting quantum state.
     The idea behind this function is that it is very cheap for a classical simulator
@@ -45,6 +45,9 @@ def terminal_sampling(func=None, shots=0):
     shots : int, optional
         An integer specifying the amount of shots. The default is None, which
         will result in probabilities being returned.
+    post_processor : callable, optional
+        A function to apply to the decoded measurement results. By default no
+        post processing is applied.
 
     Returns
     -------
@@ -122,12 +125,12 @@ def terminal_sampling(func=None, shots=0):
         func = None
 
     if func is None:
-        return lambda x: terminal_sampling(x, shots)
+        return lambda x: terminal_sampling(x, shots, post_processor)
 
     def tracing_function(*args):
         from qrisp.jasp.program_control import expectation_value
 
-        return expectation_value(func, shots, return_dict=True)(*args)
+        return expectation_value(func, shots, return_dict=True, post_processor=post_processor)(*args)
 
     def return_function(*args):
         from qrisp.jasp import simulate_jaspr
diff --git a/src/qrisp/jasp/interpreter_tools/dynamic_list.py b/src/qrisp/jasp/interpreter_tools/dynamic_list.py
index a8804ee..b80ab87 100644
--- a/src/qrisp/jasp/interpreter_tools/dynamic_list.py
+++ b/src/qrisp/jasp/interpreter_tools/dynamic_list.py
@@ -114,7 +114,7 @@ class Jlist:
             if key.start is None:
                 start = 0
             else:
-                start = key.start + (key.start < 0) * self.counter
+                start = jnp.maximum(key.start + (key.start < 0) * self.counter, 0)
 
             if key.stop is None:
                 stop = self.counter
@@ -122,7 +122,7 @@ class Jlist:
                 stop = jnp.minimum(key.stop, self.counter)
                 stop = stop + (stop < 0) * self.counter
 
-            length = stop - start
+            length = jnp.maximum(stop - start, 0)
 
             def body_fun(i, state):
                 new_array, old_array = state
diff --git a/src/qrisp/jasp/interpreter_tools/interpreters/terminal_sampling_interpreter.py b/src/qrisp/jasp/interpreter_tools/interpreters/terminal_sampling_interpreter.py
index 517f742..5100296 100644
--- a/src/qrisp/jasp/interpreter_tools/interpreters/terminal_sampling_interpreter.py
+++ b/src/qrisp/jasp/interpreter_tools/interpreters/terminal_sampling_interpreter.py
@@ -283,7 +283,8 @@ def terminal_sampling_evaluator(sampling_res_type):
                                 sampling_res += outvalues * v
                             elif sampling_res_type == "array":
                                 # sampling_res.extend(v*[outvalues[0]])
-                                sampling_res_dict[outvalues.item()] = v
+                                key = outvalues.item()
+                                sampling_res_dict[key] = sampling_res_dict.get(key, 0) + v
                                 # sampling_res.extend(v*[key])
                             elif sampling_res_type == "dict":
                                 key = outvalues
@@ -294,14 +295,15 @@ def terminal_sampling_evaluator(sampling_res_type):
                                         v = int(v.item())
                                     else:
                                         raise
-                                sampling_res[key.item()] = v
+                                sampling_res[key.item()] = sampling_res.get(key.item(), 0) + v
 
                         # If the user given function returned more than one
                         # value, the key is a tuple to be build up
                         elif sampling_res_type == "ev":
                             sampling_res += jnp.array(outvalues) * v
                         elif sampling_res_type == "array":
-                            sampling_res_dict[tuple(np.array(outvalues))] = v
+                            key = tuple(np.array(outvalues))
+                            sampling_res_dict[key] = sampling_res_dict.get(key, 0) + v
                         elif sampling_res_type == "dict":
                             if type(v) not in [int, float]:
                                 if v.dtype in [np.float64, np.float32]:
@@ -310,7 +312,8 @@ def terminal_sampling_evaluator(sampling_res_type):
                                     v = int(v.item())
                                 else:
                                     raise
-                            sampling_res[tuple(x.item() for x in outvalues)] = v
+                            key = tuple(x.item() for x in outvalues)
+                            sampling_res[key] = sampling_res.get(key, 0) + v
 
                     if sampling_res_type == "array":
                         keys = np.array(list(sampling_res_dict.keys()))
diff --git a/src/qrisp/jasp/program_control/sampling.py b/src/qrisp/jasp/program_control/sampling.py
index b6582a4..64de06a 100644
--- a/src/qrisp/jasp/program_control/sampling.py
+++ b/src/qrisp/jasp/program_control/sampling.py
@@ -283,7 +283,7 @@ def sample(state_prep=None, shots=0, post_processor=None):
         if check_for_tracing_mode():
             return sampling_eval_function(*args, tracerized_shots=shots)
         else:
-            return terminal_sampling(state_prep, shots)(*args)
+            return terminal_sampling(state_prep, shots, post_processor)(*args)
 
     return return_function
 
-- 
2.43.0


From 0f25dca4ac90838bcab08196102f1012bd6a842a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:14:03 +0000
Subject: [PATCH 65/79] fix: slice, fusion and negative index semantics in
 resource counting, classical loops in classical lowering

---
 .../interpreters/cl_func_interpreter.py       |  2 ++
 .../interpreters/count_ops_metric.py          |  8 ++---
 .../interpreters/depth_metric.py              |  7 +++-
 .../interpreters/num_qubits_metric.py         |  8 ++---
 .../interpreters/utilities.py                 | 34 +++++++++++++++++++
 5 files changed, 49 insertions(+), 10 deletions(-)

diff --git a/src/qrisp/jasp/interpreter_tools/interpreters/cl_func_interpreter.py b/src/qrisp/jasp/interpreter_tools/interpreters/cl_func_interpreter.py
index 6e7b59c..6a98341 100644
--- a/src/qrisp/jasp/interpreter_tools/interpreters/cl_func_interpreter.py
+++ b/src/qrisp/jasp/interpreter_tools/interpreters/cl_func_interpreter.py
@@ -614,6 +614,8 @@ def process_while(
 
         flattened_invalues = flatten_signature(constants + carries, body_jaxpr.jaxpr.invars)
         body_res = eval_jaxpr(converted_body_jaxpr)(*(flattened_invalues))
+        if not isinstance(body_res, (list, tuple)):
+            body_res = (body_res,)
         unflattened_body_outvalues = unflatten_signature(body_res, body_jaxpr.jaxpr.outvars)
 
         return list(args[:overall_constant_amount]) + list(unflattened_body_outvalues)
diff --git a/src/qrisp/jasp/interpreter_tools/interpreters/count_ops_metric.py b/src/qrisp/jasp/interpreter_tools/interpreters/count_ops_metric.py
index 588d885..9723f04 100644
--- a/src/qrisp/jasp/interpreter_tools/interpreters/count_ops_metric.py
+++ b/src/qrisp/jasp/interpreter_tools/interpreters/count_ops_metric.py
@@ -30,7 +30,9 @@ from qrisp.jasp.interpreter_tools import (
 )
 from qrisp.jasp.interpreter_tools.call_graph_analysis import analyze_call_graph
 from qrisp.jasp.interpreter_tools.interpreters.utilities import (
+    fused_size,
     get_quantum_operations,
+    slice_size,
 )
 from qrisp.jasp.jasp_expression import Jaspr
 from qrisp.jasp.primitives import (
@@ -138,15 +140,13 @@ class CountOpsMetric(BaseMetric):
     def handle_fuse(self, invalues, eqn, context_dic):
 
         # The size of the fused qubit array is the size of the two added.
-        return invalues[0] + invalues[1]
+        return fused_size(invalues, eqn)
 
     def handle_slice(self, invalues, eqn, context_dic):
 
         # For the slice operation, we need to make sure, we don't go out
         # of bounds.
-        start = jnp.max(jnp.array([invalues[1], 0]))
-        stop = jnp.min(jnp.array([invalues[2], invalues[0]]))
-        return stop - start
+        return slice_size(*invalues)
 
     def handle_quantum_gate(self, invalues, eqn, context_dic):
 
diff --git a/src/qrisp/jasp/interpreter_tools/interpreters/depth_metric.py b/src/qrisp/jasp/interpreter_tools/interpreters/depth_metric.py
index 89f683b..6d256a6 100644
--- a/src/qrisp/jasp/interpreter_tools/interpreters/depth_metric.py
+++ b/src/qrisp/jasp/interpreter_tools/interpreters/depth_metric.py
@@ -195,7 +195,11 @@ class DepthMetric(BaseMetric):
 
         qubit_table_handle, qubit_index = invalues
 
-        qubit_ids_table, _ = qubit_table_handle
+        qubit_ids_table, size = qubit_table_handle
+
+        # Negative indices count from the end of the qubit array, not from the
+        # end of the (possibly longer) lookup table.
+        qubit_index = qubit_index + (qubit_index < 0) * size
 
         # Associate the following in context_dic:
         # Qubit -> qubit_id (integer tracer/array scalar)
@@ -317,6 +321,7 @@ class DepthMetric(BaseMetric):
         stop_inv += (stop_inv < 0) * size
 
         start = jnp.maximum(start_inv, jnp.int64(0))
+        start = jnp.minimum(start, size)
         stop = jnp.minimum(stop_inv, size)
         stop = jnp.maximum(stop, start)
 
diff --git a/src/qrisp/jasp/interpreter_tools/interpreters/num_qubits_metric.py b/src/qrisp/jasp/interpreter_tools/interpreters/num_qubits_metric.py
index f2a9134..4016a2f 100644
--- a/src/qrisp/jasp/interpreter_tools/interpreters/num_qubits_metric.py
+++ b/src/qrisp/jasp/interpreter_tools/interpreters/num_qubits_metric.py
@@ -29,6 +29,7 @@ from qrisp.jasp.interpreter_tools.interpreters.profiling_interpreter import (
     eval_jaxpr,
     make_profiling_eqn_evaluator,
 )
+from qrisp.jasp.interpreter_tools.interpreters.utilities import fused_size, slice_size
 from qrisp.jasp.jasp_expression import Jaspr
 from qrisp.jasp.primitives import (
     AbstractQubitArray,
@@ -178,16 +179,13 @@ class NumQubitsMetric(BaseMetric):
 
         # Associate the following in context_dic:
         # QubitArray -> size1 + size2
-        return invalues[0] + invalues[1]
+        return fused_size(invalues, eqn)
 
     def handle_slice(self, invalues, eqn, context_dic):
 
-        start = jnp.max(jnp.array([invalues[1], 0]))
-        stop = jnp.min(jnp.array([invalues[2], invalues[0]]))
-
         # Associate the following in context_dic:
         # QubitArray -> size
-        return stop - start
+        return slice_size(*invalues)
 
     def handle_reset(self, invalues, eqn, context_dic):
 
diff --git a/src/qrisp/jasp/interpreter_tools/interpreters/utilities.py b/src/qrisp/jasp/interpreter_tools/interpreters/utilities.py
index 970e25b..0bf49bd 100644
--- a/src/qrisp/jasp/interpreter_tools/interpreters/utilities.py
+++ b/src/qrisp/jasp/interpreter_tools/interpreters/utilities.py
@@ -18,10 +18,12 @@
 from typing import List
 
 import jax
+import jax.numpy as jnp
 from jax.extend.core import ClosedJaxpr
 from jax.typing import ArrayLike
 
 from qrisp.jasp.jasp_expression import Jaspr
+from qrisp.jasp.primitives import AbstractQubit
 
 
 def always_zero(_):
@@ -65,6 +67,38 @@ def is_abstract(tensor: ArrayLike) -> bool:
     return False
 
 
+def slice_size(size: ArrayLike, start: ArrayLike, stop: ArrayLike) -> ArrayLike:
+    """Compute the size of a slice of a qubit array according to Python semantics.
+
+    Parameters
+    ----------
+    size : ArrayLike
+        The size of the qubit array.
+    start : ArrayLike
+        The (possibly negative) start index of the slice.
+    stop : ArrayLike
+        The (possibly negative) stop index of the slice.
+
+    Returns
+    -------
+    ArrayLike
+        The number of qubits in the slice.
+
+    """
+    start = jnp.clip(start + (start < 0) * size, 0, size)
+    stop = jnp.clip(stop + (stop < 0) * size, 0, size)
+    return jnp.maximum(stop - start, 0)
+
+
+def fused_size(invalues: List, eqn) -> ArrayLike:
+    """Compute the size of the fusion of two objects, which are either qubit arrays
+    (represented by their size) or single qubits.
+    """
+    return sum(
+        1 if isinstance(var.aval, AbstractQubit) else size for var, size in zip(eqn.invars, invalues, strict=True)
+    )
+
+
 def get_quantum_operations(jaspr: Jaspr) -> List[str]:
     """Get the list of quantum operations used in a Jaspr expression.
 
-- 
2.43.0


From 5155ca88366f4244c5082fe3111c2e8724d4f993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:02:37 +0000
Subject: [PATCH 66/79] fix: do not call user callables when searching
 arguments for quantum sessions

---
 src/qrisp/core/session_merging_tools.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/qrisp/core/session_merging_tools.py b/src/qrisp/core/session_merging_tools.py
index c8bf3a2..4e662cc 100644
--- a/src/qrisp/core/session_merging_tools.py
+++ b/src/qrisp/core/session_merging_tools.py
@@ -365,11 +365,9 @@ def recursive_qs_search(input):
     elif isinstance(input, QuantumEnvironment):
         result = [input.env_qs]
     else:
-        try:
-            if isinstance(input(), QuantumSession):
-                result = [input()]
-        except TypeError:
-            pass
+        # Only weak references are resolved, calling arbitrary callables would execute user code
+        if isinstance(input, weakref.ref) and isinstance(input(), QuantumSession):
+            result = [input()]
 
         try:
             if isinstance(input.qs(), QuantumSession):
-- 
2.43.0


From c6339953e8e9344e9c13e7e63e81714c387d6c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:02:37 +0000
Subject: [PATCH 67/79] fix: custom inversion and control of traced functions
 closing over traced values

---
 .../custom_control_environment.py             |  2 +
 .../custom_inversion_environment.py           | 64 ++++++++++++++++++-
 2 files changed, 65 insertions(+), 1 deletion(-)

diff --git a/src/qrisp/environments/custom_control_environment.py b/src/qrisp/environments/custom_control_environment.py
index 15279fa..ea2c098 100644
--- a/src/qrisp/environments/custom_control_environment.py
+++ b/src/qrisp/environments/custom_control_environment.py
@@ -22,6 +22,7 @@ import jax.numpy as jnp
 
 from qrisp.circuit import Instruction, Operation, QuantumCircuit
 from qrisp.core import merge
+from qrisp.environments.custom_inversion_environment import lift_closure_constants
 from qrisp.environments.gate_wrap_environment import GateWrapEnvironment
 from qrisp.environments.iteration_environment import IterationEnvironment
 from qrisp.environments.quantum_environments import QuantumEnvironment
@@ -273,6 +274,7 @@ def custom_control(*func, **cusc_kwargs):
                 ammended_args = [ctrl_aval] + list(args)
 
                 controlled_jaspr = make_jaspr(ammended_func, **cusc_kwargs)(*ammended_args, **kwargs)
+                controlled_jaspr = lift_closure_constants(controlled_jaspr, jit_eqn, num_extra_args=1)
 
                 # Store controlled version
                 jit_eqn.params["jaxpr"].ctrl_jaspr = controlled_jaspr
diff --git a/src/qrisp/environments/custom_inversion_environment.py b/src/qrisp/environments/custom_inversion_environment.py
index 5acf11b..d36e01a 100644
--- a/src/qrisp/environments/custom_inversion_environment.py
+++ b/src/qrisp/environments/custom_inversion_environment.py
@@ -16,8 +16,11 @@
 """
 
 import jax.numpy as jnp
+from jax.core import Tracer
+from jax.extend.core import Var
 
 from qrisp.jasp import (
+    Jaspr,
     check_for_tracing_mode,
     get_last_equation,
     make_jaspr,
@@ -169,7 +172,7 @@ def custom_inversion(*func, **cusi_kwargs):
                     new_kwargs = dict(kwargs)
                     return func(*args, inv=True, **new_kwargs)
 
-                inverted_jaspr = make_jaspr(ammended_func)(*args, **kwargs)
+                inverted_jaspr = lift_closure_constants(make_jaspr(ammended_func)(*args, **kwargs), jit_eqn)
 
                 # Store controlled version
                 jit_eqn.params["jaxpr"].inv_jaspr = inverted_jaspr
@@ -178,3 +181,62 @@ def custom_inversion(*func, **cusi_kwargs):
         return res
 
     return adaptive_inversion_function
+
+
+def lift_closure_constants(jaspr, jit_eqn, num_extra_args=0):
+    """Adjusts the signature of a Jaspr that was traced in order to replace the Jaspr
+    of a given jit equation (for instance as its inverse or controlled version).
+
+    If the traced function closes over tracers of the surrounding trace, Jax passes
+    them as leading arguments of the jit equation. In the separately traced Jaspr, they
+    are however captured as constants. This function turns these constants
+    into arguments, such that both signatures agree.
+
+    Parameters
+    ----------
+    jaspr : Jaspr
+        The separately traced Jaspr.
+    jit_eqn : JaxprEqn
+        The jit equation, whose signature should be matched.
+    num_extra_args : int, optional
+        The amount of additional leading arguments of the Jaspr. The default is 0.
+
+    Returns
+    -------
+    Jaspr
+        A Jaspr with matching signature.
+
+    """
+    closure_amount = len(jit_eqn.invars) + num_extra_args - len(jaspr.invars)
+    if closure_amount <= 0:
+        return jaspr
+
+    constvars = list(jaspr.constvars)
+    consts = list(jaspr.consts)
+    closure_vars = []
+    for invar in jit_eqn.invars[:closure_amount]:
+        for i in range(len(consts)):
+            if not isinstance(consts[i], Tracer):
+                continue
+            # Constants stemming from an outer trace are represented by a tracer of the current trace
+            if invar._trace.to_jaxpr_tracer(consts[i], None) is invar:
+                closure_vars.append(constvars.pop(i))
+                consts.pop(i)
+                break
+        else:
+            # The closure is not used in the separately traced Jaspr
+            closure_vars.append(Var(invar.aval))
+
+    res = Jaspr(
+        constvars=constvars,
+        consts=consts,
+        invars=jaspr.invars[:num_extra_args] + closure_vars + jaspr.invars[num_extra_args:],
+        outvars=list(jaspr.outvars),
+        eqns=list(jaspr.eqns),
+        effects=jaspr.effects,
+        debug_info=jaspr.debug_info,
+        permeability=jaspr.permeability,
+        isqfree=jaspr.isqfree,
+    )
+    res.envs_flattened = jaspr.envs_flattened
+    return res
-- 
2.43.0


From b177707062d4d014e54a95ac00a53ec93b71d9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:02:37 +0000
Subject: [PATCH 68/79] fix: quantum switch with an odd number of branches and
 several operands

---
 src/qrisp/alg_primitives/program_control/quantum_switch.py | 4 ++--
 src/qrisp/alg_primitives/program_control/switch_case.py    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/qrisp/alg_primitives/program_control/quantum_switch.py b/src/qrisp/alg_primitives/program_control/quantum_switch.py
index 690dedf..e561603 100644
--- a/src/qrisp/alg_primitives/program_control/quantum_switch.py
+++ b/src/qrisp/alg_primitives/program_control/quantum_switch.py
@@ -341,10 +341,10 @@ def _q_switch_q(index, branches, *operands, branch_amount=None, method="auto", i
         elif isinstance(branches, list):
             if len(branches) % 2 != 0:
 
-                def identity(_):
+                def identity(*_):
                     pass
 
-                branches.append(identity)
+                branches = branches + [identity]
 
             if check_for_tracing_mode():
 
diff --git a/src/qrisp/alg_primitives/program_control/switch_case.py b/src/qrisp/alg_primitives/program_control/switch_case.py
index aecef1b..bf08600 100644
--- a/src/qrisp/alg_primitives/program_control/switch_case.py
+++ b/src/qrisp/alg_primitives/program_control/switch_case.py
@@ -370,10 +370,10 @@ def qswitch(operand, case, case_function, method="auto", case_amount=None, inv=F
         elif isinstance(case_function, list):
             if len(case_function) % 2 != 0:
 
-                def identity(_):
+                def identity(*_):
                     pass
 
-                case_function.append(identity)
+                case_function = case_function + [identity]
 
             if check_for_tracing_mode():
 
-- 
2.43.0


From 54986f7257c0e541278277a369ea4ef72141660a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:02:37 +0000
Subject: [PATCH 69/79] fix: honour qiskit_endian and inplace_mult in traced
 QFT

---
 src/qrisp/alg_primitives/qft.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/qrisp/alg_primitives/qft.py b/src/qrisp/alg_primitives/qft.py
index e40682d..0b09443 100644
--- a/src/qrisp/alg_primitives/qft.py
+++ b/src/qrisp/alg_primitives/qft.py
@@ -183,7 +183,7 @@ def QFT(
     if inv:
         with invert():
             if check_for_tracing_mode():
-                jasp_qft(qv, exec_swap)
+                jasp_qft(qv, exec_swap, qiskit_endian, inplace_mult)
             else:
                 gate_wrap(permeability=[], is_qfree=False, name=name)(QFT_inner)(
                     qv,
@@ -195,7 +195,7 @@ def QFT(
                 )
 
     elif check_for_tracing_mode():
-        jasp_qft(qv, exec_swap)
+        jasp_qft(qv, exec_swap, qiskit_endian, inplace_mult)
     else:
         gate_wrap(permeability=[], is_qfree=False, name=name)(QFT_inner)(
             qv,
@@ -209,19 +209,25 @@ def QFT(
     return qv
 
 
-@qache(static_argnums=[1])
-def jasp_qft(qv, exec_swap):
+@qache(static_argnums=[1, 2, 3])
+def jasp_qft(qv, exec_swap, qiskit_endian=True, inplace_mult=1):
     """Performs qft on the first n qubits in circuit (without swaps)"""
+    if inplace_mult % 2 == 0:
+        raise Exception("Tried to perform non-invertible inplace multiplication during Fourier-Transform")
+
     if isinstance(qv, list):
         n = len(qv)
     else:
         n = qv.size
 
+    def index(i):
+        return n - 1 - i if qiskit_endian else i
+
     for i in jrange(n):
         # pass
-        h(qv[n - 1 - i])
+        h(qv[index(i)])
         for k in jrange(n - i - 1):
-            cp(2.0 * np.pi / pow(2.0, (k + 2)), qv[n - 1 - (k + i + 1)], qv[n - 1 - i])
+            cp(inplace_mult * 2.0 * np.pi / pow(2.0, (k + 2)), qv[index(k + i + 1)], qv[index(i)])
 
     if exec_swap:
         for i in jrange(n // 2):
-- 
2.43.0


From da27dd67682cb0fe1c52533e9ad8b1d1ec6f9c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:49:39 +0000
Subject: [PATCH 70/79] fix: signal processing angles for complex and constant
 polynomials, singular value transform without ancillas

---
 src/qrisp/algorithms/gqsp/gqsp_angles.py | 12 ++++++------
 src/qrisp/algorithms/gqsp/qsvt.py        |  5 +++++
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/qrisp/algorithms/gqsp/gqsp_angles.py b/src/qrisp/algorithms/gqsp/gqsp_angles.py
index e84d912..7c84972 100644
--- a/src/qrisp/algorithms/gqsp/gqsp_angles.py
+++ b/src/qrisp/algorithms/gqsp/gqsp_angles.py
@@ -188,8 +188,8 @@ def _inlft(a: "ArrayLike", b: "ArrayLike") -> Array:
         # Return the new carry state and the output we want to accumulate (Fk)
         return (a_star_new, b_new), Fk
 
-    # Initial state for the carry
-    initial_carry = (jnp.conjugate(a), b)
+    # Initial state for the carry (the complementary polynomial has non-negative powers, i.e., it plays the role of a^*)
+    initial_carry = (a, b)
 
     # Execute the scan loop for the length of 'a'
     # jax.lax.scan returns the final state (which we ignore with '_') and the stacked outputs
@@ -572,8 +572,8 @@ def qsvt_angles(p: "ArrayLike", parity: Literal["even", "odd"] = "odd") -> tuple
 
     d = len(phi_qsp) - 1
 
-    phi_qsvt = jnp.zeros(d + 1)
-    phi_qsvt = phi_qsvt.at[0].set(phi_qsp[0] + (2 * d - 1) * np.pi / 4)
-    phi_qsvt = phi_qsvt.at[1:].set(phi_qsp[1:] - np.pi / 2)
-    phi_qsvt = phi_qsvt.at[d].set(phi_qsp[d] - np.pi / 4)
+    # The shifts of the first and last angle add up for degree zero
+    phi_qsvt = phi_qsp - np.pi / 2
+    phi_qsvt = phi_qsvt.at[0].add((2 * d + 1) * np.pi / 4)
+    phi_qsvt = phi_qsvt.at[d].add(np.pi / 4)
     return phi_qsvt, alpha
diff --git a/src/qrisp/algorithms/gqsp/qsvt.py b/src/qrisp/algorithms/gqsp/qsvt.py
index 5df9703..f5ef3de 100644
--- a/src/qrisp/algorithms/gqsp/qsvt.py
+++ b/src/qrisp/algorithms/gqsp/qsvt.py
@@ -188,6 +188,11 @@ def QSVT(
     m = len(A._anc_templates)
 
     def reflection(args, phase):
+        # Without ancillas, the projector onto the encoded block is the identity
+        if m == 0:
+            rz(-phase, args[0])
+            return
+
         qubits = sum([arg.reg for arg in args[1 : m + 1]], [])
         with conjugate(mcx)(qubits, args[0], ctrl_state=0):
             rz(phase, args[0])
-- 
2.43.0


From 827781072e61ac6a8f0a308ecf80eb27aa289d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:49:39 +0000
Subject: [PATCH 71/79] fix: pseudo inversion of non-Hermitian block encodings
 returned the adjoint

---
 src/qrisp/algorithms/gqsp/pseudo_inversion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qrisp/algorithms/gqsp/pseudo_inversion.py b/src/qrisp/algorithms/gqsp/pseudo_inversion.py
index 8a8b0e8..431d4c4 100644
--- a/src/qrisp/algorithms/gqsp/pseudo_inversion.py
+++ b/src/qrisp/algorithms/gqsp/pseudo_inversion.py
@@ -186,7 +186,8 @@ def pseudo_inversion(
     p = _pseudo_inversion_cheb(theta, delta, eps)
 
     # Set _rescale=False to apply p(A/α) instead of p(A).
-    A_pseudo_inv = QSVT(A, p, kind="Chebyshev", rescale=False)
+    # For A=UΣV†, the pseudo inverse is V f(Σ) U†, i.e., the odd singular value transform of A†.
+    A_pseudo_inv = QSVT(A.dagger(), p, kind="Chebyshev", rescale=False)
 
     # Adjust scaling factor since (A/α)^{-1} = αA^{-1}.
     A_pseudo_inv.alpha = A_pseudo_inv.alpha / A.alpha
-- 
2.43.0


From c53798cd99c6cf59244c984644525e794ddcd3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:49:39 +0000
Subject: [PATCH 72/79] fix: block encoding normalisation of a negative single
 unitary, walk operators are not Hermitian

---
 src/qrisp/block_encodings/block_encoding_base.py   |  6 +++---
 src/qrisp/block_encodings/constructors/from_lcu.py | 14 ++++++++++++--
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/qrisp/block_encodings/block_encoding_base.py b/src/qrisp/block_encodings/block_encoding_base.py
index 1aafccc..df32443 100644
--- a/src/qrisp/block_encodings/block_encoding_base.py
+++ b/src/qrisp/block_encodings/block_encoding_base.py
@@ -853,7 +853,7 @@ class BlockEncoding:
                 self._anc_templates,
                 new_unitary_hermitian,
                 num_ops=self.num_ops,
-                is_hermitian=True,
+                is_hermitian=False,
             )
 
         # We construct a strictly Hermitian block-encoding of A = (A + A†)/2.
@@ -890,7 +890,7 @@ class BlockEncoding:
             new_anc_templates,
             new_unitary,
             num_ops=self.num_ops,
-            is_hermitian=True,
+            is_hermitian=False,
         )
 
     def _hermitianization(self) -> BlockEncoding:
@@ -930,7 +930,7 @@ class BlockEncoding:
             new_anc_templates,
             new_unitary,
             num_ops=self.num_ops,
-            is_hermitian=True,
+            is_hermitian=False,
         )
 
     def chebyshev(self, k: int, rescale: bool = True) -> BlockEncoding:
diff --git a/src/qrisp/block_encodings/constructors/from_lcu.py b/src/qrisp/block_encodings/constructors/from_lcu.py
index 5d630f2..99a0fa6 100644
--- a/src/qrisp/block_encodings/constructors/from_lcu.py
+++ b/src/qrisp/block_encodings/constructors/from_lcu.py
@@ -23,6 +23,7 @@ import numpy.typing as npt
 
 from qrisp.alg_primitives.state_preparation import prepare
 from qrisp.block_encodings.block_encoding_base import BlockEncoding
+from qrisp.core.gate_application_functions import gphase
 from qrisp.environments import conjugate, invert
 from qrisp.jasp import q_switch, qache
 from qrisp.qtypes import QuantumFloat
@@ -146,10 +147,19 @@ def build_from_lcu(
     # Block encoding of a single unitary (up to normalization)
     if m == 1:
         if np.abs(complex_coeffs[0].imag) < _TOLERANCE:
+            single_unitary = unitaries[0]
+
+            # The scaling factor is non-negative: The sign is part of the unitary
+            if complex_coeffs[0].real < 0:
+
+                def single_unitary(*args):
+                    unitaries[0](*args)
+                    gphase(np.pi, args[0][0])
+
             return cls(
-                complex_coeffs[0].real,
+                alpha,
                 [],
-                unitaries[0],
+                single_unitary,
                 num_ops=num_ops,
                 is_hermitian=is_hermitian,
             )
-- 
2.43.0


From dbc9d5c8add42778646b2711b815d8b011ca857e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:49:39 +0000
Subject: [PATCH 73/79] fix: operators from csr_array, gate wrapped functions
 without quantum arguments

---
 src/qrisp/misc/utility.py                   | 5 +++++
 src/qrisp/operators/qubit/qubit_operator.py | 6 +++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/qrisp/misc/utility.py b/src/qrisp/misc/utility.py
index 738af84..55c7487 100644
--- a/src/qrisp/misc/utility.py
+++ b/src/qrisp/misc/utility.py
@@ -446,6 +446,11 @@ def gate_wrap_inner(function, permeability=None, is_qfree=None, name=None, verif
             qs = find_qs(args)
         except:
             qs_list = recursive_qs_search([args, kwargs])
+
+            # Without any quantum arguments, there is nothing to wrap
+            if len(qs_list) == 0:
+                return function(*args, **kwargs)
+
             qs = qs_list[0]
 
         initial_qubits = set(qs.qubits)
diff --git a/src/qrisp/operators/qubit/qubit_operator.py b/src/qrisp/operators/qubit/qubit_operator.py
index b6c36dd..0d08c68 100644
--- a/src/qrisp/operators/qubit/qubit_operator.py
+++ b/src/qrisp/operators/qubit/qubit_operator.py
@@ -610,14 +610,14 @@ class QubitOperator(Hamiltonian):
         """
         import numpy as np
         from numpy import ndarray
-        from scipy.sparse import csr_matrix
+        from scipy.sparse import csr_array, csr_matrix
 
         OPERATOR_TABLE = {(0, 0): "P0", (0, 1): "A", (1, 0): "C", (1, 1): "P1"}
 
         if isinstance(matrix, ndarray):
             new_matrix = csr_matrix(matrix)
-        elif isinstance(matrix, csr_matrix):
-            new_matrix = matrix.copy()
+        elif isinstance(matrix, (csr_matrix, csr_array)):
+            new_matrix = csr_matrix(matrix, copy=True)
         else:
             raise Exception("Cannot construct QubitOperator from type " + str(type(matrix)))
 
-- 
2.43.0


From e6a8e2fdb466a08f5771551b028d5d927005c40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:47:29 +0000
Subject: [PATCH 74/79] fix: let sx_dg apply the inverse square root of X

The application function sx_dg applied the inverse of the daggered gate, i.e.
the gate itself. The basis change of Y factors relied on this and now asks for
the gate it needs.
---
 src/qrisp/core/gate_application_functions.py | 2 +-
 src/qrisp/operators/qubit/qubit_operator.py  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/qrisp/core/gate_application_functions.py b/src/qrisp/core/gate_application_functions.py
index 157c09a..204279f 100644
--- a/src/qrisp/core/gate_application_functions.py
+++ b/src/qrisp/core/gate_application_functions.py
@@ -1046,7 +1046,7 @@ def sx_dg(qubits):
         The Qubit to perform the daggered SX gate on.
 
     """
-    append_operation(std_ops.SXDGGate().inverse(), [qubits])
+    append_operation(std_ops.SXDGGate(), [qubits])
     return qubits
 
 
diff --git a/src/qrisp/operators/qubit/qubit_operator.py b/src/qrisp/operators/qubit/qubit_operator.py
index 0d08c68..87bd096 100644
--- a/src/qrisp/operators/qubit/qubit_operator.py
+++ b/src/qrisp/operators/qubit/qubit_operator.py
@@ -21,7 +21,7 @@ import jax.numpy as jnp
 import numpy as np
 import sympy as sp
 
-from qrisp import IterationEnvironment, conjugate, cx, cz, h, invert, merge, s, sx_dg
+from qrisp import IterationEnvironment, conjugate, cx, cz, h, invert, merge, s, sx
 from qrisp.jasp import check_for_tracing_mode, jrange
 from qrisp.operators.hamiltonian import Hamiltonian
 from qrisp.operators.hamiltonian_tools import group_up_iterable
@@ -1180,7 +1180,7 @@ class QubitOperator(Hamiltonian):
                             h(qarg[j])
 
                         if factor_dict[j] == "Y":
-                            sx_dg(qarg[j])
+                            sx(qarg[j])
 
                     new_factor_dict[j] = "Z"
 
-- 
2.43.0


From b4e61f80efd49595ad5d5cb5797dedb22041e522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:15:05 +0000
Subject: [PATCH 75/79] fix: follow strides, clamping, broadcast dimensions and
 constants when evaluating arrays of measurement results

---
 .../post_processing_interpreter.py             |  4 +++-
 .../interpreters/qc_extraction_interpreter.py  | 18 ++++++++++++++++--
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/qrisp/jasp/interpreter_tools/interpreters/post_processing_interpreter.py b/src/qrisp/jasp/interpreter_tools/interpreters/post_processing_interpreter.py
index 750e4c0..c240a89 100644
--- a/src/qrisp/jasp/interpreter_tools/interpreters/post_processing_interpreter.py
+++ b/src/qrisp/jasp/interpreter_tools/interpreters/post_processing_interpreter.py
@@ -124,7 +124,7 @@ def extract_post_processing(jaspr, *args):
         consts = jaspr.jaxpr.consts
     else:
         inner_jaxpr = jaspr.jaxpr
-        consts = []
+        consts = jaspr.consts
 
     # Create static value map (excluding QuantumState)
     static_value_map = {}
@@ -446,6 +446,8 @@ def extract_post_processing(jaspr, *args):
         context_dic = ContextDict()
         for var, val in static_value_map.items():
             context_dic[var] = val
+        for var, val in zip(inner_jaxpr.constvars, consts):
+            context_dic[var] = val
 
         # Initialize QuantumState variables as tuples (measurement_array, last_popped_index)
         # so that measurements can consume from the per-circuit array.
diff --git a/src/qrisp/jasp/interpreter_tools/interpreters/qc_extraction_interpreter.py b/src/qrisp/jasp/interpreter_tools/interpreters/qc_extraction_interpreter.py
index c60fc44..8900c93 100644
--- a/src/qrisp/jasp/interpreter_tools/interpreters/qc_extraction_interpreter.py
+++ b/src/qrisp/jasp/interpreter_tools/interpreters/qc_extraction_interpreter.py
@@ -360,6 +360,11 @@ def to_object_array(val):
         return val
 
 
+def clamp_start_indices(start_indices, shape, slice_sizes):
+    """Shift the start of a dynamic slice such that the slice lies within the array (like JAX does)."""
+    return tuple(max(0, min(s, n - sz)) for s, n, sz in zip(start_indices, shape, slice_sizes))
+
+
 def apply_array_primitive(prim_name, params, invalues):
     """Apply a JAX array primitive to measurement data using numpy equivalents.
 
@@ -386,7 +391,12 @@ def apply_array_primitive(prim_name, params, invalues):
     # Apply the numpy equivalent based on primitive name
     if prim_name == "broadcast_in_dim":
         shape = params["shape"]
-        result = np.broadcast_to(encoded[0], shape)
+        result = np.asarray(encoded[0])
+        # Place the dimensions of the operand according to the broadcast dimensions
+        expanded_shape = [1] * len(shape)
+        for dim, size in zip(params["broadcast_dimensions"], result.shape):
+            expanded_shape[dim] = size
+        result = np.broadcast_to(result.reshape(expanded_shape), shape)
 
     elif prim_name == "concatenate":
         dimension = params.get("dimension", 0)
@@ -399,7 +409,8 @@ def apply_array_primitive(prim_name, params, invalues):
     elif prim_name == "slice":
         start_indices = params["start_indices"]
         limit_indices = params["limit_indices"]
-        slices = tuple(slice(s, e) for s, e in zip(start_indices, limit_indices))
+        strides = params.get("strides") or (1,) * len(start_indices)
+        slices = tuple(slice(s, e, st) for s, e, st in zip(start_indices, limit_indices, strides))
         result = encoded[0][slices]
 
     elif prim_name == "dynamic_slice":
@@ -408,6 +419,7 @@ def apply_array_primitive(prim_name, params, invalues):
             int(encoded[i]) if np.ndim(encoded[i]) == 0 else int(encoded[i].flat[0]) for i in range(1, len(encoded))
         ]
         slice_sizes = params["slice_sizes"]
+        start_indices = clamp_start_indices(start_indices, encoded[0].shape, slice_sizes)
         slices = tuple(slice(s, s + sz) for s, sz in zip(start_indices, slice_sizes))
         result = encoded[0][slices]
 
@@ -456,6 +468,8 @@ def apply_array_primitive(prim_name, params, invalues):
             int(encoded[i]) if np.ndim(encoded[i]) == 0 else int(encoded[i].flat[0]) for i in range(2, len(encoded))
         )
 
+        start_indices = clamp_start_indices(start_indices, operand.shape, update.shape)
+
         # Create a copy and update the slice
         result = operand.copy()
         slices = tuple(slice(s, s + u) for s, u in zip(start_indices, update.shape))
-- 
2.43.0


From 72e311aa237ef55e04ab3b1dd0e5f10ebe797d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:19:37 +0000
Subject: [PATCH 76/79] fix: accept scans over a single carry in classical
 lowering and extracted post-processing

---
 .../interpreters/cl_func_interpreter.py       | 54 ++++++-------------
 .../post_processing_interpreter.py            | 46 ++++------------
 2 files changed, 25 insertions(+), 75 deletions(-)

diff --git a/src/qrisp/jasp/interpreter_tools/interpreters/cl_func_interpreter.py b/src/qrisp/jasp/interpreter_tools/interpreters/cl_func_interpreter.py
index 6a98341..ccbbae6 100644
--- a/src/qrisp/jasp/interpreter_tools/interpreters/cl_func_interpreter.py
+++ b/src/qrisp/jasp/interpreter_tools/interpreters/cl_func_interpreter.py
@@ -712,44 +712,22 @@ def process_scan(eqn, context_dic, call_graph_stats=None, callback_threshold=Non
         scan_body_jaxpr, eqn_evaluator=make_cl_func_eqn_evaluator(call_graph_stats, callback_threshold)
     )
 
-    # Create wrapper function that includes constants
-    if num_consts > 0:
-
-        def wrapped_body(carry, x):
-            args = consts + list(carry) + (list(x) if isinstance(x, tuple) else [x])
-            result = scan_body(*args)
-            if not isinstance(result, tuple):
-                result = (result,)
-            return result[:num_carry], result[num_carry:]
-
-    else:
-
-        def wrapped_body(carry, x):
-            args = list(carry) + (list(x) if isinstance(x, tuple) else [x])
-            result = scan_body(*args)
-            if not isinstance(result, tuple):
-                result = (result,)
-            return result[:num_carry], result[num_carry:]
-
-    # Prepare inputs for JAX scan
-    if len(xs) == 1:
-        xs_arg = xs[0]
-    else:
-        xs_arg = tuple(xs)
-
-    if len(init) == 1:
-        init_arg = init[0]
-    else:
-        init_arg = tuple(init)
-
-    # Call JAX scan
-    final_carry, ys = jax_scan(wrapped_body, init_arg, xs_arg, length=length, reverse=reverse, unroll=unroll)
-
-    # Prepare output
-    if not isinstance(final_carry, tuple):
-        final_carry = (final_carry,)
-    if not isinstance(ys, tuple):
-        ys = (ys,)
+    # Create wrapper function that includes constants. Carries, scanned inputs and
+    # outputs are passed as tuples regardless of their amount.
+    def wrapped_body(carry, x):
+        result = scan_body(*(list(consts) + list(carry) + list(x)))
+        if len(eqn.outvars) == 1:
+            result = (result,)
+        return tuple(result[:num_carry]), tuple(result[num_carry:])
+
+    final_carry, ys = jax_scan(
+        wrapped_body,
+        tuple(init),
+        tuple(xs),
+        length=length,
+        reverse=reverse,
+        unroll=unroll,
+    )
 
     outvalues = final_carry + ys
 
diff --git a/src/qrisp/jasp/interpreter_tools/interpreters/post_processing_interpreter.py b/src/qrisp/jasp/interpreter_tools/interpreters/post_processing_interpreter.py
index c240a89..d6cfa63 100644
--- a/src/qrisp/jasp/interpreter_tools/interpreters/post_processing_interpreter.py
+++ b/src/qrisp/jasp/interpreter_tools/interpreters/post_processing_interpreter.py
@@ -363,51 +363,23 @@ def extract_post_processing(jaspr, *args):
                 init = invalues[num_consts : num_consts + num_carry]
                 xs = invalues[num_consts + num_carry :]
 
-                # Create a wrapper function that includes constants
-                if num_consts > 0:
-
-                    def wrapped_body(carry, x):
-                        args = consts + list(carry) + list(x) if isinstance(x, tuple) else consts + list(carry) + [x]
-                        result = scan_body(*args)
-                        if not isinstance(result, tuple):
-                            result = (result,)
-                        return result[:num_carry], result[num_carry:]
-
-                else:
-
-                    def wrapped_body(carry, x):
-                        args = list(carry) + (list(x) if isinstance(x, tuple) else [x])
-                        result = scan_body(*args)
-                        if not isinstance(result, tuple):
-                            result = (result,)
-                        return result[:num_carry], result[num_carry:]
-
-                # Call JAX scan with the reinterpreted body
-                if len(xs) == 1:
-                    xs_arg = xs[0]
-                else:
-                    xs_arg = tuple(xs)
-
-                if len(init) == 1:
-                    init_arg = init[0]
-                else:
-                    init_arg = tuple(init)
+                # Create a wrapper function that includes constants. Carries, scanned
+                # inputs and outputs are passed as tuples regardless of their amount.
+                def wrapped_body(carry, x):
+                    result = scan_body(*(list(consts) + list(carry) + list(x)))
+                    if len(eqn.outvars) == 1:
+                        result = (result,)
+                    return tuple(result[:num_carry]), tuple(result[num_carry:])
 
                 final_carry, ys = jax.lax.scan(
                     wrapped_body,
-                    init_arg,
-                    xs_arg,
+                    tuple(init),
+                    tuple(xs),
                     length=length,
                     reverse=reverse,
                     unroll=unroll,
                 )
 
-                # Prepare output
-                if not isinstance(final_carry, tuple):
-                    final_carry = (final_carry,)
-                if not isinstance(ys, tuple):
-                    ys = (ys,)
-
                 outvalues = final_carry + ys
 
                 insert_outvalues(eqn, context_dic, outvalues)
-- 
2.43.0


From 1270474c42c82db8f42fda8bf7a2bef8db527a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:27:44 +0000
Subject: [PATCH 77/79] fix: multiply arrays of modular registers by classical
 integer matrices outside of tracing

---
 .../arithmetic/jasp_arithmetic/jasp_montgomery.py             | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_montgomery.py b/src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_montgomery.py
index 92add34..f856006 100644
--- a/src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_montgomery.py
+++ b/src/qrisp/alg_primitives/arithmetic/jasp_arithmetic/jasp_montgomery.py
@@ -17,6 +17,8 @@
 
 from typing import Union
 
+import numpy as np
+
 from qrisp.alg_primitives.arithmetic.adders import gidney_adder
 from qrisp.core import cx, swap, x
 from qrisp.environments import control, custom_control, invert
@@ -381,6 +383,8 @@ def cq_montgomery_mat_multiply(A, B, out):
         x_cond = q_cond
     else:
         xrange = range
+        # The number theoretic helpers expect Python integers
+        B = np.asarray(B).astype(object)
 
         def x_cond(condition, tf, ff):
             if condition:
-- 
2.43.0


From b0dc34c1783cbdb6255638aa470c99bf54a18e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:50:53 +0000
Subject: [PATCH 78/79] fix: keep cached traces of modular and signed variables
 apart

---
 src/qrisp/jasp/tracing_logic/qv_flattening.py |  8 ++++++--
 src/qrisp/qtypes/quantum_modulus.py           | 20 +++++++++++++++++++
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/qrisp/jasp/tracing_logic/qv_flattening.py b/src/qrisp/jasp/tracing_logic/qv_flattening.py
index 7a221a8..59535ce 100644
--- a/src/qrisp/jasp/tracing_logic/qv_flattening.py
+++ b/src/qrisp/jasp/tracing_logic/qv_flattening.py
@@ -73,11 +73,15 @@ class QuantumVariableTemplate:
             res.reg = reg
         return res
 
+    def static_signature(self):
+        # The properties of the QuantumVariable, which are fixed at tracing time
+        return (type(self.qv), tuple((attr, getattr(self.qv, attr)) for attr in self.qv.static_attributes))
+
     def __hash__(self):
-        return hash(type(self.qv))
+        return hash(self.static_signature())
 
     def __eq__(self, other):
-        return type(self.qv) == type(other.qv)
+        return isinstance(other, QuantumVariableTemplate) and self.static_signature() == other.static_signature()
 
 
 def flatten_qv(qv):
diff --git a/src/qrisp/qtypes/quantum_modulus.py b/src/qrisp/qtypes/quantum_modulus.py
index e057abc..02dccb1 100644
--- a/src/qrisp/qtypes/quantum_modulus.py
+++ b/src/qrisp/qtypes/quantum_modulus.py
@@ -276,6 +276,26 @@ class QuantumModulus(QuantumFloat):
         self.inpl_adder = inpl_adder
         self.m = 0
 
+    # The modulus and the Montgomery shift determine how the register is decoded.
+    # Python integers are fixed at tracing time, other values are traced.
+    @property
+    def static_attributes(self):
+        return self._static_attributes + [attr for attr in ("modulus", "m") if isinstance(getattr(self, attr, None), int)]
+
+    @static_attributes.setter
+    def static_attributes(self, attributes):
+        self._static_attributes = attributes
+
+    @property
+    def traced_attributes(self):
+        return self._traced_attributes + [
+            attr for attr in ("modulus", "m") if hasattr(self, attr) and not isinstance(getattr(self, attr), int)
+        ]
+
+    @traced_attributes.setter
+    def traced_attributes(self, attributes):
+        self._traced_attributes = attributes
+
     def decoder(self, i):
         """Decode a Montgomery-encoded value back to standard representation.
 
-- 
2.43.0


From 4436f1d30e69db6555f3f0960e678ae540e8bfd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:52:06 +0000
Subject: [PATCH 79/79] fix: reset single qubits in programs compiled to
 machine code

---
 .../interpreters/catalyst_interpreter.py      | 38 ++++++++++++-------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/src/qrisp/jasp/interpreter_tools/interpreters/catalyst_interpreter.py b/src/qrisp/jasp/interpreter_tools/interpreters/catalyst_interpreter.py
index 7167419..4f7138f 100644
--- a/src/qrisp/jasp/interpreter_tools/interpreters/catalyst_interpreter.py
+++ b/src/qrisp/jasp/interpreter_tools/interpreters/catalyst_interpreter.py
@@ -630,26 +630,34 @@ def process_pjit(eqn, context_dic):
     insert_outvalues(eqn, context_dic, unflattened_outvalues)
 
 
+# Function to reset a single qubit
+def reset_qubit(abs_qb, abs_qst):
+    from qrisp.circuit import XGate
+
+    meas_bl, abs_qst = Measurement_p.bind(abs_qb, abs_qst)
+
+    def true_fun(arg_tuple):
+        qb, abs_qst = arg_tuple
+        abs_qst = quantum_gate_p.bind(qb, abs_qst, gate=XGate())
+        return (qb, abs_qst)
+
+    def false_fun(arg_tuple):
+        return arg_tuple
+
+    _, abs_qst = cond(meas_bl, true_fun, false_fun, (abs_qb, abs_qst))
+
+    return abs_qst
+
+
 # Function to reset and delete a qubit array
 def reset_qubit_array(qb_array, abs_qst):
-    from qrisp.circuit import XGate
 
     def body_func(arg_tuple):
 
         qb_array, i, abs_qst = arg_tuple
 
         abs_qb = get_qubit_p.bind(qb_array, i)
-        meas_bl, abs_qst = Measurement_p.bind(abs_qb, abs_qst)
-
-        def true_fun(arg_tuple):
-            qb, abs_qst = arg_tuple
-            abs_qst = quantum_gate_p.bind(qb, abs_qst, gate=XGate())
-            return (qb, abs_qst)
-
-        def false_fun(arg_tuple):
-            return arg_tuple
-
-        qb, abs_qst = cond(meas_bl, true_fun, false_fun, (abs_qb, abs_qst))
+        abs_qst = reset_qubit(abs_qb, abs_qst)
 
         i += 1
 
@@ -664,12 +672,16 @@ def reset_qubit_array(qb_array, abs_qst):
 
 
 reset_jaxpr = make_jaxpr(reset_qubit_array)(AbstractQubitArray(), AbstractQuantumState())
+reset_qubit_jaxpr = make_jaxpr(reset_qubit)(AbstractQubit(), AbstractQuantumState())
 
 
 def process_reset(eqn, context_dic):
 
     invalues = extract_invalues(eqn, context_dic)
-    outvalues = eval_jaxpr(reset_jaxpr.jaxpr, eqn_evaluator=catalyst_eqn_evaluator)(*invalues)
+    # Single qubits can be reset, too
+    is_qubit = isinstance(eqn.invars[0].aval, AbstractQubit)
+    jaxpr = (reset_qubit_jaxpr if is_qubit else reset_jaxpr).jaxpr
+    outvalues = eval_jaxpr(jaxpr, eqn_evaluator=catalyst_eqn_evaluator)(*invalues)
     insert_outvalues(eqn, context_dic, outvalues)
 
 
-- 
2.43.0

