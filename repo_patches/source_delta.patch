From aaeb733b1f82d3802a53a3e7158b3b4146c2896b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:53 +0000
Subject: [PATCH 01/44] fix: round the root-price product up when converting
 liquidity to X amounts

Truncating the denominator overstated the X amount owed, so that large
X-limited deposits were rejected ("used x amt cannot exceed provided
amount"), whole fills could overshoot the goal price and the pool could
owe more X than it had received.
---
 programs/hmmcl-sandbox/src/cl_pool/cl_math.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs b/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
index 0212fb2..bec76a2 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
@@ -150,7 +150,7 @@ pub trait PoolMath {
         let rp = rp.min(rpb).max(rpa);
 
         let rpb_minus_rp = rpb.sub(rp).unwrap();
-        let rp_mul_rpb = rp.mul(rpb);
+        let rp_mul_rpb = rp.mul_up(rpb);
 
         // l * (rpb - rp) / (rp * rpb)
         l.mul(rpb_minus_rp).div(rp_mul_rpb)
@@ -261,7 +261,7 @@ pub trait PoolMath {
             panic!("root price should not be nil");
         }
         let diff = rp_old.sub(rp_new).unwrap();
-        let old_mul_new = rp_old.mul(rp_new);
+        let old_mul_new = rp_old.mul_up(rp_new);
 
         l.mul(diff).div(old_mul_new)
     }
-- 
2.43.0


From a19239836e7568d1978ed378ac8622f88276383a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:01 +0000
Subject: [PATCH 02/44] fix: start a new position's fee checkpoint at the
 current growth inside its range

A new position was credited with all fees earned in its range before it
existed. Growth inside a range is relative and may be negative, which is
now allowed instead of aborting the deposit or withdrawal.
---
 .../src/cl_pool/cl_components.rs              |  4 +---
 programs/hmmcl-sandbox/src/cl_pool/mod.rs     | 22 ++++++++-----------
 2 files changed, 10 insertions(+), 16 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/cl_components.rs b/programs/hmmcl-sandbox/src/cl_pool/cl_components.rs
index fef37b5..0c778a1 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/cl_components.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/cl_components.rs
@@ -196,9 +196,7 @@ impl PositionState {
         if liq.is_negative() {
             panic!("position liquidity cannot be negative");
         }
-        if fr_x.is_negative() || fr_y.is_negative() || hr_x.is_negative() || hr_y.is_negative() {
-            panic!("fee cannot be negative");
-        }
+        // growth inside a range is relative to a convention: it can be negative
         Self {
             liq,
             fr_x,
diff --git a/programs/hmmcl-sandbox/src/cl_pool/mod.rs b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
index ef9d991..584eebf 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
@@ -382,12 +382,9 @@ impl<'a> Pool<'a> {
         assert_eq!(sum_lwr, sum_upr);
         let fg = sum_lwr;
 
-        let fee_earned = fg.sub(f_blw_lwr).unwrap().sub(f_abv_upr).unwrap();
-        if fee_earned.is_negative() {
-            panic!("fees earned cannot be negative");
-        }
-
-        fee_earned
+        // only differences over time are meaningful: this can be negative, e.g. when the
+        // upper tick was initialized (by another position) long before the lower one
+        fg.sub(f_blw_lwr).unwrap().sub(f_abv_upr).unwrap()
     }
 
     fn _set_position(
@@ -427,14 +424,13 @@ impl<'a> Pool<'a> {
                 }
                 self.positions.insert(
                     key,
-                    PositionState::new(
-                        liq_delta,
-                        Self::zero(),
-                        Self::zero(),
-                        Self::zero(),
-                        Self::zero(),
-                    ),
+                    // fee growth prior to this deposit is not owed to the new position
+                    PositionState::new(liq_delta, new_fr_x, new_fr_y, new_hr_x, new_hr_y),
                 );
+                old_fr_x = new_fr_x;
+                old_fr_y = new_fr_y;
+                old_hr_x = new_hr_x;
+                old_hr_y = new_hr_y;
             }
             Some(poz) => {
                 // get old value for feed from when position was last touched
-- 
2.43.0


From 90806fceb7ca2c9d903ae56f8a8a091af9d03500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:03 +0000
Subject: [PATCH 03/44] fix: find the right limit of a swap when the current
 tick is not a multiple of the spacing

---
 programs/hmmcl-sandbox/src/cl_pool/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/mod.rs b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
index 584eebf..fd1fd02 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
@@ -242,6 +242,8 @@ impl<'a> Pool<'a> {
 
         // get to initializable tick. we use False here to round down
         let start_tick = self.tick_to_possible_tick(start_t, false);
+        // same for the current tick, which is not always a multiple of tick spacing
+        let glbl_tick = self.tick_to_possible_tick(glbl_tick, false);
 
         if start_tick == glbl_tick {
             // we've already technically crossed this tick (left-to-right) i.e.
-- 
2.43.0


From 841ed0552076ed6525712e2046fc4f3256166fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:35 +0000
Subject: [PATCH 04/44] fix: keep the end tick of a non-crossing swap between
 the current tick and the goal

The tick search started one tick too low (underflowing at tick 0) and its
running product drifts, so an uncrossed end tick could land outside the
range in which the liquidity is active.
---
 programs/hmmcl-sandbox/src/cl_pool/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/mod.rs b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
index fd1fd02..6f620a3 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
@@ -697,7 +697,8 @@ impl<'a> Pool<'a> {
             fee_x = dx.sub(dx_max).unwrap(); // fee as expected
             cross = false;
             end_rp = Pool::rp_new_from_l_dx(liq, start_rp, done_dx);
-            end_t = Pool::rp_to_tick_loop(end_rp, false, goal_tick - 1);
+            // no tick is crossed here: stay between the goal and the current tick
+            end_t = Pool::rp_to_tick_loop(end_rp, false, goal_tick).min(self.glbl_tick());
             // * this loop happens only once per trade if price ends in-between ticks
             // * tick is always on the left (round down after 'log')
 
@@ -959,9 +960,8 @@ impl<'a> Pool<'a> {
             fee_y = dy.sub(dy_max).unwrap(); // fee as expected
             cross = false;
             end_rp = Pool::rp_new_from_l_dy(liq, start_rp, done_dy);
-            // start seeking the goal from tick under current tick, that can be initialized
-            let seek_start = self.tick_to_possible_tick(self.glbl_tick() - 1, false);
-            end_t = Pool::rp_to_tick_loop(end_rp, false, seek_start);
+            // no tick is crossed here: stay between the current tick and the goal
+            end_t = Pool::rp_to_tick_loop(end_rp, false, self.glbl_tick()).min(goal_tick - 1);
             // * this log is take only once per trade if price ends in-between ticks
             // * tick is always on the left (round down after log)
 
-- 
2.43.0


From c27843cd9edeaab1309461ce1a8f8f88f308d6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:45 +0000
Subject: [PATCH 05/44] fix: round the new root-price up when X is supplied

Truncation moved the price further than the X paid for, so the pool gave
out up to one price unit times the liquidity too much Y per swap, could
not honour later withdrawals, and rejected small trades.
---
 programs/hmmcl-sandbox/src/cl_pool/cl_math.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs b/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
index bec76a2..82b6333 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
@@ -368,7 +368,7 @@ pub trait PoolMath {
             panic!("rp_new_from_l_dx : (dx*rp_old + l) should not be nil");
         }
 
-        let rez = numerator.div(denom);
+        let rez = numerator.div_up(denom);
         if rez.is_negative() {
             panic!("rp_new_from_l_dx : result rp should always be positive");
         }
-- 
2.43.0


From c48a84f90109db9758069f256b1687b78c327ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:23 +0000
Subject: [PATCH 06/44] fix: sign of the HMM output for X supplied with C = 1

dY = L * oracle * ln(new / old) is negative when the price goes down; the
inverted ratio made every such swap abort.
---
 programs/hmmcl-sandbox/src/cl_pool/cl_math.rs       | 4 ++--
 programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs | 2 +-
 programs/hmmcl-sandbox/src/cl_python/v3_pool.py     | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs b/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
index 82b6333..6db3895 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
@@ -332,10 +332,10 @@ pub trait PoolMath {
             panic!("root-prices should not be nil");
         }
         if c.to_compute_scale().eq(one).unwrap() {
-            // l * rp_oracle * (rp_old / rp_new).ln()
+            // l * rp_oracle * (rp_new / rp_old).ln()
             let ln_rp_old = rp_old.ln().unwrap();
             let ln_rp_new = rp_new.ln().unwrap();
-            let log_of_ratio = ln_rp_old.sub(ln_rp_new).unwrap();
+            let log_of_ratio = ln_rp_new.sub(ln_rp_old).unwrap();
 
             return l.mul(rp_oracle).mul(log_of_ratio);
         } else {
diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs b/programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs
index f7dc987..e21be1d 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs
@@ -152,7 +152,7 @@ pub trait PoolMath {
     fn dy_from_l_drp_hmm(l: f64, rp_old: f64, rp_new: f64, c: f64, rp_oracle: f64) -> f64 {
         // chg of reserve y based of chg of price with hmm adj
         if c == 1.0 {
-            l * rp_oracle * (rp_old / rp_new).ln()
+            l * rp_oracle * (rp_new / rp_old).ln()
         } else {
             let omc = 1.0 - c; // one minus c
             l * rp_oracle.powf(c) * (rp_new.powf(omc) - rp_old.powf(omc)) / omc
diff --git a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
index ebe0968..93b0f51 100644
--- a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
+++ b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
@@ -264,7 +264,7 @@ class Pool:
     def dY_from_L_drP_hmm(L, rP_old, rP_new, C, rP_oracle):
         """Chg of reserve Y based of chg of price with HMM adj"""
         if C == 1.0:
-            return L * rP_oracle * math.log(rP_old / rP_new)
+            return L * rP_oracle * math.log(rP_new / rP_old)
         else:
             omc = 1.0 - C  # one minus C
             return L * (rP_oracle ** C) * (rP_new ** omc - rP_old ** omc) / omc
-- 
2.43.0


From 197ea457476eff488d75ff831870bb31e5ec3d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:33 +0000
Subject: [PATCH 07/44] fix: negative zero compares as zero

---
 programs/hmmcl-sandbox/src/decimal.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/decimal.rs b/programs/hmmcl-sandbox/src/decimal.rs
index 8ee79bd..e3e2661 100644
--- a/programs/hmmcl-sandbox/src/decimal.rs
+++ b/programs/hmmcl-sandbox/src/decimal.rs
@@ -567,7 +567,7 @@ impl Compare<Decimal> for Decimal {
         if !(self.scale == other.scale) {
             return Err(ErrorCode::DifferentScale.into());
         } else {
-            Ok(self.value == other.value && self.negative == other.negative)
+            Ok(self.value == other.value && self.is_negative() == other.is_negative())
         }
     }
 
@@ -576,11 +576,11 @@ impl Compare<Decimal> for Decimal {
         if !(self.scale == other.scale) {
             return Err(ErrorCode::DifferentScale.into());
         } else {
-            if self.negative && other.negative {
+            if self.is_negative() && other.is_negative() {
                 Ok(self.value > other.value)
-            } else if self.negative && !other.negative {
+            } else if self.is_negative() && !other.is_negative() {
                 Ok(true)
-            } else if !self.negative && other.negative {
+            } else if !self.is_negative() && other.is_negative() {
                 Ok(false)
             } else {
                 Ok(self.value < other.value)
@@ -593,11 +593,11 @@ impl Compare<Decimal> for Decimal {
         if !(self.scale == other.scale) {
             return Err(ErrorCode::DifferentScale.into());
         } else {
-            if self.negative && other.negative {
+            if self.is_negative() && other.is_negative() {
                 Ok(self.value < other.value)
-            } else if self.negative && !other.negative {
+            } else if self.is_negative() && !other.is_negative() {
                 Ok(false)
-            } else if !self.negative && other.negative {
+            } else if !self.is_negative() && other.is_negative() {
                 Ok(true)
             } else {
                 Ok(self.value > other.value)
@@ -610,11 +610,11 @@ impl Compare<Decimal> for Decimal {
         if !(self.scale == other.scale) {
             return Err(ErrorCode::DifferentScale.into());
         } else {
-            if self.negative && other.negative {
+            if self.is_negative() && other.is_negative() {
                 Ok(self.value <= other.value)
-            } else if self.negative && !other.negative {
+            } else if self.is_negative() && !other.is_negative() {
                 Ok(false)
-            } else if !self.negative && other.negative {
+            } else if !self.is_negative() && other.is_negative() {
                 Ok(true)
             } else {
                 Ok(self.value >= other.value)
@@ -627,11 +627,11 @@ impl Compare<Decimal> for Decimal {
         if !(self.scale == other.scale) {
             return Err(ErrorCode::DifferentScale.into());
         } else {
-            if self.negative && other.negative {
+            if self.is_negative() && other.is_negative() {
                 Ok(self.value >= other.value)
-            } else if self.negative && !other.negative {
+            } else if self.is_negative() && !other.is_negative() {
                 Ok(true)
-            } else if !self.negative && other.negative {
+            } else if !self.is_negative() && other.is_negative() {
                 Ok(false)
             } else {
                 Ok(self.value <= other.value)
-- 
2.43.0


From a30370bcc0035c9622514d267bde7ef5f6fbc5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:35 +0000
Subject: [PATCH 08/44] fix: keep the sign when changing scale with rounding up

---
 programs/hmmcl-sandbox/src/decimal.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/decimal.rs b/programs/hmmcl-sandbox/src/decimal.rs
index e3e2661..46bbe6b 100644
--- a/programs/hmmcl-sandbox/src/decimal.rs
+++ b/programs/hmmcl-sandbox/src/decimal.rs
@@ -145,13 +145,13 @@ impl Decimal {
             decimal.div_up(Self::new(
                 10u128.pow((self.scale.checked_sub(scale).unwrap()).try_into().unwrap()),
                 0,
-                self.negative,
+                false,
             ))
         } else {
             decimal.mul_up(Self::new(
                 10u128.pow((scale.checked_sub(self.scale).unwrap()).try_into().unwrap()),
                 0,
-                self.negative,
+                false,
             ))
         }
     }
-- 
2.43.0


From 78ab7bc54db66f5e14eb658192572cf104ef7024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:58 +0000
Subject: [PATCH 09/44] fix: sign of integer powers of a negative decimal

---
 programs/hmmcl-sandbox/src/decimal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/programs/hmmcl-sandbox/src/decimal.rs b/programs/hmmcl-sandbox/src/decimal.rs
index 46bbe6b..2219a2c 100644
--- a/programs/hmmcl-sandbox/src/decimal.rs
+++ b/programs/hmmcl-sandbox/src/decimal.rs
@@ -500,7 +500,7 @@ impl Pow<u128> for Decimal {
         let one = Decimal {
             value: self.denominator(),
             scale: self.scale,
-            negative: self.negative,
+            negative: false,
         };
 
         if exp == 0 {
-- 
2.43.0


From 2de338e3eb8012be54a3017a3e7c693023aa99bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:00 +0000
Subject: [PATCH 10/44] fix: do not square the base of an integer power beyond
 what is needed

---
 programs/hmmcl-sandbox/src/decimal.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/programs/hmmcl-sandbox/src/decimal.rs b/programs/hmmcl-sandbox/src/decimal.rs
index 2219a2c..0e04e86 100644
--- a/programs/hmmcl-sandbox/src/decimal.rs
+++ b/programs/hmmcl-sandbox/src/decimal.rs
@@ -516,7 +516,10 @@ impl Pow<u128> for Decimal {
                 result = result.mul(base);
             }
             current_exp /= 2;
-            base = base.mul(base);
+            if current_exp > 0 {
+                // squaring once more than needed could overflow
+                base = base.mul(base);
+            }
         }
         return result;
     }
-- 
2.43.0


From 9004c79dd635abbf0aa779f65bb989182ef75530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:23 +0000
Subject: [PATCH 11/44] fix: parse decimals with an exponent exactly, and
 malformed ones to an error

---
 programs/hmmcl-sandbox/src/decimal.rs | 37 ++++++++++++++-------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/decimal.rs b/programs/hmmcl-sandbox/src/decimal.rs
index 0e04e86..af9fed6 100644
--- a/programs/hmmcl-sandbox/src/decimal.rs
+++ b/programs/hmmcl-sandbox/src/decimal.rs
@@ -209,7 +209,7 @@ impl Decimal {
             Some(loc) => {
                 // slice up to `loc` and 1 after to skip the 'e' char
                 let (base, exp) = (&s[..loc], &s[loc + 1..]);
-                (base, i64::from_str(exp).unwrap())
+                (base, i64::from_str(exp).map_err(|_| ErrorCode::ParseError)?)
             }
         };
 
@@ -251,25 +251,26 @@ impl Decimal {
             }
         };
 
-        let scale = (decimal_offset - exp).abs() as u8;
+        // only digits are expected at this point: no second sign or decimal point
+        if !digits.chars().all(|c| c.is_ascii_digit()) {
+            return Err(ErrorCode::ParseError.into());
+        }
+        let value = u128::from_str_radix(&digits, radix).map_err(|_| ErrorCode::ParseError)?;
 
-        if exp.is_positive() {
-            Ok(Decimal::new(
-                Decimal::from_str(base.as_str())
-                    .expect("decimal of base")
-                    .to_scale(exp.abs() as u8)
-                    .value,
-                0,
-                negative,
-            )
-            .to_scale(exp.abs() as u8))
-        } else {
-            Ok(Decimal::new(
-                u128::from_str_radix(&digits, radix).unwrap(),
-                scale,
-                negative,
-            ))
+        if !(-38..=38).contains(&exp) || decimal_offset - exp > 38 {
+            // the denominator would not fit
+            return Err(ErrorCode::ExceedsPrecisionRange.into());
         }
+
+        // keep all the decimals left after applying the exponent
+        let scale = (decimal_offset - exp).max(exp);
+        let shift = scale + exp - decimal_offset;
+        let value = 10u128
+            .checked_pow(shift as u32)
+            .and_then(|x| value.checked_mul(x))
+            .ok_or(ErrorCode::ExceedsRange)?;
+
+        Ok(Decimal::new(value, scale as u8, negative))
     }
 }
 
-- 
2.43.0


From 881d341f337be3a9158b792a7f3f6ea57cbe8392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:24 +0000
Subject: [PATCH 12/44] fix: logarithm of values just below a power of two

---
 programs/hmmcl-sandbox/src/decimal.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/decimal.rs b/programs/hmmcl-sandbox/src/decimal.rs
index af9fed6..2ccd763 100644
--- a/programs/hmmcl-sandbox/src/decimal.rs
+++ b/programs/hmmcl-sandbox/src/decimal.rs
@@ -945,13 +945,21 @@ impl Ln<Decimal> for Decimal {
 
         let ln_2_decimal = Decimal::new(693_147_180_559u128, 12, false);
 
-        let bit_length_decimal = self.bit_length().expect("bit_length");
+        let mut bit_length_decimal = self.bit_length().expect("bit_length");
 
         // TODO: calculate with higher compute scale when big_mul is implemented otherwise overflow
-        let max = Decimal::from_u64(2)
+        let mut max = Decimal::from_u64(2)
             .to_scale(6)
             .pow(bit_length_decimal.to_scale(6))
             .to_compute_scale();
+        if max.gt(scaled_out)? {
+            // just below a power of two, the float logarithm rounds up to the next bit length
+            bit_length_decimal = bit_length_decimal.sub(Decimal::from_u64(1))?;
+            max = Decimal::from_u64(2)
+                .to_scale(6)
+                .pow(bit_length_decimal.to_scale(6))
+                .to_compute_scale();
+        }
 
         let (s_0, t_0, lx_0) = log_table_value(scaled_out, max, 0);
         let (s_1, t_1, lx_1) = log_table_value(s_0, t_0, 1);
-- 
2.43.0


From 9a88f2ec727fe7c4103ce289bd8e5294028c1030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:26 +0000
Subject: [PATCH 13/44] fix: no square root of a negative decimal, no logarithm
 of zero

---
 programs/hmmcl-sandbox/src/decimal.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/programs/hmmcl-sandbox/src/decimal.rs b/programs/hmmcl-sandbox/src/decimal.rs
index 2ccd763..b091fb6 100644
--- a/programs/hmmcl-sandbox/src/decimal.rs
+++ b/programs/hmmcl-sandbox/src/decimal.rs
@@ -941,6 +941,10 @@ impl Ln<Decimal> for Decimal {
             return Err(ErrorCode::SignedDecimalsNotSupported.into());
         }
 
+        if self.is_zero() {
+            return Err(ErrorCode::ExceedsRange.into());
+        }
+
         let scaled_out = self.to_compute_scale();
 
         let ln_2_decimal = Decimal::new(693_147_180_559u128, 12, false);
@@ -1009,6 +1013,10 @@ impl Sqrt<Decimal> for Decimal {
         let zero = Decimal::new(0, self.scale, false);
         let one = Decimal::from_u128(1).to_scale(self.scale);
 
+        if self.is_negative() {
+            return Err(ErrorCode::SignedDecimalsNotSupported.into());
+        }
+
         if self.value.lt(&0u128) || self.value.gt(&u128::MAX) {
             return Err(ErrorCode::ExceedsRange.into());
         }
-- 
2.43.0


From c52f248e9895a2f4bc379c25dc92e61d3193a410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:38 +0000
Subject: [PATCH 14/44] fix: the price of a tick converts back to that tick

---
 programs/hmmcl-sandbox/src/cl_pool/cl_math.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs b/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
index 6db3895..feffb97 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
@@ -60,6 +60,17 @@ pub trait PoolMath {
             }
             x = x.checked_add(1).unwrap();
         };
+        // the products above drift from the tick prices: settle on the neighbour that agrees
+        // with them, so that the price of a tick converts back to that tick
+        if left_to_right {
+            if result > start && Self::tick_to_rp(result - 1).gte(rp).unwrap() {
+                return result - 1;
+            }
+        } else if Self::tick_to_rp(result + 1).lte(rp).unwrap() {
+            return result + 1;
+        } else if result > start && Self::tick_to_rp(result).gt(rp).unwrap() {
+            return result - 1;
+        }
         result
     }
 
-- 
2.43.0


From 0930ecf5c6a3d718696568b84fd690c6528b3144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:52 +0000
Subject: [PATCH 15/44] fix: pay out what is left when a reserve is short of
 rounding dust

---
 programs/hmmcl-sandbox/src/cl_pool/mod.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/mod.rs b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
index 6f620a3..4ccd2a4 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
@@ -7,7 +7,7 @@ pub use cl_components::{
     TickState,
 };
 
-use crate::decimal::{Add, Compare, Decimal, Div, Mul, Pow, Sub};
+use crate::decimal::{Add, Compare, Decimal, Div, Mul, Pow, Sub, COMPUTE_SCALE};
 pub use cl_math::PoolMath;
 use std::{
     collections::{BTreeMap, HashMap},
@@ -616,6 +616,9 @@ impl<'a> Pool<'a> {
         x_out = x_out.mul(adj_factor);
         y_out = y_out.mul(adj_factor);
 
+        x_out = Self::cap_at_reserve(x_out, self.x, liq);
+        y_out = Self::cap_at_reserve(y_out, self.y, liq);
+
         // add fees on top of what user will receive
         let x_sent = x_out.add(fees_x).unwrap().add(adj_x).unwrap();
         let y_sent = y_out.add(fees_y).unwrap().add(adj_y).unwrap();
@@ -646,6 +649,21 @@ impl<'a> Pool<'a> {
         );
     }
 
+    fn cap_at_reserve(due: Decimal, reserve: Decimal, liq: Decimal) -> Decimal {
+        // the last swap or withdrawal out of a reserve can be due more than what is left by the
+        // rounding dust of the operations before it: in that case pay what is there. Larger
+        // shortages are left to the caller to refuse
+        let dust = liq
+            .mul(Decimal::new(16, COMPUTE_SCALE, false))
+            .add(Decimal::new(1_000_000, COMPUTE_SCALE, false))
+            .unwrap();
+        let shortage = due.sub(reserve).unwrap();
+        if shortage.is_positive() && shortage.lte(dust).unwrap() {
+            return reserve;
+        }
+        due
+    }
+
     //+ SWAPPING
     fn swap_within_tick_from_x(
         &mut self,
@@ -711,6 +729,7 @@ impl<'a> Pool<'a> {
         }
         // now figure out how much done_dY ( done Y quantity) and hmm_adj_Y (hmm related fee)
         let done_dy_cpmm = Pool::dy_from_l_drp(liq, start_rp, end_rp);
+        let done_dy_cpmm = Self::cap_at_reserve(done_dy_cpmm.neg(), self.y, liq).neg();
         if self.c.is_zero() || rp_oracle.is_zero() || rp_oracle.gte(start_rp).unwrap() {
             // also when rP_oracle is None (zero)
             // in cases where no oracle or no hmm c=0, we cannot adjust so we fall back to amm
@@ -974,6 +993,7 @@ impl<'a> Pool<'a> {
         }
         // now figure out how much done_dX and hmm_adj_X
         let done_dx_cpmm = Pool::dx_from_l_drp(liq, start_rp, end_rp);
+        let done_dx_cpmm = Self::cap_at_reserve(done_dx_cpmm.neg(), self.x, liq).neg();
 
         if self.c.is_zero() || rp_oracle.is_zero() || rp_oracle.lte(start_rp).unwrap() {
             // also also rP_oracle is None (zero)
-- 
2.43.0


From 897d330a95f6dc4d35f77371530f9de950769a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:16 +0000
Subject: [PATCH 16/44] fix: end a swap at tick 0 instead of crossing below it

---
 programs/hmmcl-sandbox/src/cl_pool/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/mod.rs b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
index 4ccd2a4..b38531d 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
@@ -905,6 +905,10 @@ impl<'a> Pool<'a> {
                     // perform crossing of tick, if necessary
                     if cross == true {
                         assert!(end_t == gtk);
+                        if gtk == 0 {
+                            // there are no ticks below, terminate swap
+                            break;
+                        }
                         if self.active_ticks.contains_key(&gtk) {
                             self.cross_tick(gtk, left_to_right);
                         }
-- 
2.43.0


From 7535c365b4e0fd35687754124d3690ff850f015d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:48 +0000
Subject: [PATCH 17/44] fix: numerical noise of the HMM amounts must not refuse
 a swap

---
 programs/hmmcl-sandbox/src/cl_pool/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/mod.rs b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
index b38531d..e3733bd 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
@@ -676,7 +676,7 @@ impl<'a> Pool<'a> {
         // portion of swap execution occurring within 2 consecutive active ticks
         // + no writing to state to occurs here, just compute and return to caller
         let (done_dx, end_t, end_rp, cross, hmm_adj_y, fee_x);
-        let done_dy;
+        let mut done_dy;
 
         if dx.is_negative() {
             panic!("can only handle X being supplied to pool, dX>0");
@@ -757,6 +757,8 @@ impl<'a> Pool<'a> {
             panic!("HMM adjstment: possibilities should have been exhausted by now");
         }
 
+        // logs and roots are approximate: never give out more than the unadjusted amount
+        done_dy = done_dy.max(done_dy_cpmm);
         hmm_adj_y = done_dy.sub(done_dy_cpmm).unwrap();
 
         if done_dy_cpmm.is_positive() {
@@ -944,7 +946,7 @@ impl<'a> Pool<'a> {
         // portion of swap execution occurring within 2 consecutive active ticks
         // + no writing to state to occurs here, just calc and return to caller
         let (done_dy, end_t, end_rp, cross, hmm_adj_x, fee_y);
-        let done_dx;
+        let mut done_dx;
 
         if dy.is_negative() {
             panic!("can only handle Y being supplied to pool, dY>0");
@@ -1025,6 +1027,8 @@ impl<'a> Pool<'a> {
             panic!("HMM adjstment: possibilities should have been exhausted by now");
         }
 
+        // logs and roots are approximate: never give out more than the unadjusted amount
+        done_dx = done_dx.max(done_dx_cpmm);
         hmm_adj_x = done_dx.sub(done_dx_cpmm).unwrap();
 
         if done_dx_cpmm.is_positive() {
-- 
2.43.0


From 73291a85daf1efd5268a1ac4bd7aa9fac0507b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:08 +0000
Subject: [PATCH 18/44] fix: rounding noise of a small part of a swap must not
 refuse the swap

---
 programs/hmmcl-sandbox/src/cl_pool/mod.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/mod.rs b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
index e3733bd..d245abe 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
@@ -649,16 +649,19 @@ impl<'a> Pool<'a> {
         );
     }
 
+    fn rounding_dust(liq: Decimal) -> Decimal {
+        // bound of the amounts that rounding can add to or remove from an operation
+        liq.mul(Decimal::new(16, COMPUTE_SCALE, false))
+            .add(Decimal::new(1_000_000, COMPUTE_SCALE, false))
+            .unwrap()
+    }
+
     fn cap_at_reserve(due: Decimal, reserve: Decimal, liq: Decimal) -> Decimal {
         // the last swap or withdrawal out of a reserve can be due more than what is left by the
         // rounding dust of the operations before it: in that case pay what is there. Larger
         // shortages are left to the caller to refuse
-        let dust = liq
-            .mul(Decimal::new(16, COMPUTE_SCALE, false))
-            .add(Decimal::new(1_000_000, COMPUTE_SCALE, false))
-            .unwrap();
         let shortage = due.sub(reserve).unwrap();
-        if shortage.is_positive() && shortage.lte(dust).unwrap() {
+        if shortage.is_positive() && shortage.lte(Self::rounding_dust(liq)).unwrap() {
             return reserve;
         }
         due
@@ -773,8 +776,9 @@ impl<'a> Pool<'a> {
             panic!("cannot swap out more Y than present in pool");
         }
         // avoid numerical noise for very small trades relative to liquidity
-        if !done_dx.is_zero() && !done_dy.is_zero() {
-            let avg_price = done_dy.neg().div(done_dx.add(fee_x).unwrap());
+        let done_dy_less_noise = done_dy.neg().sub(Self::rounding_dust(liq)).unwrap();
+        if !done_dx.is_zero() && done_dy_less_noise.is_positive() {
+            let avg_price = done_dy_less_noise.div(done_dx.add(fee_x).unwrap());
             if avg_price.gt(start_rp.pow(2)).unwrap() {
                 panic!("pool cannot buy X at a greater avg price than starting price");
             }
-- 
2.43.0


From bdebcb8dcd00743950e014eb349fb7c6b277d176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:10 +0000
Subject: [PATCH 19/44] fix: do not record a position without liquidity

---
 programs/hmmcl-sandbox/src/cl_pool/mod.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/mod.rs b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
index d245abe..e048b41 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
@@ -424,11 +424,14 @@ impl<'a> Pool<'a> {
                     // abort if withdrawal liq exceeds position liquidity
                     panic!("cannot newly provide negative liquidity");
                 }
-                self.positions.insert(
-                    key,
-                    // fee growth prior to this deposit is not owed to the new position
-                    PositionState::new(liq_delta, new_fr_x, new_fr_y, new_hr_x, new_hr_y),
-                );
+                if liq_delta.is_positive() {
+                    // an empty position is not recorded
+                    self.positions.insert(
+                        key,
+                        // fee growth prior to this deposit is not owed to the new position
+                        PositionState::new(liq_delta, new_fr_x, new_fr_y, new_hr_x, new_hr_y),
+                    );
+                }
                 old_fr_x = new_fr_x;
                 old_fr_y = new_fr_y;
                 old_hr_x = new_hr_x;
-- 
2.43.0


From 77325d19ee3bdd5874029c93dec95ed2664078cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:06 +0000
Subject: [PATCH 20/44] fix: float pool: start a new position's fee checkpoint
 at the current growth inside its range

---
 programs/hmmcl-sandbox/src/cl_pool_float/mod.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
index 4b13b2c..c1646d6 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
@@ -373,8 +373,18 @@ impl<'a> Pool<'a> {
                     // abort if withdrawal liq exceeds position liquidity
                     panic!("cannot newly provide negative liquidity");
                 }
-                self.positions
-                    .insert(key, PositionState::new(liq_delta, 0.0, 0.0, 0.0, 0.0));
+                if liq_delta > 0.0 {
+                    // an empty position is not recorded
+                    self.positions.insert(
+                        key,
+                        // fee growth prior to this deposit is not owed to the new position
+                        PositionState::new(liq_delta, new_fr_x, new_fr_y, new_hr_x, new_hr_y),
+                    );
+                }
+                old_fr_x = new_fr_x;
+                old_fr_y = new_fr_y;
+                old_hr_x = new_hr_x;
+                old_hr_y = new_hr_y;
             }
             Some(poz) => {
                 // get old value for feed from when position was last touched
-- 
2.43.0


From de8de3f2e244cecebb6dc4700483fb41f1ae9092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:08 +0000
Subject: [PATCH 21/44] fix: float pool: float rounding of fee growth must not
 refuse an operation

---
 .../hmmcl-sandbox/src/cl_pool_float/mod.rs    | 24 +++++++++++++++----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
index c1646d6..edeb735 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
@@ -334,9 +334,11 @@ impl<'a> Pool<'a> {
         let (f_blw_lwr, f_abv_lwr) = self.fee_below_above(lower_tick, token, f_or_h);
         let (f_blw_upr, f_abv_upr) = self.fee_below_above(upper_tick, token, f_or_h);
 
-        // retrieve fg by summing up either tuple, they should match
-        assert_eq!(f_blw_lwr + f_abv_lwr, f_blw_upr + f_abv_upr);
-        let fg = f_blw_lwr + f_abv_lwr;
+        // either tuple sums up to fg, up to float rounding
+        let fg = self.glbl_fee(token, f_or_h);
+        let noise = 1e-9 * (1.0 + fg);
+        assert!((f_blw_lwr + f_abv_lwr - fg).abs() <= noise);
+        assert!((f_blw_upr + f_abv_upr - fg).abs() <= noise);
 
         fg - f_blw_lwr - f_abv_upr
     }
@@ -413,8 +415,20 @@ impl<'a> Pool<'a> {
             }
         }
         // now calulate uncollected fees to be applied
-        let (f_u_x, f_u_y) = (new_fr_x - old_fr_x, new_fr_y - old_fr_y);
-        let (h_u_x, h_u_y) = (new_hr_x - old_hr_x, new_hr_y - old_hr_y);
+        // (not below zero, by float rounding)
+        let not_noise = |fee: f64, growth: f64| match fee < 0.0 && fee > -1e-9 * (1.0 + growth) {
+            true => 0.0,
+            false => fee,
+        };
+        let (fg_x, fg_y, hg_x, hg_y) = self.glbl_fees();
+        let (f_u_x, f_u_y) = (
+            not_noise(new_fr_x - old_fr_x, fg_x),
+            not_noise(new_fr_y - old_fr_y, fg_y),
+        );
+        let (h_u_x, h_u_y) = (
+            not_noise(new_hr_x - old_hr_x, hg_x),
+            not_noise(new_hr_y - old_hr_y, hg_y),
+        );
         assert!(f_u_x >= 0.0 && f_u_y >= 0.0 && h_u_x >= 0.0 && h_u_y >= 0.0);
 
         // update tick states for lower and upper
-- 
2.43.0


From 6f496e9ae25cd071c6a9be61fb5adce881e9223a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:10 +0000
Subject: [PATCH 22/44] fix: float pool: find the right limit of a swap when
 the current tick is not a multiple of the spacing

---
 programs/hmmcl-sandbox/src/cl_pool_float/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
index edeb735..bc7f7a8 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
@@ -209,6 +209,8 @@ impl<'a> Pool<'a> {
 
         // get to initializable tick. we use False here to round down
         let start_tick = self.tick_to_possible_tick(start_t, false);
+        // same for the current tick, which is not always a multiple of tick spacing
+        let glbl_tick = self.tick_to_possible_tick(glbl_tick, false);
 
         if start_tick == glbl_tick {
             // we've already technically crossed this tick (left-to-right) i.e.
-- 
2.43.0


From 52d5ff6dc1d141750768faa617ed1dd3b1bfa828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:12 +0000
Subject: [PATCH 23/44] fix: float pool: keep the end of a non-crossing swap
 between the current tick and the goal

---
 .../hmmcl-sandbox/src/cl_pool_float/mod.rs    | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
index bc7f7a8..b5d726f 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
@@ -589,8 +589,14 @@ impl<'a> Pool<'a> {
             done_dx = dx_max;
             fee_x = dx - dx_max; // fee as expected
             cross = false;
-            end_rp = Pool::rp_new_from_l_dx(liq, start_rp, done_dx);
-            end_t = Pool::rp_to_tick(end_rp, false);
+            // stay between the current price and the goal, up to float rounding
+            end_rp = Pool::rp_new_from_l_dx(liq, start_rp, done_dx)
+                .min(start_rp)
+                .max(rp_goal);
+            // no tick is crossed here: stay between the goal and the current tick
+            end_t = Pool::rp_to_tick(end_rp, false)
+                .max(goal_tick)
+                .min(self.glbl_tick());
             // * this log is take only once per trade if end between ticks
             // * tick is always on the left (round down after log)
 
@@ -828,8 +834,14 @@ impl<'a> Pool<'a> {
             done_dy = dy_max;
             fee_y = dy - dy_max; // fee as expected
             cross = false;
-            end_rp = Pool::rp_new_from_l_dy(liq, start_rp, done_dy);
-            end_t = Pool::rp_to_tick(end_rp, false);
+            // stay between the current price and the goal, up to float rounding
+            end_rp = Pool::rp_new_from_l_dy(liq, start_rp, done_dy)
+                .max(start_rp)
+                .min(rp_goal);
+            // no tick is crossed here: stay between the current tick and the goal
+            end_t = Pool::rp_to_tick(end_rp, false)
+                .max(self.glbl_tick())
+                .min(goal_tick - 1);
             // * this log is take only once per trade if end between ticks
             // * tick is always on the left (round down after log)
 
-- 
2.43.0


From f944547ac4981e58464be4e8e0513c9cf8a22b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:14 +0000
Subject: [PATCH 24/44] fix: float pool: end a swap at tick 0 instead of
 crossing below it

---
 programs/hmmcl-sandbox/src/cl_pool_float/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
index b5d726f..328ffe9 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
@@ -762,6 +762,10 @@ impl<'a> Pool<'a> {
                     // perform crossing of tick, if necessary
                     if cross == true {
                         assert!(end_t == gtk);
+                        if gtk == 0 && !left_to_right {
+                            // there are no ticks below, terminate swap
+                            break;
+                        }
                         if self.active_ticks.contains_key(&gtk) {
                             self.cross_tick(gtk, left_to_right);
                         }
-- 
2.43.0


From b4be4f71f961f4b5e7a77aee28a90d6e83a587a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:10 +0000
Subject: [PATCH 25/44] fix: float pool: numerical noise of the HMM amounts
 must not refuse a swap

---
 programs/hmmcl-sandbox/src/cl_pool_float/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
index 328ffe9..242d57e 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
@@ -636,6 +636,8 @@ impl<'a> Pool<'a> {
         done_dy *= 1.0 - Pool::ADJ_WHOLE_FILL;
         done_dy_cpmm *= 1.0 - Pool::ADJ_WHOLE_FILL;
 
+        // logs and powers are approximate: never give out more than the unadjusted amount
+        done_dy = done_dy.max(done_dy_cpmm);
         hmm_adj_y = done_dy - done_dy_cpmm;
 
         if done_dy_cpmm > 0.0 {
@@ -885,6 +887,8 @@ impl<'a> Pool<'a> {
         done_dx_cpmm *= 1.0 - Pool::ADJ_WHOLE_FILL;
         done_dx *= 1.0 - Pool::ADJ_WHOLE_FILL;
 
+        // logs and powers are approximate: never give out more than the unadjusted amount
+        done_dx = done_dx.max(done_dx_cpmm);
         hmm_adj_x = done_dx - done_dx_cpmm;
 
         if done_dx_cpmm > 0.0 {
-- 
2.43.0


From eba2dc7cae866907f7b6b106be3fa3b2af52f98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:12 +0000
Subject: [PATCH 26/44] fix: float pool: no HMM adjustment without an oracle
 price

---
 programs/hmmcl-sandbox/src/cl_pool_float/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
index 242d57e..b81b671 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
@@ -609,7 +609,7 @@ impl<'a> Pool<'a> {
         }
         // now figure out how much done_dY and hmm_adj_Y
         let mut done_dy_cpmm = Pool::dy_from_l_drp(liq, start_rp, end_rp);
-        if self.c == 0.0 || rp_oracle >= start_rp {
+        if self.c == 0.0 || rp_oracle == 0.0 || rp_oracle >= start_rp {
             // also when rP_oracle is None
             // in cases where no oracle or no hmm c=0, we cannot adjust so we fall back to amm
             // * when trade will make pool price diverge more from oracle,
-- 
2.43.0


From 4a6c28d160975d964db8ae5acbc1f9844b1176c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:14 +0000
Subject: [PATCH 27/44] fix: float pool: pay out what is left when a reserve is
 short of rounding dust

---
 programs/hmmcl-sandbox/src/cl_pool_float/mod.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
index b81b671..467c01a 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
@@ -524,6 +524,8 @@ impl<'a> Pool<'a> {
         // round down amount withdrawn if necessary, as precation
         x_out *= 1.0 - Pool::ADJ_WITHDRAWAL;
         y_out *= 1.0 - Pool::ADJ_WITHDRAWAL;
+        x_out = Self::cap_at_reserve(x_out, self.x, liq);
+        y_out = Self::cap_at_reserve(y_out, self.y, liq);
 
         // add fees on to what user will receive
         let x_sent = x_out + fees_x + adj_x;
@@ -541,6 +543,17 @@ impl<'a> Pool<'a> {
         println!("including {} & {}", fees_x + adj_x, fees_y + adj_y);
     }
 
+    fn cap_at_reserve(due: f64, reserve: f64, liq: f64) -> f64 {
+        // the last swap or withdrawal out of a reserve can be due more than what is left by the
+        // rounding dust of the operations before it: in that case pay what is there. Larger
+        // shortages are left to the caller to refuse
+        let dust = liq * 16e-12 + 1e-6;
+        if due > reserve && due - reserve <= dust {
+            return reserve;
+        }
+        due
+    }
+
     //+ SWAPPING
     fn swap_within_tick_from_x(
         &mut self,
@@ -609,6 +622,7 @@ impl<'a> Pool<'a> {
         }
         // now figure out how much done_dY and hmm_adj_Y
         let mut done_dy_cpmm = Pool::dy_from_l_drp(liq, start_rp, end_rp);
+        done_dy_cpmm = -Self::cap_at_reserve(-done_dy_cpmm, self.y, liq);
         if self.c == 0.0 || rp_oracle == 0.0 || rp_oracle >= start_rp {
             // also when rP_oracle is None
             // in cases where no oracle or no hmm c=0, we cannot adjust so we fall back to amm
@@ -860,6 +874,7 @@ impl<'a> Pool<'a> {
         }
         // now figure out how much done_dX and hmm_adj_X
         let mut done_dx_cpmm = Pool::dx_from_l_drp(liq, start_rp, end_rp);
+        done_dx_cpmm = -Self::cap_at_reserve(-done_dx_cpmm, self.x, liq);
 
         if self.c == 0.0 || rp_oracle <= start_rp {
             // also also rP_oracle is None
-- 
2.43.0


From f3dadef8e2037ea3cc6a85de30f13540e46678ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:29 +0000
Subject: [PATCH 28/44] fix: float pool: refuse a deposit without a range

---
 programs/hmmcl-sandbox/src/cl_pool_float/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
index 467c01a..1d1415f 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
@@ -454,6 +454,10 @@ impl<'a> Pool<'a> {
         // calculate ticks that will be used to track position
         let lower_tick = self.rp_to_possible_tick(rpa, false);
         let upper_tick = self.rp_to_possible_tick(rpb, false);
+        assert!(
+            upper_tick > lower_tick,
+            "upper bound needs to be above lower bound"
+        );
         let rpa_used = Pool::tick_to_rp(lower_tick);
         let rpb_used = Pool::tick_to_rp(upper_tick);
         let rp_used = self.glbl_rp();
-- 
2.43.0


From 5a7284446cd86fe8b39f0e26690d18e384ff9493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:22 +0000
Subject: [PATCH 29/44] fix: round deposited token amounts up

---
 programs/hmmcl-sandbox/src/instructions/deposit.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/instructions/deposit.rs b/programs/hmmcl-sandbox/src/instructions/deposit.rs
index 3c6dbcc..970987e 100644
--- a/programs/hmmcl-sandbox/src/instructions/deposit.rs
+++ b/programs/hmmcl-sandbox/src/instructions/deposit.rs
@@ -302,21 +302,21 @@ pub fn handle(
         liquidity_delta.abs(),
     )?;
 
-    // transfer to vault
+    // transfer to vault, rounded up: the vault needs to hold at least what the position is worth
     token::transfer(
         ctx.accounts.transfer_user_token_x_to_vault(),
-        x_debited.abs(),
+        x_debited.abs_up(),
     )?;
 
     // transfer to vault
     token::transfer(
         ctx.accounts.transfer_user_token_y_to_vault(),
-        y_debited.abs(),
+        y_debited.abs_up(),
     )?;
 
     emit!(LiquidityAdded {
-        tokens_x_transferred: x_debited.abs(),
-        tokens_y_transferred: y_debited.abs(),
+        tokens_x_transferred: x_debited.abs_up(),
+        tokens_y_transferred: y_debited.abs_up(),
         lp_tokens_minted: liquidity_delta.abs(),
     });
 
-- 
2.43.0


From f51bcc77c85bea14b941d2fbc2457a4157bf8c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:32 +0000
Subject: [PATCH 30/44] fix: do not overwrite a position's tick with the
 current tick's stale account

---
 programs/hmmcl-sandbox/src/instructions/deposit.rs  | 2 +-
 programs/hmmcl-sandbox/src/instructions/withdraw.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/instructions/deposit.rs b/programs/hmmcl-sandbox/src/instructions/deposit.rs
index 970987e..eb8a12f 100644
--- a/programs/hmmcl-sandbox/src/instructions/deposit.rs
+++ b/programs/hmmcl-sandbox/src/instructions/deposit.rs
@@ -65,8 +65,8 @@ pub struct Deposit<'info> {
     )]
     pub upper_tick_state: Box<Account<'info, TickState>>,
 
+    // read only: it may be the lower or upper tick's account, whose update must not be overwritten
     #[account(
-        mut,
         seeds = [b"tick", pool_state.key().as_ref(), current_tick.to_le_bytes().as_ref()],
         bump = current_tick_state.bump,
         constraint = current_tick_state.tick == current_tick,
diff --git a/programs/hmmcl-sandbox/src/instructions/withdraw.rs b/programs/hmmcl-sandbox/src/instructions/withdraw.rs
index 4af12c6..1ed6a72 100644
--- a/programs/hmmcl-sandbox/src/instructions/withdraw.rs
+++ b/programs/hmmcl-sandbox/src/instructions/withdraw.rs
@@ -67,8 +67,8 @@ pub struct Withdraw<'info> {
     )]
     pub upper_tick_state: Box<Account<'info, TickState>>,
 
+    // read only: it may be the lower or upper tick's account, whose update must not be overwritten
     #[account(
-        mut,
         seeds = [b"tick", pool_state.key().as_ref(), current_tick.to_le_bytes().as_ref()],
         bump = current_tick_state.bump,
         constraint = current_tick_state.tick == current_tick,
-- 
2.43.0


From e4ca5de5b0f80c528283b8f74d07d74ddf30a090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:14 +0000
Subject: [PATCH 31/44] fix: refuse to convert a decimal to an i32 that cannot
 hold it

---
 programs/hmmcl-sandbox/src/decimal.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/programs/hmmcl-sandbox/src/decimal.rs b/programs/hmmcl-sandbox/src/decimal.rs
index b091fb6..d839db1 100644
--- a/programs/hmmcl-sandbox/src/decimal.rs
+++ b/programs/hmmcl-sandbox/src/decimal.rs
@@ -558,7 +558,8 @@ impl Into<f64> for Decimal {
 impl Into<i32> for Decimal {
     fn into(self) -> i32 {
         let sign = if self.negative { -1i32 } else { 1i32 };
-        (self.value as i32)
+        TryInto::<i32>::try_into(self.value)
+            .expect("signed integer")
             .checked_mul(sign)
             .expect("signed integer")
     }
-- 
2.43.0


From 521aec47474fcbc7a3d4c01dd63a799bf2b7e46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:00 +0000
Subject: [PATCH 32/44] fix: decimal pool: a price just above a tick converts
 to the next tick when rounding up

---
 programs/hmmcl-sandbox/src/cl_pool/cl_math.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs b/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
index feffb97..14e26ce 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
@@ -65,6 +65,8 @@ pub trait PoolMath {
         if left_to_right {
             if result > start && Self::tick_to_rp(result - 1).gte(rp).unwrap() {
                 return result - 1;
+            } else if Self::tick_to_rp(result).lt(rp).unwrap() {
+                return result + 1;
             }
         } else if Self::tick_to_rp(result + 1).lte(rp).unwrap() {
             return result + 1;
-- 
2.43.0


From bd0bf6033e2a91429ce60f551dc53f6d86c48873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:01 +0000
Subject: [PATCH 33/44] fix: decimal pool: converting a price to a tick rounds
 up when asked to

---
 programs/hmmcl-sandbox/src/cl_pool/cl_math.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs b/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
index 14e26ce..ff0449d 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
@@ -39,11 +39,11 @@ pub trait PoolMath {
 
     fn rp_to_tick(rp: Decimal, left_to_right: bool) -> u128 {
         let base = Self::tick_base_root();
-        let tick_decimal = match left_to_right {
-            true => rp.ln().unwrap().div_up(base.ln().unwrap()),
-            false => rp.ln().unwrap().div(base.ln().unwrap()),
-        };
-        tick_decimal.to_scale(0).value as u128
+        let tick_decimal = rp.ln().unwrap().div(base.ln().unwrap());
+        match left_to_right {
+            true => tick_decimal.to_scale_up(0).value as u128,
+            false => tick_decimal.to_scale(0).value as u128,
+        }
     }
 
     fn rp_to_tick_loop(rp: Decimal, left_to_right: bool, start: u128) -> u128 {
-- 
2.43.0


From 3bfbb03696004509dfbd96ea39008df76781cbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:14 +0000
Subject: [PATCH 34/44] fix: float pool: refuse an invalid configuration and
 negative range prices, as the decimal pool does

---
 programs/hmmcl-sandbox/src/cl_pool_float/mod.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
index 1d1415f..35c2de2 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
@@ -43,6 +43,16 @@ impl<'a> Pool<'a> {
         hmm_c: f64,
         fee_rate: f64,
     ) -> Pool<'a> {
+        if bootstrap_rp < 0.0 {
+            panic!("cannot bootstrap with negative root-price");
+        }
+        if !(0.0..=2.0).contains(&hmm_c) {
+            panic!("hmm_c needs to be between 0 and 2");
+        }
+        if fee_rate < 0.0 {
+            panic!("fee_rate cannot be with negative");
+        }
+
         let tk = Self::rp_to_possible_tk(bootstrap_rp, tick_spacing, false);
         let rp = Self::tick_to_rp(tk);
 
@@ -450,6 +460,8 @@ impl<'a> Pool<'a> {
         if x < 0.0 || y < 0.0 {
             panic!("can only deposit positive amounts");
         }
+        assert!(rpa >= 0.0, "root-price cannot be negative");
+        assert!(rpb >= 0.0, "root-price cannot be negative");
 
         // calculate ticks that will be used to track position
         let lower_tick = self.rp_to_possible_tick(rpa, false);
-- 
2.43.0


From f90926681536d1e7556843152e3b7bbfc0e856de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:14 +0000
Subject: [PATCH 35/44] fix: python prototype: refuse an invalid configuration

---
 programs/hmmcl-sandbox/src/cl_python/v3_pool.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
index 93b0f51..ff860b5 100644
--- a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
+++ b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
@@ -80,6 +80,13 @@ class Pool:
         hmm_C: float = 0.0,
         fee_rate: float = 0.0,
     ):
+        if bootstrap_rP <= 0.0:
+            raise Exception("cannot bootstrap without positive root-price")
+        if not 0.0 <= hmm_C <= 2.0:
+            raise Exception("hmm_C needs to be between 0 and 2")
+        if fee_rate < 0.0:
+            raise Exception("fee_rate cannot be negative")
+
         self.token_x = Token(x_name, x_decimals)
         self.token_y = Token(y_name, y_decimals)
         # only tick multiple of spacing are allowed
-- 
2.43.0


From a4bd50aeab98bb2ad2d7a69c987f52a569a3dd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:14 +0000
Subject: [PATCH 36/44] fix: python prototype: an inverted or empty range is
 refused

---
 programs/hmmcl-sandbox/src/cl_python/v3_pool.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
index ff860b5..3463ed9 100644
--- a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
+++ b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
@@ -612,6 +612,9 @@ class Pool:
         lower_tick = self.rP_to_possible_tick(rPa, left_to_right=False)
         upper_tick = self.rP_to_possible_tick(rPb, left_to_right=False)
 
+        if upper_tick <= lower_tick:
+            raise Exception("upper bound needs to be above lower bound")
+
         tk = self.global_state.tick
         # TODO should we use Oracle price here instead? or real price as param
         # ? only when no liquidity in range?
-- 
2.43.0


From 3a5be70c1e997faff5d7fb05f72cd65f36d018b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:15 +0000
Subject: [PATCH 37/44] fix: python prototype: deposits and withdrawals are
 settled at the current price, not at the price of the current tick

---
 .../hmmcl-sandbox/src/cl_python/v3_pool.py     | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
index 3463ed9..ac58e20 100644
--- a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
+++ b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
@@ -615,17 +615,19 @@ class Pool:
         if upper_tick <= lower_tick:
             raise Exception("upper bound needs to be above lower bound")
 
-        tk = self.global_state.tick
+        rPa_used = Pool.tick_to_rP(lower_tick)
+        rPb_used = Pool.tick_to_rP(upper_tick)
+        rP = self.global_state.rP
         # TODO should we use Oracle price here instead? or real price as param
         # ? only when no liquidity in range?
 
-        liq = Pool._liq_from_x_y_rP_rng(x, y, tk, lower_tick, upper_tick)
+        liq = Pool.liq_from_x_y_rP_rng(x, y, rP, rPa_used, rPb_used)
         # round down to avoid float rounding vulnerabilities
         # TODO choose what precision to round down to.
         liq = math.floor(liq)
 
-        x_in = Pool._x_from_L_rP_rng(liq, tk, lower_tick, upper_tick)
-        y_in = Pool._y_from_L_rP_rng(liq, tk, lower_tick, upper_tick)
+        x_in = Pool.x_from_L_rP_rng(liq, rP, rPa_used, rPb_used)
+        y_in = Pool.y_from_L_rP_rng(liq, rP, rPa_used, rPb_used)
         assert x_in <= x, "used x amt cannot excess provided amount"
         assert y_in <= y, "used y amt cannot excess provided amount"
 
@@ -660,12 +662,14 @@ class Pool:
             user_id, lower_tick, upper_tick, liq_delta=-liq
         )
 
-        tk = self.global_state.tick
+        rPa_used = Pool.tick_to_rP(lower_tick)
+        rPb_used = Pool.tick_to_rP(upper_tick)
+        rP = self.global_state.rP
         # TODO should we use Oracle price here instead? or real price as param
         # ? only when no liquidity in range?
 
-        x_out = Pool._x_from_L_rP_rng(liq, tk, lower_tick, upper_tick)
-        y_out = Pool._y_from_L_rP_rng(liq, tk, lower_tick, upper_tick)
+        x_out = Pool.x_from_L_rP_rng(liq, rP, rPa_used, rPb_used)
+        y_out = Pool.y_from_L_rP_rng(liq, rP, rPa_used, rPb_used)
         # round down amount withdrawn if necessary, as precation
         x_out *= 1 - Pool.ADJ_WITHDRAWAL
         y_out *= 1 - Pool.ADJ_WITHDRAWAL
-- 
2.43.0


From 1c3829104102dff523299a5b6523067fdb1d129a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:15 +0000
Subject: [PATCH 38/44] fix: python prototype: a new position is not owed the
 fees earned before it existed

---
 programs/hmmcl-sandbox/src/cl_python/v3_pool.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
index ac58e20..b8dc7e6 100644
--- a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
+++ b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
@@ -556,9 +556,16 @@ class Pool:
                 # abort if withdrawal liq exceeds position liquidity
                 raise Exception("cannot newly provide negative liquidity")
             # creates a new position
+            # fee growth prior to this deposit is not owed to the new position
             self.positions[key] = PositionState(
-                liq=liq_delta, fr_x=0.0, fr_y=0.0, hr_x=0.0, hr_y=0.0
+                liq=liq_delta,
+                fr_x=new_fr_x,
+                fr_y=new_fr_y,
+                hr_x=new_hr_x,
+                hr_y=new_hr_y,
             )
+            old_fr_x, old_fr_y = new_fr_x, new_fr_y
+            old_hr_x, old_hr_y = new_hr_x, new_hr_y
         else:
             # get old value for feed from when position was last touched
             old_fr_x, old_fr_y = poz.fr_x, poz.fr_y
-- 
2.43.0


From a1cd4b74b0ab9f19de4f32ee831b7e3c7c9dfc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:15 +0000
Subject: [PATCH 39/44] fix: python prototype: an empty position is not
 recorded

---
 programs/hmmcl-sandbox/src/cl_python/v3_pool.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
index b8dc7e6..af56338 100644
--- a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
+++ b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
@@ -557,13 +557,15 @@ class Pool:
                 raise Exception("cannot newly provide negative liquidity")
             # creates a new position
             # fee growth prior to this deposit is not owed to the new position
-            self.positions[key] = PositionState(
-                liq=liq_delta,
-                fr_x=new_fr_x,
-                fr_y=new_fr_y,
-                hr_x=new_hr_x,
-                hr_y=new_hr_y,
-            )
+            # (an empty position is not recorded)
+            if liq_delta > 0.0:
+                self.positions[key] = PositionState(
+                    liq=liq_delta,
+                    fr_x=new_fr_x,
+                    fr_y=new_fr_y,
+                    hr_x=new_hr_x,
+                    hr_y=new_hr_y,
+                )
             old_fr_x, old_fr_y = new_fr_x, new_fr_y
             old_hr_x, old_hr_y = new_hr_x, new_hr_y
         else:
-- 
2.43.0


From 00fde70195eae6d986226538e7bfaa61e8e65a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:15 +0000
Subject: [PATCH 40/44] fix: python prototype: a swap from Y starts when the
 current tick is not a multiple of the tick spacing

---
 programs/hmmcl-sandbox/src/cl_python/v3_pool.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
index af56338..f8831b4 100644
--- a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
+++ b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
@@ -373,6 +373,8 @@ class Pool:
         # get to initializable tick
         start_tick = self.tick_to_possible_tick(start_t, left_to_right=False)
         # we use False here to round down
+        # same for the current tick, not always a multiple of tick spacing
+        glbl_tick = self.tick_to_possible_tick(glbl_tick, left_to_right=False)
         if start_tick == glbl_tick:
             # we've already technically crossed this tick (left-to-right) i.e.
             # the liquidity corresponding to this tick [start_tick, next_tick)
-- 
2.43.0


From 0d8ac17bd91e923d954f50e773be040a912df6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:15 +0000
Subject: [PATCH 41/44] fix: python prototype: a swap ends at or between the
 prices and ticks it travels over, despite rounding

---
 programs/hmmcl-sandbox/src/cl_python/v3_pool.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
index f8831b4..99f12e1 100644
--- a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
+++ b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
@@ -741,8 +741,12 @@ class Pool:
             done_dX = dX_max
             fee_X = dX - dX_max  # fee as expected
             cross = False
+            # stay between the current price and the goal, despite rounding
             end_rP = Pool.rP_new_from_L_dX(L, start_rP, done_dX)
+            end_rP = max(min(end_rP, start_rP), rP_goal)
+            # no tick is crossed: stay between the goal and the current tick
             end_t = Pool.rP_to_tick(end_rP, False)
+            end_t = min(max(end_t, goal_tick), self.global_state.tick)
             # * this log is take only once per trade if end between ticks
             # * tick is always on the left (round down after log)
 
@@ -953,8 +957,12 @@ class Pool:
             done_dY = dY_max
             fee_Y = dY - dY_max  # fee as expected
             cross = False
+            # stay between the current price and the goal, despite rounding
             end_rP = Pool.rP_new_from_L_dY(L, start_rP, done_dY)
+            end_rP = min(max(end_rP, start_rP), rP_goal)
+            # no tick is crossed: stay between the current tick and the goal
             end_t = Pool.rP_to_tick(end_rP, False)
+            end_t = min(max(end_t, self.global_state.tick), goal_tick - 1)
             # * this log is take only once per trade if end between ticks
             # * tick is always on the left (round down after log)
 
-- 
2.43.0


From e0b233a91f590402952cec3b52c5b6b7508349b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:15 +0000
Subject: [PATCH 42/44] fix: python prototype: rounding noise in the fee growth
 does not block deposits and withdrawals

---
 .../hmmcl-sandbox/src/cl_python/v3_pool.py    | 21 ++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
index 99f12e1..ce9bd29 100644
--- a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
+++ b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
@@ -523,9 +523,12 @@ class Pool:
         f_blw_lwr, f_abv_lwr = self.fee_below_above(lower_tick, for_x, swp)
         f_blw_upr, f_abv_upr = self.fee_below_above(upper_tick, for_x, swp)
 
-        # retrieve fg by summing up either tuple, they should match
-        assert f_blw_lwr + f_abv_lwr == f_blw_upr + f_abv_upr
-        fg = f_blw_lwr + f_abv_lwr
+        # either tuple sums up to fg, up to float rounding
+        token = "x" if for_x else "y"
+        fg = getattr(self.global_state, f"{'f' if swp else 'h'}g_{token}")
+        noise = 1e-9 * (1.0 + fg)
+        assert abs(f_blw_lwr + f_abv_lwr - fg) <= noise
+        assert abs(f_blw_upr + f_abv_upr - fg) <= noise
 
         return fg - f_blw_lwr - f_abv_upr
 
@@ -593,10 +596,14 @@ class Pool:
                     hr_y=new_hr_y,
                 )
         # now calulate uncollected fees to be applied
-        f_u_x = new_fr_x - old_fr_x
-        f_u_y = new_fr_y - old_fr_y
-        h_u_x = new_hr_x - old_hr_x
-        h_u_y = new_hr_y - old_hr_y
+        # (not below zero, by float rounding)
+        def not_noise(fee, growth):
+            return 0.0 if -1e-9 * (1.0 + growth) < fee < 0.0 else fee
+
+        f_u_x = not_noise(new_fr_x - old_fr_x, self.global_state.fg_x)
+        f_u_y = not_noise(new_fr_y - old_fr_y, self.global_state.fg_y)
+        h_u_x = not_noise(new_hr_x - old_hr_x, self.global_state.hg_x)
+        h_u_y = not_noise(new_hr_y - old_hr_y, self.global_state.hg_y)
         assert f_u_x >= 0.0 and f_u_y >= 0.0
         assert h_u_x >= 0.0 and h_u_y >= 0.0
 
-- 
2.43.0


From 6d182ff982ce419a2d970f8a10b29c01b8fb1280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:15 +0000
Subject: [PATCH 43/44] fix: python prototype: rounding noise in logs and
 powers does not make the HMM adjustment negative

---
 programs/hmmcl-sandbox/src/cl_python/v3_pool.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
index ce9bd29..58b3c27 100644
--- a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
+++ b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
@@ -806,6 +806,8 @@ class Pool:
         done_dY *= 1 - Pool.ADJ_WHOLE_FILL
         done_dY_amm *= 1 - Pool.ADJ_WHOLE_FILL
 
+        # logs and powers are approximate: never give out more than unadjusted
+        done_dY = max(done_dY, done_dY_amm)
         hmm_adj_Y = done_dY - done_dY_amm
 
         if done_dY_amm > 0.0:
@@ -1022,6 +1024,8 @@ class Pool:
         done_dX_amm *= 1 - Pool.ADJ_WHOLE_FILL
         done_dX *= 1 - Pool.ADJ_WHOLE_FILL
 
+        # logs and powers are approximate: never give out more than unadjusted
+        done_dX = max(done_dX, done_dX_amm)
         hmm_adj_X = done_dX - done_dX_amm
 
         if done_dX_amm > 0.0:
-- 
2.43.0


From 9bc0f9f09cb94a77213f538b7e21b3cc086218d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:15 +0000
Subject: [PATCH 44/44] fix: python prototype: the last taker out of a reserve
 is not refused, or given more than is there, over rounding dust

---
 programs/hmmcl-sandbox/src/cl_python/v3_pool.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
index 58b3c27..753e791 100644
--- a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
+++ b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
@@ -67,7 +67,7 @@ class Pool:
 
     TICK_BASE = 1.0001
     ADJ_WHOLE_FILL = 1e-12
-    ADJ_WITHDRAWAL = 0e-8
+    ADJ_WITHDRAWAL = 1e-12
 
     def __init__(
         self,
@@ -692,6 +692,9 @@ class Pool:
         x_out *= 1 - Pool.ADJ_WITHDRAWAL
         y_out *= 1 - Pool.ADJ_WITHDRAWAL
 
+        x_out = self.cap_at_reserve(x_out, self.X, liq)
+        y_out = self.cap_at_reserve(y_out, self.Y, liq)
+
         # add fees on to what user will receive
         x_sent = x_out + fees_x + adj_x
         y_sent = y_out + fees_y + adj_y
@@ -706,6 +709,14 @@ class Pool:
         print(f"{x_sent=} {y_sent=}")
         print(f"including {fees_x+adj_x=} & {fees_y+adj_y=}")
 
+    @staticmethod
+    def cap_at_reserve(due, reserve, liq):
+        """the last to take out of a reserve can be due more than what is left
+        by the rounding dust of the operations before: pay what is there then.
+        Larger shortages are left to the caller to refuse"""
+        dust = liq * 16e-12 + 1e-6
+        return reserve if 0.0 < due - reserve <= dust else due
+
     def swap_within_tick_from_X(
         self, start_rP, goal_tick, L, dX, rP_oracle=None
     ):
@@ -767,6 +778,7 @@ class Pool:
 
         # now figure out how much done_dY and hmm_adj_Y
         done_dY_amm = Pool.dY_from_L_drP(L=L, rP_old=start_rP, rP_new=end_rP)
+        done_dY_amm = -Pool.cap_at_reserve(-done_dY_amm, self.Y, L)
         if rP_oracle is None or self.C == 0.0 or rP_oracle >= start_rP:
             # 1st two cases cannot adjust so fall back to amm
             # * when trade will make pool price diverge more from oracle,
@@ -985,6 +997,7 @@ class Pool:
 
         # now figure out how much done_dX and hmm_adj_X
         done_dX_amm = Pool.dX_from_L_drP(L=L, rP_old=start_rP, rP_new=end_rP)
+        done_dX_amm = -Pool.cap_at_reserve(-done_dX_amm, self.X, L)
         if rP_oracle is None or self.C == 0.0 or rP_oracle <= start_rP:
             # 1st two cases cannot adjust so fall back to amm
             # * when trade will make pool price diverge more from oracle,
-- 
2.43.0

