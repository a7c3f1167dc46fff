From f0b1b2569bb2b9a9c272f1b57f03567e88504a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:18 +0000
Subject: [PATCH 01/29] fix: recognise "feb" as the February abbreviation

---
 src/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/token.rs b/src/token.rs
index 532bb64..e1f6bcf 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -335,7 +335,7 @@ const DATE_TOKEN_TABLE: [DateToken; 280] = [
     DateToken::new(b"egt", TZ, -3600),     // East Greenland Time
     DateToken::new(EPOCH, RESERV, Epoch.value()), // "epoch" reserved for system epoch time
     DateToken::new(b"est", TZ, -18000),    // Eastern Standard Time
-    DateToken::new(b"fe", MONTH, 2),
+    DateToken::new(b"feb", MONTH, 2),
     DateToken::new(b"february", MONTH, 2),
     DateToken::new(b"fjst", DTZ, -46800), // Fiji Summer Time (13 hour offset!)
     DateToken::new(b"fjt", TZ, -43200),   // Fiji Time
-- 
2.43.0


From 8e2194341d52ee5abffe6f2fe856efef22df61d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:02 +0000
Subject: [PATCH 02/29] fix: read back the negative designators of ISO 8601
 intervals

Interval::format emits P-1Y-2M but the reader accepted 'c' where '-' was
meant and rounded negative numbers the wrong way. The alternative format
(P1987-07-08T06:40:50) stays unsigned.
---
 src/parse.rs | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 51d46c8..90252e2 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2902,7 +2902,7 @@ fn parse_iso8601_number<'a, 'b, 'c>(
             ));
         }
         Some(c) => {
-            if !(c.is_ascii_digit() || c == &b'c' || c == &b'.') {
+            if !(c.is_ascii_digit() || c == &b'-' || c == &b'.') {
                 return Err(DateTimeError::invalid(format!(
                     "str: {:?} is invalid for iso number",
                     s
@@ -2923,12 +2923,28 @@ fn parse_iso8601_number<'a, 'b, 'c>(
     if val >= 0.0 {
         *ipart = val.floor() as i32;
     } else {
-        *ipart = -val.floor() as i32;
+        *ipart = val.ceil() as i32;
     }
     *fpart = val - *ipart as f64;
     Ok(end)
 }
 
+/// As above, but for the alternative format (4.4.3.3), whose fields are unsigned.
+#[inline]
+fn parse_iso8601_unsigned_number<'a, 'b, 'c>(
+    s: &'a [u8],
+    ipart: &'b mut i32,
+    fpart: &'c mut f64,
+) -> Result<&'a [u8], DateTimeError> {
+    if s.first() == Some(&b'-') {
+        return Err(DateTimeError::invalid(format!(
+            "str: {:?} is signed in iso alternative format",
+            s
+        )));
+    }
+    parse_iso8601_number(s, ipart, fpart)
+}
+
 /// Determine number of integral digits in a valid ISO 8601 number field
 /// (we should ignore sign and any fraction part)
 #[inline]
@@ -2974,7 +2990,7 @@ fn decode_date_part_left<'a, 'b, 'c, 'd>(
         return Ok((false, s));
     }
 
-    s = parse_iso8601_number(s, val, fval)?;
+    s = parse_iso8601_unsigned_number(s, val, fval)?;
     tm.mon += *val;
     adjust_fract_days(*fval, tm, fsec, DAYS_PER_MONTH)?;
     match s.first() {
@@ -2995,7 +3011,7 @@ fn decode_date_part_left<'a, 'b, 'c, 'd>(
     }
 
     s = &s[1..];
-    s = parse_iso8601_number(s, val, fval)?;
+    s = parse_iso8601_unsigned_number(s, val, fval)?;
     tm.mday += *val;
     adjust_fract_seconds(*fval, tm, fsec, SECS_PER_DAY)?;
     match s.first() {
@@ -3035,7 +3051,7 @@ fn decode_time_part_left(
         return Ok(());
     }
 
-    let mut s = parse_iso8601_number(s, val, fval)?;
+    let mut s = parse_iso8601_unsigned_number(s, val, fval)?;
     tm.min += *val;
     adjust_fract_seconds(*fval, tm, fsec, SECS_PER_MINUTE)?;
     match s.first() {
@@ -3050,7 +3066,7 @@ fn decode_time_part_left(
         }
     }
     s = &s[1..];
-    s = parse_iso8601_number(s, val, fval)?;
+    s = parse_iso8601_unsigned_number(s, val, fval)?;
     tm.sec += *val;
     adjust_fract_seconds(*fval, tm, fsec, 1)?;
     match s.first() {
@@ -3110,6 +3126,7 @@ pub fn decode_iso8601_interval(
 
         let field_start = s;
         s = parse_iso8601_number(s, &mut val, &mut fval)?;
+        let signed = field_start[0] == b'-';
 
         // Note: we could step off the end of the string here.  Code below
         //must* exit the loop if unit == '\0'.
@@ -3139,6 +3156,9 @@ pub fn decode_iso8601_interval(
                     tm.mday += val;
                     adjust_fract_seconds(fval, tm, fsec, SECS_PER_DAY)?;
                 }
+                b'T' | b'\0' | b'-' if signed => {
+                    return Err(DateTimeError::invalid(format!("str: {:?} is signed in iso alternative format", field_start)));
+                }
                 b'T' | b'\0' => {
                     // ISO 8601 4.4.3.3 Alternative Format / Basic */
                     let width = iso8601_integer_width(field_start);
@@ -3199,6 +3219,9 @@ pub fn decode_iso8601_interval(
                     tm.sec += val;
                     adjust_fract_seconds(fval, tm, fsec, 1)?;
                 }
+                b'\0' | b':' if signed => {
+                    return Err(DateTimeError::invalid(format!("str: {:?} is signed in iso alternative format", field_start)));
+                }
                 b'\0' => { // ISO 8601 4.4.3.3 Alternative Format
                     let len = iso8601_integer_width(field_start);
                     if len == 6 && !havefield
-- 
2.43.0


From e6b9abea3a8cfefcb2a73098d5013a2488493754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 03/29] fix: report an error, not a panic, when "T" ends a
 timestamp

---
 src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 90252e2..9ffbf8e 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1764,7 +1764,7 @@ impl DecodeDateTimeCtx {
                     return Err(DateTimeError::invalid(format!(
                         "the {:?} field's type: {:?} is unexpected",
                         field_id,
-                        ftypes[field_id + 1]
+                        ftypes.get(field_id + 1)
                     )));
                 }
                 self.p_type = TokenField::try_from(val)?;
-- 
2.43.0


From 8eca0f080c57c1695543b22fe1abb3f6a11b1469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:41 +0000
Subject: [PATCH 04/29] fix: reject text that does not fit the work buffer
 instead of panicking

---
 src/parse.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index 9ffbf8e..973253a 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -321,6 +321,14 @@ where
         ));
     }
 
+    // Every field is copied to the work buffer, only whitespace never is.
+    if time_str.iter().filter(|c| !c.is_ascii_whitespace()).count() > worker_buf.len() {
+        return Err(DateTimeError::invalid(format!(
+            "date time string is too long: {:?}",
+            time_str
+        )));
+    }
+
     let mut current_str = time_str;
     let mut current_buf = worker_buf;
 
-- 
2.43.0


From 14e7581f17c3eef7768efa99c59de30f24c59489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 05/29] fix: a trailing sign is not a field

Its field type was left uninitialised, so "1 day +" was accepted or not
depending on earlier stack contents.
---
 src/parse.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 973253a..8e9687a 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -271,7 +271,11 @@ fn parse_date_time_for_sign_begin<'a, 'b, 'c>(
                 )));
             }
         }
-        None => s,
+        None => {
+            return Err(DateTimeError::invalid(
+                "date time expect digit or alpha after sign".to_string(),
+            ));
+        }
     };
 
     let (filed, ret_buf) = current_buf.split_at_mut(buf_pos);
-- 
2.43.0


From 709c1352127796e9009147b3eecdcf7ffda32762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 06/29] fix: ignored punctuation must not swallow the sign
 behind it

"@-1 day" was read as one day.
---
 src/parse.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 8e9687a..ac282d9 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -389,9 +389,8 @@ where
                     current_str = ret_str;
                     current_buf = ret_buf;
                 } else if char.is_ascii_punctuation() {
-                    let (_field_str, s) =
-                        eat_special_chars(current_str, |i| i.is_ascii_punctuation());
-                    current_str = s;
+                    // Ignore one only: the next can be a sign or a decimal point.
+                    current_str = &current_str[1..];
                     continue;
                 } else {
                     return Err(DateTimeError::invalid(format!(
-- 
2.43.0


From 6d3fcbae4a044b9efd4ec8f2c02b8ae542cbdb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:21 +0000
Subject: [PATCH 07/29] fix: compute the time of an interval in 64 bits

hour * 60 overflowed for intervals of more than 35791394 hours.
---
 src/interval.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/interval.rs b/src/interval.rs
index 44f45dc..da1f399 100644
--- a/src/interval.rs
+++ b/src/interval.rs
@@ -397,8 +397,9 @@ impl Interval {
 
         let month = total_months as i32;
         let day = tm.mday;
-        let time =
-            (((((tm.hour * 60) + tm.min) as i64 * 60) + tm.sec as i64) * USECS_PER_SEC) + fsec;
+        let time = (((((tm.hour as i64 * 60) + tm.min as i64) * 60) + tm.sec as i64)
+            * USECS_PER_SEC)
+            + fsec;
         Ok(Self::from_mdt(month, day, time))
     }
 
-- 
2.43.0


From c3b3a77bddc6cf22d3d045ad70f68a2012767272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:22 +0000
Subject: [PATCH 08/29] fix: compute the time of day of a timestamp in 64 bits

"2000-01-01 h2147483647" overflowed.
---
 src/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common.rs b/src/common.rs
index 7e658e9..1611534 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -388,7 +388,7 @@ impl PgTime {
 
 #[inline]
 fn time2t(hour: i32, min: i32, sec: i32, fsec: i64) -> i64 {
-    (((((hour * MINS_PER_HOUR) + min) * SECS_PER_MINUTE) as i64 + sec as i64)
+    (((((hour as i64 * MINS_PER_HOUR as i64) + min as i64) * SECS_PER_MINUTE as i64) + sec as i64)
         * USECS_PER_SEC as i64)
         + fsec
 }
-- 
2.43.0


From 1bca9408899ccd01efc25ee9da45a15e4cfcb440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:24 +0000
Subject: [PATCH 09/29] fix: timestamp plus interval must not wrap around

The day step panicked before Julian day zero and the time step wrapped to
a valid but unrelated timestamp.
---
 src/timestamp.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/timestamp.rs b/src/timestamp.rs
index 0ed9903..1b5bf52 100644
--- a/src/timestamp.rs
+++ b/src/timestamp.rs
@@ -288,13 +288,20 @@ impl Timestamp {
                 let mut fsec = 0;
                 timestamp2time(timestamp, &None, &mut tm, &mut fsec, &mut None, &None)?;
                 // Add days by converting to and from Julian
-                let julian = date2julian(tm.year, tm.mon, tm.mday).wrapping_add(span.day());
+                let julian = match date2julian(tm.year, tm.mon, tm.mday).checked_add(span.day()) {
+                    // Julian day routine does not work for negative Julian days.
+                    Some(julian) if julian >= 0 => julian,
+                    _ => return Err(DateTimeError::overflow()),
+                };
                 let (y, m, d) = julian2date(julian);
                 tm.set_ymd(y, m, d);
                 timestamp = tm.to_timestamp(fsec, None)?;
             }
 
-            timestamp = timestamp.wrapping_add(span.time());
+            timestamp = match timestamp.checked_add(span.time()) {
+                Some(t) => t,
+                None => return Err(DateTimeError::overflow()),
+            };
 
             if !is_valid_timestamp(timestamp) {
                 return Err(DateTimeError::invalid(format!(
-- 
2.43.0


From f096c857941cbe8e1e02acfd6e928426c439db14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:25 +0000
Subject: [PATCH 10/29] fix: timestamp minus timestamp must not overflow

---
 src/timestamp.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/timestamp.rs b/src/timestamp.rs
index 1b5bf52..94faf70 100644
--- a/src/timestamp.rs
+++ b/src/timestamp.rs
@@ -352,7 +352,10 @@ impl Timestamp {
             )));
         }
 
-        let time = self.value() - timestamp.value();
+        let time = match self.value().checked_sub(timestamp.value()) {
+            Some(t) => t,
+            None => return Err(DateTimeError::overflow()),
+        };
 
         //	This is wrong, but removing it breaks a lot of regression tests.
         // For example:
-- 
2.43.0


From fa0af0cce03d6523fc77660bb78717ca68a01e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:26 +0000
Subject: [PATCH 11/29] fix: Date::try_from_ymd must not overflow on i32::MIN

---
 src/date.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/date.rs b/src/date.rs
index 22f81d0..d037ba9 100644
--- a/src/date.rs
+++ b/src/date.rs
@@ -75,7 +75,10 @@ impl Date {
         // Handle negative years as BC
         if tm.year < 0 {
             bc = true;
-            tm.year = -tm.year;
+            tm.year = match tm.year.checked_neg() {
+                Some(y) => y,
+                None => return Err(DateTimeError::overflow()),
+            };
         }
 
         tm.validate_date(DTK_DATE_M, false, false, bc)?;
-- 
2.43.0


From d559b90fb4d6805b45453bfd3e3c3b48e57fbc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:28 +0000
Subject: [PATCH 12/29] fix: range check the year before decoding a day of year

---
 src/common.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/common.rs b/src/common.rs
index 1611534..e9a7b77 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -320,7 +320,15 @@ impl PgTime {
 
         // now that we have correct year, decode DOY.
         if (f_mask & TokenType::DOY.mask()) != 0 {
-            let (y, m, d) = julian2date(date2julian(self.year, 1, 1) + self.yday - 1);
+            // Prevent overflow in Julian-day routines.
+            if self.year < JULIAN_MIN_YEAR || self.year > JULIAN_MAX_YEAR {
+                return Err(DateTimeError::overflow());
+            }
+            let julian = date2julian(self.year, 1, 1) + self.yday - 1;
+            if julian < 0 {
+                return Err(DateTimeError::overflow());
+            }
+            let (y, m, d) = julian2date(julian);
             self.set_ymd(y, m, d);
         }
 
-- 
2.43.0


From 3d3ef0699284a0fcb38d02bf4931d27fb548d8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:29 +0000
Subject: [PATCH 13/29] fix: Time::try_from_hms rejects NaN seconds

---
 src/time.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/time.rs b/src/time.rs
index b6ed431..8e05e70 100644
--- a/src/time.rs
+++ b/src/time.rs
@@ -55,6 +55,7 @@ impl Time {
         if h < 0
             || m < 0
             || m > MINS_PER_HOUR - 1
+            || s.is_nan()
             || s < 0.0
             || s > SECS_PER_MINUTE as f64
             || h > HOURS_PER_DAY
-- 
2.43.0


From f031302de756be2bc4c0fc2d333657667e94eb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:31 +0000
Subject: [PATCH 14/29] fix: reject a time of day past 24:00:00

"23:59:60.5" was accepted.
---
 src/time.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/time.rs b/src/time.rs
index 8e05e70..a03aa9a 100644
--- a/src/time.rs
+++ b/src/time.rs
@@ -126,8 +126,12 @@ impl Time {
             date_order,
         )?;
 
-        let time = Time::from_pgtime(&tm, fsec).adjust_by_typmod(type_mod);
-        Ok(time)
+        let time = Time::from_pgtime(&tm, fsec);
+        // Seconds of 60 and a fraction can pass the end of the day.
+        if time.value() > USECS_PER_DAY {
+            return Err(DateTimeError::overflow());
+        }
+        Ok(time.adjust_by_typmod(type_mod))
     }
 
     /// Converts `Time` to string.
-- 
2.43.0


From 2242b01bb362a892ee7dcf7be926bf9d35ef8467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:32 +0000
Subject: [PATCH 15/29] fix: rounding to a precision must not leave the
 timestamp range

---
 src/timestamp.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/timestamp.rs b/src/timestamp.rs
index 94faf70..f14ba52 100644
--- a/src/timestamp.rs
+++ b/src/timestamp.rs
@@ -235,6 +235,9 @@ impl Timestamp {
                 let v = ((self.value() + TIMESTAMP_OFFSETS[typmod as usize])
                     / TIMESTAMP_SCALES[typmod as usize])
                     * TIMESTAMP_SCALES[typmod as usize];
+                if !is_valid_timestamp(v) {
+                    return Err(DateTimeError::overflow());
+                }
                 Ok(Timestamp::new(v))
             } else {
                 let v = -((((-self.value()) + TIMESTAMP_OFFSETS[typmod as usize])
-- 
2.43.0


From 519a6520114cfa40a4867c83392e30b6fc8bd663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:34 +0000
Subject: [PATCH 16/29] fix: range check the fields of a parsed interval

---
 src/parse.rs | 107 ++++++++++++++++++++++++++++++---------------------
 1 file changed, 64 insertions(+), 43 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index ac282d9..c95c608 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2425,6 +2425,27 @@ pub fn decode_time_only(
     Ok(ctx.f_sec)
 }
 
+/// Add val to a field of an interval.
+#[inline]
+fn add_to_field(field: &mut i32, val: i32) -> Result<(), DateTimeError> {
+    *field = field.checked_add(val).ok_or_else(DateTimeError::overflow)?;
+    Ok(())
+}
+
+/// Multiply val by scale and add to a field of an interval.
+#[inline]
+fn add_scaled_to_field(field: &mut i32, val: i32, scale: i32) -> Result<(), DateTimeError> {
+    let val = val.checked_mul(scale).ok_or_else(DateTimeError::overflow)?;
+    add_to_field(field, val)
+}
+
+/// Negate a field of an interval.
+#[inline]
+fn negate_field(field: &mut i32) -> Result<(), DateTimeError> {
+    *field = field.checked_neg().ok_or_else(DateTimeError::overflow)?;
+    Ok(())
+}
+
 /// Multiply frac by scale (to produce seconds) and add to *tm & *fsec.
 /// We assume the input frac is less than 1 so overflow is not an issue.
 #[inline]
@@ -2564,14 +2585,14 @@ fn decode_interval_number_field(
         }
         TokenField::Millisec => {
             // avoid overflowing the fsec field.
-            tm.sec += val / 1000;
+            add_to_field(&mut tm.sec, val / 1000)?;
             val -= (val / 1000) * 1000;
             *f_sec += ((val as f64 + *f_val) * 1000_f64).round() as i64;
             *t_mask = TokenType::MILLISECOND.mask();
         }
 
         TokenField::Second => {
-            tm.sec += val;
+            add_to_field(&mut tm.sec, val)?;
             *f_sec += (*f_val * 1_000_000_f64).round() as i64;
 
             // If any subseconds were specified, consider this
@@ -2584,64 +2605,64 @@ fn decode_interval_number_field(
         }
 
         TokenField::Minute => {
-            tm.min += val;
+            add_to_field(&mut tm.min, val)?;
             adjust_fract_seconds(*f_val, tm, f_sec, SECS_PER_MINUTE)?;
             *t_mask = TokenType::MINUTE.mask();
         }
 
         TokenField::Hour => {
-            tm.hour += val;
+            add_to_field(&mut tm.hour, val)?;
             adjust_fract_seconds(*f_val, tm, f_sec, SECS_PER_HOUR)?;
             *t_mask = TokenType::HOUR.mask();
             *ty = TokenField::Day.value(); /* set for next field */
         }
 
         TokenField::Day => {
-            tm.mday += val;
+            add_to_field(&mut tm.mday, val)?;
             adjust_fract_seconds(*f_val, tm, f_sec, SECS_PER_DAY)?;
             *t_mask = TokenType::DAY.mask();
         }
 
         TokenField::Week => {
-            tm.mday += val * 7;
+            add_scaled_to_field(&mut tm.mday, val, 7)?;
             adjust_fract_days(*f_val, tm, f_sec, 7)?;
             *t_mask = TokenType::WEEK.mask();
         }
 
         TokenField::Month => {
-            tm.mon += val;
+            add_to_field(&mut tm.mon, val)?;
             adjust_fract_days(*f_val, tm, f_sec, DAYS_PER_MONTH)?;
             *t_mask = TokenType::MONTH.mask();
         }
 
         TokenField::Year => {
-            tm.year += val;
+            add_to_field(&mut tm.year, val)?;
             if *f_val != 0.0 {
-                tm.mon += (*f_val * MONTHS_PER_YEAR as f64) as i32;
+                add_to_field(&mut tm.mon, (*f_val * MONTHS_PER_YEAR as f64) as i32)?;
             }
             *t_mask = TokenType::YEAR.mask();
         }
 
         TokenField::Decade => {
-            tm.year += val * 10;
+            add_scaled_to_field(&mut tm.year, val, 10)?;
             if *f_val != 0.0 {
-                tm.mon += (*f_val * MONTHS_PER_YEAR as f64 * 10_f64) as i32;
+                add_to_field(&mut tm.mon, (*f_val * MONTHS_PER_YEAR as f64 * 10_f64) as i32)?;
             }
             *t_mask = TokenType::DECADE.mask();
         }
 
         TokenField::Century => {
-            tm.year += val * 100;
+            add_scaled_to_field(&mut tm.year, val, 100)?;
             if *f_val != 0.0 {
-                tm.mon += (*f_val * MONTHS_PER_YEAR as f64 * 100_f64) as i32;
+                add_to_field(&mut tm.mon, (*f_val * MONTHS_PER_YEAR as f64 * 100_f64) as i32)?;
             }
             *t_mask = TokenType::CENTURY.mask();
         }
 
         TokenField::Millennium => {
-            tm.year += val * 1000;
+            add_scaled_to_field(&mut tm.year, val, 1000)?;
             if *f_val != 0.0 {
-                tm.mon += (*f_val * MONTHS_PER_YEAR as f64 * 1000_f64) as i32;
+                add_to_field(&mut tm.mon, (*f_val * MONTHS_PER_YEAR as f64 * 1000_f64) as i32)?;
             }
             *t_mask = TokenType::MILLENNIUM.mask();
         }
@@ -2828,7 +2849,7 @@ pub fn decode_interval(
     if *f_sec != 0 {
         let sec = *f_sec / USECS_PER_SEC;
         *f_sec -= sec * USECS_PER_SEC;
-        tm.sec += sec as i32;
+        add_to_field(&mut tm.sec, sec as i32)?;
     }
 
     // The SQL standard defines the interval literal
@@ -2885,12 +2906,12 @@ pub fn decode_interval(
     // finally, AGO negates everything.
     if is_before {
         *f_sec = -(*f_sec);
-        tm.sec = -tm.sec;
-        tm.min = -tm.min;
-        tm.hour = -tm.hour;
-        tm.mday = -tm.mday;
-        tm.mon = -tm.mon;
-        tm.year = -tm.year;
+        negate_field(&mut tm.sec)?;
+        negate_field(&mut tm.min)?;
+        negate_field(&mut tm.hour)?;
+        negate_field(&mut tm.mday)?;
+        negate_field(&mut tm.mon)?;
+        negate_field(&mut tm.year)?;
     }
 
     Ok(())
@@ -2990,8 +3011,8 @@ fn decode_date_part_left<'a, 'b, 'c, 'd>(
 
     let mut s = s;
 
-    tm.year += *val;
-    tm.mon += (*fval * MONTHS_PER_YEAR as f64) as i32;
+    add_to_field(&mut tm.year, *val)?;
+    add_to_field(&mut tm.mon, (*fval * MONTHS_PER_YEAR as f64) as i32)?;
     if unit == b'\0' {
         return Ok((true, s));
     }
@@ -3002,7 +3023,7 @@ fn decode_date_part_left<'a, 'b, 'c, 'd>(
     }
 
     s = parse_iso8601_unsigned_number(s, val, fval)?;
-    tm.mon += *val;
+    add_to_field(&mut tm.mon, *val)?;
     adjust_fract_days(*fval, tm, fsec, DAYS_PER_MONTH)?;
     match s.first() {
         None => return Ok((true, s)),
@@ -3023,7 +3044,7 @@ fn decode_date_part_left<'a, 'b, 'c, 'd>(
 
     s = &s[1..];
     s = parse_iso8601_unsigned_number(s, val, fval)?;
-    tm.mday += *val;
+    add_to_field(&mut tm.mday, *val)?;
     adjust_fract_seconds(*fval, tm, fsec, SECS_PER_DAY)?;
     match s.first() {
         None => Ok((true, s)),
@@ -3056,14 +3077,14 @@ fn decode_time_part_left(
         return Err(DateTimeError::invalid("have field is set".to_string()));
     }
 
-    tm.hour += *val;
+    add_to_field(&mut tm.hour, *val)?;
     adjust_fract_seconds(*fval, tm, fsec, SECS_PER_HOUR)?;
     if unit == b'\0' {
         return Ok(());
     }
 
     let mut s = parse_iso8601_unsigned_number(s, val, fval)?;
-    tm.min += *val;
+    add_to_field(&mut tm.min, *val)?;
     adjust_fract_seconds(*fval, tm, fsec, SECS_PER_MINUTE)?;
     match s.first() {
         None => return Ok(()),
@@ -3078,7 +3099,7 @@ fn decode_time_part_left(
     }
     s = &s[1..];
     s = parse_iso8601_unsigned_number(s, val, fval)?;
-    tm.sec += *val;
+    add_to_field(&mut tm.sec, *val)?;
     adjust_fract_seconds(*fval, tm, fsec, 1)?;
     match s.first() {
         None => Ok(()),
@@ -3152,19 +3173,19 @@ pub fn decode_iso8601_interval(
             match unit        // before T: Y M W D.
             {
                 b'Y' => {
-                    tm.year += val;
-                    tm.mon += (fval * MONTHS_PER_YEAR as f64) as i32;
+                    add_to_field(&mut tm.year, val)?;
+                    add_to_field(&mut tm.mon, (fval * MONTHS_PER_YEAR as f64) as i32)?;
                 }
                 b'M' => {
-                    tm.mon += val;
+                    add_to_field(&mut tm.mon, val)?;
                     adjust_fract_days(fval, tm, fsec, DAYS_PER_MONTH)?;
                 }
                 b'W' => {
-                    tm.mday += val * 7;
+                    add_scaled_to_field(&mut tm.mday, val, 7)?;
                     adjust_fract_days(fval, tm, fsec, 7)?;
                 }
                 b'D' => {
-                    tm.mday += val;
+                    add_to_field(&mut tm.mday, val)?;
                     adjust_fract_seconds(fval, tm, fsec, SECS_PER_DAY)?;
                 }
                 b'T' | b'\0' | b'-' if signed => {
@@ -3175,9 +3196,9 @@ pub fn decode_iso8601_interval(
                     let width = iso8601_integer_width(field_start);
                     if width == 8 && !havefield
                     {
-                        tm.year += val / 10000;
-                        tm.mon += (val / 100) % 100;
-                        tm.mday += val % 100;
+                        add_to_field(&mut tm.year, val / 10000)?;
+                        add_to_field(&mut tm.mon, (val / 100) % 100)?;
+                        add_to_field(&mut tm.mday, val % 100)?;
                         adjust_fract_seconds(fval, tm, fsec, SECS_PER_DAY)?;
                         if unit == b'\0' {
                             return Ok(());
@@ -3219,15 +3240,15 @@ pub fn decode_iso8601_interval(
             match unit        /* after T: H M S */
             {
                 b'H' => {
-                    tm.hour += val;
+                    add_to_field(&mut tm.hour, val)?;
                     adjust_fract_seconds(fval, tm, fsec, SECS_PER_HOUR)?;
                 }
                 b'M' => {
-                    tm.min += val;
+                    add_to_field(&mut tm.min, val)?;
                     adjust_fract_seconds(fval, tm, fsec, SECS_PER_MINUTE)?;
                 }
                 b'S' => {
-                    tm.sec += val;
+                    add_to_field(&mut tm.sec, val)?;
                     adjust_fract_seconds(fval, tm, fsec, 1)?;
                 }
                 b'\0' | b':' if signed => {
@@ -3237,9 +3258,9 @@ pub fn decode_iso8601_interval(
                     let len = iso8601_integer_width(field_start);
                     if len == 6 && !havefield
                     {
-                        tm.hour += val / 10000;
-                        tm.min += (val / 100) % 100;
-                        tm.sec += val % 100;
+                        add_to_field(&mut tm.hour, val / 10000)?;
+                        add_to_field(&mut tm.min, (val / 100) % 100)?;
+                        add_to_field(&mut tm.sec, val % 100)?;
                         adjust_fract_seconds(fval, tm, fsec, 1)?;
                         return Ok(());
                     }
-- 
2.43.0


From 95bbdac5c4fdca17e8365755f1c846d828b6066d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:59 +0000
Subject: [PATCH 17/29] fix: range check the result of scaling an interval

---
 src/interval.rs | 53 +++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 43 insertions(+), 10 deletions(-)

diff --git a/src/interval.rs b/src/interval.rs
index da1f399..d7c84a2 100644
--- a/src/interval.rs
+++ b/src/interval.rs
@@ -333,15 +333,22 @@ impl Interval {
         // cascade from months and days.  It might still be >24 if the combination
         // of cascade and the seconds factor operation itself.
         if sec_remainder.abs() >= SECS_PER_DAY as f64 {
-            result.day += (sec_remainder / SECS_PER_DAY as f64) as i32;
+            result.day = result
+                .day
+                .checked_add((sec_remainder / SECS_PER_DAY as f64) as i32)
+                .ok_or_else(DateTimeError::overflow)?;
             sec_remainder -= (((sec_remainder / SECS_PER_DAY as f64) as i32) * SECS_PER_DAY) as f64;
         }
 
         // cascade units down
-        result.day += month_remainder_days as i32;
+        result.day = result
+            .day
+            .checked_add(month_remainder_days as i32)
+            .ok_or_else(DateTimeError::overflow)?;
         let result_time =
             (self.time as f64 * factor + sec_remainder * USECS_PER_SEC as f64).round();
-        if result_time > std::i64::MAX as f64 || result_time < std::i64::MIN as f64 {
+        // i64::MAX as f64 is rounded up to 2^63, which is out of range.
+        if result_time >= std::i64::MAX as f64 || result_time < std::i64::MIN as f64 {
             return Err(DateTimeError::overflow());
         }
 
@@ -361,10 +368,23 @@ impl Interval {
                 self
             )));
         }
-        let month = (self.month as f64 / factor) as i32;
-        let day = (self.day as f64 / factor) as i32;
+        let result_month = self.month as f64 / factor;
+        if result_month.is_nan()
+            || result_month > std::i32::MAX as f64
+            || result_month < std::i32::MIN as f64
+        {
+            return Err(DateTimeError::overflow());
+        }
+
+        let result_day = self.day as f64 / factor;
+        if result_day.is_nan()
+            || result_day > std::i32::MAX as f64
+            || result_day < std::i32::MIN as f64
+        {
+            return Err(DateTimeError::overflow());
+        }
 
-        let mut result = Interval::from_mdt(month, day, 0);
+        let mut result = Interval::from_mdt(result_month as i32, result_day as i32, 0);
         // Fractional months full days into days.  See comment in interval_mul().
 
         let mut month_remainder_days =
@@ -376,14 +396,27 @@ impl Interval {
             * SECS_PER_DAY as f64;
         sec_remainder = timestamp_round(sec_remainder);
         if sec_remainder.abs() >= SECS_PER_DAY as f64 {
-            result.day += (sec_remainder / SECS_PER_DAY as f64) as i32;
+            result.day = result
+                .day
+                .checked_add((sec_remainder / SECS_PER_DAY as f64) as i32)
+                .ok_or_else(DateTimeError::overflow)?;
             sec_remainder -= (((sec_remainder / SECS_PER_DAY as f64) as i32) * SECS_PER_DAY) as f64;
         }
 
         // cascade units down
-        result.day += month_remainder_days as i32;
-        result.time =
-            (self.time as f64 / factor + sec_remainder * USECS_PER_SEC as f64).round() as i64;
+        result.day = result
+            .day
+            .checked_add(month_remainder_days as i32)
+            .ok_or_else(DateTimeError::overflow)?;
+        let result_time =
+            (self.time as f64 / factor + sec_remainder * USECS_PER_SEC as f64).round();
+        // i64::MAX as f64 is rounded up to 2^63, which is out of range.
+        if result_time >= std::i64::MAX as f64 || result_time < std::i64::MIN as f64 {
+            return Err(DateTimeError::overflow());
+        }
+
+        result.time = result_time as i64;
+
         Ok(result)
     }
 
-- 
2.43.0


From 56d6ba974183fd9209656f1d2f183794c23a050f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:21 +0000
Subject: [PATCH 18/29] fix: print the fields of an interval that have no
 absolute value

---
 src/common.rs   |  7 ++++---
 src/interval.rs | 17 ++++++++++-------
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/common.rs b/src/common.rs
index e9a7b77..9dcacf4 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -669,12 +669,12 @@ pub const MAX_INTERVAL_PRECISION: usize = 6;
 /// Note: Caller must ensure that 'str' points to enough memory to hold the
 /// result.
 #[inline]
-pub fn pg_ltostr(s: &mut [u8], value: i32) -> usize {
+pub fn pg_ltostr<T: Into<i64>>(s: &mut [u8], value: T) -> usize {
     let mut start = 0;
     // Handle negative numbers in a special way.  We can't just write a '-'
     // prefix and reverse the sign as that would overflow for INT32_MIN.
     let mut new_start = 0;
-    let mut value = value;
+    let mut value: i64 = value.into();
     if value < 0 {
         s[0] = b'-';
         start = 1;
@@ -738,7 +738,8 @@ pub fn pg_ltostr(s: &mut [u8], value: i32) -> usize {
 /// Note: Caller must ensure that 'str' points to enough memory to hold the
 /// result.
 #[inline]
-pub fn pg_ltostr_zeropad(s: &mut [u8], value: i32, min_width: usize) -> usize {
+pub fn pg_ltostr_zeropad<T: Into<i64>>(s: &mut [u8], value: T, min_width: usize) -> usize {
+    let value: i64 = value.into();
     let mut start = 0;
     let end = min_width;
     let mut num = value;
diff --git a/src/interval.rs b/src/interval.rs
index d7c84a2..ad7a99d 100644
--- a/src/interval.rs
+++ b/src/interval.rs
@@ -662,8 +662,8 @@ fn format_interval(
 ) -> Result<usize, DateTimeError> {
     let mut year = tm.year;
     let mut mon = tm.mon;
-    let mut mday = tm.mday;
-    let mut hour = tm.hour;
+    let mut mday = tm.mday as i64;
+    let mut hour = tm.hour as i64;
     let mut min = tm.min;
     let mut sec = tm.sec;
     let mut is_before = false;
@@ -918,7 +918,8 @@ fn format_interval(
 /// Helper functions to avoid duplicated code in EncodeInterval.
 /// Append an ISO-8601-style interval field, but only if value isn't zero.
 #[inline]
-fn add_iso8601_int_part(s: &mut [u8], value: i32, units: u8) -> Result<usize, DateTimeError> {
+fn add_iso8601_int_part<T: Into<i64>>(s: &mut [u8], value: T, units: u8) -> Result<usize, DateTimeError> {
+    let value: i64 = value.into();
     if value == 0 {
         return Ok(0);
     }
@@ -931,13 +932,14 @@ fn add_iso8601_int_part(s: &mut [u8], value: i32, units: u8) -> Result<usize, Da
 
 /// Append a postgres-style interval field, but only if value isn't zero.
 #[inline]
-fn add_postgres_int_part(
+fn add_postgres_int_part<T: Into<i64>>(
     s: &mut [u8],
-    value: i32,
+    value: T,
     units: &[u8],
     is_zero: &mut bool,
     is_before: &mut bool,
 ) -> Result<usize, DateTimeError> {
+    let value: i64 = value.into();
     let mut offset = 0;
     if value == 0 {
         return Ok(offset);
@@ -966,13 +968,14 @@ fn add_postgres_int_part(
 
 /// Append a verbose-style interval field, but only if value isn't zero.
 #[inline]
-fn add_verbose_int_part(
+fn add_verbose_int_part<T: Into<i64>>(
     s: &mut [u8],
-    value: i32,
+    value: T,
     units: &[u8],
     is_zero: &mut bool,
     is_before: &mut bool,
 ) -> Result<usize, DateTimeError> {
+    let value: i64 = value.into();
     if value == 0 {
         return Ok(0);
     }
-- 
2.43.0


From f47a39ba8ab168845a1b2922c92e7862ea366267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:17 +0000
Subject: [PATCH 19/29] fix: time of day arithmetic must not wrap around

---
 src/time.rs | 28 +++++++---------------------
 1 file changed, 7 insertions(+), 21 deletions(-)

diff --git a/src/time.rs b/src/time.rs
index a03aa9a..593e99d 100644
--- a/src/time.rs
+++ b/src/time.rs
@@ -152,12 +152,9 @@ impl Time {
     /// `Time` Adds `Interval`.
     #[inline]
     pub fn add_interval(self, span: Interval) -> Time {
-        let mut result = self.value().wrapping_add(span.time());
-        result -= result / USECS_PER_DAY * USECS_PER_DAY;
-        if result < 0 {
-            result += USECS_PER_DAY;
-        }
-        Time::from(result)
+        // Reduce the operands first, their sum may not fit.
+        let result = self.value() % USECS_PER_DAY + span.time() % USECS_PER_DAY;
+        Time::from(result.rem_euclid(USECS_PER_DAY))
     }
 
     /// `Time` subtracts `Time`
@@ -170,12 +167,9 @@ impl Time {
     /// `Time` subtracts `Interval`.
     #[inline]
     pub fn sub_interval(self, span: Interval) -> Time {
-        let mut result = self.value().wrapping_sub(span.time());
-        result -= result / USECS_PER_DAY * USECS_PER_DAY;
-        if result < 0 {
-            result += USECS_PER_DAY;
-        }
-        Time::from(result)
+        // Reduce the operands first, their difference may not fit.
+        let result = self.value() % USECS_PER_DAY - span.time() % USECS_PER_DAY;
+        Time::from(result.rem_euclid(USECS_PER_DAY))
     }
 
     /// Converts `Time` to `PgTime`
@@ -267,15 +261,7 @@ impl TryFrom<Timestamp> for Option<Time> {
 impl From<Interval> for Time {
     #[inline]
     fn from(value: Interval) -> Self {
-        let mut result = value.time();
-        if result >= USECS_PER_DAY {
-            let days = result / USECS_PER_DAY;
-            result -= days * USECS_PER_DAY;
-        } else if result < 0 {
-            let days = (-result + USECS_PER_DAY - 1) / USECS_PER_DAY;
-            result += days * USECS_PER_DAY;
-        }
-        Time::from(result)
+        Time::from(value.time().rem_euclid(USECS_PER_DAY))
     }
 }
 
-- 
2.43.0


From 8cda2aa2dd437466f0df4e91c6e8569707263c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:18 +0000
Subject: [PATCH 20/29] fix: write the Postgres style of DMY dates with one
 separator

"08-01.1999" could not be read back.
---
 src/date.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/date.rs b/src/date.rs
index d037ba9..661e6cb 100644
--- a/src/date.rs
+++ b/src/date.rs
@@ -348,12 +348,13 @@ fn format_date(
                 offset += pg_ltostr_zeropad(&mut s[offset..], tm.mday, 2);
                 offset = set_one_byte(s, offset, b'-');
                 offset += pg_ltostr_zeropad(&mut s[offset..], tm.mon, 2);
+                offset = set_one_byte(s, offset, b'-');
             } else {
                 offset += pg_ltostr_zeropad(&mut s[offset..], tm.mon, 2);
                 offset = set_one_byte(s, offset, b'.');
                 offset += pg_ltostr_zeropad(&mut s[offset..], tm.mday, 2);
+                offset = set_one_byte(s, offset, b'.');
             }
-            offset = set_one_byte(s, offset, b'.');
             let year = if tm.year > 0 { tm.year } else { -(tm.year - 1) };
             offset += pg_ltostr_zeropad(&mut s[offset..], year, 4);
         }
-- 
2.43.0


From 2a65d5b1c745f50bcf28ce36ceca11d7be1240f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:20 +0000
Subject: [PATCH 21/29] fix: truncating an infinite timestamp leaves it
 infinite

---
 src/timestamp.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/timestamp.rs b/src/timestamp.rs
index f14ba52..63878b6 100644
--- a/src/timestamp.rs
+++ b/src/timestamp.rs
@@ -889,6 +889,10 @@ impl DateTime for Timestamp {
     fn truncate(&self, ty: FieldType, unit: DateUnit) -> Result<Self, DateTimeError> {
         match ty {
             FieldType::Unit => {
+                if self.is_infinite() {
+                    return Ok(*self);
+                }
+
                 let mut tm = PgTime::new();
                 let mut fsec = 0;
 
-- 
2.43.0


From 555a7e24bdc00a58c188925fed1d0f4886dbc01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:21 +0000
Subject: [PATCH 22/29] fix: the age of an infinite timestamp is not finite

---
 src/timestamp.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/timestamp.rs b/src/timestamp.rs
index 63878b6..7781135 100644
--- a/src/timestamp.rs
+++ b/src/timestamp.rs
@@ -395,6 +395,10 @@ impl Timestamp {
     /// is done.
     #[inline]
     pub fn age(self, timestamp: Timestamp) -> Result<Interval, DateTimeError> {
+        if self.is_infinite() || timestamp.is_infinite() {
+            return Err(DateTimeError::overflow());
+        }
+
         let mut tm: PgTime = PgTime::new();
         let mut tm1: PgTime = PgTime::new();
         let mut tm2: PgTime = PgTime::new();
-- 
2.43.0


From f5f98c80fec4b567cd7f56299e1fec3c20b829b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:24 +0000
Subject: [PATCH 23/29] fix: interval equality and hash agree with the interval
 order

---
 src/interval.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/interval.rs b/src/interval.rs
index ad7a99d..04c9e7d 100644
--- a/src/interval.rs
+++ b/src/interval.rs
@@ -20,6 +20,7 @@ use crate::parse::{decode_interval, decode_iso8601_interval, parse_date_time};
 use crate::token::*;
 use crate::{DateTime, DateUnit, FieldType, IntervalStyle, Time};
 use std::cmp::Ordering;
+use std::hash::{Hash, Hasher};
 use std::mem::MaybeUninit;
 use std::ops::Add;
 
@@ -70,7 +71,7 @@ const fn interval_precision(t: i32) -> i32 {
 }
 
 /// Interval represents delta time.
-#[derive(Copy, Clone, Debug, Eq, PartialEq, Hash)]
+#[derive(Copy, Clone, Debug)]
 #[repr(C)]
 pub struct Interval {
     /// All time units other than days, months and years.
@@ -1028,6 +1029,23 @@ impl Add<Interval> for Interval {
     }
 }
 
+// Equality and hash have to agree with the order: 1 month equals 30 days.
+impl PartialEq for Interval {
+    #[inline]
+    fn eq(&self, other: &Self) -> bool {
+        i128::from(*self) == i128::from(*other)
+    }
+}
+
+impl Eq for Interval {}
+
+impl Hash for Interval {
+    #[inline]
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        i128::from(*self).hash(state)
+    }
+}
+
 impl PartialOrd for Interval {
     #[inline]
     fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
-- 
2.43.0


From 2697741d7e667bb818b6746fe50a3faa92e03f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:25 +0000
Subject: [PATCH 24/29] fix: the verbose interval style uses the singular for
 "1 day ago"

---
 src/interval.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/interval.rs b/src/interval.rs
index 04c9e7d..8ba9254 100644
--- a/src/interval.rs
+++ b/src/interval.rs
@@ -986,12 +986,9 @@ fn add_verbose_int_part<T: Into<i64>>(
     // first nonzero value sets is_before.
     if *is_zero {
         *is_before = value < 0;
-        offset += pg_ltostr(&mut s[offset..], value.abs());
-    } else if *is_before {
-        offset += pg_ltostr(&mut s[offset..], -value);
-    } else {
-        offset += pg_ltostr(&mut s[offset..], value);
-    };
+    }
+    let value = if *is_before { -value } else { value };
+    offset += pg_ltostr(&mut s[offset..], value);
     offset = set_one_byte(s, offset, b' ');
     offset = copy_slice(s, offset, units);
     if value != 1 {
-- 
2.43.0


From 3a0cf04d14fad7d187de5a87d966bc6f4037e897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:26 +0000
Subject: [PATCH 25/29] fix: the first ISO week may begin in the year before

2018-12-31 was truncated to the week of 2017-01-02.
---
 src/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common.rs b/src/common.rs
index 9dcacf4..ea3563c 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -147,7 +147,7 @@ impl PgTime {
             self.year -= 1;
         }
         if woy <= 1 && self.mon == MONTHS_PER_YEAR {
-            self.year -= 1;
+            self.year += 1;
         }
         iso_week_to_date(woy, self);
         self.hour = 0;
-- 
2.43.0


From afd344528dc03b701bc92b6b97f99bb6693ba91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:41 +0000
Subject: [PATCH 26/29] fix: truncating 24:00:00 to the hour leaves it
 unchanged

---
 src/time.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/time.rs b/src/time.rs
index 593e99d..9ab30cc 100644
--- a/src/time.rs
+++ b/src/time.rs
@@ -307,7 +307,8 @@ impl DateTime for Time {
     fn truncate(&self, ty: FieldType, unit: DateUnit) -> Result<Self, DateTimeError> {
         let interval: Interval = From::from(*self);
         let it = interval.truncate(ty, unit)?;
-        Ok(From::from(it))
+        // Not Time::from(it), which would take 24:00:00 to 00:00:00.
+        Ok(Time::from(it.time()))
     }
 }
 
-- 
2.43.0


From 955c519efc7d4f4d1997a3bb49598f01f6257262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:49 +0000
Subject: [PATCH 27/29] fix: text without any field of a time is not a time ","
 and "ad" were accepted as 00:00:00.

---
 src/parse.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index c95c608..9fce70f 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2421,6 +2421,14 @@ pub fn decode_time_only(
         return Err(DateTimeError::overflow());
     }
 
+    // At least one field must be about the time of day.
+    if (ctx.f_mask & DTK_TIME_M) == 0 {
+        return Err(DateTimeError::invalid(format!(
+            "time's field mask: {:x} is invalid",
+            ctx.f_mask
+        )));
+    }
+
     // To do for time zone
     Ok(ctx.f_sec)
 }
-- 
2.43.0


From 69960057b55e53b93e9ab3500e5a403954140f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:43 +0000
Subject: [PATCH 28/29] fix: a clock time in an interval keeps the fraction
 carried down to seconds

'2:00 1.5 days' lost half a day: decoding the clock overwrote the seconds
that the fraction of the field to its right had been carried down to.
---
 src/parse.rs | 42 ++++++++++++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 9fce70f..2d48f77 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -2724,6 +2724,36 @@ fn decode_units(field: usize, low_token: &[u8]) -> (TokenType, i32) {
     }
 }
 
+/// Decode an optionally signed hh:mm or hh:mm:ss of an interval, keeping the
+/// fraction that a field to the right of it has carried down to seconds.
+#[inline]
+fn decode_interval_time(
+    field: &[u8],
+    f_mask: i32,
+    range: i32,
+    t_mask: &mut i32,
+    tm: &mut PgTime,
+    f_sec: &mut i64,
+) -> Result<(), DateTimeError> {
+    let carried_sec = tm.sec;
+    let carried_f_sec = *f_sec;
+    let unsigned = match field.first() {
+        Some(b'-') | Some(b'+') => &field[1..],
+        _ => field,
+    };
+    decode_time(unsigned, f_mask, range, t_mask, tm, f_sec)?;
+
+    if field.first() == Some(&b'-') {
+        // flip the sign on all fields.
+        tm.hour = -tm.hour;
+        tm.min = -tm.min;
+        tm.sec = -tm.sec;
+        *f_sec = -(*f_sec);
+    }
+    *f_sec += carried_f_sec;
+    add_to_field(&mut tm.sec, carried_sec)
+}
+
 /// Interpret previously parsed fields for general time interval.
 /// Returns 0 if successful, DTERR code if bogus input detected.
 /// dtype, tm, fsec are output parameters.
@@ -2758,7 +2788,7 @@ pub fn decode_interval(
         let field = fields[field_idx];
         match f_type {
             TokenField::Time => {
-                decode_time(field, f_mask, range, &mut t_mask, tm, f_sec)?;
+                decode_interval_time(field, f_mask, range, &mut t_mask, tm, f_sec)?;
                 ty = TokenField::Day.value();
             }
 
@@ -2773,15 +2803,7 @@ pub fn decode_interval(
                 let find = field.iter().find(|&&i| i == b':');
                 match find {
                     Some(_) => {
-                        decode_time(&field[1..], f_mask, range, &mut t_mask, tm, f_sec)?;
-
-                        if field[0] == b'-' {
-                            // flip the sign on all fields.
-                            tm.hour = -tm.hour;
-                            tm.min = -tm.min;
-                            tm.sec = -tm.sec;
-                            *f_sec = -(*f_sec);
-                        }
+                        decode_interval_time(field, f_mask, range, &mut t_mask, tm, f_sec)?;
                         // Set the next type to be a day, if units are not
                         // specified. This handles the case of '1 +02:03' since we
                         // are reading right to left.
-- 
2.43.0


From c3ff19f8c2c2a02b95301e923dc939e34363d182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:10 +0000
Subject: [PATCH 29/29] fix: read dates and times from self-describing binary
 formats

---
 src/serde.rs | 56 +++++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 55 insertions(+), 1 deletion(-)

diff --git a/src/serde.rs b/src/serde.rs
index 880a96d..3cf9daf 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -15,9 +15,10 @@
 //! Impl the `serde::Serialize` and `serde::Deserialize` traits.
 
 use crate::{Date, DateOrder, DateStyle, Interval, IntervalStyle, Time, Timestamp};
-use serde::de::{MapAccess, SeqAccess, Visitor};
+use serde::de::{MapAccess, SeqAccess, Unexpected, Visitor};
 use serde::ser::SerializeStruct;
 use serde::{de, ser, Deserialize, Deserializer, Serialize, Serializer};
+use std::convert::TryFrom;
 use std::fmt;
 
 impl Serialize for Date {
@@ -61,6 +62,26 @@ impl<'de> Deserialize<'de> for Date {
                 Ok(Date::new(v))
             }
 
+            #[inline]
+            fn visit_i64<E>(self, v: i64) -> Result<Self::Value, E>
+            where
+                E: de::Error,
+            {
+                let v = i32::try_from(v)
+                    .map_err(|_| E::invalid_value(Unexpected::Signed(v), &self))?;
+                self.visit_i32(v)
+            }
+
+            #[inline]
+            fn visit_u64<E>(self, v: u64) -> Result<Self::Value, E>
+            where
+                E: de::Error,
+            {
+                let v = i32::try_from(v)
+                    .map_err(|_| E::invalid_value(Unexpected::Unsigned(v), &self))?;
+                self.visit_i32(v)
+            }
+
             #[inline]
             fn visit_str<E>(self, v: &str) -> Result<Self::Value, E>
             where
@@ -117,6 +138,16 @@ impl<'de> Deserialize<'de> for Time {
                 Ok(Time::from(v))
             }
 
+            #[inline]
+            fn visit_u64<E>(self, v: u64) -> Result<Self::Value, E>
+            where
+                E: de::Error,
+            {
+                let v = i64::try_from(v)
+                    .map_err(|_| E::invalid_value(Unexpected::Unsigned(v), &self))?;
+                self.visit_i64(v)
+            }
+
             #[inline]
             fn visit_str<E>(self, v: &str) -> Result<Self::Value, E>
             where
@@ -175,6 +206,16 @@ impl<'de> Deserialize<'de> for Timestamp {
                 Ok(Timestamp::new(v))
             }
 
+            #[inline]
+            fn visit_u64<E>(self, v: u64) -> Result<Self::Value, E>
+            where
+                E: de::Error,
+            {
+                let v = i64::try_from(v)
+                    .map_err(|_| E::invalid_value(Unexpected::Unsigned(v), &self))?;
+                self.visit_i64(v)
+            }
+
             #[inline]
             fn visit_str<E>(self, v: &str) -> Result<Self::Value, E>
             where
@@ -255,6 +296,19 @@ impl<'de> Deserialize<'de> for Interval {
                             _ => Err(de::Error::unknown_field(v, FIELDS)),
                         }
                     }
+
+                    #[inline]
+                    fn visit_u64<E>(self, v: u64) -> Result<Self::Value, E>
+                    where
+                        E: de::Error,
+                    {
+                        match v {
+                            0 => Ok(Field::Time),
+                            1 => Ok(Field::Day),
+                            2 => Ok(Field::Month),
+                            _ => Err(E::invalid_value(Unexpected::Unsigned(v), &self)),
+                        }
+                    }
                 }
 
                 deserializer.deserialize_identifier(FieldVisitor)
-- 
2.43.0

