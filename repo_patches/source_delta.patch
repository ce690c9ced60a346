From 7506dde8fa974e3ae7fb8b062368fb6bd5d0dcce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:30 +0000
Subject: [PATCH 01/91] fix: refuse date-time values beyond the representable
 range instead of overflowing

---
 libmseed/genutils.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/libmseed/genutils.c b/libmseed/genutils.c
index 8a2b650..3779403 100644
--- a/libmseed/genutils.c
+++ b/libmseed/genutils.c
@@ -1161,12 +1161,12 @@ ms_nstime2timestrz (nstime_t nstime, char *timestr,
  * assumed that checking the range for each value has already been
  * done.
  *
- * Returns high-precision epoch time value
+ * Returns high-precision epoch time value or NSTERROR if it cannot be represented
  ***************************************************************************/
 static nstime_t
 ms_time2nstime_int (int year, int yday, int hour, int min, int sec, uint32_t nsec)
 {
-  nstime_t nstime;
+  int64_t epoch;
   int shortyear;
   int a4, a100, a400;
   int intervening_leap_days;
@@ -1181,9 +1181,17 @@ ms_time2nstime_int (int year, int yday, int hour, int min, int sec, uint32_t nse
 
   days = (365 * (shortyear - 70) + intervening_leap_days + (yday - 1));
 
-  nstime = (nstime_t) (60 * (60 * ((nstime_t)24 * days + hour) + min) + sec) * NSTMODULUS + nsec;
+  epoch = 60 * (60 * ((int64_t)24 * days + hour) + min) + sec;
+
+  /* Check that the time can be represented, the limit is in 2262 */
+  if (epoch > INT64_MAX / NSTMODULUS ||
+      (epoch == INT64_MAX / NSTMODULUS && nsec > INT64_MAX % NSTMODULUS))
+  {
+    ms_log (2, "Time is out of range: %d,%d,%d:%d:%d.%09u\n", year, yday, hour, min, sec, nsec);
+    return NSTERROR;
+  }
 
-  return nstime;
+  return MS_EPOCH2NSTIME (epoch) + nsec;
 } /* End of ms_time2nstime_int() */
 
 
-- 
2.43.0


From e4bf756dfb598ab684b6c2bf7c27ead402de95f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:30 +0000
Subject: [PATCH 02/91] fix: reject day-of-month zero

---
 libmseed/genutils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmseed/genutils.c b/libmseed/genutils.c
index 3779403..e29c21d 100644
--- a/libmseed/genutils.c
+++ b/libmseed/genutils.c
@@ -124,7 +124,7 @@ static const int monthdays_leap[] = {31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30,
 #define VALIDMONTH(month) (month >= 1 && month <= 12)
 
 /* Check that a day-of-month is in a valid range */
-#define VALIDMONTHDAY(year, month, mday) (mday >= 0 && mday <= (LEAPYEAR (year) ? monthdays_leap[month - 1] : monthdays[month - 1]))
+#define VALIDMONTHDAY(year, month, mday) (mday >= 1 && mday <= (LEAPYEAR (year) ? monthdays_leap[month - 1] : monthdays[month - 1]))
 
 /* Check that a day-of-year is in a valid range */
 #define VALIDYEARDAY(year, yday) (yday >= 1 && yday <= (365 + (LEAPYEAR (year) ? 1 : 0)))
-- 
2.43.0


From d241d4058a63d54103c3a7503378e95801adef06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:55 +0000
Subject: [PATCH 03/91] fix: keep the sign and check the range when parsing
 epoch time strings

---
 libmseed/genutils.c | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/libmseed/genutils.c b/libmseed/genutils.c
index e29c21d..38235cb 100644
--- a/libmseed/genutils.c
+++ b/libmseed/genutils.c
@@ -1294,7 +1294,9 @@ ms_timestr2nstime (const char *timestr)
   int error = 0;
   int length;
   int fields;
+  int negative;
   int64_t sec = 0;
+  int64_t fnsec = 0;
   double fsec = 0.0;
   nstime_t nstime;
 
@@ -1368,17 +1370,32 @@ ms_timestr2nstime (const char *timestr)
       return NSTERROR;
     }
 
-    /* Convert seconds and fractional seconds to nanoseconds, return combination */
-    nstime = MS_EPOCH2NSTIME (sec);
-
+    /* Convert fractional seconds to nanoseconds */
     if (fsec != 0.0)
     {
-      if (nstime >= 0)
-        nstime += (int)(fsec * 1000000000.0 + 0.5);
-      else
-        nstime -= (int)(fsec * 1000000000.0 + 0.5);
+      fnsec = (int64_t)(fsec * 1000000000.0 + 0.5);
+    }
+
+    /* Sign is determined from the string as it is lost for a negative zero seconds value */
+    negative = (timestr[0] == '-') ? 1 : 0;
+
+    /* Check that the epoch value can be represented */
+    if (sec > INT64_MAX / NSTMODULUS || sec < -(INT64_MAX / NSTMODULUS) ||
+        ((sec == INT64_MAX / NSTMODULUS || sec == -(INT64_MAX / NSTMODULUS)) &&
+         fnsec > INT64_MAX % NSTMODULUS + negative))
+    {
+      ms_log (2, "Epoch value is out of range: '%s'\n", timestr);
+      return NSTERROR;
     }
 
+    /* Convert seconds to nanoseconds, return combination */
+    nstime = MS_EPOCH2NSTIME (sec);
+
+    if (negative)
+      nstime -= fnsec;
+    else
+      nstime += fnsec;
+
     return nstime;
   }
   /* Otherwise, a non-epoch value time string */
-- 
2.43.0


From 80e58416823049ad1ef083f6295dc4a5d8e7fbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:55 +0000
Subject: [PATCH 04/91] fix: reject out-of-range fractional seconds in time
 strings

---
 libmseed/genutils.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/libmseed/genutils.c b/libmseed/genutils.c
index 38235cb..807886b 100644
--- a/libmseed/genutils.c
+++ b/libmseed/genutils.c
@@ -1477,6 +1477,12 @@ ms_mdtimestr2nstime (const char *timestr)
                    &year, &mon, &mday, &hour, &min, &sec, &fsec);
 
   /* Convert fractional seconds to nanoseconds */
+  if (fsec < 0.0 || fsec >= 1.0)
+  {
+    ms_log (2, "fractional second (%g) is out of range\n", fsec);
+    return NSTERROR;
+  }
+
   if (fsec != 0.0)
   {
     nsec = (uint32_t)(fsec * 1000000000.0 + 0.5);
@@ -1583,6 +1589,12 @@ ms_seedtimestr2nstime (const char *seedtimestr)
                    &year, &yday, &hour, &min, &sec, &fsec);
 
   /* Convert fractional seconds to nanoseconds */
+  if (fsec < 0.0 || fsec >= 1.0)
+  {
+    ms_log (2, "fractional second (%g) is out of range\n", fsec);
+    return NSTERROR;
+  }
+
   if (fsec != 0.0)
   {
     nsec = (uint32_t)(fsec * 1000000000.0 + 0.5);
-- 
2.43.0


From 021009160ff96952b1a34a2e60ce4ece16e6dd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:55 +0000
Subject: [PATCH 05/91] fix: print the sign of epoch times within one second
 before the epoch

---
 libmseed/genutils.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/libmseed/genutils.c b/libmseed/genutils.c
index 807886b..3160ba8 100644
--- a/libmseed/genutils.c
+++ b/libmseed/genutils.c
@@ -955,6 +955,10 @@ ms_nstime2timestr (nstime_t nstime, char *timestr,
     rawnanosec *= -1;
   }
 
+  /* Epoch values are printed as a signed magnitude, as opposed to date-time values */
+  if (timeformat == UNIXEPOCH)
+    nanosec = rawnanosec;
+
   /* Determine microsecond and sub-microsecond values */
   microsec = nanosec / 1000;
   submicro = nanosec - (microsec * 1000);
@@ -1052,7 +1056,8 @@ ms_nstime2timestr (nstime_t nstime, char *timestr,
       break;
     case UNIXEPOCH:
       expected = -1;
-      printed  = snprintf (timestr, 22, "%" PRId64 ".%06d", rawisec, rawnanosec / 1000);
+      printed  = snprintf (timestr, 22, "%s%" PRId64 ".%06d",
+                           (nstime < 0 && rawisec == 0) ? "-" : "", rawisec, microsec);
       break;
     case NANOSECONDEPOCH:
       expected = -1;
@@ -1096,7 +1101,8 @@ ms_nstime2timestr (nstime_t nstime, char *timestr,
       break;
     case UNIXEPOCH:
       expected = -1;
-      printed  = snprintf (timestr, 22, "%" PRId64 ".%09d", rawisec, rawnanosec);
+      printed  = snprintf (timestr, 22, "%s%" PRId64 ".%09d",
+                           (nstime < 0 && rawisec == 0) ? "-" : "", rawisec, nanosec);
       break;
     case NANOSECONDEPOCH:
       expected = -1;
-- 
2.43.0


From fde4cb083810fd0864c1e5c4d9f04c50f74272f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:20 +0000
Subject: [PATCH 06/91] fix: do not read beyond the maximum length when
 measuring UTF-8 strings

---
 libmseed/genutils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmseed/genutils.c b/libmseed/genutils.c
index 3160ba8..06a5f6b 100644
--- a/libmseed/genutils.c
+++ b/libmseed/genutils.c
@@ -549,7 +549,7 @@ utf8length_int (const char *str, int maxlength)
   int length = 0;
   int offset;
 
-  for (offset = 0; str[offset] && offset < maxlength; offset++)
+  for (offset = 0; offset < maxlength && str[offset]; offset++)
   {
     type = utf8d[(uint8_t)str[offset]];
     state = utf8d[256 + state * 16 + type];
-- 
2.43.0


From 4bffc0b1c052cdd18453ba93b8f546f4654a370b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:48 +0000
Subject: [PATCH 07/91] fix: convert negative samples to the nearest integer
 and leave the segment unchanged on failure

---
 libmseed/tracelist.c | 127 +++++++++++++++++++++++++++----------------
 1 file changed, 81 insertions(+), 46 deletions(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index 920dede..2dd33e0 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -1336,6 +1336,45 @@ mstl3_add_recordptr (MS3TraceSeg *seg, const MS3Record *msr, nstime_t endtime, i
   return recordptr;
 } /* End of mstl3_add_recordptr() */
 
+/***************************************************************************
+ * Round a value in the range of a 32-bit integer to the nearest integer,
+ * away from zero when halfway.
+ ***************************************************************************/
+static int32_t
+mstl3_roundsample (double value)
+{
+  int32_t integer = (int32_t)value;
+  double fraction = value - integer;
+
+  if (fraction >= 0.5)
+    return integer + 1;
+  if (fraction <= -0.5)
+    return integer - 1;
+
+  return integer;
+}
+
+/***************************************************************************
+ * Reallocate the sample buffer of a segment for a reduced sample size,
+ * only if not pre-allocating.  If the buffer cannot be re-allocated it
+ * remains in use, being larger than needed.
+ ***************************************************************************/
+static void
+mstl3_shrinksamples (MS3TraceSeg *seg, size_t samplesize)
+{
+  size_t datasize = (size_t)seg->numsamples * samplesize;
+  void *datasamples;
+
+  if (libmseed_prealloc_block_size != 0 || datasize == 0)
+    return;
+
+  if ((datasamples = libmseed_memory.realloc (seg->datasamples, datasize)) != NULL)
+  {
+    seg->datasamples = datasamples;
+    seg->datasize = datasize;
+  }
+}
+
 /**********************************************************************/ /**
  * @brief Convert the data samples associated with an MS3TraceSeg to another
  * data type
@@ -1344,8 +1383,8 @@ mstl3_add_recordptr (MS3TraceSeg *seg, const MS3Record *msr, nstime_t endtime, i
  * error will be returned.
  *
  * When converting float & double sample types to integer type a
- * simple rounding is applied by adding 0.5 to the sample value before
- * converting (truncating) to integer.  This compensates for common
+ * simple rounding to the nearest integer is applied, away from zero
+ * for values halfway between integers.  This compensates for common
  * machine representations of floating point values, e.g. "40.0"
  * represented by "39.99999999".
  *
@@ -1354,7 +1393,10 @@ mstl3_add_recordptr (MS3TraceSeg *seg, const MS3Record *msr, nstime_t endtime, i
  * If the truncate flag is false (zero) and loss of precision is
  * detected an error is returned.  Loss of precision is determined by
  * testing that the difference between the floating point value and
- * the (truncated) integer value is greater than 0.000001.
+ * the (truncated) integer value is greater than 0.000001.  A value that
+ * cannot be represented as a 32-bit integer is always an error.
+ *
+ * On error the segment is not changed.
  *
  * @param[in] seg The target ::MS3TraceSeg to convert
  * @param[in] type The desired data sample type:
@@ -1393,6 +1435,18 @@ mstl3_convertsamples (MS3TraceSeg *seg, char type, int8_t truncate)
     return -1;
   }
 
+  if (type != 'i' && type != 'f' && type != 'd')
+  {
+    ms_log (2, "Unsupported sample type for conversion: '%c'\n", type);
+    return -1;
+  }
+
+  if (seg->numsamples > 0 && seg->sampletype != 'i' && seg->sampletype != 'f' && seg->sampletype != 'd')
+  {
+    ms_log (2, "Cannot convert samples of unknown type: '%c'\n", seg->sampletype);
+    return -1;
+  }
+
   idata = (int32_t *)seg->datasamples;
   fdata = (float *)seg->datasamples;
   ddata = (double *)seg->datasamples;
@@ -1400,47 +1454,38 @@ mstl3_convertsamples (MS3TraceSeg *seg, char type, int8_t truncate)
   /* Convert to 32-bit integers */
   if (type == 'i')
   {
-    if (seg->sampletype == 'f') /* Convert floats to integers with simple rounding */
+    /* Check all samples before converting any, leaving the segment unchanged on error */
+    for (idx = 0; idx < seg->numsamples; idx++)
     {
-      for (idx = 0; idx < seg->numsamples; idx++)
+      double value = (seg->sampletype == 'f') ? (double)fdata[idx] : ddata[idx];
+
+      /* Check that the value can be represented, NaN included */
+      if (!(value > (double)INT32_MIN - 0.5 && value < (double)INT32_MAX + 0.5))
       {
-        /* Check for loss of sub-integer */
-        if (!truncate && (fdata[idx] - (int32_t)fdata[idx]) > 0.000001)
-        {
-          ms_log (2, "Loss of precision when converting floats to integers, loss: %g\n",
-                  (fdata[idx] - (int32_t)fdata[idx]));
-          return -1;
-        }
+        ms_log (2, "Cannot convert sample value to a 32-bit integer: %g\n", value);
+        return -1;
+      }
 
-        idata[idx] = (int32_t) (fdata[idx] + 0.5);
+      /* Check for loss of sub-integer */
+      if (!truncate && (value - (int32_t)value > 0.000001 || value - (int32_t)value < -0.000001))
+      {
+        ms_log (2, "Loss of precision when converting samples to integers, loss: %g\n",
+                value - (int32_t)value);
+        return -1;
       }
     }
+
+    if (seg->sampletype == 'f') /* Convert floats to integers with simple rounding */
+    {
+      for (idx = 0; idx < seg->numsamples; idx++)
+        idata[idx] = mstl3_roundsample (fdata[idx]);
+    }
     else if (seg->sampletype == 'd') /* Convert doubles to integers with simple rounding */
     {
       for (idx = 0; idx < seg->numsamples; idx++)
-      {
-        /* Check for loss of sub-integer */
-        if (!truncate && (ddata[idx] - (int32_t)ddata[idx]) > 0.000001)
-        {
-          ms_log (2, "Loss of precision when converting doubles to integers, loss: %g\n",
-                  (ddata[idx] - (int32_t)ddata[idx]));
-          return -1;
-        }
-
-        idata[idx] = (int32_t) (ddata[idx] + 0.5);
-      }
+        idata[idx] = mstl3_roundsample (ddata[idx]);
 
-      /* Reallocate buffer for reduced size needed, only if not pre-allocating */
-      if (libmseed_prealloc_block_size == 0)
-      {
-        if (!(seg->datasamples = libmseed_memory.realloc (seg->datasamples,
-                                                          (size_t) (seg->numsamples * sizeof (int32_t)))))
-        {
-          ms_log (2, "Cannot re-allocate buffer for sample conversion\n");
-          return -1;
-        }
-        seg->datasize = seg->numsamples * sizeof (int32_t);
-      }
+      mstl3_shrinksamples (seg, sizeof (int32_t));
     }
 
     seg->sampletype = 'i';
@@ -1459,17 +1504,7 @@ mstl3_convertsamples (MS3TraceSeg *seg, char type, int8_t truncate)
       for (idx = 0; idx < seg->numsamples; idx++)
         fdata[idx] = (float)ddata[idx];
 
-      /* Reallocate buffer for reduced size needed, only if not pre-allocating */
-      if (libmseed_prealloc_block_size == 0)
-      {
-        if (!(seg->datasamples = libmseed_memory.realloc (seg->datasamples,
-                                                          (size_t) (seg->numsamples * sizeof (float)))))
-        {
-          ms_log (2, "Cannot re-allocate buffer after sample conversion\n");
-          return -1;
-        }
-        seg->datasize = seg->numsamples * sizeof (float);
-      }
+      mstl3_shrinksamples (seg, sizeof (float));
     }
 
     seg->sampletype = 'f';
-- 
2.43.0


From 3837ab3352a8f765c34f4495a50733e46ea317f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:51 +0000
Subject: [PATCH 08/91] fix: find the end of empty and truncated messages added
 to the log registry

---
 libmseed/logging.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libmseed/logging.c b/libmseed/logging.c
index 32b3859..76fe194 100644
--- a/libmseed/logging.c
+++ b/libmseed/logging.c
@@ -409,10 +409,12 @@ rlog_int (MSLogParam *logp, const char *function, int level,
   /* Add warning/error message to registry if enabled */
   if (level >= 1 && logp->registry.maxmessages > 0)
   {
+    size_t length = strlen (message);
+
     /* Remove trailing newline if present */
-    if (message[printed - 1] == '\n')
+    if (length > 0 && message[length - 1] == '\n')
     {
-      message[printed - 1] = '\0';
+      message[length - 1] = '\0';
       printed -= 1;
     }
 
-- 
2.43.0


From 146c5381bfccf7cdcf0352b3b7fee218c7ce2d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:51 +0000
Subject: [PATCH 09/91] fix: report and maintain log registry message counts
 and release entries with the configured allocator

---
 libmseed/logging.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/libmseed/logging.c b/libmseed/logging.c
index 76fe194..2200433 100644
--- a/libmseed/logging.c
+++ b/libmseed/logging.c
@@ -494,10 +494,12 @@ add_message_int (MSLogRegistry *logreg, const char *function, int level,
         logentry->next = NULL;
 
       if (count > logreg->maxmessages)
-        free (logentry);
+        libmseed_memory.free (logentry);
 
       logentry = lognext;
     }
+
+    logreg->messagecnt = logreg->maxmessages;
   }
 
   return 0;
@@ -579,6 +581,7 @@ ms_rlog_emit (MSLogParam *logp, int count, int context)
   char local_message[MAX_LOG_MSG_LENGTH];
   char *message = NULL;
   int emit = (count > 0) ? count : -1;
+  int emitted = 0;
 
   if (!logp)
     logp = &gMSLogParam;
@@ -588,6 +591,7 @@ ms_rlog_emit (MSLogParam *logp, int count, int context)
   while (logentry && emit)
   {
     logp->registry.messages = logentry->next;
+    logp->registry.messagecnt -= 1;
 
     logentry->next = logprint;
     logprint = logentry;
@@ -618,12 +622,14 @@ ms_rlog_emit (MSLogParam *logp, int count, int context)
 
     print_message_int (logp, logprint->level, message, "\n");
 
+    emitted++;
+
     logentry = logprint->next;
-    free (logprint);
+    libmseed_memory.free (logprint);
     logprint = logentry;
   }
 
-  return 0;
+  return emitted;
 } /* End of ms_rlog_emit() */
 
 
@@ -651,7 +657,8 @@ ms_rlog_free (MSLogParam *logp)
     freed++;
 
     logp->registry.messages = logentry->next;
-    free (logentry);
+    logp->registry.messagecnt -= 1;
+    libmseed_memory.free (logentry);
     logentry = logp->registry.messages;
   }
 
-- 
2.43.0


From c213d8a5529249efba192c0376ebccbb0371027c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:58 +0000
Subject: [PATCH 10/91] fix: report extra headers that cannot be stored, leave
 them unchanged when setting fails

---
 libmseed/extraheaders.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libmseed/extraheaders.c b/libmseed/extraheaders.c
index ae9f896..adb90c6 100644
--- a/libmseed/extraheaders.c
+++ b/libmseed/extraheaders.c
@@ -462,7 +462,11 @@ mseh_set_ptr_r (MS3Record *msr, const char *ptr,
   /* Serialized extra headers and free parse state if not being retained */
   if (parsestate == NULL)
   {
-    mseh_serialize (msr, &parsed);
+    if (rv == true && mseh_serialize (msr, &parsed) < 0)
+    {
+      rv = false;
+    }
+
     mseh_free_parsestate (&parsed);
   }
   /* If changes were applied, the immutable form of the document is now invalid */
-- 
2.43.0


From fe7ca2d03592c5ef5c87b5763de8b57817cf2ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:58 +0000
Subject: [PATCH 11/91] fix: find extra headers in the parse state when the
 record has none serialized yet

---
 libmseed/extraheaders.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libmseed/extraheaders.c b/libmseed/extraheaders.c
index adb90c6..51827b6 100644
--- a/libmseed/extraheaders.c
+++ b/libmseed/extraheaders.c
@@ -166,12 +166,12 @@ mseh_get_ptr_r (const MS3Record *msr, const char *ptr,
   }
 
   /* Nothing can be found in no headers */
-  if (!msr->extralength)
+  if (parsed == NULL && !msr->extralength)
   {
     return 1;
   }
 
-  if (!msr->extra)
+  if (parsed == NULL && !msr->extra)
   {
     ms_log (2, "%s() Expected extra headers (msr->extra) are not present\n", __func__);
     return MS_GENERROR;
@@ -203,7 +203,8 @@ mseh_get_ptr_r (const MS3Record *msr, const char *ptr,
   }
 
   /* Create immutable document from mutable if needed */
-  if (parsed->mut_doc != NULL && parsed->doc == NULL)
+  if (parsed->mut_doc != NULL && parsed->doc == NULL &&
+      yyjson_mut_doc_get_root (parsed->mut_doc) != NULL)
   {
     if ((parsed->doc = yyjson_mut_doc_imut_copy (parsed->mut_doc, &alc)) == NULL)
     {
-- 
2.43.0


From 6eaae1d54e4dc0a8b4bfb7294f30eb8c826b03e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:58 +0000
Subject: [PATCH 12/91] fix: release parsed extra headers after replacing them
 and when parsing fails

---
 libmseed/extraheaders.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libmseed/extraheaders.c b/libmseed/extraheaders.c
index 51827b6..3eecee9 100644
--- a/libmseed/extraheaders.c
+++ b/libmseed/extraheaders.c
@@ -58,6 +58,7 @@ parse_json (char *jsonstring, size_t length, LM_PARSED_JSON *parsed)
   yyjson_read_flag flg = YYJSON_READ_NOFLAG;
   yyjson_read_err err;
   yyjson_alc alc = {_priv_malloc, _priv_realloc, _priv_free, NULL};
+  int allocated = (parsed == NULL);
 
   /* Allocate parsed state if needed */
   if (!parsed)
@@ -99,6 +100,10 @@ parse_json (char *jsonstring, size_t length, LM_PARSED_JSON *parsed)
   {
     ms_log (2, "%s() Cannot parse extra header JSON: %s\n",
             __func__, (err.msg) ? err.msg : "Unknown error");
+
+    if (allocated)
+      libmseed_memory.free (parsed);
+
     return NULL;
   }
 
@@ -1121,6 +1126,8 @@ mseh_replace (MS3Record *msr, char *jsonstring)
     /* Serialize new JSON string */
     serialized = yyjson_write_opts (doc, write_flg, &alc, &serialsize, &write_err);
 
+    yyjson_doc_free (doc);
+
     if (serialized == NULL)
     {
       ms_log (2, "%s() Cannot write extra header JSON: %s\n",
-- 
2.43.0


From 08b327aec8553ae8a7413b517ca99ed8cf331027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:58 +0000
Subject: [PATCH 13/91] fix: do not write to an extra header string buffer of
 zero length

---
 libmseed/extraheaders.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmseed/extraheaders.c b/libmseed/extraheaders.c
index 3eecee9..c9ababf 100644
--- a/libmseed/extraheaders.c
+++ b/libmseed/extraheaders.c
@@ -243,7 +243,7 @@ mseh_get_ptr_r (const MS3Record *msr, const char *ptr,
   }
   else if (type == 's' && yyjson_is_str (extravalue))
   {
-    if (value)
+    if (value && maxlength > 0)
     {
       stringvalue = unsafe_yyjson_get_str (extravalue);
       strncpy ((char *)value, stringvalue, maxlength - 1);
-- 
2.43.0


From b76d8e1ff13f56c8ad9231c145df3d9d165cf049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:24 +0000
Subject: [PATCH 14/91] fix: do not remove an extra header when memory for its
 new value cannot be allocated

---
 libmseed/extraheaders.c | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/libmseed/extraheaders.c b/libmseed/extraheaders.c
index c9ababf..f28669f 100644
--- a/libmseed/extraheaders.c
+++ b/libmseed/extraheaders.c
@@ -326,6 +326,7 @@ mseh_set_ptr_r (MS3Record *msr, const char *ptr,
   yyjson_mut_val *merged_val = NULL;
   yyjson_mut_val *target_val = NULL;
   yyjson_mut_val *array_val = NULL;
+  yyjson_mut_val *set_val = NULL;
   bool rv = false;
 
   if (!msr || !ptr || !value)
@@ -395,20 +396,20 @@ mseh_set_ptr_r (MS3Record *msr, const char *ptr,
   switch (type)
   {
   case 'n':
-    rv = yyjson_mut_doc_ptr_set (parsed->mut_doc, ptr,
-                                 yyjson_mut_real (parsed->mut_doc, *((double *)value)));
+    set_val = yyjson_mut_real (parsed->mut_doc, *((double *)value));
+    rv = set_val && yyjson_mut_doc_ptr_set (parsed->mut_doc, ptr, set_val);
     break;
   case 'i':
-    rv = yyjson_mut_doc_ptr_set (parsed->mut_doc, ptr,
-                                 yyjson_mut_sint (parsed->mut_doc, *((int64_t *)value)));
+    set_val = yyjson_mut_sint (parsed->mut_doc, *((int64_t *)value));
+    rv = set_val && yyjson_mut_doc_ptr_set (parsed->mut_doc, ptr, set_val);
     break;
   case 's':
-    rv = yyjson_mut_doc_ptr_set (parsed->mut_doc, ptr,
-                                 yyjson_mut_strcpy (parsed->mut_doc, (const char *)value));
+    set_val = yyjson_mut_strcpy (parsed->mut_doc, (const char *)value);
+    rv = set_val && yyjson_mut_doc_ptr_set (parsed->mut_doc, ptr, set_val);
     break;
   case 'b':
-    rv = yyjson_mut_doc_ptr_set (parsed->mut_doc, ptr,
-                                 yyjson_mut_bool (parsed->mut_doc, *((int *)value) ? true : false));
+    set_val = yyjson_mut_bool (parsed->mut_doc, *((int *)value) ? true : false);
+    rv = set_val && yyjson_mut_doc_ptr_set (parsed->mut_doc, ptr, set_val);
     break;
   case 'M':
     /* Parse supplied patch */
@@ -440,10 +441,13 @@ mseh_set_ptr_r (MS3Record *msr, const char *ptr,
 
     break;
   case 'V':
-    rv = yyjson_mut_doc_ptr_set (parsed->mut_doc, ptr,
-                                 yyjson_mut_val_mut_copy (parsed->mut_doc, (yyjson_mut_val *)value));
+    set_val = yyjson_mut_val_mut_copy (parsed->mut_doc, (yyjson_mut_val *)value);
+    rv = set_val && yyjson_mut_doc_ptr_set (parsed->mut_doc, ptr, set_val);
     break;
   case 'A':
+    if ((set_val = yyjson_mut_val_mut_copy (parsed->mut_doc, (yyjson_mut_val *)value)) == NULL)
+      break;
+
     /* Search for existing array, create if necessary */
     if ((array_val = yyjson_mut_doc_ptr_get (parsed->mut_doc, ptr)) == NULL)
     {
@@ -457,8 +461,7 @@ mseh_set_ptr_r (MS3Record *msr, const char *ptr,
     }
 
     /* Append supplied value, will return false if array_val == NULL */
-    rv = yyjson_mut_arr_append (array_val,
-                                yyjson_mut_val_mut_copy (parsed->mut_doc, (yyjson_mut_val *)value));
+    rv = yyjson_mut_arr_append (array_val, set_val);
     break;
   default:
     ms_log (2, "%s() Unrecognized value type '%d'\n", __func__, type);
-- 
2.43.0


From e14a57e287614b94dcc84784c51a99ba287c1f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:08 +0000
Subject: [PATCH 15/91] fix: return 64-bit integer extra header values without
 truncation

---
 libmseed/extraheaders.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmseed/extraheaders.c b/libmseed/extraheaders.c
index f28669f..8d7cb27 100644
--- a/libmseed/extraheaders.c
+++ b/libmseed/extraheaders.c
@@ -239,7 +239,7 @@ mseh_get_ptr_r (const MS3Record *msr, const char *ptr,
   else if (type == 'i' && yyjson_is_int (extravalue))
   {
     if (value)
-      *((int64_t *)value) = unsafe_yyjson_get_int (extravalue);
+      *((int64_t *)value) = unsafe_yyjson_get_sint (extravalue);
   }
   else if (type == 's' && yyjson_is_str (extravalue))
   {
-- 
2.43.0


From e0d3cf6662a2f9b93f6cc3298fffa4ad6e6c9442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:57 +0000
Subject: [PATCH 16/91] fix: match the escaped character in selection patterns
 instead of any character

---
 libmseed/selection.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmseed/selection.c b/libmseed/selection.c
index cd7cb31..5da15d7 100644
--- a/libmseed/selection.c
+++ b/libmseed/selection.c
@@ -916,7 +916,7 @@ ms_globmatch (const char *string, const char *pattern)
     case '\\':
       if (*pattern)
         c = *pattern++;
-      break;
+      /* fall through */
 
     default:
       if (c != *string)
-- 
2.43.0


From b90d0cc9609f483010144998fbb096bcab915b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:57 +0000
Subject: [PATCH 17/91] fix: report invalid times in selection files instead of
 selecting open time windows

---
 libmseed/selection.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmseed/selection.c b/libmseed/selection.c
index 5da15d7..af7793b 100644
--- a/libmseed/selection.c
+++ b/libmseed/selection.c
@@ -553,7 +553,7 @@ ms3_readselectionsfile (MS3Selections **ppselections, const char *filename)
     if (cp)
     {
       starttime = ms_timestr2nstime (cp);
-      if (starttime == NSTUNSET)
+      if (starttime == NSTERROR)
       {
         ms_log (2, "Cannot convert data selection start time (line %d): %s\n", linecount, cp);
         return -1;
@@ -570,7 +570,7 @@ ms3_readselectionsfile (MS3Selections **ppselections, const char *filename)
     if (cp)
     {
       endtime = ms_timestr2nstime (cp);
-      if (endtime == NSTUNSET)
+      if (endtime == NSTERROR)
       {
         ms_log (2, "Cannot convert data selection end time (line %d): %s\n", linecount, cp);
         return -1;
-- 
2.43.0


From 4cede246520549eca04fcb56ba4abb80c3185cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:57 +0000
Subject: [PATCH 18/91] fix: close selection files on errors and count only the
 selections added

---
 libmseed/selection.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/libmseed/selection.c b/libmseed/selection.c
index af7793b..ba87074 100644
--- a/libmseed/selection.c
+++ b/libmseed/selection.c
@@ -556,7 +556,7 @@ ms3_readselectionsfile (MS3Selections **ppselections, const char *filename)
       if (starttime == NSTERROR)
       {
         ms_log (2, "Cannot convert data selection start time (line %d): %s\n", linecount, cp);
-        return -1;
+        goto error;
       }
     }
 
@@ -573,7 +573,7 @@ ms3_readselectionsfile (MS3Selections **ppselections, const char *filename)
       if (endtime == NSTERROR)
       {
         ms_log (2, "Cannot convert data selection end time (line %d): %s\n", linecount, cp);
-        return -1;
+        goto error;
       }
     }
 
@@ -594,7 +594,7 @@ ms3_readselectionsfile (MS3Selections **ppselections, const char *filename)
         if (longpver < 0 || longpver > 255 )
         {
           ms_log (2, "Cannot convert publication version (line %d): %s\n", linecount, fields[3]);
-          return -1;
+          goto error;
         }
         else
         {
@@ -606,7 +606,7 @@ ms3_readselectionsfile (MS3Selections **ppselections, const char *filename)
       if (ms3_addselect (ppselections, fields[0], starttime, endtime, pubversion))
       {
         ms_log (2, "%s: Error adding selection on line %d\n", filename, linecount);
-        return -1;
+        goto error;
       }
     }
     /* Test for "Network  Station  Location  Channel  [Quality  [Starttime  [Endtime]]]" */
@@ -625,7 +625,7 @@ ms3_readselectionsfile (MS3Selections **ppselections, const char *filename)
         if (longpver < 0 || longpver > 255 )
         {
           ms_log (2, "Cannot convert publication version (line %d): %s\n", linecount, fields[4]);
-          return -1;
+          goto error;
         }
         else
         {
@@ -637,12 +637,13 @@ ms3_readselectionsfile (MS3Selections **ppselections, const char *filename)
                               starttime, endtime, pubversion))
       {
         ms_log (2, "%s: Error adding selection on line %d\n", filename, linecount);
-        return -1;
+        goto error;
       }
     }
     else
     {
       ms_log (1, "%s: Skipping unrecognized data selection on line %d\n", filename, linecount);
+      continue;
     }
 
     selectcount++;
@@ -652,6 +653,12 @@ ms3_readselectionsfile (MS3Selections **ppselections, const char *filename)
     fclose (fp);
 
   return selectcount;
+
+error:
+  if (fp != stdin)
+    fclose (fp);
+
+  return -1;
 } /* End of ms_readselectionsfile() */
 
 /**********************************************************************/ /**
-- 
2.43.0


From 7b24baa9327f61151df4443b6d03f1c828c278a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:20 +0000
Subject: [PATCH 19/91] fix: do not read the remainder of long lines in
 selection files as separate selections

---
 libmseed/selection.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/libmseed/selection.c b/libmseed/selection.c
index ba87074..5c79472 100644
--- a/libmseed/selection.c
+++ b/libmseed/selection.c
@@ -439,6 +439,9 @@ ms3_readselectionsfile (MS3Selections **ppselections, const char *filename)
   int selectcount = 0;
   int linecount = 0;
   int fieldidx;
+  int character;
+  size_t length;
+  uint8_t truncated;
   uint8_t isstart2;
   uint8_t isend3;
   uint8_t isstart6;
@@ -469,6 +472,18 @@ ms3_readselectionsfile (MS3Selections **ppselections, const char *filename)
   {
     linecount++;
 
+    /* Discard the remainder of a line that is longer than the buffer */
+    length = strlen (selectline);
+    truncated = 0;
+    if (length > 0 && selectline[length - 1] != '\n')
+    {
+      while ((character = fgetc (fp)) != EOF && character != '\n')
+      {
+        if (!isspace (character))
+          truncated = 1;
+      }
+    }
+
     /* Reset fields array */
     for (fieldidx = 0; fieldidx < MAX_SELECTION_FIELDS; fieldidx++)
       fields[fieldidx] = NULL;
@@ -506,6 +521,12 @@ ms3_readselectionsfile (MS3Selections **ppselections, const char *filename)
     if (*line == '#')
       continue;
 
+    if (truncated)
+    {
+      ms_log (2, "Data selection is too long (line %d): %s\n", linecount, line);
+      goto error;
+    }
+
     /* Set fields array to whitespace delimited fields */
     cp = line;
     next = 0;  /* For this loop: 0 = whitespace, 1 = non-whitespace */
-- 
2.43.0


From 5d32a70dd6f51d700508eb27e597f4a8be71e620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:20 +0000
Subject: [PATCH 20/91] fix: refuse selection patterns that are too long
 instead of truncating them

---
 libmseed/selection.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/libmseed/selection.c b/libmseed/selection.c
index 5c79472..009188f 100644
--- a/libmseed/selection.c
+++ b/libmseed/selection.c
@@ -191,6 +191,12 @@ ms3_addselect (MS3Selections **ppselections, const char *sidpattern,
     return -1;
   }
 
+  if (strlen (sidpattern) >= sizeof (newsl->sidpattern))
+  {
+    ms_log (2, "%s(): Source ID pattern is too long: '%s'\n", __func__, sidpattern);
+    return -1;
+  }
+
   /* Allocate new SelectTime and populate */
   if (!(newst = (MS3SelectTime *)libmseed_memory.malloc (sizeof (MS3SelectTime))))
   {
@@ -318,6 +324,15 @@ ms3_addselect_comp (MS3Selections **ppselections, char *network, char *station,
     return -1;
   }
 
+  if ((network && strlen (network) >= sizeof (selnet)) ||
+      (station && strlen (station) >= sizeof (selsta)) ||
+      (location && strlen (location) >= sizeof (selloc)) ||
+      (channel && strlen (channel) >= sizeof (selchan)))
+  {
+    ms_log (2, "%s(): Network, station, location or channel pattern is too long\n", __func__);
+    return -1;
+  }
+
   if (network)
   {
     strncpy (selnet, network, sizeof (selnet));
-- 
2.43.0


From fb89b4d376cc4a79f2243a1a977c54a15af928f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:20 +0000
Subject: [PATCH 21/91] fix: report invalid publication versions in selection
 files

---
 libmseed/selection.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libmseed/selection.c b/libmseed/selection.c
index 009188f..87d96c2 100644
--- a/libmseed/selection.c
+++ b/libmseed/selection.c
@@ -613,6 +613,12 @@ ms3_readselectionsfile (MS3Selections **ppselections, const char *filename)
       }
     }
 
+    if (fieldidx == 4 && isstart2 && isend3 && !ms_isinteger (fields[3]))
+    {
+      ms_log (2, "Cannot convert publication version (line %d): %s\n", linecount, fields[3]);
+      goto error;
+    }
+
     /* Test for "SourceID  [Starttime  [Endtime  [Pubversion]]]" */
     if (fieldidx == 1 ||
         (fieldidx == 2 && isstart2) ||
-- 
2.43.0


From 5ea072e49bb3c5be8d6169cc00daa9bc280076f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:04 +0000
Subject: [PATCH 22/91] fix: keep record detection within the bytes available
 and exact for all stated lengths

---
 libmseed/parseutils.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/libmseed/parseutils.c b/libmseed/parseutils.c
index 0ce29ec..d1e862f 100644
--- a/libmseed/parseutils.c
+++ b/libmseed/parseutils.c
@@ -204,10 +204,13 @@ ms3_detect (const char *record, uint64_t recbuflen, uint8_t *formatversion)
   {
     *formatversion = 3;
 
-    reclen = MS3FSDH_LENGTH                   /* Length of fixed portion of header */
-             + *pMS3FSDH_SIDLENGTH (record)   /* Length of source identifier */
-             + *pMS3FSDH_EXTRALENGTH (record) /* Length of extra headers */
-             + *pMS3FSDH_DATALENGTH (record); /* Length of data payload */
+    /* Lengths are stored in little endian byte order */
+    swapflag = (ms_bigendianhost ()) ? 1 : 0;
+
+    reclen = (int64_t)MS3FSDH_LENGTH                            /* Length of fixed portion of header */
+             + *pMS3FSDH_SIDLENGTH (record)                     /* Length of source identifier */
+             + HO2u (*pMS3FSDH_EXTRALENGTH (record), swapflag)  /* Length of extra headers */
+             + HO4u (*pMS3FSDH_DATALENGTH (record), swapflag);  /* Length of data payload */
 
     foundlen = 1;
   }
@@ -215,6 +218,10 @@ ms3_detect (const char *record, uint64_t recbuflen, uint8_t *formatversion)
   {
     *formatversion = 2;
 
+    /* More data needed if the fixed section of the header is not complete */
+    if (recbuflen < 48)
+      return 0;
+
     /* Check to see if byte swapping is needed by checking for sane year and day */
     if (!MS_ISVALIDYEARDAY (*pMS2FSDH_YEAR(record), *pMS2FSDH_DAY(record)))
       swapflag = 1;
@@ -224,7 +231,7 @@ ms3_detect (const char *record, uint64_t recbuflen, uint8_t *formatversion)
     /* Loop through blockettes as long as number is non-zero and viable */
     while (blkt_offset != 0 &&
            blkt_offset > 47 &&
-           blkt_offset <= recbuflen)
+           (uint64_t)(blkt_offset + 4) <= recbuflen)
     {
       memcpy (&blkt_type, record + blkt_offset, 2);
       memcpy (&next_blkt, record + blkt_offset + 2, 2);
@@ -243,7 +250,10 @@ ms3_detect (const char *record, uint64_t recbuflen, uint8_t *formatversion)
 
         /* Field 3 of B1000 is a uint8_t value describing the record
          * length as 2^(value).  Calculate 2-raised with a shift. */
-        reclen = (uint64_t)1 << *pMS2B1000_RECLEN (record + blkt_offset);
+        if (*pMS2B1000_RECLEN (record + blkt_offset) < 63)
+          reclen = (int64_t)1 << *pMS2B1000_RECLEN (record + blkt_offset);
+        else
+          reclen = INT64_MAX;
 
         break;
       }
-- 
2.43.0


From 5c18e8af9c11acc4b3385e24295818c1211f5894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:40 +0000
Subject: [PATCH 23/91] fix: use the defined lengths of miniSEED 2 blockettes
 so that truncated ones are not read past the record

---
 libmseed/unpack.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/libmseed/unpack.c b/libmseed/unpack.c
index 06a59aa..be1eb98 100644
--- a/libmseed/unpack.c
+++ b/libmseed/unpack.c
@@ -1574,19 +1574,19 @@ ms2_blktlen (uint16_t blkttype, const char *blkt, int8_t swapflag)
     blktlen = 12;
     break;
   case 200: /* Generic Event Detection */
-    blktlen = 28;
+    blktlen = 52;
     break;
   case 201: /* Murdock Event Detection */
-    blktlen = 36;
+    blktlen = 60;
     break;
   case 300: /* Step Calibration */
-    blktlen = 32;
+    blktlen = 60;
     break;
   case 310: /* Sine Calibration */
-    blktlen = 32;
+    blktlen = 60;
     break;
   case 320: /* Pseudo-random Calibration */
-    blktlen = 28;
+    blktlen = 64;
     break;
   case 390: /* Generic Calibration */
     blktlen = 28;
@@ -1597,8 +1597,11 @@ ms2_blktlen (uint16_t blkttype, const char *blkt, int8_t swapflag)
   case 400: /* Beam */
     blktlen = 16;
     break;
+  case 405: /* Beam Delay, at least one delay value */
+    blktlen = 6;
+    break;
   case 500: /* Timing */
-    blktlen = 8;
+    blktlen = 200;
     break;
   case 1000: /* Data Only SEED */
     blktlen = 8;
-- 
2.43.0


From f4c4623fbbd2dc042eb58e8dfad63a99e879e3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:49 +0000
Subject: [PATCH 24/91] fix: keep miniSEED 2 parsing within the record length
 given

---
 libmseed/unpack.c | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/libmseed/unpack.c b/libmseed/unpack.c
index be1eb98..a8bb3e3 100644
--- a/libmseed/unpack.c
+++ b/libmseed/unpack.c
@@ -412,7 +412,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
   blkt_offset = HO2u (*pMS2FSDH_BLOCKETTEOFFSET (record), msr->swapflag);
 
   while ((blkt_offset != 0) &&
-         (blkt_offset < reclen) &&
+         (blkt_offset + 4 <= reclen) &&
          (blkt_offset < MAXRECLEN))
   {
     /* Every blockette has a similar 4 byte header: type and next */
@@ -425,8 +425,11 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
       ms_gswap2 (&next_blkt);
     }
 
-    /* Get blockette length */
-    blkt_length = ms2_blktlen (blkt_type, record + blkt_offset, msr->swapflag);
+    /* Get blockette length, the variable length of a blockette 2000 follows the common header */
+    if (blkt_type == 2000 && (blkt_offset + 6) > reclen)
+      blkt_length = 6;
+    else
+      blkt_length = ms2_blktlen (blkt_type, record + blkt_offset, msr->swapflag);
 
     if (blkt_length == 0)
     {
@@ -821,14 +824,13 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
     {
       B1000offset = blkt_offset;
 
-      /* Calculate record length in bytes as 2^(B1000->reclen) */
-      msr->reclen = (uint32_t)1 << *pMS2B1000_RECLEN (record + blkt_offset);
-
-      /* Compare against the specified length */
-      if (msr->reclen != reclen && verbose)
+      /* Compare record length as 2^(B1000->reclen) against the specified length */
+      if ((*pMS2B1000_RECLEN (record + blkt_offset) > 30 ||
+           reclen != (1 << *pMS2B1000_RECLEN (record + blkt_offset))) &&
+          verbose)
       {
-        ms_log (1, "%s: Record length in Blockette 1000 (%d) != specified length (%d)\n",
-                msr->sid, msr->reclen, reclen);
+        ms_log (1, "%s: Record length in Blockette 1000 (2^%d) != specified length (%d)\n",
+                msr->sid, *pMS2B1000_RECLEN (record + blkt_offset), reclen);
       }
 
       msr->encoding = *pMS2B1000_ENCODING (record + blkt_offset);
@@ -947,8 +949,10 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
   }
 
   msr->datalength = HO2u (*pMS2FSDH_DATAOFFSET (record), msr->swapflag);
-  if (msr->datalength > 0)
+  if (msr->datalength > 0 && msr->datalength < (uint32_t)msr->reclen)
     msr->datalength = msr->reclen - msr->datalength;
+  else
+    msr->datalength = 0;
 
   /* Determine byte order of the data and set the swapflag as needed;
      if no Blkt1000, assume the order is the same as the header */
-- 
2.43.0


From 1ecab805c5b72361f70895ade498d09df9674a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:37 +0000
Subject: [PATCH 25/91] fix: blockette 200 flag bit 2 means the wave is
 undetermined

---
 libmseed/unpack.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmseed/unpack.c b/libmseed/unpack.c
index a8bb3e3..66e2115 100644
--- a/libmseed/unpack.c
+++ b/libmseed/unpack.c
@@ -462,8 +462,8 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
       eventdetection.signalperiod = HO4f (*pMS2B200_PERIOD (record + blkt_offset), msr->swapflag);
       eventdetection.backgroundestimate = HO4f (*pMS2B200_BACKGROUNDEST (record + blkt_offset), msr->swapflag);
 
-      /* If bit 2 is set, set compression wave according to bit 0 */
-      if (*pMS2B200_FLAGS (record + blkt_offset) & 0x04)
+      /* Unless bit 2 is set (undetermined), set wave according to bit 0 */
+      if (!(*pMS2B200_FLAGS (record + blkt_offset) & 0x04))
       {
         if (*pMS2B200_FLAGS (record + blkt_offset) & 0x01)
           strncpy (eventdetection.wave, "DILATATION", sizeof (eventdetection.wave));
-- 
2.43.0


From 2789b57959f5490277a10d69b5d8a235236c0d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:14 +0000
Subject: [PATCH 26/91] fix: ignore non-finite blockette values instead of
 losing all extra headers

---
 libmseed/extraheaders.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/libmseed/extraheaders.c b/libmseed/extraheaders.c
index 8d7cb27..a3492f6 100644
--- a/libmseed/extraheaders.c
+++ b/libmseed/extraheaders.c
@@ -18,6 +18,8 @@
  * limitations under the License.
  ***************************************************************************/
 
+#include <math.h>
+
 #include "libmseed.h"
 #include "extraheaders.h"
 
@@ -539,19 +541,19 @@ mseh_add_event_detection_r (MS3Record *msr, const char *ptr,
     yyjson_mut_set_str (&type, eventdetection->type);
     yyjson_mut_obj_add (&entry, &type_key, &type);
   }
-  if (eventdetection->signalamplitude != 0.0)
+  if (eventdetection->signalamplitude != 0.0 && isfinite (eventdetection->signalamplitude))
   {
     yyjson_mut_set_str (&sigamp_key, "SignalAmplitude");
     yyjson_mut_set_real (&sigamp, eventdetection->signalamplitude);
     yyjson_mut_obj_add (&entry, &sigamp_key, &sigamp);
   }
-  if (eventdetection->signalperiod != 0.0)
+  if (eventdetection->signalperiod != 0.0 && isfinite (eventdetection->signalperiod))
   {
     yyjson_mut_set_str (&sigper_key, "SignalPeriod");
     yyjson_mut_set_real (&sigper, eventdetection->signalperiod);
     yyjson_mut_obj_add (&entry, &sigper_key, &sigper);
   }
-  if (eventdetection->backgroundestimate != 0.0)
+  if (eventdetection->backgroundestimate != 0.0 && isfinite (eventdetection->backgroundestimate))
   {
     yyjson_mut_set_str (&bgest_key, "BackgroundEstimate");
     yyjson_mut_set_real (&bgest, eventdetection->backgroundestimate);
@@ -740,7 +742,7 @@ mseh_add_calibration_r (MS3Record *msr, const char *ptr,
     yyjson_mut_set_bool (&continued, calibration->continued);
     yyjson_mut_obj_add (&entry, &continued_key, &continued);
   }
-  if (calibration->amplitude != 0.0)
+  if (calibration->amplitude != 0.0 && isfinite (calibration->amplitude))
   {
     yyjson_mut_set_str (&amplitude_key, "Amplitude");
     yyjson_mut_set_real (&amplitude, calibration->amplitude);
@@ -758,19 +760,19 @@ mseh_add_calibration_r (MS3Record *msr, const char *ptr,
     yyjson_mut_set_str (&amprange, calibration->amplituderange);
     yyjson_mut_obj_add (&entry, &amprange_key, &amprange);
   }
-  if (calibration->duration != 0.0)
+  if (calibration->duration != 0.0 && isfinite (calibration->duration))
   {
     yyjson_mut_set_str (&duration_key, "Duration");
     yyjson_mut_set_real (&duration, calibration->duration);
     yyjson_mut_obj_add (&entry, &duration_key, &duration);
   }
-  if (calibration->sineperiod != 0.0)
+  if (calibration->sineperiod != 0.0 && isfinite (calibration->sineperiod))
   {
     yyjson_mut_set_str (&sineperiod_key, "SinePeriod");
     yyjson_mut_set_real (&sineperiod, calibration->sineperiod);
     yyjson_mut_obj_add (&entry, &sineperiod_key, &sineperiod);
   }
-  if (calibration->stepbetween != 0.0)
+  if (calibration->stepbetween != 0.0 && isfinite (calibration->stepbetween))
   {
     yyjson_mut_set_str (&stepbetween_key, "StepBetween");
     yyjson_mut_set_real (&stepbetween, calibration->stepbetween);
@@ -782,7 +784,7 @@ mseh_add_calibration_r (MS3Record *msr, const char *ptr,
     yyjson_mut_set_str (&inputchannel, calibration->inputchannel);
     yyjson_mut_obj_add (&entry, &inputchannel_key, &inputchannel);
   }
-  if (calibration->refamplitude != 0.0)
+  if (calibration->refamplitude != 0.0 && isfinite (calibration->refamplitude))
   {
     yyjson_mut_set_str (&refamp_key, "ReferenceAmplitude");
     yyjson_mut_set_real (&refamp, calibration->refamplitude);
@@ -868,7 +870,7 @@ mseh_add_timing_exception_r (MS3Record *msr, const char *ptr,
       return MS_GENERROR;
     }
   }
-  if (exception->vcocorrection >= 0.0)
+  if (exception->vcocorrection >= 0.0 && isfinite (exception->vcocorrection))
   {
     yyjson_mut_set_str (&vcocorr_key, "VCOCorrection");
     yyjson_mut_set_real (&vcocorr, exception->vcocorrection);
-- 
2.43.0


From b7d98a3147083f60139ee8e4fa261675731d5e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:14 +0000
Subject: [PATCH 27/91] fix: report extra headers that could not be stored when
 parsing miniSEED 2 and release state on errors

---
 libmseed/unpack.c | 92 +++++++++++++++++++++++++++--------------------
 1 file changed, 53 insertions(+), 39 deletions(-)

diff --git a/libmseed/unpack.c b/libmseed/unpack.c
index 66e2115..f55c47c 100644
--- a/libmseed/unpack.c
+++ b/libmseed/unpack.c
@@ -279,6 +279,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
   uint16_t blkt_type;
   uint16_t next_blkt;
 
+  int seterror = 0;
   LM_PARSED_JSON *parsestate = NULL;
   MSEHEventDetection eventdetection;
   MSEHCalibration calibration;
@@ -353,51 +354,51 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
   if (*pMS2FSDH_ACTFLAGS (record) & 0x01) /* Bit 0 */
     msr->flags |= 0x01;
   if (*pMS2FSDH_ACTFLAGS (record) & 0x04) /* Bit 2 */
-    mseh_set_ptr_r (msr, "/FDSN/Event/Begin", &ione, 'b', &parsestate);
+    seterror |= mseh_set_ptr_r (msr, "/FDSN/Event/Begin", &ione, 'b', &parsestate);
   if (*pMS2FSDH_ACTFLAGS (record) & 0x08) /* Bit 3 */
-    mseh_set_ptr_r (msr, "/FDSN/Event/End", &ione, 'b', &parsestate);
+    seterror |= mseh_set_ptr_r (msr, "/FDSN/Event/End", &ione, 'b', &parsestate);
   if (*pMS2FSDH_ACTFLAGS (record) & 0x10) /* Bit 4 */
   {
     ival = 1;
-    mseh_set_ptr_r (msr, "/FDSN/Time/LeapSecond", &ival, 'i', &parsestate);
+    seterror |= mseh_set_ptr_r (msr, "/FDSN/Time/LeapSecond", &ival, 'i', &parsestate);
   }
   if (*pMS2FSDH_ACTFLAGS (record) & 0x20) /* Bit 5 */
   {
     ival = -1;
-    mseh_set_ptr_r (msr, "/FDSN/Time/LeapSecond", &ival, 'i', &parsestate);
+    seterror |= mseh_set_ptr_r (msr, "/FDSN/Time/LeapSecond", &ival, 'i', &parsestate);
   }
   if (*pMS2FSDH_ACTFLAGS (record) & 0x40) /* Bit 6 */
-    mseh_set_ptr_r (msr, "/FDSN/Event/InProgress", &ione, 'b', &parsestate);
+    seterror |= mseh_set_ptr_r (msr, "/FDSN/Event/InProgress", &ione, 'b', &parsestate);
 
   /* Map I/O and clock flags */
   if (*pMS2FSDH_IOFLAGS (record) & 0x01) /* Bit 0 */
-    mseh_set_ptr_r (msr, "/FDSN/Flags/StationVolumeParityError", &ione, 'b', &parsestate);
+    seterror |= mseh_set_ptr_r (msr, "/FDSN/Flags/StationVolumeParityError", &ione, 'b', &parsestate);
   if (*pMS2FSDH_IOFLAGS (record) & 0x02) /* Bit 1 */
-    mseh_set_ptr_r (msr, "/FDSN/Flags/LongRecordRead", &ione, 'b', &parsestate);
+    seterror |= mseh_set_ptr_r (msr, "/FDSN/Flags/LongRecordRead", &ione, 'b', &parsestate);
   if (*pMS2FSDH_IOFLAGS (record) & 0x04) /* Bit 2 */
-    mseh_set_ptr_r (msr, "/FDSN/Flags/ShortRecordRead", &ione, 'b', &parsestate);
+    seterror |= mseh_set_ptr_r (msr, "/FDSN/Flags/ShortRecordRead", &ione, 'b', &parsestate);
   if (*pMS2FSDH_IOFLAGS (record) & 0x08) /* Bit 3 */
-    mseh_set_ptr_r (msr, "/FDSN/Flags/StartOfTimeSeries", &ione, 'b', &parsestate);
+    seterror |= mseh_set_ptr_r (msr, "/FDSN/Flags/StartOfTimeSeries", &ione, 'b', &parsestate);
   if (*pMS2FSDH_IOFLAGS (record) & 0x10) /* Bit 4 */
-    mseh_set_ptr_r (msr, "/FDSN/Flags/EndOfTimeSeries", &ione, 'b', &parsestate);
+    seterror |= mseh_set_ptr_r (msr, "/FDSN/Flags/EndOfTimeSeries", &ione, 'b', &parsestate);
   if (*pMS2FSDH_IOFLAGS (record) & 0x20) /* Bit 5 */
     msr->flags |= 0x04;
 
   /* Map data quality flags */
   if (*pMS2FSDH_DQFLAGS (record) & 0x01) /* Bit 0 */
-    mseh_set_ptr_r (msr, "/FDSN/Flags/AmplifierSaturation", &ione, 'b', &parsestate);
+    seterror |= mseh_set_ptr_r (msr, "/FDSN/Flags/AmplifierSaturation", &ione, 'b', &parsestate);
   if (*pMS2FSDH_DQFLAGS (record) & 0x02) /* Bit 1 */
-    mseh_set_ptr_r (msr, "/FDSN/Flags/DigitizerClipping", &ione, 'b', &parsestate);
+    seterror |= mseh_set_ptr_r (msr, "/FDSN/Flags/DigitizerClipping", &ione, 'b', &parsestate);
   if (*pMS2FSDH_DQFLAGS (record) & 0x04) /* Bit 2 */
-    mseh_set_ptr_r (msr, "/FDSN/Flags/Spikes", &ione, 'b', &parsestate);
+    seterror |= mseh_set_ptr_r (msr, "/FDSN/Flags/Spikes", &ione, 'b', &parsestate);
   if (*pMS2FSDH_DQFLAGS (record) & 0x08) /* Bit 3 */
-    mseh_set_ptr_r (msr, "/FDSN/Flags/Glitches", &ione, 'b', &parsestate);
+    seterror |= mseh_set_ptr_r (msr, "/FDSN/Flags/Glitches", &ione, 'b', &parsestate);
   if (*pMS2FSDH_DQFLAGS (record) & 0x10) /* Bit 4 */
-    mseh_set_ptr_r (msr, "/FDSN/Flags/MissingData", &ione, 'b', &parsestate);
+    seterror |= mseh_set_ptr_r (msr, "/FDSN/Flags/MissingData", &ione, 'b', &parsestate);
   if (*pMS2FSDH_DQFLAGS (record) & 0x20) /* Bit 5 */
-    mseh_set_ptr_r (msr, "/FDSN/Flags/TelemetrySyncError", &ione, 'b', &parsestate);
+    seterror |= mseh_set_ptr_r (msr, "/FDSN/Flags/TelemetrySyncError", &ione, 'b', &parsestate);
   if (*pMS2FSDH_DQFLAGS (record) & 0x40) /* Bit 6 */
-    mseh_set_ptr_r (msr, "/FDSN/Flags/FilterCharging", &ione, 'b', &parsestate);
+    seterror |= mseh_set_ptr_r (msr, "/FDSN/Flags/FilterCharging", &ione, 'b', &parsestate);
   if (*pMS2FSDH_DQFLAGS (record) & 0x80) /* Bit 7 */
     msr->flags |= 0x02;
 
@@ -405,7 +406,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
   if (dval != 0.0)
   {
     dval = dval / 10000.0;
-    mseh_set_ptr_r (msr, "/FDSN/Time/Correction", &dval, 'n', &parsestate);
+    seterror |= mseh_set_ptr_r (msr, "/FDSN/Time/Correction", &dval, 'n', &parsestate);
   }
 
   /* Traverse the blockettes */
@@ -480,7 +481,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
 
       eventdetection.onsettime = ms_btime2nstime ((uint8_t*)pMS2B200_YEAR (record + blkt_offset), msr->swapflag);
       if (eventdetection.onsettime == NSTERROR)
-        return MS_GENERROR;
+        goto blockette_error;
 
       memset (eventdetection.medsnr, 0, 6);
       eventdetection.medlookback = -1;
@@ -490,7 +491,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
       if (mseh_add_event_detection_r (msr, NULL, &eventdetection, &parsestate))
       {
         ms_log (2, "%s: Problem mapping Blockette 200 to extra headers\n", msr->sid);
-        return MS_GENERROR;
+        goto blockette_error;
       }
     }
 
@@ -513,7 +514,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
 
       eventdetection.onsettime = ms_btime2nstime ((uint8_t*)pMS2B201_YEAR (record + blkt_offset), msr->swapflag);
       if (eventdetection.onsettime == NSTERROR)
-        return MS_GENERROR;
+        goto blockette_error;
 
       memcpy (eventdetection.medsnr, pMS2B201_MEDSNR (record + blkt_offset), 6);
       eventdetection.medlookback = *pMS2B201_LOOPBACK (record + blkt_offset);
@@ -523,7 +524,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
       if (mseh_add_event_detection_r (msr, NULL, &eventdetection, &parsestate))
       {
         ms_log (2, "%s: Problem mapping Blockette 201 to extra headers\n", msr->sid);
-        return MS_GENERROR;
+        goto blockette_error;
       }
     }
 
@@ -536,7 +537,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
 
       calibration.begintime = ms_btime2nstime ((uint8_t*)pMS2B300_YEAR (record + blkt_offset), msr->swapflag);
       if (calibration.begintime == NSTERROR)
-        return MS_GENERROR;
+        goto blockette_error;
 
       calibration.endtime = NSTERROR;
       calibration.steps = *pMS2B300_NUMCALIBRATIONS (record + blkt_offset);
@@ -578,7 +579,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
       if (mseh_add_calibration_r (msr, NULL, &calibration, &parsestate))
       {
         ms_log (2, "%s: Problem mapping Blockette 300 to extra headers\n", msr->sid);
-        return MS_GENERROR;
+        goto blockette_error;
       }
     }
 
@@ -591,7 +592,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
 
       calibration.begintime = ms_btime2nstime ((uint8_t*)pMS2B310_YEAR (record + blkt_offset), msr->swapflag);
       if (calibration.begintime == NSTERROR)
-        return MS_GENERROR;
+        goto blockette_error;
 
       calibration.endtime = NSTERROR;
       calibration.steps = -1;
@@ -635,7 +636,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
       if (mseh_add_calibration_r (msr, NULL, &calibration, &parsestate))
       {
         ms_log (2, "%s: Problem mapping Blockette 310 to extra headers\n", msr->sid);
-        return MS_GENERROR;
+        goto blockette_error;
       }
     }
 
@@ -648,7 +649,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
 
       calibration.begintime = ms_btime2nstime ((uint8_t*)pMS2B320_YEAR (record + blkt_offset), msr->swapflag);
       if (calibration.begintime == NSTERROR)
-        return MS_GENERROR;
+        goto blockette_error;
 
       calibration.endtime = NSTERROR;
       calibration.steps = -1;
@@ -686,7 +687,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
       if (mseh_add_calibration_r (msr, NULL, &calibration, &parsestate))
       {
         ms_log (2, "%s: Problem mapping Blockette 320 to extra headers\n", msr->sid);
-        return MS_GENERROR;
+        goto blockette_error;
       }
     }
 
@@ -699,7 +700,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
 
       calibration.begintime = ms_btime2nstime ((uint8_t*)pMS2B390_YEAR (record + blkt_offset), msr->swapflag);
       if (calibration.begintime == NSTERROR)
-        return MS_GENERROR;
+        goto blockette_error;
 
       calibration.endtime = NSTERROR;
       calibration.steps = -1;
@@ -733,7 +734,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
       if (mseh_add_calibration_r (msr, NULL, &calibration, &parsestate))
       {
         ms_log (2, "%s: Problem mapping Blockette 390 to extra headers\n", msr->sid);
-        return MS_GENERROR;
+        goto blockette_error;
       }
     }
 
@@ -748,7 +749,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
 
       calibration.endtime = ms_btime2nstime ((uint8_t*)pMS2B395_YEAR (record + blkt_offset), msr->swapflag);
       if (calibration.endtime == NSTERROR)
-        return MS_GENERROR;
+        goto blockette_error;
 
       calibration.steps = -1;
       calibration.firstpulsepositive = -1;
@@ -771,7 +772,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
       if (mseh_add_calibration_r (msr, NULL, &calibration, &parsestate))
       {
         ms_log (2, "%s: Problem mapping Blockette 395 to extra headers\n", msr->sid);
-        return MS_GENERROR;
+        goto blockette_error;
       }
     }
 
@@ -796,7 +797,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
 
       exception.time = ms_btime2nstime ((uint8_t*)pMS2B500_YEAR (record + blkt_offset), msr->swapflag);
       if (exception.time == NSTERROR)
-        return MS_GENERROR;
+        goto blockette_error;
 
       /* Apply microsecond precision if non-zero */
       if (*pMS2B500_MICROSECOND (record + blkt_offset) != 0)
@@ -812,12 +813,12 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
       if (mseh_add_timing_exception_r (msr, NULL, &exception, &parsestate))
       {
         ms_log (2, "%s: Problem mapping Blockette 500 to extra headers\n", msr->sid);
-        return MS_GENERROR;
+        goto blockette_error;
       }
 
       /* Clock model maps to a single value at /FDSN/Clock/Model */
       ms_strncpcleantail (sval, pMS2B500_CLOCKMODEL (record + blkt_offset), 32);
-      mseh_set_ptr_r (msr, "/FDSN/Clock/Model", sval, 's', &parsestate);
+      seterror |= mseh_set_ptr_r (msr, "/FDSN/Clock/Model", sval, 's', &parsestate);
     }
 
     else if (blkt_type == 1000)
@@ -841,7 +842,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
       B1001offset = blkt_offset;
 
       /* Optimization: if no other extra headers yet, directly print this common value */
-      if (parsestate == NULL)
+      if (parsestate == NULL && msr->extra == NULL)
       {
         length = snprintf (sval, sizeof(sval), "{\"FDSN\":{\"Time\":{\"Quality\":%d}}}",
                            *pMS2B1001_TIMINGQUALITY (record + blkt_offset));
@@ -849,7 +850,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
         if (!(msr->extra = (char *)libmseed_memory.malloc (length + 1)))
         {
           ms_log (2, "%s: Cannot allocate memory for extra headers\n", msr->sid);
-          return MS_GENERROR;
+          goto blockette_error;
         }
         memcpy (msr->extra, sval, length + 1);
 
@@ -859,7 +860,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
       else
       {
         ival = *pMS2B1001_TIMINGQUALITY (record + blkt_offset);
-        mseh_set_ptr_r (msr, "/FDSN/Time/Quality", &ival, 'i', &parsestate);
+        seterror |= mseh_set_ptr_r (msr, "/FDSN/Time/Quality", &ival, 'i', &parsestate);
       }
     }
 
@@ -900,10 +901,18 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
   /* Serialize extra header JSON structure and free parsed state */
   if (parsestate)
   {
-    mseh_serialize (msr, &parsestate);
+    if (mseh_serialize (msr, &parsestate) < 0)
+      seterror = 1;
+
     mseh_free_parsestate (&parsestate);
   }
 
+  if (seterror)
+  {
+    ms_log (2, "%s: Cannot store extra headers\n", msr->sid);
+    return MS_GENERROR;
+  }
+
   /* Check for a Blockette 1000 and log warning if not found */
   if (B1000offset == 0 && verbose > 1)
   {
@@ -996,6 +1005,11 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
   }
 
   return MS_NOERROR;
+
+blockette_error:
+  mseh_free_parsestate (&parsestate);
+
+  return MS_GENERROR;
 } /* End of msr3_unpack_mseed2() */
 
 /*******************************************************************/ /**
-- 
2.43.0


From e8eaf34f2d747b6ea74ab4ad0c94c8e89f4de544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:23 +0000
Subject: [PATCH 28/91] fix: do not adjust an unset start time

---
 libmseed/unpack.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libmseed/unpack.c b/libmseed/unpack.c
index f55c47c..c7b763d 100644
--- a/libmseed/unpack.c
+++ b/libmseed/unpack.c
@@ -800,7 +800,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
         goto blockette_error;
 
       /* Apply microsecond precision if non-zero */
-      if (*pMS2B500_MICROSECOND (record + blkt_offset) != 0)
+      if (*pMS2B500_MICROSECOND (record + blkt_offset) != 0 && exception.time != NSTUNSET)
       {
         exception.time += (nstime_t)*pMS2B500_MICROSECOND (record + blkt_offset) * (NSTMODULUS / 1000000);
       }
@@ -945,14 +945,15 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
 
   /* Check if a time correction is included and if it has been applied,
    * bit 1 of activity flags indicates if it has been appiled */
-  if (HO4d (*pMS2FSDH_TIMECORRECT (record), msr->swapflag) != 0 &&
+  if (msr->starttime != NSTUNSET &&
+      HO4d (*pMS2FSDH_TIMECORRECT (record), msr->swapflag) != 0 &&
       !(*pMS2FSDH_ACTFLAGS (record) & 0x02))
   {
     msr->starttime += (nstime_t)HO4d (*pMS2FSDH_TIMECORRECT (record), msr->swapflag) * (NSTMODULUS / 10000);
   }
 
   /* Apply microsecond precision if Blockette 1001 is present */
-  if (B1001offset)
+  if (B1001offset && msr->starttime != NSTUNSET)
   {
     msr->starttime += (nstime_t)*pMS2B1001_MICROSECOND (record + B1001offset) * (NSTMODULUS / 1000000);
   }
-- 
2.43.0


From a7d5d27c3e7bbf55107a39a8afea7b88d5675309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:33 +0000
Subject: [PATCH 29/91] fix: determine data payload bounds from the record
 itself

---
 libmseed/unpack.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/libmseed/unpack.c b/libmseed/unpack.c
index c7b763d..fbda9e5 100644
--- a/libmseed/unpack.c
+++ b/libmseed/unpack.c
@@ -1053,13 +1053,21 @@ msr3_data_bounds (const MS3Record *msr, uint32_t *dataoffset, uint32_t *datasize
   /* Determine offset to data */
   if (msr->formatversion == 3)
   {
-    *dataoffset = MS3FSDH_LENGTH + (uint32_t)strlen (msr->sid) + msr->extralength;
+    /* Use lengths in the raw record, as header values of the MS3Record may have been changed */
+    *dataoffset = MS3FSDH_LENGTH +
+                  *pMS3FSDH_SIDLENGTH (msr->record) +
+                  HO2u (*pMS3FSDH_EXTRALENGTH (msr->record), msr->swapflag & MSSWAP_HEADER);
     *datasize = msr->datalength;
   }
   else if (msr->formatversion == 2)
   {
     *dataoffset = HO2u (*pMS2FSDH_DATAOFFSET (msr->record), msr->swapflag & MSSWAP_HEADER);
-    *datasize = msr->reclen - *dataoffset;
+
+    /* No data payload if offset is not set or not within the record */
+    if (*dataoffset > 0 && msr->reclen > 0 && *dataoffset < (uint32_t)msr->reclen)
+      *datasize = msr->reclen - *dataoffset;
+    else
+      *datasize = 0;
   }
   else
   {
@@ -1093,16 +1101,17 @@ msr3_data_bounds (const MS3Record *msr, uint32_t *dataoffset, uint32_t *datasize
     rawsize = msr->samplecnt * samplebytes;
 
     if (rawsize < *datasize)
-      *datasize = (uint16_t)rawsize;
+      *datasize = (uint32_t)rawsize;
   }
 
   /* If datasize is a multiple of 64-bytes and a Steim encoding, test for
-   * trailing, zeroed (empty) frames and subtract them from the size. */
+   * trailing, zeroed (empty) frames and subtract them from the size.
+   * The first frame, needed for any samples, is never a padding frame. */
   if (*datasize % 64 == 0 &&
       (msr->encoding == DE_STEIM1 || msr->encoding == DE_STEIM2))
   {
-    while (*datasize > 0 &&
-           memcmp (msr->record + (*datasize - 64), nullframe, 64) == 0)
+    while (*datasize > ((msr->samplecnt > 0) ? 64 : 0) &&
+           memcmp (msr->record + *dataoffset + (*datasize - 64), nullframe, 64) == 0)
     {
       *datasize -= 64;
     }
-- 
2.43.0


From 443ae0829fe100390d5192293dba6b77e8c8b936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:41 +0000
Subject: [PATCH 30/91] fix: do not decode more samples than the encoded data
 contains

---
 libmseed/unpack.c | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/libmseed/unpack.c b/libmseed/unpack.c
index fbda9e5..f680405 100644
--- a/libmseed/unpack.c
+++ b/libmseed/unpack.c
@@ -1307,6 +1307,7 @@ ms_decode_data (const void *input, uint64_t inputsize, uint8_t encoding,
   uint64_t decodedsize; /* byte size of decodeded samples */
   int64_t nsamples; /* number of samples unpacked */
   uint8_t samplesize = 0; /* size of the data samples in bytes */
+  uint8_t encodedbytes = 0; /* size of encoded samples in bytes, 0 when variable */
 
   if (!input || !output || !sampletype)
   {
@@ -1331,6 +1332,39 @@ ms_decode_data (const void *input, uint64_t inputsize, uint8_t encoding,
     return MS_GENERROR;
   }
 
+  /* Check that the input contains the samples for encodings of fixed size per sample */
+  switch (encoding)
+  {
+  case DE_TEXT:
+    encodedbytes = 1;
+    break;
+  case DE_INT16:
+  case DE_GEOSCOPE163:
+  case DE_GEOSCOPE164:
+  case DE_CDSN:
+  case DE_SRO:
+  case DE_DWWSSN:
+    encodedbytes = 2;
+    break;
+  case DE_GEOSCOPE24:
+    encodedbytes = 3;
+    break;
+  case DE_INT32:
+  case DE_FLOAT32:
+    encodedbytes = 4;
+    break;
+  case DE_FLOAT64:
+    encodedbytes = 8;
+    break;
+  }
+
+  if (encodedbytes && samplecount > inputsize / encodedbytes)
+  {
+    ms_log (2, "%s: Encoded data (%" PRIu64 " bytes) does not contain the expected %" PRIu64 " samples\n",
+            (sid) ? sid : "", inputsize, samplecount);
+    return MS_GENERROR;
+  }
+
   /* Decode data samples according to encoding */
   switch (encoding)
   {
-- 
2.43.0


From 96efb74bf60a1031ba978265931008ba7d50725a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:50 +0000
Subject: [PATCH 31/91] fix: keep header diagnosis within the record and apply
 a requested byte order

---
 libmseed/parseutils.c | 40 +++++++++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/libmseed/parseutils.c b/libmseed/parseutils.c
index d1e862f..4fe9b1a 100644
--- a/libmseed/parseutils.c
+++ b/libmseed/parseutils.c
@@ -562,10 +562,8 @@ ms_parse_raw2 (const char *record, int maxreclen, int8_t details, int8_t swapfla
   ms2_recordsid (record, sid, sizeof (sid));
 
   /* Check to see if byte swapping is needed by testing the year and day */
-  if (swapflag == -1 && !MS_ISVALIDYEARDAY (*pMS2FSDH_YEAR (record), *pMS2FSDH_DAY (record)))
-    swapflag = 1;
-  else
-    swapflag = 0;
+  if (swapflag == -1)
+    swapflag = (!MS_ISVALIDYEARDAY (*pMS2FSDH_YEAR (record), *pMS2FSDH_DAY (record))) ? 1 : 0;
 
   if (details > 1)
   {
@@ -817,7 +815,7 @@ ms_parse_raw2 (const char *record, int maxreclen, int8_t details, int8_t swapfla
     const char *blkt_desc;
 
     /* Traverse blockette chain */
-    while (blkt_offset != 0 && blkt_offset < maxreclen)
+    while (blkt_offset != 0 && (blkt_offset + 4) <= maxreclen)
     {
       /* Every blockette has a similar 4 byte header: type and next */
       memcpy (&blkt_type, record + blkt_offset, 2);
@@ -837,18 +835,32 @@ ms_parse_raw2 (const char *record, int maxreclen, int8_t details, int8_t swapfla
         ms_log (0, "              next blockette: %u\n", next_blkt);
       }
 
-      blkt_length = ms2_blktlen (blkt_type, record + blkt_offset, swapflag);
+      /* Length of blockette 2000 is variable, and no less than its fixed fields */
+      if (blkt_type == 2000 && (blkt_offset + 15) > maxreclen)
+        blkt_length = 15;
+      else
+        blkt_length = ms2_blktlen (blkt_type, record + blkt_offset, swapflag);
+
       if (blkt_length == 0)
       {
         ms_log (2, "%s: Unknown blockette length for type %d\n", sid, blkt_type);
         retval++;
+
+        /* Account for the common header fields */
+        blkt_length = 4;
+      }
+      else if (blkt_type == 2000 && blkt_length < 15)
+      {
+        ms_log (2, "%s: Invalid length of blockette 2000: %d\n", sid, blkt_length);
+        retval++;
+        break;
       }
 
       /* Track end of blockette chain */
       endofblockettes = blkt_offset + blkt_length - 1;
 
       /* Sanity check that the blockette is contained in the record */
-      if (endofblockettes > maxreclen)
+      if (endofblockettes >= maxreclen)
       {
         ms_log (2, "%s: Blockette type %d at offset %d with length %d does not fit in record (%d)\n",
                 sid, blkt_type, blkt_offset, blkt_length, maxreclen);
@@ -1170,7 +1182,9 @@ ms_parse_raw2 (const char *record, int maxreclen, int8_t details, int8_t swapfla
         char order[40];
 
         /* Calculate record size in bytes as 2^(blkt_1000->rec_len) */
-        b1000reclen = (uint32_t)1 << *pMS2B1000_RECLEN (record + blkt_offset);
+        b1000reclen = (*pMS2B1000_RECLEN (record + blkt_offset) < 31)
+                          ? 1 << *pMS2B1000_RECLEN (record + blkt_offset)
+                          : INT32_MAX;
 
         /* Big or little endian? */
         if (*pMS2B1000_BYTEORDER (record + blkt_offset) == 0)
@@ -1286,9 +1300,17 @@ ms_parse_raw2 (const char *record, int maxreclen, int8_t details, int8_t swapfla
 
           /* Crude display of the opaque data headers, hopefully printable */
           if (details > 1)
+          {
+            int headerlength = HO2u(*pMS2B2000_DATAOFFSET (record + blkt_offset), swapflag);
+
+            /* Limit to the blockette */
+            if (headerlength > blkt_length)
+              headerlength = blkt_length;
+
             ms_log (0, "                     headers: %.*s\n",
-                    (HO2u(*pMS2B2000_DATAOFFSET (record + blkt_offset), swapflag) - 15),
+                    (headerlength > 15) ? headerlength - 15 : 0,
                     pMS2B2000_PAYLOAD (record + blkt_offset));
+          }
         }
       }
 
-- 
2.43.0


From 6f1d2272a6793243ecedd4ebed6938bf55ef083d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:14 +0000
Subject: [PATCH 32/91] fix: decode little endian GEOSCOPE 24-bit samples

---
 libmseed/unpackdata.c | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/libmseed/unpackdata.c b/libmseed/unpackdata.c
index 0414b67..79efe09 100644
--- a/libmseed/unpackdata.c
+++ b/libmseed/unpackdata.c
@@ -628,11 +628,7 @@ msr_decode_geoscope (char *input, uint64_t samplecount, float *output,
   uint64_t exp2val;
   int16_t sint;
   double dsample = 0.0;
-
-  union {
-    uint8_t b[4];
-    uint32_t i;
-  } sample32;
+  int bigendiandata = (ms_bigendianhost ()) ? !swapflag : !!swapflag;
 
   if (samplecount == 0)
     return 0;
@@ -655,15 +651,11 @@ msr_decode_geoscope (char *input, uint64_t samplecount, float *output,
     switch (encoding)
     {
     case DE_GEOSCOPE24:
-      sample32.i = 0;
-      if (swapflag)
-        for (k = 0; k < 3; k++)
-          sample32.b[2 - k] = input[k];
-      else
-        for (k = 0; k < 3; k++)
-          sample32.b[1 + k] = input[k];
-
-      mantissa = sample32.i;
+      /* Combine 3 bytes, stored most significant byte first when
+       * swapping on a little endian host or not swapping on a big endian host */
+      mantissa = 0;
+      for (k = 0; k < 3; k++)
+        mantissa = (mantissa << 8) | (uint8_t)input[(bigendiandata) ? k : 2 - k];
 
       /* Take 2's complement for mantissa for overflow */
       if ((unsigned long)mantissa > MAX24)
-- 
2.43.0


From 44971fb9e15f64fbfd6dee92a196720dcd3c54fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:07 +0000
Subject: [PATCH 33/91] fix: do not read past short unaligned input when
 calculating a CRC

---
 libmseed/crc32c.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libmseed/crc32c.c b/libmseed/crc32c.c
index d553409..1fb86e6 100644
--- a/libmseed/crc32c.c
+++ b/libmseed/crc32c.c
@@ -327,11 +327,12 @@ static inline uint32_t s_crc_generic_align(
     /* Compute the number of input bytes that precede the first 4-byte aligned block (will be in range 0-3)*/
     size_t leading = (4 - input_alignment) & 0x3;
 
-    /* Determine what's left without the leading input bytes (might be negative)*/
-    size_t remaining = *length - leading;
+    /* Limit leading bytes to those available */
+    if (leading > (size_t)*length)
+        leading = (size_t)*length;
 
     /* Process unaligned leading input bytes one at a time*/
-    if (leading && remaining > 0) {
+    if (leading) {
         crc = s_crc_generic_sb1(*input, (uint32_t)leading, crc, table_ptr);
         *input += leading;
         *length -= (int)leading;
-- 
2.43.0


From 61ea687818c10a868b5798986e4f9236fa0cc6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:16 +0000
Subject: [PATCH 34/91] fix: validate the CRC without changing the record

---
 libmseed/unpack.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/libmseed/unpack.c b/libmseed/unpack.c
index f680405..8231a32 100644
--- a/libmseed/unpack.c
+++ b/libmseed/unpack.c
@@ -126,11 +126,15 @@ msr3_unpack_mseed3 (const char *record, int reclen, MS3Record **ppmsr,
   /* Validate the CRC */
   if (flags & MSF_VALIDATECRC)
   {
-    /* Save header CRC, set value to 0, calculate CRC, restore CRC */
+    /* Calculate CRC with the CRC field as zeros, without changing the record */
+    const uint8_t zerocrc[sizeof (uint32_t)] = {0};
+    const int crcoffset = (int)((const char *)pMS3FSDH_CRC (record) - record);
+
     header_crc = HO4u (*pMS3FSDH_CRC (record), swapflag);
-    memset (pMS3FSDH_CRC(record), 0, sizeof(uint32_t));
-    calculated_crc = ms_crc32c ((const uint8_t*)record, reclen, 0);
-    *pMS3FSDH_CRC(record) = HO4u (header_crc, swapflag);
+    calculated_crc = ms_crc32c ((const uint8_t *)record, crcoffset, 0);
+    calculated_crc = ms_crc32c (zerocrc, sizeof (zerocrc), calculated_crc);
+    calculated_crc = ms_crc32c ((const uint8_t *)record + crcoffset + sizeof (zerocrc),
+                                reclen - crcoffset - (int)sizeof (zerocrc), calculated_crc);
 
     if (header_crc != calculated_crc)
     {
-- 
2.43.0


From 04f186ffa0f9f066b1fbfb02320e365a4131d650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:25 +0000
Subject: [PATCH 35/91] fix: keep existing samples when memory for unpacking
 cannot be allocated

---
 libmseed/unpack.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/libmseed/unpack.c b/libmseed/unpack.c
index 8231a32..e8f1ed1 100644
--- a/libmseed/unpack.c
+++ b/libmseed/unpack.c
@@ -1154,6 +1154,8 @@ msr3_unpack_data (MS3Record *msr, int8_t verbose)
   uint32_t datasize; /* length of data payload in bytes */
   int64_t nsamples; /* number of samples unpacked */
   size_t unpacksize; /* byte size of unpacked samples */
+  size_t newsize;
+  void *newsamples;
   uint8_t samplesize = 0; /* size of the data samples in bytes */
   uint32_t dataoffset = 0;
   const char *encoded = NULL;
@@ -1241,24 +1243,26 @@ msr3_unpack_data (MS3Record *msr, int8_t verbose)
   {
     if (libmseed_prealloc_block_size)
     {
-      size_t current_size  = msr->datasize;
-      msr->datasamples = libmseed_memory_prealloc (msr->datasamples, unpacksize, &current_size);
-      msr->datasize = current_size;
+      newsize = msr->datasize;
+      newsamples = libmseed_memory_prealloc (msr->datasamples, unpacksize, &newsize);
     }
     else
     {
-      msr->datasamples = libmseed_memory.realloc (msr->datasamples, unpacksize);
-      msr->datasize = unpacksize;
+      newsize = unpacksize;
+      newsamples = libmseed_memory.realloc (msr->datasamples, unpacksize);
     }
 
-    if (msr->datasamples == NULL)
+    /* Existing samples remain in place when allocation fails */
+    if (newsamples == NULL)
     {
       ms_log (2, "%s: Cannot (re)allocate memory\n", msr->sid);
-      msr->datasize = 0;
       if (encoded_allocated)
         libmseed_memory.free (encoded_allocated);
       return MS_GENERROR;
     }
+
+    msr->datasamples = newsamples;
+    msr->datasize = newsize;
   }
   else
   {
-- 
2.43.0


From 49ae0efcaaef00571eb3205e04a4fb28c73864a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:53 +0000
Subject: [PATCH 36/91] fix: release the record buffers when packing fails

---
 libmseed/pack.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libmseed/pack.c b/libmseed/pack.c
index d9a97dc..f06cc2e 100644
--- a/libmseed/pack.c
+++ b/libmseed/pack.c
@@ -225,6 +225,7 @@ msr3_pack_mseed3 (const MS3Record *msr, void (*record_handler) (char *, int, voi
   if (dataoffset < 0)
   {
     ms_log (2, "%s: Cannot pack miniSEED version 3 header\n", msr->sid);
+    libmseed_memory.free (rawrec);
     return -1;
   }
 
@@ -258,6 +259,7 @@ msr3_pack_mseed3 (const MS3Record *msr, void (*record_handler) (char *, int, voi
   if (!samplesize)
   {
     ms_log (2, "%s: Unknown sample type '%c'\n", msr->sid, msr->sampletype);
+    libmseed_memory.free (rawrec);
     return -1;
   }
 
@@ -348,6 +350,7 @@ msr3_pack_mseed3 (const MS3Record *msr, void (*record_handler) (char *, int, voi
     if (ms_nstime2time (nextstarttime, &year, &day, &hour, &min, &sec, &nsec))
     {
       ms_log (2, "%s: Cannot convert next record starttime: %" PRId64 "\n", msr->sid, nextstarttime);
+      libmseed_memory.free (encoded);
       libmseed_memory.free (rawrec);
       return -1;
     }
@@ -668,7 +671,10 @@ msr3_pack_mseed2 (const MS3Record *msr, void (*record_handler) (char *, int, voi
   headerlen = msr3_pack_header2 (msr, rawrec, reclen, verbose);
 
   if (headerlen < 0)
+  {
+    libmseed_memory.free (rawrec);
     return -1;
+  }
 
   /* Short cut: if there are no samples, record packing is complete */
   if (msr->numsamples <= 0)
@@ -698,6 +704,7 @@ msr3_pack_mseed2 (const MS3Record *msr, void (*record_handler) (char *, int, voi
   if (!samplesize)
   {
     ms_log (2, "%s: Unknown sample type '%c'\n", msr->sid, msr->sampletype);
+    libmseed_memory.free (rawrec);
     return -1;
   }
 
-- 
2.43.0


From 7427bbc04c4ed1f9ccc95a36d7d31939146a2ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:23 +0000
Subject: [PATCH 37/91] fix: update the microsecond offset of records after the
 first when packing miniSEED 2

---
 libmseed/pack.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libmseed/pack.c b/libmseed/pack.c
index f06cc2e..883f209 100644
--- a/libmseed/pack.c
+++ b/libmseed/pack.c
@@ -832,6 +832,11 @@ msr3_pack_mseed2 (const MS3Record *msr, void (*record_handler) (char *, int, voi
     *pMS2FSDH_MIN (rawrec)  = min;
     *pMS2FSDH_SEC (rawrec)  = sec;
     *pMS2FSDH_FSEC (rawrec) = HO2u ((nsec / 100000), swapflag);
+
+    /* Update microsecond offset, a Blockette 1001 always follows the Blockette 1000 */
+    if (*pMS2B1000_NEXT (rawrec + 48) &&
+        HO2u (*pMS2B1001_TYPE (rawrec + 56), swapflag) == 1001)
+      *pMS2B1001_MICROSECOND (rawrec + 56) = (int8_t)((nsec / 1000) % 100);
   }
 
   if (verbose >= 2)
-- 
2.43.0


From ff4a4c99b3b83fcffe73ef33c804eaf0dbccf832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:27 +0000
Subject: [PATCH 38/91] fix: keep MEDSNR values within blockette 201 and write
 8-bit values of 255

---
 libmseed/pack.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libmseed/pack.c b/libmseed/pack.c
index 883f209..f2bfba4 100644
--- a/libmseed/pack.c
+++ b/libmseed/pack.c
@@ -1338,14 +1338,18 @@ msr3_pack_header2 (const MS3Record *msr, char *record, uint32_t recbuflen, int8_
             if (!yyjson_is_num (ehsubiterval))
               continue;
 
+            /* There are 6 signal-to-noise ratios in the blockette */
+            if (idx >= 6)
+              break;
+
             pMS2B201_MEDSNR (record + written)[idx++] = (uint8_t)yyjson_get_num (ehsubiterval);
           }
         }
 
-        if (yyjson_ptr_get_uint (ehiterval, "/MEDLookback", &header_uint) && header_uint < UINT8_MAX)
+        if (yyjson_ptr_get_uint (ehiterval, "/MEDLookback", &header_uint) && header_uint <= UINT8_MAX)
           *pMS2B201_LOOPBACK (record + written) = (uint8_t)header_uint;
 
-        if (yyjson_ptr_get_uint (ehiterval, "/MEDPickAlgorithm", &header_uint) && header_uint < UINT8_MAX)
+        if (yyjson_ptr_get_uint (ehiterval, "/MEDPickAlgorithm", &header_uint) && header_uint <= UINT8_MAX)
           *pMS2B201_PICKALGORITHM (record + written) = (uint8_t)header_uint;
 
         if (yyjson_ptr_get_str (ehiterval, "/Detector", &header_string))
-- 
2.43.0


From 77e2a559288e331abb5a97506104cfcfe6b51d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:31 +0000
Subject: [PATCH 39/91] fix: round negative time corrections to the nearest
 unit

---
 libmseed/pack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmseed/pack.c b/libmseed/pack.c
index f2bfba4..97d1956 100644
--- a/libmseed/pack.c
+++ b/libmseed/pack.c
@@ -1101,7 +1101,7 @@ msr3_pack_header2 (const MS3Record *msr, char *record, uint32_t recbuflen, int8_
 
   if (yyjson_ptr_get_num (ehroot, "/FDSN/Time/Correction", &header_number))
   {
-    *pMS2FSDH_TIMECORRECT (record) = HO4d ((int32_t)(header_number * 10000 + 0.5), swapflag);
+    *pMS2FSDH_TIMECORRECT (record) = HO4d ((int32_t)(header_number * 10000 + ((header_number < 0) ? -0.5 : 0.5)), swapflag);
 
     /* Set time correction applied bit in activity flags.
        Rationale: V3 records do not allow unapplied time corrections and unapplied
-- 
2.43.0


From 834df9cd7d2546932ad831e0ec83552db49916e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:43 +0000
Subject: [PATCH 40/91] fix: refuse destination buffers too small for the
 packed record

---
 libmseed/pack.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/libmseed/pack.c b/libmseed/pack.c
index 97d1956..9b2db61 100644
--- a/libmseed/pack.c
+++ b/libmseed/pack.c
@@ -441,10 +441,10 @@ msr3_repack_mseed3 (const MS3Record *msr, char *record, uint32_t recbuflen,
     return -1;
   }
 
-  if (recbuflen < (uint32_t)(MS3FSDH_LENGTH + msr->extralength + origdatasize))
+  if (recbuflen < dataoffset + origdatasize)
   {
-    ms_log (2, "%s: Destination record buffer length (%u) is not large enough for record (%d)\n",
-            msr->sid, recbuflen, (MS3FSDH_LENGTH + msr->extralength + origdatasize));
+    ms_log (2, "%s: Destination record buffer length (%u) is not large enough for record (%u)\n",
+            msr->sid, recbuflen, dataoffset + origdatasize);
     return -1;
   }
 
@@ -943,6 +943,14 @@ msr3_pack_header2 (const MS3Record *msr, char *record, uint32_t recbuflen, int8_
       break;
   }
 
+  /* Require space for the fixed header and all of blockettes 1000, 1001 and 100 */
+  if (recbuflen < MS2FSDH_LENGTH + 8 + 8 + 12)
+  {
+    ms_log (2, "%s: Buffer length (%u) is not large enough for header and blockettes\n",
+            msr->sid, recbuflen);
+    return -1;
+  }
+
   /* Parse identifier codes from full identifier */
   if (ms_sid2nslc (msr->sid, network, station, location, channel))
   {
-- 
2.43.0


From 98c9d2e854d9c7771f812cef3e5da0b8c4e88629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:36 +0000
Subject: [PATCH 41/91] fix: make room for the terminators of full length type
 and clock status of blockette 500

---
 libmseed/libmseed.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmseed/libmseed.h b/libmseed/libmseed.h
index c0e1f92..7e347e6 100644
--- a/libmseed/libmseed.h
+++ b/libmseed/libmseed.h
@@ -883,8 +883,8 @@ typedef struct MSEHTimingException
   int usec; /**< [DEPRECATED] microsecond time offset, 0 = not included */
   int receptionquality; /**< Reception quality, 0 to 100% clock accurracy, <0 = not included */
   uint32_t count; /**< The count thereof, 0 = not included */
-  char type[16]; /**< E.g. "MISSING" or "UNEXPECTED", zero length = not included */
-  char clockstatus[128]; /**< Description of clock-specific parameters, zero length = not included */
+  char type[17]; /**< E.g. "MISSING" or "UNEXPECTED", zero length = not included */
+  char clockstatus[129]; /**< Description of clock-specific parameters, zero length = not included */
 } MSEHTimingException;
 
 /**
-- 
2.43.0


From e5df7a23d7af1a82978b18e232be54380493911d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:39 +0000
Subject: [PATCH 42/91] fix: terminate the extra headers of duplicated records

---
 libmseed/msrutils.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libmseed/msrutils.c b/libmseed/msrutils.c
index 763bbd9..90cc85e 100644
--- a/libmseed/msrutils.c
+++ b/libmseed/msrutils.c
@@ -145,8 +145,8 @@ msr3_duplicate (const MS3Record *msr, int8_t datadup)
   /* Copy extra headers */
   if (msr->extralength > 0 && msr->extra)
   {
-    /* Allocate memory for new FSDH structure */
-    if ((dupmsr->extra = (char *)libmseed_memory.malloc (msr->extralength)) == NULL)
+    /* Allocate memory for extra headers and termination */
+    if ((dupmsr->extra = (char *)libmseed_memory.malloc (msr->extralength + 1)) == NULL)
     {
       ms_log (2, "Error allocating memory\n");
       msr3_free (&dupmsr);
@@ -154,6 +154,7 @@ msr3_duplicate (const MS3Record *msr, int8_t datadup)
     }
 
     memcpy (dupmsr->extra, msr->extra, msr->extralength);
+    dupmsr->extra[msr->extralength] = '\0';
 
     if (dupmsr->extra)
       dupmsr->extralength = msr->extralength;
-- 
2.43.0


From eecaca28f0e0feba21af4a2e7f92e6b4c89f73a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:50 +0000
Subject: [PATCH 43/91] fix: check that data offsets of record list entries are
 within the record

---
 libmseed/tracelist.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index 2dd33e0..500fe89 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -1754,6 +1754,16 @@ mstl3_unpack_recordlist (MS3TraceID *id, MS3TraceSeg *seg, void *output,
       break;
     }
 
+    /* Check data offset before accessing data at the offset */
+    if (recordptr->dataoffset < MINRECLEN ||
+        recordptr->dataoffset >= (uint32_t)recordptr->msr->reclen)
+    {
+      ms_log (2, "%s: Data offset value is not valid: %u\n", id->sid, recordptr->dataoffset);
+
+      totalunpackedsamples = -1;
+      break;
+    }
+
     /* Decode data from buffer */
     if (recordptr->bufferptr)
     {
-- 
2.43.0


From c9c9c8faf3ea58b619f2b10768801dcc3b846b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:50 +0000
Subject: [PATCH 44/91] fix: swap record list data only when the payload needs
 swapping

---
 libmseed/tracelist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index 500fe89..bbe6e37 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -1869,7 +1869,7 @@ mstl3_unpack_recordlist (MS3TraceID *id, MS3TraceSeg *seg, void *output,
     unpackedsamples = ms_decode_data (input, recordptr->msr->reclen - recordptr->dataoffset,
                                       (uint8_t)recordptr->msr->encoding, recordptr->msr->samplecnt,
                                       (unsigned char *)output + outputoffset, decodedsize - outputoffset,
-                                      &sampletype, recordptr->msr->swapflag, id->sid, verbose);
+                                      &sampletype, (recordptr->msr->swapflag & MSSWAP_PAYLOAD), id->sid, verbose);
 
     if (unpackedsamples < 0)
     {
-- 
2.43.0


From c26dd093912c69193ec8b2aebfcdb3ffef172123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:50 +0000
Subject: [PATCH 45/91] fix: read a final record of minimum length from a
 buffer and release the record on errors

---
 libmseed/tracelist.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index bbe6e37..0433494 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -896,7 +896,7 @@ mstl3_readbuffer_selection (MS3TraceList **ppmstl, const char *buffer, uint64_t
   if ((flags & MSF_UNPACKDATA) && selections)
     pflags &= ~(MSF_UNPACKDATA);
 
-  while ((bufferlength - offset) > MINRECLEN)
+  while ((bufferlength - offset) >= MINRECLEN)
   {
     parsevalue = msr3_parse (buffer + offset, bufferlength - offset, &msr, pflags, verbose);
 
@@ -957,7 +957,10 @@ mstl3_readbuffer_selection (MS3TraceList **ppmstl, const char *buffer, uint64_t
     {
       /* Determine offset to data and length of data payload */
       if (msr3_data_bounds (msr, &dataoffset, &datasize))
+      {
+        msr3_free (&msr);
         return MS_GENERROR;
+      }
 
       recordptr->bufferptr  = buffer + offset;
       recordptr->fileptr    = NULL;
-- 
2.43.0


From e224d405019af90813c1a693329b084cf52cf57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:13 +0000
Subject: [PATCH 46/91] fix: release file list entries and buffers when
 unpacking record lists fails

---
 libmseed/tracelist.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index 0433494..efacc97 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -1806,6 +1806,7 @@ mstl3_unpack_recordlist (MS3TraceID *id, MS3TraceSeg *seg, void *output,
           {
             ms_log (2, "%s: Cannot open file (%s): %s\n", id->sid, recordptr->filename, strerror(errno));
 
+            libmseed_memory.free (filelistptr);
             totalunpackedsamples = -1;
             break;
           }
@@ -1822,7 +1823,9 @@ mstl3_unpack_recordlist (MS3TraceID *id, MS3TraceSeg *seg, void *output,
       /* Allocate memory if needed, over-allocating (x2) to minimize reallocation */
       if (recordptr->msr->reclen > filebuffersize)
       {
-        if ((filebuffer = libmseed_memory.realloc (filebuffer, recordptr->msr->reclen * 2)) == NULL)
+        char *newbuffer = (char *)libmseed_memory.realloc (filebuffer, recordptr->msr->reclen * 2);
+
+        if (newbuffer == NULL)
         {
           ms_log (2, "%s: Cannot allocate memory for file read buffer\n", id->sid);
 
@@ -1830,6 +1833,7 @@ mstl3_unpack_recordlist (MS3TraceID *id, MS3TraceSeg *seg, void *output,
           break;
         }
 
+        filebuffer = newbuffer;
         filebuffersize = recordptr->msr->reclen * 2;
       }
 
-- 
2.43.0


From c6ac05e124109ca611ed50938b305c078fbb51f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:13 +0000
Subject: [PATCH 47/91] fix: decode record list entries of unknown encoding as
 immediate unpacking does

---
 libmseed/tracelist.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index efacc97..c0527f0 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -1662,6 +1662,7 @@ mstl3_unpack_recordlist (MS3TraceID *id, MS3TraceSeg *seg, void *output,
   uint64_t outputoffset = 0;
   uint64_t decodedsize = 0;
   uint8_t samplesize = 0;
+  uint8_t encoding = 0;
   char sampletype = 0;
   char recsampletype = 0;
 
@@ -1691,10 +1692,13 @@ mstl3_unpack_recordlist (MS3TraceID *id, MS3TraceSeg *seg, void *output,
 
   recordptr = seg->recordlist->first;
 
-  if (ms_encoding_sizetype((uint8_t)recordptr->msr->encoding, &samplesize, &sampletype))
+  /* Fallback to Steim-1 when encoding is unknown, matching msr3_unpack_data() */
+  encoding = (recordptr->msr->encoding < 0) ? DE_STEIM1 : (uint8_t)recordptr->msr->encoding;
+
+  if (ms_encoding_sizetype(encoding, &samplesize, &sampletype))
   {
     ms_log (2, "%s: Cannot determine sample size and type for encoding: %u\n",
-            id->sid, recordptr->msr->encoding);
+            id->sid, encoding);
     return -1;
   }
 
@@ -1741,9 +1745,11 @@ mstl3_unpack_recordlist (MS3TraceID *id, MS3TraceSeg *seg, void *output,
       continue;
     }
 
-    if (ms_encoding_sizetype((uint8_t)recordptr->msr->encoding, NULL, &recsampletype))
+    encoding = (recordptr->msr->encoding < 0) ? DE_STEIM1 : (uint8_t)recordptr->msr->encoding;
+
+    if (ms_encoding_sizetype(encoding, NULL, &recsampletype))
     {
-      ms_log (2, "%s: Cannot determine sample type for encoding: %u\n", id->sid, recordptr->msr->encoding);
+      ms_log (2, "%s: Cannot determine sample type for encoding: %u\n", id->sid, encoding);
 
       totalunpackedsamples = -1;
       break;
@@ -1874,7 +1880,7 @@ mstl3_unpack_recordlist (MS3TraceID *id, MS3TraceSeg *seg, void *output,
 
     /* Decode data from buffer */
     unpackedsamples = ms_decode_data (input, recordptr->msr->reclen - recordptr->dataoffset,
-                                      (uint8_t)recordptr->msr->encoding, recordptr->msr->samplecnt,
+                                      encoding, recordptr->msr->samplecnt,
                                       (unsigned char *)output + outputoffset, decodedsize - outputoffset,
                                       &sampletype, (recordptr->msr->swapflag & MSSWAP_PAYLOAD), id->sid, verbose);
 
-- 
2.43.0


From 8fd5c28030d7787ae1c69628417efe495c32aa1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:49 +0000
Subject: [PATCH 48/91] fix: do not truncate the count of remaining samples
 when packing

---
 libmseed/pack.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmseed/pack.c b/libmseed/pack.c
index 9b2db61..1c5118a 100644
--- a/libmseed/pack.c
+++ b/libmseed/pack.c
@@ -302,7 +302,7 @@ msr3_pack_mseed3 (const MS3Record *msr, void (*record_handler) (char *, int, voi
   {
     packsamples = msr_pack_data (encoded,
                                  (char *)msr->datasamples + packoffset,
-                                 (int)(msr->numsamples - totalpackedsamples), maxdatabytes,
+                                 (uint64_t)(msr->numsamples - totalpackedsamples), maxdatabytes,
                                  msr->sampletype, encoding, swapflag,
                                  &datalength, msr->sid, verbose);
 
@@ -765,7 +765,7 @@ msr3_pack_mseed2 (const MS3Record *msr, void (*record_handler) (char *, int, voi
   {
     packsamples = msr_pack_data (encoded,
                                  (char *)msr->datasamples + packoffset,
-                                 (int)(msr->numsamples - totalpackedsamples), maxdatabytes,
+                                 (uint64_t)(msr->numsamples - totalpackedsamples), maxdatabytes,
                                  msr->sampletype, encoding, swapflag,
                                  &datalength, msr->sid, verbose);
 
-- 
2.43.0


From 7cad05ce181bfdf3ebe686f90f722f2c223d6542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:49 +0000
Subject: [PATCH 49/91] fix: include blockette 100 when low sample rates are
 not well represented by factor and multiplier

---
 libmseed/pack.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmseed/pack.c b/libmseed/pack.c
index 1c5118a..c5dda94 100644
--- a/libmseed/pack.c
+++ b/libmseed/pack.c
@@ -1162,7 +1162,7 @@ msr3_pack_header2 (const MS3Record *msr, char *record, uint32_t recbuflen, int8_
   }
 
   /* Add Blockette 100 if sample rate is not well represented by factor/multiplier */
-  if (fabs(msr3_sampratehz(msr) - ms_nomsamprate(factor, multiplier)) > 0.0001)
+  if (fabs(msr3_sampratehz(msr) - ms_nomsamprate(factor, multiplier)) > msr3_sampratehz(msr) * 0.0000001)
   {
     *next_blockette = HO2u ((uint16_t)written, swapflag);
     next_blockette = pMS2B100_NEXT (record + written);
@@ -1170,7 +1170,7 @@ msr3_pack_header2 (const MS3Record *msr, char *record, uint32_t recbuflen, int8_
 
     *pMS2B100_TYPE (record + written)     = HO2u (100, swapflag);
     *pMS2B100_NEXT (record + written)     = 0;
-    *pMS2B100_SAMPRATE (record + written) = HO4f ((float)msr->samprate, swapflag);
+    *pMS2B100_SAMPRATE (record + written) = HO4f ((float)msr3_sampratehz(msr), swapflag);
     *pMS2B100_FLAGS (record + written)    = 0;
     memset (pMS2B100_RESERVED (record + written), 0, 3);
 
-- 
2.43.0


From f03146cb50fd2128177ec7a52f0ad264ef43bd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:49 +0000
Subject: [PATCH 50/91] fix: include blockette 1001 when records following the
 first start between 100 microsecond ticks

---
 libmseed/pack.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/libmseed/pack.c b/libmseed/pack.c
index c5dda94..ead50cd 100644
--- a/libmseed/pack.c
+++ b/libmseed/pack.c
@@ -887,6 +887,7 @@ msr3_pack_header2 (const MS3Record *msr, char *record, uint32_t recbuflen, int8_
   uint32_t nsec;
   uint16_t fsec;
   int8_t msec_offset;
+  double period_ticks = 0.0;
 
   uint32_t reclenexp = 0;
   uint32_t reclenfind;
@@ -983,6 +984,12 @@ msr3_pack_header2 (const MS3Record *msr, char *record, uint32_t recbuflen, int8_
   fsec = nsec / 100000;
   msec_offset = ((nsec / 1000) - (fsec * 100));
 
+  /* Calculate sample period in 100usec ticks */
+  if (msr->samprate > 0.0)
+    period_ticks = 10000.0 / msr->samprate;
+  else if (msr->samprate < 0.0)
+    period_ticks = 10000.0 * -msr->samprate;
+
   /* Generate factor & multipler representation of sample rate */
   if (ms_genfactmult (msr3_sampratehz(msr), &factor, &multiplier))
   {
@@ -1139,8 +1146,10 @@ msr3_pack_header2 (const MS3Record *msr, char *record, uint32_t recbuflen, int8_
 
   written += 8;
 
-  /* Add Blockette 1001 if microsecond offset or timing quality is present */
-  if (yyjson_ptr_get_uint (ehroot, "/FDSN/Time/Quality", &header_uint) || msec_offset)
+  /* Add Blockette 1001 if timing quality is present or a microsecond offset is needed,
+   * either for this start time or for the start times of following records */
+  if (yyjson_ptr_get_uint (ehroot, "/FDSN/Time/Quality", &header_uint) || msec_offset ||
+      (msr->numsamples > 0 && period_ticks != (double)((int64_t)period_ticks)))
   {
     *next_blockette = HO2u ((uint16_t)written, swapflag);
     next_blockette = pMS2B1001_NEXT (record + written);
-- 
2.43.0


From 628fcc8ed50ceac87899ce3d6db0e1c2448dea42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:29 +0000
Subject: [PATCH 51/91] fix: allow for rounding of the sample period when
 deciding on blockette 1001

---
 libmseed/pack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmseed/pack.c b/libmseed/pack.c
index ead50cd..9ee415e 100644
--- a/libmseed/pack.c
+++ b/libmseed/pack.c
@@ -1149,7 +1149,7 @@ msr3_pack_header2 (const MS3Record *msr, char *record, uint32_t recbuflen, int8_
   /* Add Blockette 1001 if timing quality is present or a microsecond offset is needed,
    * either for this start time or for the start times of following records */
   if (yyjson_ptr_get_uint (ehroot, "/FDSN/Time/Quality", &header_uint) || msec_offset ||
-      (msr->numsamples > 0 && period_ticks != (double)((int64_t)period_ticks)))
+      (msr->numsamples > 0 && fabs (period_ticks - (double)((int64_t)(period_ticks + 0.5))) > period_ticks * 1e-12))
   {
     *next_blockette = HO2u ((uint16_t)written, swapflag);
     next_blockette = pMS2B1001_NEXT (record + written);
-- 
2.43.0


From cae0ec65d20fa90abf934eed362a51dc0f4254a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:28 +0000
Subject: [PATCH 52/91] fix: write aborted calibrations as blockette 395

---
 libmseed/pack.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/libmseed/pack.c b/libmseed/pack.c
index 9ee415e..f037756 100644
--- a/libmseed/pack.c
+++ b/libmseed/pack.c
@@ -1388,7 +1388,7 @@ msr3_pack_header2 (const MS3Record *msr, char *record, uint32_t recbuflen, int8_
       if (!yyjson_is_obj (ehiterval))
         continue;
 
-      /* Determine which calibration type: STEP, SINE, PSEUDORANDOM, GENERIC */
+      /* Determine which calibration type: STEP, SINE, PSEUDORANDOM, GENERIC, ABORT */
       blockette_type   = 0;
       blockette_length = 0;
       if (yyjson_ptr_get_str (ehiterval, "/Type", &header_string))
@@ -1413,6 +1413,11 @@ msr3_pack_header2 (const MS3Record *msr, char *record, uint32_t recbuflen, int8_
           blockette_type   = 390;
           blockette_length = 28;
         }
+        else if (strncasecmp (header_string, "ABORT", 5) == 0)
+        {
+          blockette_type   = 395;
+          blockette_length = 16;
+        }
       }
       else if (yyjson_ptr_get (ehiterval, "/EndTime"))
       {
@@ -1592,8 +1597,9 @@ msr3_pack_header2 (const MS3Record *msr, char *record, uint32_t recbuflen, int8_
         written += blockette_length;
       }
 
-      /* Add Blockette 395 if EndTime is included */
-      if (yyjson_ptr_get_str (ehiterval, "/EndTime", &header_string))
+      /* Add Blockette 395 for an aborted calibration or if EndTime is included */
+      header_string = NULL;
+      if (yyjson_ptr_get_str (ehiterval, "/EndTime", &header_string) || blockette_type == 395)
       {
         blockette_type  = 395;
         blockette_length = 16;
@@ -1613,7 +1619,8 @@ msr3_pack_header2 (const MS3Record *msr, char *record, uint32_t recbuflen, int8_
         *pMS2B395_TYPE (record + written) = HO2u (blockette_type, swapflag);
         *pMS2B395_NEXT (record + written) = 0;
 
-        if (ms_timestr2btime (header_string, (uint8_t *)pMS2B395_YEAR (record + written),
+        if (header_string &&
+            ms_timestr2btime (header_string, (uint8_t *)pMS2B395_YEAR (record + written),
                               msr->sid, swapflag) == -1)
         {
           ms_log (2, "%s: Cannot convert B%u time: %s\n", msr->sid, blockette_type, header_string);
-- 
2.43.0


From 52eefc2476c311f08e7a4489f2e00b82eaf08bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:40 +0000
Subject: [PATCH 53/91] fix: refuse path names too long to store instead of
 opening a truncated name

---
 libmseed/fileutils.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libmseed/fileutils.c b/libmseed/fileutils.c
index 43cd33e..6e7d09d 100644
--- a/libmseed/fileutils.c
+++ b/libmseed/fileutils.c
@@ -336,6 +336,14 @@ ms3_readmsr_selection (MS3FileParam **ppmsfp, MS3Record **ppmsr, const char *msp
       pathname_range = parse_pathname_range (mspath, &msfp->startoffset, &msfp->endoffset);
     }
 
+    /* Refuse a path that cannot be stored, instead of opening a truncated one */
+    if (((pathname_range) ? (size_t)(pathname_range - mspath) : strlen (mspath)) >= sizeof (msfp->path))
+    {
+      ms_log (2, "Path name too long, limit is %d characters: %s\n", (int)sizeof (msfp->path) - 1, mspath);
+      msr3_free (ppmsr);
+      return MS_GENERROR;
+    }
+
     /* Store the path */
     strncpy (msfp->path, mspath, sizeof (msfp->path) - 1);
 
-- 
2.43.0


From 194ad8f33fdbc82ada9c0794a19316d1e077ec2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:10 +0000
Subject: [PATCH 54/91] fix: report failed URL transfers instead of the end of
 the stream

---
 libmseed/msio.c | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/libmseed/msio.c b/libmseed/msio.c
index 8eacc9f..86ec1c4 100644
--- a/libmseed/msio.c
+++ b/libmseed/msio.c
@@ -381,6 +381,11 @@ msio_fopen (LMIO *io, const char *path, const char *mode,
       ms_log (2, "Cannot open %s: response code %ld\n", path, response_code);
       return -1;
     }
+    else if (io->still_running < 0)
+    {
+      ms_log (2, "Cannot open %s: transfer failed\n", path);
+      return -1;
+    }
 #endif /* defined(LIBMSEED_URL) */
   }
   else
@@ -510,7 +515,8 @@ msio_fread (LMIO *io, void *buffer, size_t size)
     int maxfd       = -1;
     int rc;
 
-    if (!io->still_running)
+    /* No more data when finished or failed */
+    if (io->still_running <= 0)
       return 0;
 
     /* Set up destination buffer in write callback parameters */
@@ -577,6 +583,19 @@ msio_fread (LMIO *io, void *buffer, size_t size)
 
     read = size - rcp.size;
 
+    /* Identify failed transfers, which are not the end of the stream */
+    if (io->still_running == 0)
+    {
+      CURLMsg *msg;
+      int queued;
+
+      while ((msg = curl_multi_info_read (io->handle2, &queued)))
+      {
+        if (msg->msg == CURLMSG_DONE && msg->data.result != CURLE_OK)
+          io->still_running = -1;
+      }
+    }
+
 #endif /* defined(LIBMSEED_URL) */
   }
 
@@ -610,8 +629,8 @@ msio_feof (LMIO *io)
     ms_log (2, "URL support not included in library\n");
     return -1;
 #else
-    /* The still_running flag is only changed by curl_multi_perform()
-     * and indicates current "transfers in progress".  Presumably no data
+    /* The still_running flag is set by curl_multi_perform(), or negative
+     * after a failed transfer, and indicates current "transfers in progress".  Presumably no data
      * are in internal libcurl buffers either. */
     if (!io->still_running)
       return 1;
-- 
2.43.0


From 8c23a45ea96bd70e182b201a1a5b66e66fac172d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:10 +0000
Subject: [PATCH 55/91] fix: do not use header callback parameters after
 opening a URL

---
 libmseed/msio.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libmseed/msio.c b/libmseed/msio.c
index 86ec1c4..274fcf5 100644
--- a/libmseed/msio.c
+++ b/libmseed/msio.c
@@ -369,6 +369,10 @@ msio_fopen (LMIO *io, const char *path, const char *mode,
     /* Start connection, get status & headers, without consuming any data */
     msio_fread (io, NULL, 0);
 
+    /* Headers that follow, e.g. trailers, are not of interest */
+    curl_easy_setopt (io->handle, CURLOPT_HEADERFUNCTION, NULL);
+    curl_easy_setopt (io->handle, CURLOPT_HEADERDATA, NULL);
+
     curl_easy_getinfo (io->handle, CURLINFO_RESPONSE_CODE, &response_code);
 
     if (response_code == 404)
-- 
2.43.0


From d4e6cf70c09f662b421b7194b50ebf84a1e6c160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:16 +0000
Subject: [PATCH 56/91] fix: receive complete URL chunks when reading records
 near the maximum length

---
 libmseed/fileutils.c | 9 ++++++---
 libmseed/msio.c      | 4 ++--
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/libmseed/fileutils.c b/libmseed/fileutils.c
index 6e7d09d..ddf6418 100644
--- a/libmseed/fileutils.c
+++ b/libmseed/fileutils.c
@@ -32,6 +32,9 @@
 /* Skip length in bytes when skipping non-data */
 #define SKIPLEN 1
 
+/* Size of read buffer: largest record and room for a complete libcurl receive buffer */
+#define READBUFLEN (MAXRECLEN + 16384)
+
 /* Initialize the global file reading parameters */
 MS3FileParam gMS3FileParam = MS3FileParam_INITIALIZER;
 
@@ -320,7 +323,7 @@ ms3_readmsr_selection (MS3FileParam **ppmsfp, MS3Record **ppmsr, const char *msp
   /* Allocate reading buffer */
   if (msfp->readbuffer == NULL)
   {
-    if (!(msfp->readbuffer = (char *)libmseed_memory.malloc (MAXRECLEN)))
+    if (!(msfp->readbuffer = (char *)libmseed_memory.malloc (READBUFLEN)))
     {
       ms_log (2, "Cannot allocate memory for read buffer\n");
       return MS_GENERROR;
@@ -409,7 +412,7 @@ ms3_readmsr_selection (MS3FileParam **ppmsfp, MS3Record **ppmsr, const char *msp
       }
 
       /* Determine read size */
-      readsize = (MAXRECLEN - msfp->readlength);
+      readsize = (READBUFLEN - msfp->readlength);
 
       /* Read data into record buffer */
       readcount = (int)msio_fread (&msfp->input, msfp->readbuffer + msfp->readlength, readsize);
@@ -520,7 +523,7 @@ ms3_readmsr_selection (MS3FileParam **ppmsfp, MS3Record **ppmsr, const char *msp
       else /* parseval > 0 (found record but need more data) */
       {
         /* Check for parse hints that are larger than MAXRECLEN */
-        if ((MSFPBUFLEN (msfp) + parseval) > MAXRECLEN)
+        if ((MSFPBUFLEN (msfp) + parseval) > READBUFLEN)
         {
           if (flags & MSF_SKIPNOTDATA)
           {
diff --git a/libmseed/msio.c b/libmseed/msio.c
index 274fcf5..dfc01b1 100644
--- a/libmseed/msio.c
+++ b/libmseed/msio.c
@@ -532,9 +532,9 @@ msio_fread (LMIO *io, void *buffer, size_t size)
       return -1;
     }
 
-    /* Unpause connection */
-    curl_easy_pause (io->handle, CURLPAUSE_CONT);
+    /* Unpause connection, data may be received immediately and pause it again */
     rcp.is_paused = 0;
+    curl_easy_pause (io->handle, CURLPAUSE_CONT);
 
     /* Receive data while connection running, destination space available
      * and connection is not paused. */
-- 
2.43.0


From 242671c0ad3d7f56e2d3eb57f03859c669063685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:40 +0000
Subject: [PATCH 57/91] fix: close input that could not be opened completely

---
 libmseed/fileutils.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libmseed/fileutils.c b/libmseed/fileutils.c
index ddf6418..6e26618 100644
--- a/libmseed/fileutils.c
+++ b/libmseed/fileutils.c
@@ -369,6 +369,10 @@ ms3_readmsr_selection (MS3FileParam **ppmsfp, MS3Record **ppmsr, const char *msp
     {
       if (msio_fopen(&msfp->input, msfp->path, "rb", &msfp->startoffset, &msfp->endoffset))
       {
+        /* Close input that was partially opened */
+        if (msfp->input.handle != NULL)
+          msio_fclose (&msfp->input);
+
         msr3_free (ppmsr);
         return MS_GENERROR;
       }
-- 
2.43.0


From 133ee055dad4d7e63809d520f67fcbf461b4d654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:45 +0000
Subject: [PATCH 58/91] fix: do not take a version 2 record cut within its
 blockettes for a complete record at end of file

---
 libmseed/parseutils.c | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/libmseed/parseutils.c b/libmseed/parseutils.c
index 4fe9b1a..6f62869 100644
--- a/libmseed/parseutils.c
+++ b/libmseed/parseutils.c
@@ -28,6 +28,35 @@
 #include "unpack.h"
 #include "mseedformat.h"
 
+/***************************************************************************
+ * Determine if the blockette chain of a miniSEED 2 record ends within
+ * the specified length.  The record is expected to be at least 48 bytes
+ * and the chain to be valid, as tested by ms3_detect().
+ *
+ * Returns 1 if the chain ends within the length, otherwise 0.
+ ***************************************************************************/
+static int
+ms2_chain_within (const char *record, uint64_t length)
+{
+  uint16_t offset;
+  int swapflag = !MS_ISVALIDYEARDAY (*pMS2FSDH_YEAR (record), *pMS2FSDH_DAY (record));
+
+  offset = HO2u (*pMS2FSDH_BLOCKETTEOFFSET (record), swapflag);
+
+  while (offset > 47)
+  {
+    if ((uint64_t)offset + 4 > length)
+      return 0;
+
+    memcpy (&offset, record + offset + 2, sizeof (offset));
+
+    if (swapflag)
+      ms_gswap2 (&offset);
+  }
+
+  return 1;
+} /* End of ms2_chain_within() */
+
 /***********************************************************************/ /**
  * @brief Parse miniSEED from a buffer
  *
@@ -80,13 +109,15 @@ msr3_parse (const char *record, uint64_t recbuflen, MS3Record **ppmsr,
      - buffer is at the end of the file
      - buffer length is a power of 2
      - within supported record length
+     - the blockette chain ends within the buffer
 
      Power of two if (X & (X - 1)) == 0 */
   if (formatversion == 2 &&
       reclen == 0 &&
       flags & MSF_ATENDOFFILE &&
       (recbuflen & (recbuflen - 1)) == 0 &&
-      recbuflen <= MAXRECLEN)
+      recbuflen <= MAXRECLEN &&
+      ms2_chain_within (record, recbuflen))
   {
     reclen = (int64_t)recbuflen;
   }
-- 
2.43.0


From 4cd3223bc6c46d4b6f77ab2f28c09f66c98318fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:01 +0000
Subject: [PATCH 59/91] fix: convert version 2 data payloads to version 3 byte
 order when repacking

---
 libmseed/pack.c | 93 +++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 93 insertions(+)

diff --git a/libmseed/pack.c b/libmseed/pack.c
index f037756..914e9f9 100644
--- a/libmseed/pack.c
+++ b/libmseed/pack.c
@@ -374,6 +374,77 @@ msr3_pack_mseed3 (const MS3Record *msr, void (*record_handler) (char *, int, voi
   return recordcnt;
 } /* End of msr3_pack_mseed3() */
 
+/***************************************************************************
+ * Reverse the byte order of an encoded data payload in place.
+ *
+ * Encodings without a known sample layout are not changed.
+ ***************************************************************************/
+static void
+swap_payload (char *data, uint32_t size, int16_t encoding)
+{
+  uint32_t offset;
+  uint32_t framecontrol = 0;
+  uint32_t nibble;
+  int8_t swapflag = (ms_bigendianhost ()) ? 0 : 1;
+  char byte;
+
+  switch (encoding)
+  {
+  case DE_INT16:
+  case DE_GEOSCOPE163:
+  case DE_GEOSCOPE164:
+  case DE_CDSN:
+  case DE_SRO:
+  case DE_DWWSSN:
+    for (offset = 0; offset + 2 <= size; offset += 2)
+      ms_gswap2 (data + offset);
+    break;
+  case DE_GEOSCOPE24:
+    for (offset = 0; offset + 3 <= size; offset += 3)
+    {
+      byte             = data[offset];
+      data[offset]     = data[offset + 2];
+      data[offset + 2] = byte;
+    }
+    break;
+  case DE_INT32:
+  case DE_FLOAT32:
+    for (offset = 0; offset + 4 <= size; offset += 4)
+      ms_gswap4 (data + offset);
+    break;
+  case DE_FLOAT64:
+    for (offset = 0; offset + 8 <= size; offset += 8)
+      ms_gswap8 (data + offset);
+    break;
+  case DE_STEIM1:
+  case DE_STEIM2:
+    /* Steim words contain 8, 16 or 32-bit elements, as identified by the frame control
+     * word.  The result is big endian, as Steim encodings are always in version 3 */
+    for (offset = 0; offset + 4 <= size; offset += 4)
+    {
+      nibble = (framecontrol >> (30 - 2 * (offset % 64 / 4))) & 0x3;
+
+      if (offset % 64 == 0)
+      {
+        ms_gswap4 (data + offset);
+        memcpy (&framecontrol, data + offset, sizeof (framecontrol));
+        if (swapflag)
+          ms_gswap4 (&framecontrol);
+      }
+      else if (nibble == 2 && encoding == DE_STEIM1)
+      {
+        ms_gswap2 (data + offset);
+        ms_gswap2 (data + offset + 2);
+      }
+      else if (nibble != 1)
+      {
+        ms_gswap4 (data + offset);
+      }
+    }
+    break;
+  }
+} /* End of swap_payload() */
+
 /**********************************************************************/ /**
  * @brief Repack a parsed miniSEED record into a version 3 record.
  *
@@ -381,6 +452,10 @@ msr3_pack_mseed3 (const MS3Record *msr, void (*record_handler) (char *, int, voi
  * encoded data from the original record.  The original record must be
  * available at the ::MS3Record.record pointer.
  *
+ * The data payload of version 2 records is converted to the byte order
+ * of version 3 if needed: big endian for Steim encodings and little
+ * endian for all others.
+ *
  * This can be used to efficiently convert format versions or modify
  * header values without unpacking the data samples.
  *
@@ -402,7 +477,10 @@ msr3_repack_mseed3 (const MS3Record *msr, char *record, uint32_t recbuflen,
   uint32_t origdatasize;
   uint32_t crc;
   uint32_t reclen;
+  int16_t encoding;
   int8_t swapflag;
+  int8_t bigpayload;
+  int8_t steim;
 
   if (!msr || !msr->record || ! record)
   {
@@ -453,6 +531,21 @@ msr3_repack_mseed3 (const MS3Record *msr, char *record, uint32_t recbuflen,
   /* Copy encoded data into record */
   memcpy (record + dataoffset, msr->record + origdataoffset, origdatasize);
 
+  if (msr->formatversion == 2)
+  {
+    /* Unknown encoding (no blockette 1000) is assumed to be Steim-1, as for unpacking */
+    encoding = (msr->encoding < 0) ? DE_STEIM1 : msr->encoding;
+
+    *pMS3FSDH_ENCODING(record) = (uint8_t)encoding;
+
+    /* Convert data payload to the byte order of version 3 */
+    steim      = (encoding == DE_STEIM1 || encoding == DE_STEIM2);
+    bigpayload = (msr->swapflag & MSSWAP_PAYLOAD) ? !ms_bigendianhost () : ms_bigendianhost ();
+
+    if (bigpayload != steim)
+      swap_payload (record + dataoffset, origdatasize, encoding);
+  }
+
   /* Check to see if byte swapping is needed, miniSEED 3 is little endian */
   swapflag = (ms_bigendianhost ()) ? 1 : 0;
 
-- 
2.43.0


From 652783be7fbb14fb348dcfbad39606cbf31ba5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:35 +0000
Subject: [PATCH 60/91] fix: report failures to write records and keep standard
 output open

---
 libmseed/fileutils.c | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/libmseed/fileutils.c b/libmseed/fileutils.c
index 6e26618..0f3ccda 100644
--- a/libmseed/fileutils.c
+++ b/libmseed/fileutils.c
@@ -885,6 +885,33 @@ ms_record_handler_int (char *record, int reclen, void *ofp)
   }
 } /* End of ms_record_handler_int() */
 
+/***************************************************************************
+ *
+ * Finish an output file: flush, close unless it is stdout, and report
+ * any failure to write the data.
+ *
+ * Returns 0 on success and -1 if any data could not be written.
+ *
+ ***************************************************************************/
+static int
+finish_output (FILE *ofp, const char *mspath)
+{
+  int failed = ferror (ofp);
+
+  if (ofp == stdout)
+    failed |= fflush (ofp);
+  else
+    failed |= fclose (ofp);
+
+  if (failed)
+  {
+    ms_log (2, "Error writing to %s\n", mspath);
+    return -1;
+  }
+
+  return 0;
+} /* End of finish_output() */
+
 /**********************************************************************/ /**
  * @brief Write miniSEED from an ::MS3Record container to a file
  *
@@ -939,7 +966,8 @@ msr3_writemseed (MS3Record *msr, const char *mspath, int8_t overwrite,
   packedrecords = msr3_pack (msr, &ms_record_handler_int, ofp, NULL, flags, verbose - 1);
 
   /* Close file and return record count */
-  fclose (ofp);
+  if (finish_output (ofp, mspath))
+    return -1;
 
   return packedrecords;
 } /* End of msr3_writemseed() */
@@ -1006,7 +1034,8 @@ mstl3_writemseed (MS3TraceList *mstl, const char *mspath, int8_t overwrite,
                               encoding, NULL, flags, verbose, NULL);
 
   /* Close file and return record count */
-  fclose (ofp);
+  if (finish_output (ofp, mspath))
+    return -1;
 
   return packedrecords;
 } /* End of mstl3_writemseed() */
-- 
2.43.0


From e8dc702d9ad8aa3a3ea632af887b1f8a5afb83df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:20 +0000
Subject: [PATCH 61/91] fix: treat sample rates within the specified tolerance
 as similar, not the others

---
 libmseed/tracelist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index c0527f0..1275ad2 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -35,7 +35,7 @@ static uint32_t lm_lcg_r (uint64_t *state);
 static uint8_t lm_random_height (uint8_t maximum, uint64_t *state);
 
 /* Test if two sample rates are similar using either specified tolerance (if positive) or default tolerance */
-#define IS_SAMPRATE_SIMILAR(SR1, SR2, SRT) ((SRT > 0.0) ? fabs (SR1 - SR2) > SRT : MS_ISRATETOLERABLE (SR1, SR2))
+#define IS_SAMPRATE_SIMILAR(SR1, SR2, SRT) ((SRT > 0.0) ? fabs (SR1 - SR2) <= SRT : MS_ISRATETOLERABLE (SR1, SR2))
 
 /**********************************************************************/ /**
  * @brief Initialize a ::MS3TraceList container
-- 
2.43.0


From 8a036eb010f64e11b7caccd5264dde91e7c1abb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:20 +0000
Subject: [PATCH 62/91] fix: match records with segments of the same coverage
 only at similar sample rates

---
 libmseed/tracelist.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index 1275ad2..66b283a 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -567,7 +567,8 @@ mstl3_addmsr_recordptr (MS3TraceList *mstl, const MS3Record *msr, MS3RecordPtr *
          * also not fit with any other segment. */
         if (autoheal &&
             msr->starttime == searchseg->starttime &&
-            endtime == searchseg->endtime)
+            endtime == searchseg->endtime &&
+            IS_SAMPRATE_SIMILAR (sampratehz, searchseg->samprate, sampratetol))
         {
           followseg = searchseg;
           break;
-- 
2.43.0


From 8b5ee8e359836aeef009f6051aed3bfc9161e4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:55 +0000
Subject: [PATCH 63/91] fix: report errors packing a trace list and leave extra
 headers of the caller alone

---
 libmseed/tracelist.c | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index 66b283a..a099e20 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -2037,15 +2037,16 @@ mstl3_pack (MS3TraceList *mstl, void (*record_handler) (char *, int, void *),
 
   if (extra)
   {
-    msr->extra = extra;
     extralength = strlen(extra);
 
     if (extralength > UINT16_MAX)
     {
       ms_log (2, "Extra headers are too long: %"PRIsize_t"\n", extralength);
+      msr3_free (&msr);
       return -1;
     }
 
+    msr->extra = extra;
     msr->extralength = (uint16_t)extralength;
   }
 
@@ -2103,7 +2104,8 @@ mstl3_pack (MS3TraceList *mstl, void (*record_handler) (char *, int, void *),
         if (!(samplesize = ms_samplesize (seg->sampletype)))
         {
           ms_log (2, "Unknown sample size for sample type: %c\n", seg->sampletype);
-          return -1;
+          totalpackedrecords = -1;
+          break;
         }
 
         bufsize = (seg->numsamples - segpackedsamples) * samplesize;
@@ -2117,15 +2119,14 @@ mstl3_pack (MS3TraceList *mstl, void (*record_handler) (char *, int, void *),
           /* Reallocate buffer for reduced size needed, only if not pre-allocating */
           if (libmseed_prealloc_block_size == 0)
           {
-            seg->datasamples = libmseed_memory.realloc (seg->datasamples, bufsize);
+            void *reduced = libmseed_memory.realloc (seg->datasamples, bufsize);
 
-            if (seg->datasamples == NULL)
+            /* The larger buffer remains valid if it cannot be reduced */
+            if (reduced)
             {
-              ms_log (2, "Cannot (re)allocate datasamples buffer\n");
-              return -1;
+              seg->datasamples = reduced;
+              seg->datasize = bufsize;
             }
-
-            seg->datasize = bufsize;
           }
         }
         else
@@ -2140,17 +2141,30 @@ mstl3_pack (MS3TraceList *mstl, void (*record_handler) (char *, int, void *),
         seg->numsamples -= segpackedsamples;
       }
 
-      totalpackedrecords += segpackedrecords;
       totalpackedsamples += segpackedsamples;
 
+      /* Stop at packing errors */
+      if (segpackedrecords < 0)
+      {
+        ms_log (2, "%s: Error packing segment\n", msr->sid);
+        totalpackedrecords = -1;
+        break;
+      }
+
+      totalpackedrecords += segpackedrecords;
+
       seg = seg->next;
     }
 
+    if (totalpackedrecords < 0)
+      break;
+
     id = id->next[0];
   }
 
-  /* The record structure never owns the actual data so it should not free it */
+  /* The record structure never owns the data or extra headers so it should not free them */
   msr->datasamples = NULL;
+  msr->extra = NULL;
   msr3_free (&msr);
 
   if (packedsamples)
-- 
2.43.0


From 7d63cb6df5da847f3026c1f526a0de049f140193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:55 +0000
Subject: [PATCH 64/91] fix: continue times and emit no empty records after a
 trace list segment is fully packed

---
 libmseed/tracelist.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index a099e20..6cebcdf 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -2061,6 +2061,13 @@ mstl3_pack (MS3TraceList *mstl, void (*record_handler) (char *, int, void *),
     seg = id->first;
     while (seg)
     {
+      /* Skip segments with nothing (left) to pack when used as a rolling buffer */
+      if (!(flags & MSF_MAINTAINMSTL) && seg->numsamples <= 0)
+      {
+        seg = seg->next;
+        continue;
+      }
+
       msr->starttime = seg->starttime;
       msr->samprate = seg->samprate;
       msr->samplecnt = seg->samplecnt;
@@ -2095,11 +2102,8 @@ mstl3_pack (MS3TraceList *mstl, void (*record_handler) (char *, int, void *),
       /* If MSF_MAINTAINMSTL not set, adjust segment start time and reduce data array and sample counts */
       if (!(flags & MSF_MAINTAINMSTL) && segpackedsamples > 0)
       {
-        /* Calculate new start time, shortcut when all samples have been packed */
-        if (segpackedsamples == seg->numsamples)
-          seg->starttime = seg->endtime;
-        else
-          seg->starttime = ms_sampletime (seg->starttime, segpackedsamples, seg->samprate);
+        /* Calculate new start time, the time of the next sample to be added when all have been packed */
+        seg->starttime = ms_sampletime (seg->starttime, segpackedsamples, seg->samprate);
 
         if (!(samplesize = ms_samplesize (seg->sampletype)))
         {
-- 
2.43.0


From 524c5db97805e697b3bd7014a9ac3d48b7c7c3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:51 +0000
Subject: [PATCH 65/91] fix: keep publication version zero separate when
 splitting a trace list by version

---
 libmseed/tracelist.c | 81 ++++++++++++++++++++++++--------------------
 1 file changed, 44 insertions(+), 37 deletions(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index 6cebcdf..6ade121 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -160,35 +160,17 @@ mstl3_free (MS3TraceList **ppmstl, int8_t freeprvtptr)
   return;
 } /* End of mstl3_free() */
 
-/**********************************************************************/ /**
- * @brief Find matching ::MS3TraceID in a ::MS3TraceList
- *
- * Return the ::MS3TraceID matching the \a sid in the specified ::MS3TraceList.
- *
- * If \a prev is not NULL, set pointers to previous entries for the
- * expected location of the trace ID.  Useful for adding a new ID
- * with mstl3_addID(), and should be set to \a NULL otherwise.
- *
- * @param[in] mstl Pointer to the ::MS3TraceList to search
- * @param[in] sid Source ID to search for in the list
- * @param[in] pubversion If non-zero, find the entry with this version
- * @param[out] prev Pointers to previous entries in expected location or NULL
- *
- * @returns a pointer to the matching ::MS3TraceID or NULL if not found or error.
+/***************************************************************************
+ * Search for an ID, matching the publication version exactly, zero
+ * included, if requested.  See mstl3_findID().
  ***************************************************************************/
-MS3TraceID *
-mstl3_findID (MS3TraceList *mstl, const char *sid, uint8_t pubversion, MS3TraceID **prev)
+static MS3TraceID *
+lm_findID (MS3TraceList *mstl, const char *sid, uint8_t pubversion, int8_t matchversion, MS3TraceID **prev)
 {
   MS3TraceID *id = NULL;
   int level;
   int cmp;
 
-  if (!mstl || !sid)
-  {
-    ms_log (2, "%s(): Required input not defined: 'mstl' or 'sid'\n", __func__);
-    return NULL;
-  }
-
   level = MSTRACEID_SKIPLIST_HEIGHT - 1;
 
   /* Search trace ID skip list, starting from the head/sentinel node */
@@ -209,7 +191,7 @@ mstl3_findID (MS3TraceList *mstl, const char *sid, uint8_t pubversion, MS3TraceI
       cmp = strcmp(id->next[level]->sid, sid);
 
       /* If source IDs match, check publication if matching requested */
-      if (!cmp && pubversion && id->next[level]->pubversion != pubversion)
+      if (!cmp && matchversion && id->next[level]->pubversion != pubversion)
       {
         cmp = (id->next[level]->pubversion < pubversion) ? -1 : 1;
       }
@@ -230,6 +212,34 @@ mstl3_findID (MS3TraceList *mstl, const char *sid, uint8_t pubversion, MS3TraceI
   }
 
   return NULL;
+} /* End of lm_findID() */
+
+/**********************************************************************/ /**
+ * @brief Find matching ::MS3TraceID in a ::MS3TraceList
+ *
+ * Return the ::MS3TraceID matching the \a sid in the specified ::MS3TraceList.
+ *
+ * If \a prev is not NULL, set pointers to previous entries for the
+ * expected location of the trace ID.  Useful for adding a new ID
+ * with mstl3_addID(), and should be set to \a NULL otherwise.
+ *
+ * @param[in] mstl Pointer to the ::MS3TraceList to search
+ * @param[in] sid Source ID to search for in the list
+ * @param[in] pubversion If non-zero, find the entry with this version
+ * @param[out] prev Pointers to previous entries in expected location or NULL
+ *
+ * @returns a pointer to the matching ::MS3TraceID or NULL if not found or error.
+ ***************************************************************************/
+MS3TraceID *
+mstl3_findID (MS3TraceList *mstl, const char *sid, uint8_t pubversion, MS3TraceID **prev)
+{
+  if (!mstl || !sid)
+  {
+    ms_log (2, "%s(): Required input not defined: 'mstl' or 'sid'\n", __func__);
+    return NULL;
+  }
+
+  return lm_findID (mstl, sid, pubversion, (pubversion != 0), prev);
 } /* End of mstl3_findID() */
 
 /**********************************************************************/ /**
@@ -263,16 +273,23 @@ mstl3_addID (MS3TraceList *mstl, MS3TraceID *id, MS3TraceID **prev)
   /* If previous list pointers not supplied, find them */
   if (!prev)
   {
-    mstl3_findID (mstl, id->sid, 0, local_prev);
+    lm_findID (mstl, id->sid, id->pubversion, 1, local_prev);
     prev = local_prev;
   }
 
+  /* The previous pointers are set from the highest level down until a match is found */
+  if (!prev[0])
+  {
+    ms_log (2, "No previous pointer for adding SID %s\n", id->sid);
+    return NULL;
+  }
+
   /* Set level of new entry to a random level within head height */
   id->height = lm_random_height (MSTRACEID_SKIPLIST_HEIGHT, &(mstl->prngstate));
 
   /* Set all pointers above new entry level to NULL */
   for (level = MSTRACEID_SKIPLIST_HEIGHT - 1;
-       level > id->height;
+       level >= id->height;
        level--)
   {
     id->next[level] = NULL;
@@ -283,13 +300,6 @@ mstl3_addID (MS3TraceList *mstl, MS3TraceID *id, MS3TraceID **prev)
        level >= 0;
        level--)
   {
-    if (!prev[level])
-    {
-      ms_log (2, "No previous pointer at level %d for adding SID %s\n",
-              level, id->sid);
-      return NULL;
-    }
-
     id->next[level] = prev[level]->next[level];
     prev[level]->next[level] = id;
   }
@@ -401,10 +411,7 @@ mstl3_addmsr_recordptr (MS3TraceList *mstl, const MS3Record *msr, MS3RecordPtr *
   }
 
   /* Search for matching trace ID */
-  id = mstl3_findID (mstl,
-                     msr->sid,
-                     (splitversion) ? msr->pubversion : 0,
-                     previd);
+  id = lm_findID (mstl, msr->sid, msr->pubversion, splitversion, previd);
 
   /* If no matching ID was found create new MS3TraceID and MS3TraceSeg entries */
   if (!id)
-- 
2.43.0


From 3c6286f0b7b0a11fc62d0924b1cfe923bd130b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:42 +0000
Subject: [PATCH 66/91] fix: leave a trace list unchanged and release memory
 when a record cannot be added

---
 libmseed/tracelist.c | 255 +++++++++++++++++++++++++------------------
 1 file changed, 148 insertions(+), 107 deletions(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index 6ade121..2c4b4bc 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -310,6 +310,111 @@ mstl3_addID (MS3TraceList *mstl, MS3TraceID *id, MS3TraceID **prev)
 } /* End of mstl3_addID() */
 
 
+/***************************************************************************
+ * Make space in the data buffer of a segment for additional samples.
+ * A segment without samples takes the type of the samples to be added.
+ *
+ * The segment and its samples are unchanged on error.
+ *
+ * Return 0 on success and -1 on error.
+ ***************************************************************************/
+static int
+lm_growseg (MS3TraceSeg *seg, char sampletype, int64_t addsamples)
+{
+  int samplesize;
+  size_t newdatasize;
+  size_t currentsize = seg->datasize;
+  void *newdatasamples;
+
+  if (seg->numsamples > 0 && sampletype != seg->sampletype)
+  {
+    ms_log (2, "Sample type (%c) does not match segment sample type (%c)\n",
+            sampletype, seg->sampletype);
+    return -1;
+  }
+
+  if (!(samplesize = ms_samplesize (sampletype)))
+  {
+    ms_log (2, "Unknown sample size for sample type: %c\n", sampletype);
+    return -1;
+  }
+
+  newdatasize = (seg->numsamples + addsamples) * samplesize;
+
+  if (seg->datasamples && newdatasize <= seg->datasize)
+  {
+    seg->sampletype = sampletype;
+    return 0;
+  }
+
+  if (libmseed_prealloc_block_size)
+  {
+    newdatasamples = libmseed_memory_prealloc (seg->datasamples, newdatasize, &currentsize);
+  }
+  else
+  {
+    newdatasamples = libmseed_memory.realloc (seg->datasamples, newdatasize);
+    currentsize = newdatasize;
+  }
+
+  if (!newdatasamples)
+  {
+    ms_log (2, "Error allocating memory\n");
+    return -1;
+  }
+
+  seg->datasamples = newdatasamples;
+  seg->datasize = currentsize;
+  seg->sampletype = sampletype;
+
+  return 0;
+} /* End of lm_growseg() */
+
+/***************************************************************************
+ * Free a segment that was not added to a list
+ ***************************************************************************/
+static void
+lm_freeseg (MS3TraceSeg *seg)
+{
+  if (seg->datasamples)
+    libmseed_memory.free (seg->datasamples);
+
+  libmseed_memory.free (seg);
+} /* End of lm_freeseg() */
+
+/***************************************************************************
+ * Add coverage of a record to a segment as mstl3_addmsrtoseg() and, if
+ * requested, its record pointer as mstl3_add_recordptr().
+ *
+ * All memory needed, including for the samples of an optional following
+ * segment to be merged, is allocated before anything is changed.
+ *
+ * Return the segment on success and NULL on error, with the coverage unchanged.
+ ***************************************************************************/
+static MS3TraceSeg *
+mstl3_addmsr_withptr (MS3TraceSeg *seg, const MS3Record *msr, nstime_t endtime, int8_t whence,
+                      const MS3TraceSeg *following, MS3RecordPtr **pprecptr)
+{
+  int64_t addsamples = 0;
+
+  if (msr->datasamples && msr->numsamples > 0)
+    addsamples += msr->numsamples;
+
+  if (addsamples > 0 && lm_growseg (seg, msr->sampletype, addsamples))
+    return NULL;
+
+  if (following && following->datasamples && following->numsamples > 0)
+  {
+    if (lm_growseg (seg, following->sampletype, addsamples + following->numsamples))
+      return NULL;
+  }
+
+  if (pprecptr && !(*pprecptr = mstl3_add_recordptr (seg, msr, endtime, whence)))
+    return NULL;
+
+  return mstl3_addmsrtoseg (seg, msr, endtime, whence);
+} /* End of mstl3_addmsr_withptr() */
+
 /**********************************************************************/ /**
  * @brief Add data coverage from an ::MS3Record to a ::MS3TraceList
  *
@@ -396,6 +501,7 @@ mstl3_addmsr_recordptr (MS3TraceList *mstl, const MS3Record *msr, MS3RecordPtr *
 
   double sampratehz;
   double sampratetol = -1.0;
+  char sampletype;
 
   if (!mstl || !msr)
   {
@@ -432,6 +538,7 @@ mstl3_addmsr_recordptr (MS3TraceList *mstl, const MS3Record *msr, MS3RecordPtr *
 
     if (!(seg = mstl3_msr2seg (msr, endtime)))
     {
+      libmseed_memory.free (id);
       return NULL;
     }
     id->first = id->last = seg;
@@ -439,6 +546,8 @@ mstl3_addmsr_recordptr (MS3TraceList *mstl, const MS3Record *msr, MS3RecordPtr *
     /* Add MS3RecordPtr if requested */
     if (pprecptr && !(*pprecptr = mstl3_add_recordptr (seg, msr, endtime, 1)))
     {
+      lm_freeseg (seg);
+      libmseed_memory.free (id);
       return NULL;
     }
 
@@ -491,17 +600,13 @@ mstl3_addmsr_recordptr (MS3TraceList *mstl, const MS3Record *msr, MS3RecordPtr *
     if (lastgap <= nstimetol && lastgap >= nnstimetol &&
         IS_SAMPRATE_SIMILAR (sampratehz, id->last->samprate, sampratetol))
     {
-      if (!mstl3_addmsrtoseg (id->last, msr, endtime, 1))
-        return NULL;
-
       seg = id->last;
 
+      if (!mstl3_addmsr_withptr (seg, msr, endtime, 1, NULL, pprecptr))
+        return NULL;
+
       if (endtime > id->latest)
         id->latest = endtime;
-
-      /* Add MS3RecordPtr if requested */
-      if (pprecptr && !(*pprecptr = mstl3_add_recordptr (seg, msr, endtime, 1)))
-        return NULL;
     }
     /* Record coverage is after all other coverage */
     else if ((msr->starttime - nsperiod - nstimetol) > id->latest)
@@ -509,6 +614,13 @@ mstl3_addmsr_recordptr (MS3TraceList *mstl, const MS3Record *msr, MS3RecordPtr *
       if (!(seg = mstl3_msr2seg (msr, endtime)))
         return NULL;
 
+      /* Add MS3RecordPtr if requested */
+      if (pprecptr && !(*pprecptr = mstl3_add_recordptr (seg, msr, endtime, 0)))
+      {
+        lm_freeseg (seg);
+        return NULL;
+      }
+
       /* Add to end of list */
       id->last->next = seg;
       seg->prev = id->last;
@@ -517,10 +629,6 @@ mstl3_addmsr_recordptr (MS3TraceList *mstl, const MS3Record *msr, MS3RecordPtr *
 
       if (endtime > id->latest)
         id->latest = endtime;
-
-      /* Add MS3RecordPtr if requested */
-      if (pprecptr && !(*pprecptr = mstl3_add_recordptr (seg, msr, endtime, 0)))
-        return NULL;
     }
     /* Record coverage is before all other coverage */
     else if ((endtime + nsperiod + nstimetol) < id->earliest)
@@ -528,6 +636,13 @@ mstl3_addmsr_recordptr (MS3TraceList *mstl, const MS3Record *msr, MS3RecordPtr *
       if (!(seg = mstl3_msr2seg (msr, endtime)))
         return NULL;
 
+      /* Add MS3RecordPtr if requested */
+      if (pprecptr && !(*pprecptr = mstl3_add_recordptr (seg, msr, endtime, 0)))
+      {
+        lm_freeseg (seg);
+        return NULL;
+      }
+
       /* Add to beginning of list */
       id->first->prev = seg;
       seg->next = id->first;
@@ -536,26 +651,18 @@ mstl3_addmsr_recordptr (MS3TraceList *mstl, const MS3Record *msr, MS3RecordPtr *
 
       if (msr->starttime < id->earliest)
         id->earliest = msr->starttime;
-
-      /* Add MS3RecordPtr if requested */
-      if (pprecptr && !(*pprecptr = mstl3_add_recordptr (seg, msr, endtime, 0)))
-        return NULL;
     }
     /* Record coverage fits at beginning of first segment */
     else if (firstgap <= nstimetol && firstgap >= nnstimetol &&
              IS_SAMPRATE_SIMILAR (sampratehz, id->first->samprate, sampratetol))
     {
-      if (!mstl3_addmsrtoseg (id->first, msr, endtime, 2))
-        return NULL;
-
       seg = id->first;
 
+      if (!mstl3_addmsr_withptr (seg, msr, endtime, 2, NULL, pprecptr))
+        return NULL;
+
       if (msr->starttime < id->earliest)
         id->earliest = msr->starttime;
-
-      /* Add MS3RecordPtr if requested */
-      if (pprecptr && !(*pprecptr = mstl3_add_recordptr (seg, msr, endtime, 2)))
-        return NULL;
     }
     /* Search complete segment list for matches */
     else
@@ -615,19 +722,21 @@ mstl3_addmsr_recordptr (MS3TraceList *mstl, const MS3Record *msr, MS3RecordPtr *
       /* Add MS3Record coverage to end of segment before */
       if (segbefore)
       {
-        if (!mstl3_addmsrtoseg (segbefore, msr, endtime, 1))
-        {
-          return NULL;
-        }
+        /* Segments are only merged if autohealing and holding the same type of samples */
+        sampletype = (segbefore->numsamples > 0) ? segbefore->sampletype : msr->sampletype;
 
-        /* Add MS3RecordPtr if requested */
-        if (pprecptr && !(*pprecptr = mstl3_add_recordptr (segbefore, msr, endtime, 1)))
+        if (!autoheal || segbefore == segafter ||
+            (segafter && segafter->numsamples > 0 && segafter->sampletype != sampletype &&
+             (segbefore->numsamples > 0 || msr->numsamples > 0)))
+          segafter = NULL;
+
+        if (!mstl3_addmsr_withptr (segbefore, msr, endtime, 1, segafter, pprecptr))
         {
           return NULL;
         }
 
-        /* Merge two segments that now fit if autohealing */
-        if (autoheal && segafter && segbefore != segafter)
+        /* Merge two segments that now fit */
+        if (segafter)
         {
           /* Add segafter coverage to segbefore */
           if (!mstl3_addsegtoseg (segbefore, segafter))
@@ -665,13 +774,7 @@ mstl3_addmsr_recordptr (MS3TraceList *mstl, const MS3Record *msr, MS3RecordPtr *
       /* Add MS3Record coverage to beginning of segment after */
       else if (segafter)
       {
-        if (!mstl3_addmsrtoseg (segafter, msr, endtime, 2))
-        {
-          return NULL;
-        }
-
-        /* Add MS3RecordPtr if requested */
-        if (pprecptr && !(*pprecptr = mstl3_add_recordptr (segafter, msr, endtime, 2)))
+        if (!mstl3_addmsr_withptr (segafter, msr, endtime, 2, NULL, pprecptr))
         {
           return NULL;
         }
@@ -690,6 +793,7 @@ mstl3_addmsr_recordptr (MS3TraceList *mstl, const MS3Record *msr, MS3RecordPtr *
         /* Add MS3RecordPtr if requested */
         if (pprecptr && !(*pprecptr = mstl3_add_recordptr (seg, msr, endtime, 0)))
         {
+          lm_freeseg (seg);
           return NULL;
         }
 
@@ -1029,6 +1133,7 @@ mstl3_msr2seg (const MS3Record *msr, nstime_t endtime)
     if (!(samplesize = ms_samplesize (msr->sampletype)))
     {
       ms_log (2, "Unknown sample size for sample type: %c\n", msr->sampletype);
+      lm_freeseg (seg);
       return NULL;
     }
 
@@ -1037,6 +1142,7 @@ mstl3_msr2seg (const MS3Record *msr, nstime_t endtime)
     if (!(seg->datasamples = libmseed_memory.malloc ((size_t) (datasize))))
     {
       ms_log (2, "Error allocating memory\n");
+      lm_freeseg (seg);
       return NULL;
     }
     seg->datasize = datasize;
@@ -1064,8 +1170,6 @@ MS3TraceSeg *
 mstl3_addmsrtoseg (MS3TraceSeg *seg, const MS3Record *msr, nstime_t endtime, int8_t whence)
 {
   int samplesize = 0;
-  void *newdatasamples = NULL;
-  size_t newdatasize = 0;
 
   if (!seg || !msr)
   {
@@ -1076,41 +1180,10 @@ mstl3_addmsrtoseg (MS3TraceSeg *seg, const MS3Record *msr, nstime_t endtime, int
   /* Allocate more memory for data samples if included */
   if (msr->datasamples && msr->numsamples > 0)
   {
-    if (msr->sampletype != seg->sampletype)
-    {
-      ms_log (2, "MS3Record sample type (%c) does not match segment sample type (%c)\n",
-              msr->sampletype, seg->sampletype);
-      return NULL;
-    }
-
-    if (!(samplesize = ms_samplesize (msr->sampletype)))
-    {
-      ms_log (2, "Unknown sample size for sample type: %c\n", msr->sampletype);
-      return NULL;
-    }
-
-    newdatasize = (seg->numsamples + msr->numsamples) * samplesize;
-
-    if (libmseed_prealloc_block_size)
-    {
-      size_t current_size = seg->datasize;
-      newdatasamples = libmseed_memory_prealloc (seg->datasamples, newdatasize, &current_size);
-      seg->datasize = current_size;
-    }
-    else
-    {
-      newdatasamples = libmseed_memory.realloc (seg->datasamples, newdatasize);
-      seg->datasize = newdatasize;
-    }
-
-    if (!newdatasamples)
-    {
-      ms_log (2, "Error allocating memory\n");
-      seg->datasize = 0;
+    if (lm_growseg (seg, msr->sampletype, msr->numsamples))
       return NULL;
-    }
 
-    seg->datasamples = newdatasamples;
+    samplesize = ms_samplesize (msr->sampletype);
   }
 
   /* Add coverage to end of segment */
@@ -1167,8 +1240,6 @@ MS3TraceSeg *
 mstl3_addsegtoseg (MS3TraceSeg *seg1, MS3TraceSeg *seg2)
 {
   int samplesize = 0;
-  void *newdatasamples = NULL;
-  size_t newdatasize = 0;
 
   if (!seg1 || !seg2)
   {
@@ -1179,41 +1250,10 @@ mstl3_addsegtoseg (MS3TraceSeg *seg1, MS3TraceSeg *seg2)
   /* Allocate more memory for data samples if included */
   if (seg2->datasamples && seg2->numsamples > 0)
   {
-    if (seg2->sampletype != seg1->sampletype)
-    {
-      ms_log (2, "MS3TraceSeg sample types do not match (%c and %c)\n",
-              seg1->sampletype, seg2->sampletype);
+    if (lm_growseg (seg1, seg2->sampletype, seg2->numsamples))
       return NULL;
-    }
-
-    if (!(samplesize = ms_samplesize (seg1->sampletype)))
-    {
-      ms_log (2, "Unknown sample size for sample type: %c\n", seg1->sampletype);
-      return NULL;
-    }
-
-    newdatasize = (seg1->numsamples + seg2->numsamples) * samplesize;
-
-    if (libmseed_prealloc_block_size)
-    {
-      size_t current_size = seg1->datasize;
-      newdatasamples = libmseed_memory_prealloc (seg1->datasamples, newdatasize, &current_size);
-      seg1->datasize = current_size;
-    }
-    else
-    {
-      newdatasamples = libmseed_memory.realloc (seg1->datasamples, newdatasize);
-      seg1->datasize = newdatasize;
-    }
-
-    if (!newdatasamples)
-    {
-      ms_log (2, "Error allocating memory\n");
-      seg1->datasize = 0;
-      return NULL;
-    }
 
-    seg1->datasamples = newdatasamples;
+    samplesize = ms_samplesize (seg1->sampletype);
   }
 
   /* Add seg2 coverage to end of seg1 */
@@ -1317,6 +1357,7 @@ mstl3_add_recordptr (MS3TraceSeg *seg, const MS3Record *msr, nstime_t endtime, i
     if (seg->recordlist == NULL)
     {
       ms_log (2, "Cannot allocate memory\n");
+      msr3_free (&recordptr->msr);
       libmseed_memory.free (recordptr);
       return NULL;
     }
-- 
2.43.0


From 6d35da2d4e5e67f78f120efec9880a95bfc6e432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:42 +0000
Subject: [PATCH 67/91] fix: keep the samples of a segment when its buffer
 cannot be resized

---
 libmseed/tracelist.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index 2c4b4bc..8ca7274 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -95,7 +95,7 @@ mstl3_free (MS3TraceList **ppmstl, int8_t freeprvtptr)
   MS3RecordPtr *recordptr;
   MS3RecordPtr *nextrecordptr;
 
-  if (!ppmstl)
+  if (!ppmstl || !*ppmstl)
     return;
 
   /* Free any associated traces */
@@ -1635,14 +1635,15 @@ mstl3_resize_buffers (MS3TraceList *mstl)
 
         if (seg->datasize > datasize)
         {
-          seg->datasamples = libmseed_memory.realloc (seg->datasamples, datasize);
+          void *resized = libmseed_memory.realloc (seg->datasamples, datasize);
 
-          if (seg->datasamples == NULL)
+          if (resized == NULL)
           {
             ms_log (2, "%s: Cannot (re)allocate memory\n", id->sid);
             return MS_GENERROR;
           }
 
+          seg->datasamples = resized;
           seg->datasize = datasize;
         }
       }
-- 
2.43.0


From 90c257ed58f234ed50722e1d8c117c1bc41f8ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:42 +0000
Subject: [PATCH 68/91] fix: determine the type of deferred samples from
 records that hold samples

---
 libmseed/tracelist.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index 8ca7274..97685a4 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -1740,7 +1740,10 @@ mstl3_unpack_recordlist (MS3TraceID *id, MS3TraceSeg *seg, void *output,
     return -1;
   }
 
+  /* The first record with samples determines the sample type */
   recordptr = seg->recordlist->first;
+  while (recordptr->next && recordptr->msr->samplecnt == 0)
+    recordptr = recordptr->next;
 
   /* Fallback to Steim-1 when encoding is unknown, matching msr3_unpack_data() */
   encoding = (recordptr->msr->encoding < 0) ? DE_STEIM1 : (uint8_t)recordptr->msr->encoding;
-- 
2.43.0


From 823a74422fe2f9e2c0cf976d031d105b5f74ecfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:16 +0000
Subject: [PATCH 69/91] fix: emit no records for completely packed segments
 when preserving a trace list

---
 libmseed/tracelist.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index 97685a4..f14bc66 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -2113,8 +2113,10 @@ mstl3_pack (MS3TraceList *mstl, void (*record_handler) (char *, int, void *),
     seg = id->first;
     while (seg)
     {
-      /* Skip segments with nothing (left) to pack when used as a rolling buffer */
-      if (!(flags & MSF_MAINTAINMSTL) && seg->numsamples <= 0)
+      /* Skip segments with nothing (left) to pack when used as a rolling buffer,
+       * those that have been packed completely start after their end */
+      if (seg->numsamples <= 0 &&
+          (!(flags & MSF_MAINTAINMSTL) || seg->starttime > seg->endtime))
       {
         seg = seg->next;
         continue;
-- 
2.43.0


From 7951457a91d944db54d5b9adf2c863f53c52872d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:50 +0000
Subject: [PATCH 70/91] fix: decode record lists read from byte ranges of files

---
 libmseed/tracelist.c | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index f14bc66..84d0aa2 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -1657,6 +1657,39 @@ mstl3_resize_buffers (MS3TraceList *mstl)
   return 0;
 } /* End of mstl3_resize_buffers() */
 
+/***************************************************************************
+ * Open a file for reading.  When there is no such file, a byte range at
+ * the end of the name is left off, as names are interpreted when reading
+ * with MSF_PNAMERANGE.
+ *
+ * Return a FILE pointer on success and NULL on error with errno set.
+ ***************************************************************************/
+static FILE *
+lm_openrecordfile (const char *filename)
+{
+  FILE *fileptr = fopen (filename, "rb");
+  const char *at = strrchr (filename, '@');
+  char *pathname;
+
+  if (fileptr || errno != ENOENT || !at || strspn (at + 1, "0123456789-") != strlen (at + 1))
+    return fileptr;
+
+  if ((pathname = (char *)libmseed_memory.malloc (at - filename + 1)) == NULL)
+  {
+    errno = ENOMEM;
+    return NULL;
+  }
+
+  memcpy (pathname, filename, at - filename);
+  pathname[at - filename] = '\0';
+
+  fileptr = fopen (pathname, "rb");
+
+  libmseed_memory.free (pathname);
+
+  return fileptr;
+} /* End of lm_openrecordfile() */
+
 /**********************************************************************/ /**
  * @brief Unpack data samples in a @ref record-list associated with a ::MS3TraceList
  *
@@ -1861,7 +1894,7 @@ mstl3_unpack_recordlist (MS3TraceID *id, MS3TraceSeg *seg, void *output,
             break;
           }
 
-          if ((filelistptr->fileptr = fopen (recordptr->filename, "rb")) == NULL)
+          if ((filelistptr->fileptr = lm_openrecordfile (recordptr->filename)) == NULL)
           {
             ms_log (2, "%s: Cannot open file (%s): %s\n", id->sid, recordptr->filename, strerror(errno));
 
-- 
2.43.0


From 2fed10a6070bda04d28470106cbd6440cebb16bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:16 +0000
Subject: [PATCH 71/91] fix: reading a file without selected records ends at
 end of file instead of as not SEED

---
 libmseed/fileutils.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libmseed/fileutils.c b/libmseed/fileutils.c
index 0f3ccda..3a6e6e4 100644
--- a/libmseed/fileutils.c
+++ b/libmseed/fileutils.c
@@ -40,6 +40,7 @@ MS3FileParam gMS3FileParam = MS3FileParam_INITIALIZER;
 
 /* Stream state flags */
 #define MSFP_RANGEAPPLIED 0x0001  //!< Byte ranging has been applied
+#define MSFP_RECORDSKIPPED 0x0002 //!< Records not matching selections have been skipped
 
 static char *parse_pathname_range (const char *string, int64_t *start, int64_t *end);
 
@@ -458,6 +459,7 @@ ms3_readmsr_selection (MS3FileParam **ppmsfp, MS3Record **ppmsr, const char *msp
           /* Skip record length bytes, update reading offset and file position */
           msfp->readoffset += (*ppmsr)->reclen;
           msfp->streampos += (*ppmsr)->reclen;
+          msfp->flags |= MSFP_RECORDSKIPPED;
         }
         else
         {
@@ -560,7 +562,7 @@ ms3_readmsr_selection (MS3FileParam **ppmsfp, MS3Record **ppmsr, const char *msp
     /* Finished when at end-of-stream and buffer contains less than MINRECLEN */
     if (msio_feof (&msfp->input) && MSFPBUFLEN (msfp) < MINRECLEN)
     {
-      if (msfp->recordcount == 0)
+      if (msfp->recordcount == 0 && !(msfp->flags & MSFP_RECORDSKIPPED))
       {
         ms_log (2, "%s: No data records read, not SEED?\n", msfp->path);
         retcode = MS_NOTSEED;
-- 
2.43.0


From 766904039594640f79cfcab721875d8640bf13f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:37 +0000
Subject: [PATCH 72/91] fix: keep the samples of a record when resizing its
 buffer fails

---
 libmseed/msrutils.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libmseed/msrutils.c b/libmseed/msrutils.c
index 90cc85e..4c5827c 100644
--- a/libmseed/msrutils.c
+++ b/libmseed/msrutils.c
@@ -322,14 +322,15 @@ msr3_resize_buffer (MS3Record *msr)
 
     if (msr->datasize > datasize)
     {
-      msr->datasamples = libmseed_memory.realloc (msr->datasamples, datasize);
+      void *resized = libmseed_memory.realloc (msr->datasamples, datasize);
 
-      if (msr->datasamples == NULL)
+      if (resized == NULL)
       {
         ms_log (2, "%s: Cannot (re)allocate memory\n", msr->sid);
         return MS_GENERROR;
       }
 
+      msr->datasamples = resized;
       msr->datasize = datasize;
     }
   }
-- 
2.43.0


From 620c1addcb6822e9602f6a54b4694bce4640934c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:06 +0000
Subject: [PATCH 73/91] fix: release the time window when a selection cannot be
 allocated

---
 libmseed/selection.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libmseed/selection.c b/libmseed/selection.c
index 87d96c2..4feb4e4 100644
--- a/libmseed/selection.c
+++ b/libmseed/selection.c
@@ -215,6 +215,7 @@ ms3_addselect (MS3Selections **ppselections, const char *sidpattern,
     if (!(newsl = (MS3Selections *)libmseed_memory.malloc (sizeof (MS3Selections))))
     {
       ms_log (2, "Cannot allocate memory\n");
+      libmseed_memory.free (newst);
       return -1;
     }
     memset (newsl, 0, sizeof (MS3Selections));
@@ -256,6 +257,7 @@ ms3_addselect (MS3Selections **ppselections, const char *sidpattern,
       if (!(newsl = (MS3Selections *)libmseed_memory.malloc (sizeof (MS3Selections))))
       {
         ms_log (2, "Cannot allocate memory\n");
+        libmseed_memory.free (newst);
         return -1;
       }
       memset (newsl, 0, sizeof (MS3Selections));
-- 
2.43.0


From 1cdea65fd97292598aac0821d76b7ebee21a07e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:06 +0000
Subject: [PATCH 74/91] fix: close the leap second file when reading it fails

---
 libmseed/genutils.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libmseed/genutils.c b/libmseed/genutils.c
index 06a5f6b..4ecb53a 100644
--- a/libmseed/genutils.c
+++ b/libmseed/genutils.c
@@ -1857,6 +1857,7 @@ ms_readleapsecondfile (const char *filename)
       if ((ls = (LeapSecond *)libmseed_memory.malloc (sizeof (LeapSecond))) == NULL)
       {
         ms_log (2, "Cannot allocate LeapSecond entry, out of memory?\n");
+        fclose (fp);
         return -1;
       }
 
@@ -1887,6 +1888,7 @@ ms_readleapsecondfile (const char *filename)
   if (ferror (fp))
   {
     ms_log (2, "Error reading leap second file (%s): %s\n", filename, strerror (errno));
+    fclose (fp);
     return -1;
   }
 
-- 
2.43.0


From 54b7233a5c01f004b89b523c021f7dad1c9cf297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:06 +0000
Subject: [PATCH 75/91] fix: report messages that cannot be added to the
 registry

---
 libmseed/logging.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libmseed/logging.c b/libmseed/logging.c
index 2200433..9ec8ee9 100644
--- a/libmseed/logging.c
+++ b/libmseed/logging.c
@@ -418,7 +418,10 @@ rlog_int (MSLogParam *logp, const char *function, int level,
       printed -= 1;
     }
 
-    add_message_int (&logp->registry, function, level, message);
+    if (add_message_int (&logp->registry, function, level, message))
+    {
+      printed = -1;
+    }
   }
   else
   {
-- 
2.43.0


From fdeca2494d1e69965fec72f3653bd53193c969ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:25 +0000
Subject: [PATCH 76/91] fix: duplicate samples of records without a stated
 buffer size

---
 libmseed/msrutils.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/libmseed/msrutils.c b/libmseed/msrutils.c
index 4c5827c..ca9a5c1 100644
--- a/libmseed/msrutils.c
+++ b/libmseed/msrutils.c
@@ -121,6 +121,7 @@ MS3Record *
 msr3_duplicate (const MS3Record *msr, int8_t datadup)
 {
   MS3Record *dupmsr = 0;
+  size_t datasize = 0;
 
   if (!msr)
   {
@@ -161,21 +162,25 @@ msr3_duplicate (const MS3Record *msr, int8_t datadup)
   }
 
   /* Copy data samples if requested and available */
-  if (datadup && msr->numsamples > 0 && msr->datasize > 0 && msr->datasamples)
+  /* Buffer size (msr->datasize) may not be set if not allocated by the library */
+  if (datadup && msr->numsamples > 0 && msr->datasamples)
+    datasize = (size_t)msr->numsamples * ms_samplesize (msr->sampletype);
+
+  if (datasize > 0)
   {
     /* Allocate memory for new data array */
-    if ((dupmsr->datasamples = libmseed_memory.malloc ((size_t) (msr->datasize))) == NULL)
+    if ((dupmsr->datasamples = libmseed_memory.malloc (datasize)) == NULL)
     {
       ms_log (2, "Error allocating memory\n");
       msr3_free (&dupmsr);
       return NULL;
     }
 
-    memcpy (dupmsr->datasamples, msr->datasamples, msr->datasize);
+    memcpy (dupmsr->datasamples, msr->datasamples, datasize);
 
     if (dupmsr->datasamples)
     {
-      dupmsr->datasize   = msr->datasize;
+      dupmsr->datasize   = datasize;
       dupmsr->numsamples = msr->numsamples;
     }
   }
-- 
2.43.0


From 2797c22f13d2f0549bb4b2e0e43083b2d1034f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:33 +0000
Subject: [PATCH 77/91] fix: report failures to write msi output and keep
 standard output open

---
 src/msi.c | 37 +++++++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/src/msi.c b/src/msi.c
index 4497db3..c6e7cab 100644
--- a/src/msi.c
+++ b/src/msi.c
@@ -316,7 +316,13 @@ main (int argc, char **argv)
 
           if (samplesize)
           {
-            fwrite (msr->datasamples, samplesize, msr->numsamples, bfp);
+            if (msr->numsamples > 0 &&
+                fwrite (msr->datasamples, samplesize, msr->numsamples, bfp) != (size_t)msr->numsamples)
+            {
+              ms_log (2, "Cannot write to binary data output file: %s (%s)\n",
+                      binfile, strerror (errno));
+              exit (1);
+            }
           }
           else
           {
@@ -328,7 +334,12 @@ main (int argc, char **argv)
 
       if (outfile)
       {
-        fwrite (msr->record, 1, msr->reclen, ofp);
+        if (fwrite (msr->record, 1, msr->reclen, ofp) != (size_t)msr->reclen)
+        {
+          ms_log (2, "Cannot write to output file: %s (%s)\n",
+                  outfile, strerror (errno));
+          exit (1);
+        }
       }
     }
 
@@ -346,11 +357,19 @@ main (int argc, char **argv)
     flp = flp->next;
   } /* End of looping over file list */
 
-  if (binfile)
-    fclose (bfp);
+  if (bfp && bfp != stdout && fclose (bfp))
+  {
+    ms_log (2, "Cannot write to binary data output file: %s (%s)\n",
+            binfile, strerror (errno));
+    return 1;
+  }
 
-  if (outfile)
-    fclose (ofp);
+  if (ofp && ofp != stdout && fclose (ofp))
+  {
+    ms_log (2, "Cannot write to output file: %s (%s)\n",
+            outfile, strerror (errno));
+    return 1;
+  }
 
   if (basicsum)
     ms_log (0, "Files: %" PRId64 ", Records: %" PRId64 ", Samples: %" PRId64 "\n",
@@ -375,6 +394,12 @@ main (int argc, char **argv)
   if (mstl)
     mstl3_free (&mstl, 0);
 
+  if (fflush (stdout) || ferror (stdout))
+  {
+    ms_log (2, "Cannot write to standard output (%s)\n", strerror (errno));
+    return 1;
+  }
+
   return 0;
 } /* End of main() */
 
-- 
2.43.0


From e0dc78726e2eed907489d8623a127d7420abfc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:33 +0000
Subject: [PATCH 78/91] fix: accept standard output for the binary samples of
 msi

---
 src/msi.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/msi.c b/src/msi.c
index c6e7cab..95b93d7 100644
--- a/src/msi.c
+++ b/src/msi.c
@@ -685,8 +685,9 @@ getoptval (int argcount, char **argvec, int argopt)
     return 0;
   }
 
-  /* Special case of '-o -' usage */
-  if ((argopt + 1) < argcount && strcmp (argvec[argopt], "-o") == 0)
+  /* Special cases of '-o -' and '-b -' usage */
+  if ((argopt + 1) < argcount &&
+      (strcmp (argvec[argopt], "-o") == 0 || strcmp (argvec[argopt], "-b") == 0))
     if (strcmp (argvec[argopt + 1], "-") == 0)
       return argvec[argopt + 1];
 
-- 
2.43.0


From a6183e21b8e013c374d82b3327bbd6bc6f769ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:33 +0000
Subject: [PATCH 79/91] fix: accept negative decimal gap limits in msi

---
 src/msi.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/msi.c b/src/msi.c
index 95b93d7..63ad7a6 100644
--- a/src/msi.c
+++ b/src/msi.c
@@ -708,7 +708,8 @@ getoptval (int argcount, char **argvec, int argopt)
 /***************************************************************************
  * lisnumber:
  *
- * Test if the string is all digits allowing an initial minus sign.
+ * Test if the string is all digits allowing an initial minus sign and
+ * a decimal point.
  *
  * Return 0 if not a number otherwise 1.
  ***************************************************************************/
@@ -716,6 +717,7 @@ static int
 lisnumber (char *number)
 {
   int idx = 0;
+  int points = 0;
 
   while (*(number + idx))
   {
@@ -725,6 +727,12 @@ lisnumber (char *number)
       continue;
     }
 
+    if (*(number + idx) == '.' && points++ == 0)
+    {
+      idx++;
+      continue;
+    }
+
     if (!isdigit ((int)*(number + idx)))
     {
       return 0;
-- 
2.43.0


From 738b5800692b85c1d1b3451ad4cbd5f7206dbd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:28 +0000
Subject: [PATCH 80/91] fix: keep codes of any identifier within memory and
 apart in the SYNC list

---
 libmseed/tracelist.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index 84d0aa2..d1d0fd7 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -2420,10 +2420,10 @@ mstl3_printsynclist (const MS3TraceList *mstl, const char *dccid, ms_subseconds_
   char starttime[40];
   char endtime[40];
   char yearday[32];
-  char net[11] = {0};
-  char sta[11] = {0};
-  char loc[11] = {0};
-  char chan[11] = {0};
+  char net[LM_SIDLEN];
+  char sta[LM_SIDLEN];
+  char loc[LM_SIDLEN];
+  char chan[LM_SIDLEN];
   time_t now;
   struct tm *nt;
 
@@ -2446,6 +2446,8 @@ mstl3_printsynclist (const MS3TraceList *mstl, const char *dccid, ms_subseconds_
   id = mstl->traces.next[0];
   while (id)
   {
+    /* Codes that are not in the identifier are left empty */
+    net[0] = sta[0] = loc[0] = chan[0] = '\0';
     ms_sid2nslc (id->sid, net, sta, loc, chan);
 
     /* Loop through segment list */
-- 
2.43.0


From d4e3c4ac00fa25a7815f6ef71f6970d799a06578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:39 +0000
Subject: [PATCH 81/91] fix: print the SYNC list date from a broken-down time
 of its own

---
 libmseed/tracelist.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index d1d0fd7..cc5254f 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -2425,7 +2425,7 @@ mstl3_printsynclist (const MS3TraceList *mstl, const char *dccid, ms_subseconds_
   char loc[LM_SIDLEN];
   char chan[LM_SIDLEN];
   time_t now;
-  struct tm *nt;
+  struct tm nt;
 
   if (!mstl)
   {
@@ -2434,10 +2434,12 @@ mstl3_printsynclist (const MS3TraceList *mstl, const char *dccid, ms_subseconds_
 
   /* Generate current time stamp */
   now = time (NULL);
-  nt = localtime (&now);
-  nt->tm_year += 1900;
-  nt->tm_yday += 1;
-  snprintf (yearday, sizeof (yearday), "%04d,%03d", nt->tm_year, nt->tm_yday);
+#if defined(LMP_WIN)
+  localtime_s (&nt, &now);
+#else
+  localtime_r (&now, &nt);
+#endif
+  snprintf (yearday, sizeof (yearday), "%04d,%03d", nt.tm_year + 1900, nt.tm_yday + 1);
 
   /* Print SYNC header line */
   ms_log (0, "%s|%s\n", (dccid) ? dccid : "DCC", yearday);
-- 
2.43.0


From a35a4223f2d8208b763e1105fafbe6f830ac2fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:06 +0000
Subject: [PATCH 82/91] fix: do not end a string at an escaped quote when
 printing extra headers

---
 libmseed/extraheaders.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libmseed/extraheaders.c b/libmseed/extraheaders.c
index a3492f6..871d87f 100644
--- a/libmseed/extraheaders.c
+++ b/libmseed/extraheaders.c
@@ -1236,6 +1236,13 @@ mseh_print (const MS3Record *msr, int indent)
     else
     {
       ms_log (0, "%c", extra[idx]);
+
+      /* An escaped character, e.g. a double quote, never ends the string */
+      if (extra[idx] == '\\' && idx + 1 < msr->extralength - 1)
+      {
+        idx++;
+        ms_log (0, "%c", extra[idx]);
+      }
     }
   }
   ms_log (0, "\n");
-- 
2.43.0


From 9033f2d9d5ef8e297776930db8cafb2b031765a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:38 +0000
Subject: [PATCH 83/91] fix: count a next blockette offset within the current
 blockette as an error

---
 libmseed/parseutils.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libmseed/parseutils.c b/libmseed/parseutils.c
index 6f62869..ceaabc0 100644
--- a/libmseed/parseutils.c
+++ b/libmseed/parseutils.c
@@ -1356,6 +1356,7 @@ ms_parse_raw2 (const char *record, int maxreclen, int8_t details, int8_t swapfla
       {
         ms_log (2, "%s: Next blockette offset (%d) is within current blockette ending at byte %d\n",
                 sid, next_blkt, endofblockettes);
+        retval++;
         blkt_offset = 0;
       }
       else
-- 
2.43.0


From 0310f1b0dbf011156678cb6f4e3e21847e6d0f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:46 +0000
Subject: [PATCH 84/91] fix: do not compare version 2 offsets with an unknown
 record length

---
 libmseed/parseutils.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmseed/parseutils.c b/libmseed/parseutils.c
index ceaabc0..8ae64fb 100644
--- a/libmseed/parseutils.c
+++ b/libmseed/parseutils.c
@@ -1376,13 +1376,13 @@ ms_parse_raw2 (const char *record, int maxreclen, int8_t details, int8_t swapfla
     }
 
     /* Check that the data and blockette offsets are within the record */
-    if (b1000reclen && HO2u(*pMS2FSDH_DATAOFFSET (record), swapflag) > b1000reclen)
+    if (b1000reclen > 0 && HO2u(*pMS2FSDH_DATAOFFSET (record), swapflag) > b1000reclen)
     {
       ms_log (2, "%s: Data offset (%d) beyond record length (%d)\n",
               sid, HO2u(*pMS2FSDH_DATAOFFSET (record), swapflag), b1000reclen);
       retval++;
     }
-    if (b1000reclen && HO2u(*pMS2FSDH_BLOCKETTEOFFSET (record), swapflag) > b1000reclen)
+    if (b1000reclen > 0 && HO2u(*pMS2FSDH_BLOCKETTEOFFSET (record), swapflag) > b1000reclen)
     {
       ms_log (2, "%s: Blockette offset (%d) beyond record length (%d)\n",
               sid, HO2u(*pMS2FSDH_BLOCKETTEOFFSET (record), swapflag), b1000reclen);
-- 
2.43.0


From 1d1f87cbd6c701baf70ef29d974e02de2cc6bfbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:54 +0000
Subject: [PATCH 85/91] fix: measure host latency from the last sample for
 periods and leap seconds

msr3_host_latency() ignored the time covered by the samples when the sample
rate is given as a period, and did not account for a leap second within the
record. Use the end time of the record, as documented.
---
 libmseed/msrutils.c | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/libmseed/msrutils.c b/libmseed/msrutils.c
index ca9a5c1..91ebab3 100644
--- a/libmseed/msrutils.c
+++ b/libmseed/msrutils.c
@@ -403,7 +403,6 @@ msr3_nsperiod (const MS3Record *msr)
 double
 msr3_host_latency (const MS3Record *msr)
 {
-  double span = 0.0; /* Time covered by the samples */
   double epoch;      /* Current epoch time */
   double latency = 0.0;
   time_t tv;
@@ -411,15 +410,11 @@ msr3_host_latency (const MS3Record *msr)
   if (msr == NULL)
     return 0.0;
 
-  /* Calculate the time covered by the samples */
-  if (msr->samprate > 0.0 && msr->samplecnt > 0)
-    span = (1.0 / msr->samprate) * (msr->samplecnt - 1);
-
   /* Grab UTC time according to the system clock */
   epoch = (double)time (&tv);
 
-  /* Now calculate the latency */
-  latency = epoch - ((double)msr->starttime / NSTMODULUS) - span;
+  /* Calculate the latency relative to the time of the last sample */
+  latency = epoch - ((double)msr3_endtime (msr) / NSTMODULUS);
 
   return latency;
 } /* End of msr3_host_latency() */
-- 
2.43.0


From 6ed4fe77ff8f86aaa00c77c590685a62dd640621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:35 +0000
Subject: [PATCH 86/91] fix: round start times to the nearest tick when packing
 without blockette 1001

---
 libmseed/pack.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/libmseed/pack.c b/libmseed/pack.c
index 914e9f9..1b0f1a7 100644
--- a/libmseed/pack.c
+++ b/libmseed/pack.c
@@ -707,6 +707,7 @@ msr3_pack_mseed2 (const MS3Record *msr, void (*record_handler) (char *, int, voi
 
   uint32_t datalength;
   nstime_t nextstarttime;
+  int has_blockette1001;
   uint16_t year;
   uint16_t day;
   uint8_t hour;
@@ -910,6 +911,14 @@ msr3_pack_mseed2 (const MS3Record *msr, void (*record_handler) (char *, int, voi
     /* Update record start time for next record */
     nextstarttime = ms_sampletime (msr->starttime, totalpackedsamples, msr->samprate);
 
+    /* A Blockette 1001 always follows the Blockette 1000 */
+    has_blockette1001 = (*pMS2B1000_NEXT (rawrec + 48) &&
+                         HO2u (*pMS2B1001_TYPE (rawrec + 56), swapflag) == 1001);
+
+    /* Without a microsecond offset round to the nearest 100 microsecond tick */
+    if (!has_blockette1001)
+      nextstarttime += 50000;
+
     if (ms_nstime2time (nextstarttime, &year, &day, &hour, &min, &sec, &nsec))
     {
       ms_log (2, "%s: Cannot convert next record starttime: %" PRId64 "\n",
@@ -926,9 +935,8 @@ msr3_pack_mseed2 (const MS3Record *msr, void (*record_handler) (char *, int, voi
     *pMS2FSDH_SEC (rawrec)  = sec;
     *pMS2FSDH_FSEC (rawrec) = HO2u ((nsec / 100000), swapflag);
 
-    /* Update microsecond offset, a Blockette 1001 always follows the Blockette 1000 */
-    if (*pMS2B1000_NEXT (rawrec + 48) &&
-        HO2u (*pMS2B1001_TYPE (rawrec + 56), swapflag) == 1001)
+    /* Update microsecond offset */
+    if (has_blockette1001)
       *pMS2B1001_MICROSECOND (rawrec + 56) = (int8_t)((nsec / 1000) % 100);
   }
 
-- 
2.43.0


From 173a3e93dbee00d1662ce817d940ce950de000c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:31 +0000
Subject: [PATCH 87/91] fix: match no selection without a source identifier

---
 libmseed/selection.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmseed/selection.c b/libmseed/selection.c
index 4feb4e4..81ee64e 100644
--- a/libmseed/selection.c
+++ b/libmseed/selection.c
@@ -62,7 +62,7 @@ ms3_matchselect (const MS3Selections *selections, const char *sid, nstime_t star
   const MS3SelectTime *findst = NULL;
   const MS3SelectTime *matchst = NULL;
 
-  if (selections)
+  if (selections && sid)
   {
     findsl = selections;
     while (findsl)
-- 
2.43.0


From ceb5854ea34ae00e41721227af44094352416dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:31 +0000
Subject: [PATCH 88/91] fix: refuse reading a trace list without a path

---
 libmseed/fileutils.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmseed/fileutils.c b/libmseed/fileutils.c
index 3a6e6e4..61086fd 100644
--- a/libmseed/fileutils.c
+++ b/libmseed/fileutils.c
@@ -702,9 +702,9 @@ ms3_readtracelist_selection (MS3TraceList **ppmstl, const char *mspath,
   uint32_t datasize;
   int retcode;
 
-  if (!ppmstl)
+  if (!ppmstl || !mspath)
   {
-    ms_log (2, "%s(): Required input not defined: 'ppmstl'\n", __func__);
+    ms_log (2, "%s(): Required input not defined: 'ppmstl' or 'mspath'\n", __func__);
     return MS_GENERROR;
   }
 
-- 
2.43.0


From 55263ab0e055e55dbfb4f2b80a15633144c3a3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:38 +0000
Subject: [PATCH 89/91] fix: do not read the remainder of long lines in list
 files as separate entries

---
 src/msi.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/msi.c b/src/msi.c
index 63ad7a6..a5d8897 100644
--- a/src/msi.c
+++ b/src/msi.c
@@ -805,6 +805,8 @@ addlistfile (char *filename)
 {
   FILE *fp;
   char filelistent[1024];
+  int character;
+  int truncated;
   int filecount = 0;
 
   if (verbose >= 1)
@@ -821,8 +823,17 @@ addlistfile (char *filename)
     char *cp;
 
     /* End string at first newline character */
+    truncated = 0;
     if ((cp = strchr (filelistent, '\n')))
+    {
       *cp = '\0';
+    }
+    /* Otherwise discard the remainder of a line that is longer than the buffer */
+    else
+    {
+      while ((character = fgetc (fp)) != EOF && character != '\n')
+        truncated = 1;
+    }
 
     /* Skip empty lines */
     if (!strlen (filelistent))
@@ -832,6 +843,13 @@ addlistfile (char *filename)
     if (*filelistent == '#')
       continue;
 
+    if (truncated)
+    {
+      ms_log (2, "Entry in list file %s is too long: %s...\n", filename, filelistent);
+      fclose (fp);
+      return -1;
+    }
+
     if (verbose > 1)
       ms_log (1, "Adding '%s' from list file\n", filelistent);
 
-- 
2.43.0


From 4a735c92722d3b91e8f68eaff1405a8dbfbd9dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:38 +0000
Subject: [PATCH 90/91] fix: do not read the remainder of long lines in leap
 second files as separate entries

---
 libmseed/genutils.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/libmseed/genutils.c b/libmseed/genutils.c
index 4ecb53a..440190c 100644
--- a/libmseed/genutils.c
+++ b/libmseed/genutils.c
@@ -1778,6 +1778,7 @@ ms_readleapsecondfile (const char *filename)
   int64_t expires;
   char readline[200];
   char *cp;
+  int character;
   int64_t leapsecond;
   int TAIdelta;
   int fields;
@@ -1816,7 +1817,15 @@ ms_readleapsecondfile (const char *filename)
 
     /* Terminate string at first newline character if any */
     if ((cp = strchr (readline, '\n')))
+    {
       *cp = '\0';
+    }
+    /* Otherwise discard the remainder of a line that is longer than the buffer */
+    else
+    {
+      while ((character = fgetc (fp)) != EOF && character != '\n')
+        ;
+    }
 
     /* Skip empty lines */
     if (!strlen (readline))
-- 
2.43.0


From 1823ccb703f29b7d2e0b32f733e2986d2a4aa2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:55 +0000
Subject: [PATCH 91/91] fix: report extra header integers beyond int64_t as
 another type

---
 libmseed/extraheaders.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libmseed/extraheaders.c b/libmseed/extraheaders.c
index 871d87f..48d63eb 100644
--- a/libmseed/extraheaders.c
+++ b/libmseed/extraheaders.c
@@ -238,7 +238,8 @@ mseh_get_ptr_r (const MS3Record *msr, const char *ptr,
     if (value)
       *((double *)value) = unsafe_yyjson_get_num (extravalue);
   }
-  else if (type == 'i' && yyjson_is_int (extravalue))
+  else if (type == 'i' && yyjson_is_int (extravalue) &&
+           !(yyjson_is_uint (extravalue) && unsafe_yyjson_get_uint (extravalue) > INT64_MAX))
   {
     if (value)
       *((int64_t *)value) = unsafe_yyjson_get_sint (extravalue);
-- 
2.43.0

