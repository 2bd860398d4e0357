From 857f44d57031da2edd70786ba71d98d05177cf04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:47 +0000
Subject: [PATCH 01/89] fix: honour a caller-supplied sample rate tolerance
 when joining segments

The test was inverted: records were joined when their sample rates differed by
more than the tolerance and kept apart when they agreed.
---
 libmseed/tracelist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index 920dede..a7f1cba 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -35,7 +35,7 @@ static uint32_t lm_lcg_r (uint64_t *state);
 static uint8_t lm_random_height (uint8_t maximum, uint64_t *state);
 
 /* Test if two sample rates are similar using either specified tolerance (if positive) or default tolerance */
-#define IS_SAMPRATE_SIMILAR(SR1, SR2, SRT) ((SRT > 0.0) ? fabs (SR1 - SR2) > SRT : MS_ISRATETOLERABLE (SR1, SR2))
+#define IS_SAMPRATE_SIMILAR(SR1, SR2, SRT) ((SRT > 0.0) ? fabs (SR1 - SR2) <= SRT : MS_ISRATETOLERABLE (SR1, SR2))
 
 /**********************************************************************/ /**
  * @brief Initialize a ::MS3TraceList container
-- 
2.43.0


From 8fa6e9c5bbe48c5a9c183be12f05862a4da36c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:47 +0000
Subject: [PATCH 02/89] fix: do not fail after adding a record when the segment
 to heal differs in sample type

A record filling the hole between two segments of different sample types was
appended to the first one and then reported as an error, skipping the tracking
of version and extents.  Leave such segments unmerged instead.
---
 libmseed/tracelist.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index a7f1cba..126d14f 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -618,8 +618,10 @@ mstl3_addmsr_recordptr (MS3TraceList *mstl, const MS3Record *msr, MS3RecordPtr *
           return NULL;
         }
 
-        /* Merge two segments that now fit if autohealing */
-        if (autoheal && segafter && segbefore != segafter)
+        /* Merge two segments that now fit if autohealing, if their samples can be combined */
+        if (autoheal && segafter && segbefore != segafter &&
+            (!segafter->datasamples || segafter->numsamples <= 0 ||
+             segafter->sampletype == segbefore->sampletype))
         {
           /* Add segafter coverage to segbefore */
           if (!mstl3_addsegtoseg (segbefore, segafter))
-- 
2.43.0


From e34a685a8a11a600e0077c21ef4a78a68eb7bd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:53 +0000
Subject: [PATCH 03/89] fix: keep records of publication version 0 in a trace
 of their own when splitting versions

The lookup treats version 0 as "any version", so with splitversion a record of
version 0 was added to whichever version of the identifier was found first.
---
 libmseed/tracelist.c | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index 126d14f..58d78ce 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -31,6 +31,8 @@ MS3TraceSeg *mstl3_addmsrtoseg (MS3TraceSeg *seg, const MS3Record *msr, nstime_t
 MS3TraceSeg *mstl3_addsegtoseg (MS3TraceSeg *seg1, MS3TraceSeg *seg2);
 MS3RecordPtr *mstl3_add_recordptr (MS3TraceSeg *seg, const MS3Record *msr, nstime_t endtime, int8_t whence);
 
+static MS3TraceID *lm_findID (MS3TraceList *mstl, const char *sid, uint8_t pubversion,
+                              int matchversion, MS3TraceID **prev);
 static uint32_t lm_lcg_r (uint64_t *state);
 static uint8_t lm_random_height (uint8_t maximum, uint64_t *state);
 
@@ -179,16 +181,23 @@ mstl3_free (MS3TraceList **ppmstl, int8_t freeprvtptr)
 MS3TraceID *
 mstl3_findID (MS3TraceList *mstl, const char *sid, uint8_t pubversion, MS3TraceID **prev)
 {
-  MS3TraceID *id = NULL;
-  int level;
-  int cmp;
-
   if (!mstl || !sid)
   {
     ms_log (2, "%s(): Required input not defined: 'mstl' or 'sid'\n", __func__);
     return NULL;
   }
 
+  return lm_findID (mstl, sid, pubversion, (pubversion != 0), prev);
+} /* End of mstl3_findID() */
+
+/* Search trace ID skip list, matching the publication version only if matchversion is true */
+static MS3TraceID *
+lm_findID (MS3TraceList *mstl, const char *sid, uint8_t pubversion, int matchversion, MS3TraceID **prev)
+{
+  MS3TraceID *id = NULL;
+  int level;
+  int cmp;
+
   level = MSTRACEID_SKIPLIST_HEIGHT - 1;
 
   /* Search trace ID skip list, starting from the head/sentinel node */
@@ -209,7 +218,7 @@ mstl3_findID (MS3TraceList *mstl, const char *sid, uint8_t pubversion, MS3TraceI
       cmp = strcmp(id->next[level]->sid, sid);
 
       /* If source IDs match, check publication if matching requested */
-      if (!cmp && pubversion && id->next[level]->pubversion != pubversion)
+      if (!cmp && matchversion && id->next[level]->pubversion != pubversion)
       {
         cmp = (id->next[level]->pubversion < pubversion) ? -1 : 1;
       }
@@ -230,7 +239,7 @@ mstl3_findID (MS3TraceList *mstl, const char *sid, uint8_t pubversion, MS3TraceI
   }
 
   return NULL;
-} /* End of mstl3_findID() */
+} /* End of lm_findID() */
 
 /**********************************************************************/ /**
  * @brief Add ::MS3TraceID to a ::MS3TraceList
@@ -401,10 +410,7 @@ mstl3_addmsr_recordptr (MS3TraceList *mstl, const MS3Record *msr, MS3RecordPtr *
   }
 
   /* Search for matching trace ID */
-  id = mstl3_findID (mstl,
-                     msr->sid,
-                     (splitversion) ? msr->pubversion : 0,
-                     previd);
+  id = lm_findID (mstl, msr->sid, msr->pubversion, splitversion, previd);
 
   /* If no matching ID was found create new MS3TraceID and MS3TraceSeg entries */
   if (!id)
-- 
2.43.0


From d74e383993da752a9214664680e866a630530454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:51 +0000
Subject: [PATCH 04/89] fix: convert negative samples to the nearest integer
 and refuse before converting any

---
 libmseed/tracelist.c | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index 58d78ce..32480ab 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -19,6 +19,7 @@
  ***************************************************************************/
 
 #include <errno.h>
+#include <math.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -1410,34 +1411,36 @@ mstl3_convertsamples (MS3TraceSeg *seg, char type, int8_t truncate)
   {
     if (seg->sampletype == 'f') /* Convert floats to integers with simple rounding */
     {
-      for (idx = 0; idx < seg->numsamples; idx++)
+      /* Check for loss of sub-integer in all samples before converting any */
+      for (idx = 0; !truncate && idx < seg->numsamples; idx++)
       {
-        /* Check for loss of sub-integer */
-        if (!truncate && (fdata[idx] - (int32_t)fdata[idx]) > 0.000001)
+        if (fabs (fdata[idx] - (int32_t)fdata[idx]) > 0.000001)
         {
           ms_log (2, "Loss of precision when converting floats to integers, loss: %g\n",
                   (fdata[idx] - (int32_t)fdata[idx]));
           return -1;
         }
-
-        idata[idx] = (int32_t) (fdata[idx] + 0.5);
       }
+
+      for (idx = 0; idx < seg->numsamples; idx++)
+        idata[idx] = (int32_t) ((fdata[idx] < 0) ? fdata[idx] - 0.5 : fdata[idx] + 0.5);
     }
     else if (seg->sampletype == 'd') /* Convert doubles to integers with simple rounding */
     {
-      for (idx = 0; idx < seg->numsamples; idx++)
+      /* Check for loss of sub-integer in all samples before converting any */
+      for (idx = 0; !truncate && idx < seg->numsamples; idx++)
       {
-        /* Check for loss of sub-integer */
-        if (!truncate && (ddata[idx] - (int32_t)ddata[idx]) > 0.000001)
+        if (fabs (ddata[idx] - (int32_t)ddata[idx]) > 0.000001)
         {
           ms_log (2, "Loss of precision when converting doubles to integers, loss: %g\n",
                   (ddata[idx] - (int32_t)ddata[idx]));
           return -1;
         }
-
-        idata[idx] = (int32_t) (ddata[idx] + 0.5);
       }
 
+      for (idx = 0; idx < seg->numsamples; idx++)
+        idata[idx] = (int32_t) ((ddata[idx] < 0) ? ddata[idx] - 0.5 : ddata[idx] + 0.5);
+
       /* Reallocate buffer for reduced size needed, only if not pre-allocating */
       if (libmseed_prealloc_block_size == 0)
       {
-- 
2.43.0


From 94486071004007d86a589c4e4b9e3f2610e1b512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:37 +0000
Subject: [PATCH 05/89] fix: read a final record of the minimum length from a
 memory buffer

---
 libmseed/tracelist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index 32480ab..96eea40 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -905,7 +905,7 @@ mstl3_readbuffer_selection (MS3TraceList **ppmstl, const char *buffer, uint64_t
   if ((flags & MSF_UNPACKDATA) && selections)
     pflags &= ~(MSF_UNPACKDATA);
 
-  while ((bufferlength - offset) > MINRECLEN)
+  while ((bufferlength - offset) >= MINRECLEN)
   {
     parsevalue = msr3_parse (buffer + offset, bufferlength - offset, &msr, pflags, verbose);
 
-- 
2.43.0


From e40cadf3cf9bebca4e1fa3c35bd23751a5734cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:31 +0000
Subject: [PATCH 06/89] fix: compare the character quoted by a backslash in
 selection patterns

---
 libmseed/selection.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libmseed/selection.c b/libmseed/selection.c
index cd7cb31..8bac6d7 100644
--- a/libmseed/selection.c
+++ b/libmseed/selection.c
@@ -916,6 +916,8 @@ ms_globmatch (const char *string, const char *pattern)
     case '\\':
       if (*pattern)
         c = *pattern++;
+      if (c != *string)
+        return GLOBMATCH_FALSE;
       break;
 
     default:
-- 
2.43.0


From ff509f0fbd59b8b2c9d013cb26e6d91572cfa23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:31 +0000
Subject: [PATCH 07/89] fix: report selection file times that cannot be
 converted

---
 libmseed/selection.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmseed/selection.c b/libmseed/selection.c
index 8bac6d7..2689a8b 100644
--- a/libmseed/selection.c
+++ b/libmseed/selection.c
@@ -553,7 +553,7 @@ ms3_readselectionsfile (MS3Selections **ppselections, const char *filename)
     if (cp)
     {
       starttime = ms_timestr2nstime (cp);
-      if (starttime == NSTUNSET)
+      if (starttime == NSTUNSET || starttime == NSTERROR)
       {
         ms_log (2, "Cannot convert data selection start time (line %d): %s\n", linecount, cp);
         return -1;
@@ -570,7 +570,7 @@ ms3_readselectionsfile (MS3Selections **ppselections, const char *filename)
     if (cp)
     {
       endtime = ms_timestr2nstime (cp);
-      if (endtime == NSTUNSET)
+      if (endtime == NSTUNSET || endtime == NSTERROR)
       {
         ms_log (2, "Cannot convert data selection end time (line %d): %s\n", linecount, cp);
         return -1;
-- 
2.43.0


From 25c0946cec98566dd75d0ab8ef71b26358c99baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:31 +0000
Subject: [PATCH 08/89] fix: do not count unrecognized lines as selections
 added

---
 libmseed/selection.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libmseed/selection.c b/libmseed/selection.c
index 2689a8b..70de5be 100644
--- a/libmseed/selection.c
+++ b/libmseed/selection.c
@@ -643,6 +643,7 @@ ms3_readselectionsfile (MS3Selections **ppselections, const char *filename)
     else
     {
       ms_log (1, "%s: Skipping unrecognized data selection on line %d\n", filename, linecount);
+      continue;
     }
 
     selectcount++;
-- 
2.43.0


From ff63ed62a8555545b2552373857491bb563260ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:43 +0000
Subject: [PATCH 09/89] fix: do not report a file as not miniSEED when no
 record matches the selections

---
 libmseed/fileutils.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libmseed/fileutils.c b/libmseed/fileutils.c
index 43cd33e..11cee22 100644
--- a/libmseed/fileutils.c
+++ b/libmseed/fileutils.c
@@ -440,9 +440,10 @@ ms3_readmsr_selection (MS3FileParam **ppmsfp, MS3Record **ppmsr, const char *msp
                     (*ppmsr)->sid, (*ppmsr)->reclen, msfp->streampos);
           }
 
-          /* Skip record length bytes, update reading offset and file position */
+          /* Skip record length bytes, update reading offset, file position and record count */
           msfp->readoffset += (*ppmsr)->reclen;
           msfp->streampos += (*ppmsr)->reclen;
+          msfp->recordcount++;
         }
         else
         {
-- 
2.43.0


From b15656871b9681d7ac43f5591c75808202c6b35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:37 +0000
Subject: [PATCH 10/89] fix: do not wrap the length of a record with a very
 large payload length

---
 libmseed/parseutils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmseed/parseutils.c b/libmseed/parseutils.c
index 0ce29ec..a30e9e2 100644
--- a/libmseed/parseutils.c
+++ b/libmseed/parseutils.c
@@ -204,7 +204,7 @@ ms3_detect (const char *record, uint64_t recbuflen, uint8_t *formatversion)
   {
     *formatversion = 3;
 
-    reclen = MS3FSDH_LENGTH                   /* Length of fixed portion of header */
+    reclen = (int64_t)MS3FSDH_LENGTH          /* Length of fixed portion of header */
              + *pMS3FSDH_SIDLENGTH (record)   /* Length of source identifier */
              + *pMS3FSDH_EXTRALENGTH (record) /* Length of extra headers */
              + *pMS3FSDH_DATALENGTH (record); /* Length of data payload */
-- 
2.43.0


From 08cde276e0b641a1b17af989147bb371dd115daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:37 +0000
Subject: [PATCH 11/89] fix: do not read past the end of the buffer when
 detecting miniSEED 2 records

---
 libmseed/parseutils.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libmseed/parseutils.c b/libmseed/parseutils.c
index a30e9e2..048a6e1 100644
--- a/libmseed/parseutils.c
+++ b/libmseed/parseutils.c
@@ -215,6 +215,10 @@ ms3_detect (const char *record, uint64_t recbuflen, uint8_t *formatversion)
   {
     *formatversion = 2;
 
+    /* The complete fixed section is needed to follow the blockette chain */
+    if (recbuflen < MS2FSDH_LENGTH)
+      return 0;
+
     /* Check to see if byte swapping is needed by checking for sane year and day */
     if (!MS_ISVALIDYEARDAY (*pMS2FSDH_YEAR(record), *pMS2FSDH_DAY(record)))
       swapflag = 1;
@@ -224,7 +228,7 @@ ms3_detect (const char *record, uint64_t recbuflen, uint8_t *formatversion)
     /* Loop through blockettes as long as number is non-zero and viable */
     while (blkt_offset != 0 &&
            blkt_offset > 47 &&
-           blkt_offset <= recbuflen)
+           (uint64_t)(blkt_offset + 4) <= recbuflen)
     {
       memcpy (&blkt_type, record + blkt_offset, 2);
       memcpy (&next_blkt, record + blkt_offset + 2, 2);
-- 
2.43.0


From 72b6618a4e47ad71455d7590836f666578114bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:04 +0000
Subject: [PATCH 12/89] fix: release parsed extra headers when unpacking a
 miniSEED 2 record fails

---
 libmseed/unpack.c | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/libmseed/unpack.c b/libmseed/unpack.c
index 06a59aa..90202ec 100644
--- a/libmseed/unpack.c
+++ b/libmseed/unpack.c
@@ -477,7 +477,10 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
 
       eventdetection.onsettime = ms_btime2nstime ((uint8_t*)pMS2B200_YEAR (record + blkt_offset), msr->swapflag);
       if (eventdetection.onsettime == NSTERROR)
+      {
+        mseh_free_parsestate (&parsestate);
         return MS_GENERROR;
+      }
 
       memset (eventdetection.medsnr, 0, 6);
       eventdetection.medlookback = -1;
@@ -487,6 +490,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
       if (mseh_add_event_detection_r (msr, NULL, &eventdetection, &parsestate))
       {
         ms_log (2, "%s: Problem mapping Blockette 200 to extra headers\n", msr->sid);
+        mseh_free_parsestate (&parsestate);
         return MS_GENERROR;
       }
     }
@@ -510,7 +514,10 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
 
       eventdetection.onsettime = ms_btime2nstime ((uint8_t*)pMS2B201_YEAR (record + blkt_offset), msr->swapflag);
       if (eventdetection.onsettime == NSTERROR)
+      {
+        mseh_free_parsestate (&parsestate);
         return MS_GENERROR;
+      }
 
       memcpy (eventdetection.medsnr, pMS2B201_MEDSNR (record + blkt_offset), 6);
       eventdetection.medlookback = *pMS2B201_LOOPBACK (record + blkt_offset);
@@ -520,6 +527,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
       if (mseh_add_event_detection_r (msr, NULL, &eventdetection, &parsestate))
       {
         ms_log (2, "%s: Problem mapping Blockette 201 to extra headers\n", msr->sid);
+        mseh_free_parsestate (&parsestate);
         return MS_GENERROR;
       }
     }
@@ -533,7 +541,10 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
 
       calibration.begintime = ms_btime2nstime ((uint8_t*)pMS2B300_YEAR (record + blkt_offset), msr->swapflag);
       if (calibration.begintime == NSTERROR)
+      {
+        mseh_free_parsestate (&parsestate);
         return MS_GENERROR;
+      }
 
       calibration.endtime = NSTERROR;
       calibration.steps = *pMS2B300_NUMCALIBRATIONS (record + blkt_offset);
@@ -575,6 +586,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
       if (mseh_add_calibration_r (msr, NULL, &calibration, &parsestate))
       {
         ms_log (2, "%s: Problem mapping Blockette 300 to extra headers\n", msr->sid);
+        mseh_free_parsestate (&parsestate);
         return MS_GENERROR;
       }
     }
@@ -588,7 +600,10 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
 
       calibration.begintime = ms_btime2nstime ((uint8_t*)pMS2B310_YEAR (record + blkt_offset), msr->swapflag);
       if (calibration.begintime == NSTERROR)
+      {
+        mseh_free_parsestate (&parsestate);
         return MS_GENERROR;
+      }
 
       calibration.endtime = NSTERROR;
       calibration.steps = -1;
@@ -632,6 +647,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
       if (mseh_add_calibration_r (msr, NULL, &calibration, &parsestate))
       {
         ms_log (2, "%s: Problem mapping Blockette 310 to extra headers\n", msr->sid);
+        mseh_free_parsestate (&parsestate);
         return MS_GENERROR;
       }
     }
@@ -645,7 +661,10 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
 
       calibration.begintime = ms_btime2nstime ((uint8_t*)pMS2B320_YEAR (record + blkt_offset), msr->swapflag);
       if (calibration.begintime == NSTERROR)
+      {
+        mseh_free_parsestate (&parsestate);
         return MS_GENERROR;
+      }
 
       calibration.endtime = NSTERROR;
       calibration.steps = -1;
@@ -683,6 +702,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
       if (mseh_add_calibration_r (msr, NULL, &calibration, &parsestate))
       {
         ms_log (2, "%s: Problem mapping Blockette 320 to extra headers\n", msr->sid);
+        mseh_free_parsestate (&parsestate);
         return MS_GENERROR;
       }
     }
@@ -696,7 +716,10 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
 
       calibration.begintime = ms_btime2nstime ((uint8_t*)pMS2B390_YEAR (record + blkt_offset), msr->swapflag);
       if (calibration.begintime == NSTERROR)
+      {
+        mseh_free_parsestate (&parsestate);
         return MS_GENERROR;
+      }
 
       calibration.endtime = NSTERROR;
       calibration.steps = -1;
@@ -730,6 +753,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
       if (mseh_add_calibration_r (msr, NULL, &calibration, &parsestate))
       {
         ms_log (2, "%s: Problem mapping Blockette 390 to extra headers\n", msr->sid);
+        mseh_free_parsestate (&parsestate);
         return MS_GENERROR;
       }
     }
@@ -745,7 +769,10 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
 
       calibration.endtime = ms_btime2nstime ((uint8_t*)pMS2B395_YEAR (record + blkt_offset), msr->swapflag);
       if (calibration.endtime == NSTERROR)
+      {
+        mseh_free_parsestate (&parsestate);
         return MS_GENERROR;
+      }
 
       calibration.steps = -1;
       calibration.firstpulsepositive = -1;
@@ -768,6 +795,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
       if (mseh_add_calibration_r (msr, NULL, &calibration, &parsestate))
       {
         ms_log (2, "%s: Problem mapping Blockette 395 to extra headers\n", msr->sid);
+        mseh_free_parsestate (&parsestate);
         return MS_GENERROR;
       }
     }
@@ -793,7 +821,10 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
 
       exception.time = ms_btime2nstime ((uint8_t*)pMS2B500_YEAR (record + blkt_offset), msr->swapflag);
       if (exception.time == NSTERROR)
+      {
+        mseh_free_parsestate (&parsestate);
         return MS_GENERROR;
+      }
 
       /* Apply microsecond precision if non-zero */
       if (*pMS2B500_MICROSECOND (record + blkt_offset) != 0)
@@ -809,6 +840,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
       if (mseh_add_timing_exception_r (msr, NULL, &exception, &parsestate))
       {
         ms_log (2, "%s: Problem mapping Blockette 500 to extra headers\n", msr->sid);
+        mseh_free_parsestate (&parsestate);
         return MS_GENERROR;
       }
 
@@ -839,7 +871,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
       B1001offset = blkt_offset;
 
       /* Optimization: if no other extra headers yet, directly print this common value */
-      if (parsestate == NULL)
+      if (parsestate == NULL && msr->extra == NULL)
       {
         length = snprintf (sval, sizeof(sval), "{\"FDSN\":{\"Time\":{\"Quality\":%d}}}",
                            *pMS2B1001_TIMINGQUALITY (record + blkt_offset));
@@ -847,6 +879,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
         if (!(msr->extra = (char *)libmseed_memory.malloc (length + 1)))
         {
           ms_log (2, "%s: Cannot allocate memory for extra headers\n", msr->sid);
+          mseh_free_parsestate (&parsestate);
           return MS_GENERROR;
         }
         memcpy (msr->extra, sval, length + 1);
-- 
2.43.0


From 8cb745f7ad4ae44466d4b8b09ac492418d73a756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:04 +0000
Subject: [PATCH 13/89] fix: do not read past the end of miniSEED 2 records
 with invalid blockettes or data offset

---
 libmseed/unpack.c | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/libmseed/unpack.c b/libmseed/unpack.c
index 90202ec..b526506 100644
--- a/libmseed/unpack.c
+++ b/libmseed/unpack.c
@@ -412,7 +412,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
   blkt_offset = HO2u (*pMS2FSDH_BLOCKETTEOFFSET (record), msr->swapflag);
 
   while ((blkt_offset != 0) &&
-         (blkt_offset < reclen) &&
+         (blkt_offset + 4 <= reclen) &&
          (blkt_offset < MAXRECLEN))
   {
     /* Every blockette has a similar 4 byte header: type and next */
@@ -425,8 +425,11 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
       ms_gswap2 (&next_blkt);
     }
 
-    /* Get blockette length */
-    blkt_length = ms2_blktlen (blkt_type, record + blkt_offset, msr->swapflag);
+    /* Get blockette length, the length of a blockette 2000 follows the 4 byte header */
+    if (blkt_type == 2000 && (blkt_offset + 6) > reclen)
+      blkt_length = 0;
+    else
+      blkt_length = ms2_blktlen (blkt_type, record + blkt_offset, msr->swapflag);
 
     if (blkt_length == 0)
     {
@@ -853,6 +856,16 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
     {
       B1000offset = blkt_offset;
 
+      /* A length beyond the specified length cannot be that of this record */
+      if (*pMS2B1000_RECLEN (record + blkt_offset) > 30 ||
+          (1 << *pMS2B1000_RECLEN (record + blkt_offset)) > reclen)
+      {
+        ms_log (2, "%s: Record length in Blockette 1000 (2^%d) is beyond specified length (%d)\n",
+                msr->sid, *pMS2B1000_RECLEN (record + blkt_offset), reclen);
+        mseh_free_parsestate (&parsestate);
+        return MS_OUTOFRANGE;
+      }
+
       /* Calculate record length in bytes as 2^(B1000->reclen) */
       msr->reclen = (uint32_t)1 << *pMS2B1000_RECLEN (record + blkt_offset);
 
@@ -1073,6 +1086,13 @@ msr3_data_bounds (const MS3Record *msr, uint32_t *dataoffset, uint32_t *datasize
   else if (msr->formatversion == 2)
   {
     *dataoffset = HO2u (*pMS2FSDH_DATAOFFSET (msr->record), msr->swapflag & MSSWAP_HEADER);
+
+    if (msr->reclen < 0 || *dataoffset > (uint32_t)msr->reclen)
+    {
+      ms_log (2, "%s: Data offset value is not valid: %u\n", msr->sid, *dataoffset);
+      return MS_GENERROR;
+    }
+
     *datasize = msr->reclen - *dataoffset;
   }
   else
@@ -1631,7 +1651,7 @@ ms2_blktlen (uint16_t blkttype, const char *blkt, int8_t swapflag)
     blktlen = 16;
     break;
   case 500: /* Timing */
-    blktlen = 8;
+    blktlen = 200;
     break;
   case 1000: /* Data Only SEED */
     blktlen = 8;
-- 
2.43.0


From 55da3b7437ee4b18e53eaa3c233b84ee18b3bef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:04 +0000
Subject: [PATCH 14/89] fix: determine the bounds of the data payload for
 payloads over 64 KiB and with empty Steim frames

---
 libmseed/unpack.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmseed/unpack.c b/libmseed/unpack.c
index b526506..149aa44 100644
--- a/libmseed/unpack.c
+++ b/libmseed/unpack.c
@@ -1127,7 +1127,7 @@ msr3_data_bounds (const MS3Record *msr, uint32_t *dataoffset, uint32_t *datasize
     rawsize = msr->samplecnt * samplebytes;
 
     if (rawsize < *datasize)
-      *datasize = (uint16_t)rawsize;
+      *datasize = (uint32_t)rawsize;
   }
 
   /* If datasize is a multiple of 64-bytes and a Steim encoding, test for
@@ -1136,7 +1136,7 @@ msr3_data_bounds (const MS3Record *msr, uint32_t *dataoffset, uint32_t *datasize
       (msr->encoding == DE_STEIM1 || msr->encoding == DE_STEIM2))
   {
     while (*datasize > 0 &&
-           memcmp (msr->record + (*datasize - 64), nullframe, 64) == 0)
+           memcmp (msr->record + *dataoffset + (*datasize - 64), nullframe, 64) == 0)
     {
       *datasize -= 64;
     }
-- 
2.43.0


From b65638c3c90f9eaf3f2d38df85254620337da363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:37 +0000
Subject: [PATCH 15/89] fix: use the full lengths of blockettes 200, 201, 300,
 310 and 320

---
 libmseed/unpack.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/libmseed/unpack.c b/libmseed/unpack.c
index 149aa44..021537e 100644
--- a/libmseed/unpack.c
+++ b/libmseed/unpack.c
@@ -1627,19 +1627,19 @@ ms2_blktlen (uint16_t blkttype, const char *blkt, int8_t swapflag)
     blktlen = 12;
     break;
   case 200: /* Generic Event Detection */
-    blktlen = 28;
+    blktlen = 52;
     break;
   case 201: /* Murdock Event Detection */
-    blktlen = 36;
+    blktlen = 60;
     break;
   case 300: /* Step Calibration */
-    blktlen = 32;
+    blktlen = 60;
     break;
   case 310: /* Sine Calibration */
-    blktlen = 32;
+    blktlen = 60;
     break;
   case 320: /* Pseudo-random Calibration */
-    blktlen = 28;
+    blktlen = 64;
     break;
   case 390: /* Generic Calibration */
     blktlen = 28;
-- 
2.43.0


From 9eb860999d66e2ef4a7ee1e0e77b379799e76b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:37 +0000
Subject: [PATCH 16/89] fix: refuse to decode more samples than a payload of
 fixed size samples holds

---
 libmseed/unpack.c | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/libmseed/unpack.c b/libmseed/unpack.c
index 021537e..74361ea 100644
--- a/libmseed/unpack.c
+++ b/libmseed/unpack.c
@@ -1332,6 +1332,7 @@ ms_decode_data (const void *input, uint64_t inputsize, uint8_t encoding,
   uint64_t decodedsize; /* byte size of decodeded samples */
   int64_t nsamples; /* number of samples unpacked */
   uint8_t samplesize = 0; /* size of the data samples in bytes */
+  uint8_t encodedbytes = 0; /* size of encoded samples in bytes if fixed */
 
   if (!input || !output || !sampletype)
   {
@@ -1356,6 +1357,39 @@ ms_decode_data (const void *input, uint64_t inputsize, uint8_t encoding,
     return MS_GENERROR;
   }
 
+  /* Encodings with a fixed size per sample need the input to hold all of them */
+  switch (encoding)
+  {
+  case DE_TEXT:
+    encodedbytes = 1;
+    break;
+  case DE_INT16:
+  case DE_GEOSCOPE163:
+  case DE_GEOSCOPE164:
+  case DE_CDSN:
+  case DE_SRO:
+  case DE_DWWSSN:
+    encodedbytes = 2;
+    break;
+  case DE_GEOSCOPE24:
+    encodedbytes = 3;
+    break;
+  case DE_INT32:
+  case DE_FLOAT32:
+    encodedbytes = 4;
+    break;
+  case DE_FLOAT64:
+    encodedbytes = 8;
+    break;
+  }
+
+  if (encodedbytes && samplecount > inputsize / encodedbytes)
+  {
+    ms_log (2, "%s: Encoded data (%"PRIu64" bytes) is too short for %"PRIu64" samples\n",
+            (sid) ? sid : "", inputsize, samplecount);
+    return MS_GENERROR;
+  }
+
   /* Decode data samples according to encoding */
   switch (encoding)
   {
-- 
2.43.0


From b23fc5b4d17c2e1745a439d2dfee746bddb1a72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:04 +0000
Subject: [PATCH 17/89] fix: decode GEOSCOPE 24-bit samples in the byte order
 of the host

---
 libmseed/unpackdata.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/libmseed/unpackdata.c b/libmseed/unpackdata.c
index 0414b67..02a858e 100644
--- a/libmseed/unpackdata.c
+++ b/libmseed/unpackdata.c
@@ -625,6 +625,7 @@ msr_decode_geoscope (char *input, uint64_t samplecount, float *output,
   int32_t gainrange; /* gain range factor */
   int32_t exponent;  /* total exponent */
   int32_t k;
+  int32_t lowbyte = (ms_bigendianhost ()) ? 1 : 0;
   uint64_t exp2val;
   int16_t sint;
   double dsample = 0.0;
@@ -656,12 +657,9 @@ msr_decode_geoscope (char *input, uint64_t samplecount, float *output,
     {
     case DE_GEOSCOPE24:
       sample32.i = 0;
-      if (swapflag)
-        for (k = 0; k < 3; k++)
-          sample32.b[2 - k] = input[k];
-      else
-        for (k = 0; k < 3; k++)
-          sample32.b[1 + k] = input[k];
+      /* The 3 bytes are the low order bytes of the host value */
+      for (k = 0; k < 3; k++)
+        sample32.b[lowbyte + ((swapflag) ? 2 - k : k)] = input[k];
 
       mantissa = sample32.i;
 
-- 
2.43.0


From 2c7435298b8d2fae644996a4725d9c93665a7f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:09 +0000
Subject: [PATCH 18/89] fix: release record buffers when packing fails

---
 libmseed/pack.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libmseed/pack.c b/libmseed/pack.c
index d9a97dc..f06cc2e 100644
--- a/libmseed/pack.c
+++ b/libmseed/pack.c
@@ -225,6 +225,7 @@ msr3_pack_mseed3 (const MS3Record *msr, void (*record_handler) (char *, int, voi
   if (dataoffset < 0)
   {
     ms_log (2, "%s: Cannot pack miniSEED version 3 header\n", msr->sid);
+    libmseed_memory.free (rawrec);
     return -1;
   }
 
@@ -258,6 +259,7 @@ msr3_pack_mseed3 (const MS3Record *msr, void (*record_handler) (char *, int, voi
   if (!samplesize)
   {
     ms_log (2, "%s: Unknown sample type '%c'\n", msr->sid, msr->sampletype);
+    libmseed_memory.free (rawrec);
     return -1;
   }
 
@@ -348,6 +350,7 @@ msr3_pack_mseed3 (const MS3Record *msr, void (*record_handler) (char *, int, voi
     if (ms_nstime2time (nextstarttime, &year, &day, &hour, &min, &sec, &nsec))
     {
       ms_log (2, "%s: Cannot convert next record starttime: %" PRId64 "\n", msr->sid, nextstarttime);
+      libmseed_memory.free (encoded);
       libmseed_memory.free (rawrec);
       return -1;
     }
@@ -668,7 +671,10 @@ msr3_pack_mseed2 (const MS3Record *msr, void (*record_handler) (char *, int, voi
   headerlen = msr3_pack_header2 (msr, rawrec, reclen, verbose);
 
   if (headerlen < 0)
+  {
+    libmseed_memory.free (rawrec);
     return -1;
+  }
 
   /* Short cut: if there are no samples, record packing is complete */
   if (msr->numsamples <= 0)
@@ -698,6 +704,7 @@ msr3_pack_mseed2 (const MS3Record *msr, void (*record_handler) (char *, int, voi
   if (!samplesize)
   {
     ms_log (2, "%s: Unknown sample type '%c'\n", msr->sid, msr->sampletype);
+    libmseed_memory.free (rawrec);
     return -1;
   }
 
-- 
2.43.0


From 43b91743322665f28a5fdbbc929bda8e35fa92f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:09 +0000
Subject: [PATCH 19/89] fix: do not pack empty records without end when there
 is no space for text

---
 libmseed/pack.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libmseed/pack.c b/libmseed/pack.c
index f06cc2e..65ff588 100644
--- a/libmseed/pack.c
+++ b/libmseed/pack.c
@@ -1637,6 +1637,13 @@ msr_pack_data (void *dest, void *src, uint64_t maxsamples, uint64_t maxdatabytes
       return -1;
     }
 
+    if (maxdatabytes < sizeof(char))
+    {
+      ms_log (2, "%s: Not enough space in record (%" PRIu64 ") for TEXT encoding, need at least %"PRIsize_t" bytes\n",
+              sid, maxdatabytes, sizeof(char));
+      return -1;
+    }
+
     if (verbose > 1)
       ms_log (0, "%s: Packing text data\n", sid);
 
-- 
2.43.0


From 7db15833cb24bd46a3391780514933d788db63c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:09 +0000
Subject: [PATCH 20/89] fix: refuse to pack samples that do not fit into 16-bit
 integers

---
 libmseed/packdata.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libmseed/packdata.c b/libmseed/packdata.c
index 8187f94..b7a4a94 100644
--- a/libmseed/packdata.c
+++ b/libmseed/packdata.c
@@ -75,6 +75,13 @@ msr_encode_int16 (int32_t *input, uint64_t samplecount, int16_t *output,
 
   for (idx = 0; idx < samplecount && outputlength >= sizeof (int16_t); idx++)
   {
+    if (input[idx] < INT16_MIN || input[idx] > INT16_MAX)
+    {
+      ms_log (2, "%s(): Sample value (%d) cannot be represented as a 16-bit integer\n",
+              __func__, input[idx]);
+      return -1;
+    }
+
     output[idx] = (int16_t)input[idx];
 
     if (swapflag)
-- 
2.43.0


From 266f05210940db7c7a24b14e0455e85f959f0eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:09 +0000
Subject: [PATCH 21/89] fix: update the microsecond offset of each miniSEED 2
 record packed

---
 libmseed/pack.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libmseed/pack.c b/libmseed/pack.c
index 65ff588..152841f 100644
--- a/libmseed/pack.c
+++ b/libmseed/pack.c
@@ -832,6 +832,11 @@ msr3_pack_mseed2 (const MS3Record *msr, void (*record_handler) (char *, int, voi
     *pMS2FSDH_MIN (rawrec)  = min;
     *pMS2FSDH_SEC (rawrec)  = sec;
     *pMS2FSDH_FSEC (rawrec) = HO2u ((nsec / 100000), swapflag);
+
+    /* Update microsecond offset if Blockette 1001 is present, always following Blockette 1000 */
+    if (*pMS2B1000_NEXT (rawrec + 48) != 0 &&
+        HO2u (*pMS2B1001_TYPE (rawrec + 56), swapflag) == 1001)
+      *pMS2B1001_MICROSECOND (rawrec + 56) = (nsec / 1000) % 100;
   }
 
   if (verbose >= 2)
-- 
2.43.0


From 06422704d46d15b651f2f25487a44da1caf28635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:05 +0000
Subject: [PATCH 22/89] fix: do not write past the end of the buffer when
 repacking a record with a long source identifier

---
 libmseed/pack.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/libmseed/pack.c b/libmseed/pack.c
index 152841f..9e4bbcb 100644
--- a/libmseed/pack.c
+++ b/libmseed/pack.c
@@ -441,15 +441,15 @@ msr3_repack_mseed3 (const MS3Record *msr, char *record, uint32_t recbuflen,
     return -1;
   }
 
-  if (recbuflen < (uint32_t)(MS3FSDH_LENGTH + msr->extralength + origdatasize))
+  reclen = dataoffset + origdatasize;
+
+  if (recbuflen < reclen)
   {
-    ms_log (2, "%s: Destination record buffer length (%u) is not large enough for record (%d)\n",
-            msr->sid, recbuflen, (MS3FSDH_LENGTH + msr->extralength + origdatasize));
+    ms_log (2, "%s: Destination record buffer length (%u) is not large enough for record (%u)\n",
+            msr->sid, recbuflen, reclen);
     return -1;
   }
 
-  reclen = dataoffset + origdatasize;
-
   /* Copy encoded data into record */
   memcpy (record + dataoffset, msr->record + origdataoffset, origdatasize);
 
-- 
2.43.0


From f085c9fad6b986e5871b8e10cf3e4974f0f730c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:05 +0000
Subject: [PATCH 23/89] fix: convert the byte order of payloads when repacking
 miniSEED 2 records to version 3

---
 libmseed/pack.c | 67 +++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 67 insertions(+)

diff --git a/libmseed/pack.c b/libmseed/pack.c
index 9e4bbcb..f1f7f25 100644
--- a/libmseed/pack.c
+++ b/libmseed/pack.c
@@ -402,7 +402,11 @@ msr3_repack_mseed3 (const MS3Record *msr, char *record, uint32_t recbuflen,
   uint32_t origdatasize;
   uint32_t crc;
   uint32_t reclen;
+  uint32_t idx;
+  uint8_t samplebytes = 0;
   int8_t swapflag;
+  int8_t encoding;
+  int8_t bigendian;
 
   if (!msr || !msr->record || ! record)
   {
@@ -456,6 +460,69 @@ msr3_repack_mseed3 (const MS3Record *msr, char *record, uint32_t recbuflen,
   /* Check to see if byte swapping is needed, miniSEED 3 is little endian */
   swapflag = (ms_bigendianhost ()) ? 1 : 0;
 
+  /* The payload of miniSEED 2 can be in either byte order, while miniSEED 3
+   * payloads are little endian other than Steim frames, which are big endian */
+  if (msr->formatversion == 2)
+  {
+    /* Fallback encoding for when encoding is unknown, consistent with unpacking */
+    encoding = (msr->encoding < 0) ? DE_STEIM1 : msr->encoding;
+    *pMS3FSDH_ENCODING(record) = encoding;
+
+    bigendian = (msr->swapflag & MSSWAP_PAYLOAD) ? !ms_bigendianhost () : ms_bigendianhost ();
+
+    switch (encoding)
+    {
+    case DE_TEXT:
+      samplebytes = 1;
+      break;
+    case DE_INT16:
+    case DE_GEOSCOPE163:
+    case DE_GEOSCOPE164:
+    case DE_CDSN:
+    case DE_SRO:
+    case DE_DWWSSN:
+      samplebytes = 2;
+      break;
+    case DE_GEOSCOPE24:
+      samplebytes = 3;
+      break;
+    case DE_INT32:
+    case DE_FLOAT32:
+      samplebytes = 4;
+      break;
+    case DE_FLOAT64:
+      samplebytes = 8;
+      break;
+    }
+
+    /* Refuse payloads that would need conversion other than swapping samples */
+    if (msr->samplecnt > 0 &&
+        ((!bigendian && (encoding == DE_STEIM1 || encoding == DE_STEIM2)) ||
+         (bigendian && samplebytes == 0 && encoding != DE_STEIM1 && encoding != DE_STEIM2)))
+    {
+      ms_log (2, "%s: Cannot repack payload with encoding %d in %s byte order\n",
+              msr->sid, encoding, (bigendian) ? "big endian" : "little endian");
+      return -1;
+    }
+
+    /* Swap each sample to little endian */
+    if (bigendian && samplebytes > 1)
+    {
+      for (idx = 0; idx + samplebytes <= origdatasize; idx += samplebytes)
+      {
+        char *sample = record + dataoffset + idx;
+        uint8_t byte;
+
+        for (byte = 0; byte < samplebytes / 2; byte++)
+        {
+          char swap                      = sample[byte];
+          sample[byte]                   = sample[samplebytes - 1 - byte];
+          sample[samplebytes - 1 - byte] = swap;
+        }
+      }
+    }
+  }
+
   /* Update number of samples and data length */
   *pMS3FSDH_NUMSAMPLES(record) = HO4u ((uint32_t)msr->samplecnt, swapflag);
   *pMS3FSDH_DATALENGTH(record) = HO4u (origdatasize, swapflag);
-- 
2.43.0


From 1ee0850a2e55ce3a48555d1c3646ee051017f34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:05 +0000
Subject: [PATCH 24/89] fix: round negative time corrections to the nearest
 value when packing miniSEED 2

---
 libmseed/pack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmseed/pack.c b/libmseed/pack.c
index f1f7f25..01e00e0 100644
--- a/libmseed/pack.c
+++ b/libmseed/pack.c
@@ -1168,7 +1168,7 @@ msr3_pack_header2 (const MS3Record *msr, char *record, uint32_t recbuflen, int8_
 
   if (yyjson_ptr_get_num (ehroot, "/FDSN/Time/Correction", &header_number))
   {
-    *pMS2FSDH_TIMECORRECT (record) = HO4d ((int32_t)(header_number * 10000 + 0.5), swapflag);
+    *pMS2FSDH_TIMECORRECT (record) = HO4d ((int32_t)(header_number * 10000 + ((header_number < 0) ? -0.5 : 0.5)), swapflag);
 
     /* Set time correction applied bit in activity flags.
        Rationale: V3 records do not allow unapplied time corrections and unapplied
-- 
2.43.0


From 3be6f7a57cf70dd2840c73f63efe088651714a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:05 +0000
Subject: [PATCH 25/89] fix: do not write past the end of the buffer when
 packing miniSEED 2 headers

---
 libmseed/pack.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/libmseed/pack.c b/libmseed/pack.c
index 01e00e0..3d448d3 100644
--- a/libmseed/pack.c
+++ b/libmseed/pack.c
@@ -1002,6 +1002,14 @@ msr3_pack_header2 (const MS3Record *msr, char *record, uint32_t recbuflen, int8_
     return -1;
   }
 
+  /* Check that buffer is large enough for fixed header and blockettes 1000, 1001, and 100 */
+  if (recbuflen < 48 + 8 + 8 + 12)
+  {
+    ms_log (2, "%s: Buffer length (%u) is not large enough for a miniSEED 2 header\n",
+            msr->sid, recbuflen);
+    return -1;
+  }
+
   /* Calculate the record length as an exponent of 2 */
   for (reclenfind = 1, reclenexp = 1; reclenfind <= MAXRECLEN; reclenexp++)
   {
@@ -1405,6 +1413,10 @@ msr3_pack_header2 (const MS3Record *msr, char *record, uint32_t recbuflen, int8_
             if (!yyjson_is_num (ehsubiterval))
               continue;
 
+            /* No more than 6 values fit in the blockette */
+            if (idx >= 6)
+              break;
+
             pMS2B201_MEDSNR (record + written)[idx++] = (uint8_t)yyjson_get_num (ehsubiterval);
           }
         }
-- 
2.43.0


From 0e18bae4bd5ef493bf75e30ecaccb627f6f02c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:05 +0000
Subject: [PATCH 26/89] fix: pack calibration abort headers as blockette 395

---
 libmseed/pack.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libmseed/pack.c b/libmseed/pack.c
index 3d448d3..35e4381 100644
--- a/libmseed/pack.c
+++ b/libmseed/pack.c
@@ -1471,6 +1471,12 @@ msr3_pack_header2 (const MS3Record *msr, char *record, uint32_t recbuflen, int8_
           blockette_type   = 390;
           blockette_length = 28;
         }
+        else if (strncasecmp (header_string, "ABORT", 5) == 0 &&
+                 yyjson_ptr_get (ehiterval, "/EndTime"))
+        {
+          blockette_type   = 395;
+          blockette_length = 16;
+        }
       }
       else if (yyjson_ptr_get (ehiterval, "/EndTime"))
       {
-- 
2.43.0


From 71ebbd00f8481bfcaed4e6cd2fa89894d87b724d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:05 +0000
Subject: [PATCH 27/89] fix: store the sample rate, not a period, in blockette
 100

---
 libmseed/pack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmseed/pack.c b/libmseed/pack.c
index 35e4381..5c7acd5 100644
--- a/libmseed/pack.c
+++ b/libmseed/pack.c
@@ -1237,7 +1237,7 @@ msr3_pack_header2 (const MS3Record *msr, char *record, uint32_t recbuflen, int8_
 
     *pMS2B100_TYPE (record + written)     = HO2u (100, swapflag);
     *pMS2B100_NEXT (record + written)     = 0;
-    *pMS2B100_SAMPRATE (record + written) = HO4f ((float)msr->samprate, swapflag);
+    *pMS2B100_SAMPRATE (record + written) = HO4f ((float)msr3_sampratehz(msr), swapflag);
     *pMS2B100_FLAGS (record + written)    = 0;
     memset (pMS2B100_RESERVED (record + written), 0, 3);
 
-- 
2.43.0


From 4c7a42db8095af1f62f76064caa45e9517ace181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:24 +0000
Subject: [PATCH 28/89] fix: do not report the wave of event detections when it
 is undetermined

---
 libmseed/unpack.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmseed/unpack.c b/libmseed/unpack.c
index 74361ea..4f9e74d 100644
--- a/libmseed/unpack.c
+++ b/libmseed/unpack.c
@@ -462,8 +462,8 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
       eventdetection.signalperiod = HO4f (*pMS2B200_PERIOD (record + blkt_offset), msr->swapflag);
       eventdetection.backgroundestimate = HO4f (*pMS2B200_BACKGROUNDEST (record + blkt_offset), msr->swapflag);
 
-      /* If bit 2 is set, set compression wave according to bit 0 */
-      if (*pMS2B200_FLAGS (record + blkt_offset) & 0x04)
+      /* If bit 2 (undetermined) is not set, set compression wave according to bit 0 */
+      if (!(*pMS2B200_FLAGS (record + blkt_offset) & 0x04))
       {
         if (*pMS2B200_FLAGS (record + blkt_offset) & 0x01)
           strncpy (eventdetection.wave, "DILATATION", sizeof (eventdetection.wave));
-- 
2.43.0


From 6f1d97c2a353687e411ebe9e15f09ca06c11b522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:39 +0000
Subject: [PATCH 29/89] fix: do not write past the end of exception type and
 clock status when reading blockette 500

---
 libmseed/libmseed.h | 4 ++--
 libmseed/unpack.c   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/libmseed/libmseed.h b/libmseed/libmseed.h
index c0e1f92..7e347e6 100644
--- a/libmseed/libmseed.h
+++ b/libmseed/libmseed.h
@@ -883,8 +883,8 @@ typedef struct MSEHTimingException
   int usec; /**< [DEPRECATED] microsecond time offset, 0 = not included */
   int receptionquality; /**< Reception quality, 0 to 100% clock accurracy, <0 = not included */
   uint32_t count; /**< The count thereof, 0 = not included */
-  char type[16]; /**< E.g. "MISSING" or "UNEXPECTED", zero length = not included */
-  char clockstatus[128]; /**< Description of clock-specific parameters, zero length = not included */
+  char type[17]; /**< E.g. "MISSING" or "UNEXPECTED", zero length = not included */
+  char clockstatus[129]; /**< Description of clock-specific parameters, zero length = not included */
 } MSEHTimingException;
 
 /**
diff --git a/libmseed/unpack.c b/libmseed/unpack.c
index 4f9e74d..e116013 100644
--- a/libmseed/unpack.c
+++ b/libmseed/unpack.c
@@ -830,7 +830,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
       }
 
       /* Apply microsecond precision if non-zero */
-      if (*pMS2B500_MICROSECOND (record + blkt_offset) != 0)
+      if (exception.time != NSTUNSET && *pMS2B500_MICROSECOND (record + blkt_offset) != 0)
       {
         exception.time += (nstime_t)*pMS2B500_MICROSECOND (record + blkt_offset) * (NSTMODULUS / 1000000);
       }
-- 
2.43.0


From aae38d9ad04524d11c6190f7f65da55fed2dd15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:14 +0000
Subject: [PATCH 30/89] fix: refuse record length exponents that cannot be
 shifted when detecting miniSEED 2

---
 libmseed/parseutils.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libmseed/parseutils.c b/libmseed/parseutils.c
index 048a6e1..8c168a7 100644
--- a/libmseed/parseutils.c
+++ b/libmseed/parseutils.c
@@ -247,6 +247,13 @@ ms3_detect (const char *record, uint64_t recbuflen, uint8_t *formatversion)
 
         /* Field 3 of B1000 is a uint8_t value describing the record
          * length as 2^(value).  Calculate 2-raised with a shift. */
+        if (*pMS2B1000_RECLEN (record + blkt_offset) > 62)
+        {
+          ms_log (2, "Invalid record length exponent in blockette 1000: %d\n",
+                  *pMS2B1000_RECLEN (record + blkt_offset));
+          return -1;
+        }
+
         reclen = (uint64_t)1 << *pMS2B1000_RECLEN (record + blkt_offset);
 
         break;
-- 
2.43.0


From 91949c70070525a8297684cb64994fd417020557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:26 +0000
Subject: [PATCH 31/89] fix: refuse miniSEED 2 times with fractional seconds
 out of range

---
 libmseed/unpack.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/libmseed/unpack.c b/libmseed/unpack.c
index e116013..2a5056c 100644
--- a/libmseed/unpack.c
+++ b/libmseed/unpack.c
@@ -1731,6 +1731,7 @@ static inline nstime_t
 ms_btime2nstime (uint8_t *btime, int8_t swapflag)
 {
   uint16_t year;
+  uint16_t fract;
 
   if (btime == NULL)
   {
@@ -1745,10 +1746,18 @@ ms_btime2nstime (uint8_t *btime, int8_t swapflag)
     return NSTUNSET;
   }
 
+  fract = HO2u (*(uint16_t *)(btime + 8), swapflag);
+
+  if (fract > 9999)
+  {
+    ms_log (2, "fractional second (%u) is out of range\n", fract);
+    return NSTERROR;
+  }
+
   return ms_time2nstime (year,
                          HO2u (*((uint16_t *)(btime + 2)), swapflag),
                          *(btime + 4),
                          *(btime + 5),
                          *(btime + 6),
-                         (uint32_t)HO2u (*(uint16_t *)(btime + 8), swapflag) * (NSTMODULUS / 10000));
+                         (uint32_t)fract * (NSTMODULUS / 10000));
 } /* End of ms_btime2nstime() */
-- 
2.43.0


From 97fe9562c831bcc85ba018cd2c52aef2eba0ae9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:37 +0000
Subject: [PATCH 32/89] fix: refuse paths that do not fit instead of opening a
 truncated path

---
 libmseed/fileutils.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libmseed/fileutils.c b/libmseed/fileutils.c
index 11cee22..634eeae 100644
--- a/libmseed/fileutils.c
+++ b/libmseed/fileutils.c
@@ -336,6 +336,14 @@ ms3_readmsr_selection (MS3FileParam **ppmsfp, MS3Record **ppmsr, const char *msp
       pathname_range = parse_pathname_range (mspath, &msfp->startoffset, &msfp->endoffset);
     }
 
+    /* Refuse a path that does not fit, a truncated path names something else */
+    if ((pathname_range ? (size_t)(pathname_range - mspath) : strlen (mspath)) >= sizeof (msfp->path))
+    {
+      ms_log (2, "Path is too long, maximum is %zu characters: %s\n", sizeof (msfp->path) - 1, mspath);
+      msr3_free (ppmsr);
+      return MS_GENERROR;
+    }
+
     /* Store the path */
     strncpy (msfp->path, mspath, sizeof (msfp->path) - 1);
 
-- 
2.43.0


From f56409ec99f4f245ee37ab1a3c1376e49705b5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:48 +0000
Subject: [PATCH 33/89] fix: locate the payload of a record with its own
 lengths when headers were changed

---
 libmseed/unpack.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libmseed/unpack.c b/libmseed/unpack.c
index 2a5056c..b87a785 100644
--- a/libmseed/unpack.c
+++ b/libmseed/unpack.c
@@ -1080,8 +1080,10 @@ msr3_data_bounds (const MS3Record *msr, uint32_t *dataoffset, uint32_t *datasize
   /* Determine offset to data */
   if (msr->formatversion == 3)
   {
-    *dataoffset = MS3FSDH_LENGTH + (uint32_t)strlen (msr->sid) + msr->extralength;
-    *datasize = msr->datalength;
+    /* Use the lengths in the raw record, the identifier and extra headers may have been changed */
+    *dataoffset = MS3FSDH_LENGTH + *pMS3FSDH_SIDLENGTH (msr->record) +
+                  HO2u (*pMS3FSDH_EXTRALENGTH (msr->record), msr->swapflag & MSSWAP_HEADER);
+    *datasize = HO4u (*pMS3FSDH_DATALENGTH (msr->record), msr->swapflag & MSSWAP_HEADER);
   }
   else if (msr->formatversion == 2)
   {
-- 
2.43.0


From 60c6a5e41355d828932418d8f79630c4a95dac94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:32 +0000
Subject: [PATCH 34/89] fix: refuse channels with empty codes when packing
 miniSEED 2

---
 libmseed/pack.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libmseed/pack.c b/libmseed/pack.c
index 5c7acd5..8a301e3 100644
--- a/libmseed/pack.c
+++ b/libmseed/pack.c
@@ -1026,7 +1026,8 @@ msr3_pack_header2 (const MS3Record *msr, char *record, uint32_t recbuflen, int8_
   }
 
   /* Verify that identifier codes will fit into and are appropriate for miniSEED 2 */
-  if (strlen (network) > 2 || strlen (station) > 5 || strlen (location) > 2 || strlen (channel) != 3)
+  if (strlen (network) > 2 || strlen (station) > 5 || strlen (location) > 2 ||
+      strlen (channel) != 3 || strchr (channel, '_') != NULL)
   {
     ms_log (2, "%s: Cannot create miniSEED 2 for N,S,L,C codes: %s, %s, %s, %s\n",
             msr->sid, network, station, location, channel);
-- 
2.43.0


From 2b102f19e7f129a0253ae245b5f25ed5e9ae48d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:26 +0000
Subject: [PATCH 35/89] fix: keep murdock lookback and algorithm 255 when
 packing blockette 201

---
 libmseed/pack.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmseed/pack.c b/libmseed/pack.c
index 8a301e3..9faf104 100644
--- a/libmseed/pack.c
+++ b/libmseed/pack.c
@@ -1422,10 +1422,10 @@ msr3_pack_header2 (const MS3Record *msr, char *record, uint32_t recbuflen, int8_
           }
         }
 
-        if (yyjson_ptr_get_uint (ehiterval, "/MEDLookback", &header_uint) && header_uint < UINT8_MAX)
+        if (yyjson_ptr_get_uint (ehiterval, "/MEDLookback", &header_uint) && header_uint <= UINT8_MAX)
           *pMS2B201_LOOPBACK (record + written) = (uint8_t)header_uint;
 
-        if (yyjson_ptr_get_uint (ehiterval, "/MEDPickAlgorithm", &header_uint) && header_uint < UINT8_MAX)
+        if (yyjson_ptr_get_uint (ehiterval, "/MEDPickAlgorithm", &header_uint) && header_uint <= UINT8_MAX)
           *pMS2B201_PICKALGORITHM (record + written) = (uint8_t)header_uint;
 
         if (yyjson_ptr_get_str (ehiterval, "/Detector", &header_string))
-- 
2.43.0


From 70ebcbb157bff8f9384b7319861f3d4dc7fdeb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:13 +0000
Subject: [PATCH 36/89] fix: a miniSEED 2 record without data offset has no
 payload

---
 libmseed/unpack.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libmseed/unpack.c b/libmseed/unpack.c
index b87a785..f5b2f03 100644
--- a/libmseed/unpack.c
+++ b/libmseed/unpack.c
@@ -1095,7 +1095,8 @@ msr3_data_bounds (const MS3Record *msr, uint32_t *dataoffset, uint32_t *datasize
       return MS_GENERROR;
     }
 
-    *datasize = msr->reclen - *dataoffset;
+    /* A data offset of zero means that there is no payload */
+    *datasize = (*dataoffset > 0) ? msr->reclen - *dataoffset : 0;
   }
   else
   {
-- 
2.43.0


From 5eae4b525a7dd3f349d7997a2819f6962c8e509e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:59 +0000
Subject: [PATCH 37/89] fix: leave the caller's extra headers alone when
 packing a trace list

---
 libmseed/tracelist.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index 96eea40..c9ebe31 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -1995,6 +1995,8 @@ mstl3_pack (MS3TraceList *mstl, void (*record_handler) (char *, int, void *),
     if (extralength > UINT16_MAX)
     {
       ms_log (2, "Extra headers are too long: %"PRIsize_t"\n", extralength);
+      msr->extra = NULL;
+      msr3_free (&msr);
       return -1;
     }
 
@@ -2055,6 +2057,9 @@ mstl3_pack (MS3TraceList *mstl, void (*record_handler) (char *, int, void *),
         if (!(samplesize = ms_samplesize (seg->sampletype)))
         {
           ms_log (2, "Unknown sample size for sample type: %c\n", seg->sampletype);
+          msr->extra = NULL;
+          msr->datasamples = NULL;
+          msr3_free (&msr);
           return -1;
         }
 
@@ -2074,6 +2079,9 @@ mstl3_pack (MS3TraceList *mstl, void (*record_handler) (char *, int, void *),
             if (seg->datasamples == NULL)
             {
               ms_log (2, "Cannot (re)allocate datasamples buffer\n");
+              msr->extra = NULL;
+              msr->datasamples = NULL;
+              msr3_free (&msr);
               return -1;
             }
 
@@ -2101,7 +2109,8 @@ mstl3_pack (MS3TraceList *mstl, void (*record_handler) (char *, int, void *),
     id = id->next[0];
   }
 
-  /* The record structure never owns the actual data so it should not free it */
+  /* The record structure never owns the actual data or extra headers so it should not free them */
+  msr->extra = NULL;
   msr->datasamples = NULL;
   msr3_free (&msr);
 
-- 
2.43.0


From 64e1608812826f3c043b6312d45229a0fdf96e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:06 +0000
Subject: [PATCH 38/89] fix: start time of a segment after packing all of its
 samples

---
 libmseed/tracelist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index c9ebe31..f90a4da 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -2050,7 +2050,7 @@ mstl3_pack (MS3TraceList *mstl, void (*record_handler) (char *, int, void *),
       {
         /* Calculate new start time, shortcut when all samples have been packed */
         if (segpackedsamples == seg->numsamples)
-          seg->starttime = seg->endtime;
+          seg->starttime = ms_sampletime (seg->endtime, 1, seg->samprate);
         else
           seg->starttime = ms_sampletime (seg->starttime, segpackedsamples, seg->samprate);
 
-- 
2.43.0


From 10f10b56470006e488ad691c14bc59612f0041f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:15 +0000
Subject: [PATCH 39/89] fix: report failures of packing a trace list

---
 libmseed/tracelist.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index f90a4da..8155a61 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -2100,9 +2100,23 @@ mstl3_pack (MS3TraceList *mstl, void (*record_handler) (char *, int, void *),
         seg->numsamples -= segpackedsamples;
       }
 
-      totalpackedrecords += segpackedrecords;
       totalpackedsamples += segpackedsamples;
 
+      if (segpackedrecords < 0)
+      {
+        ms_log (2, "%s: Cannot pack data of segment\n", msr->sid);
+        msr->extra = NULL;
+        msr->datasamples = NULL;
+        msr3_free (&msr);
+
+        if (packedsamples)
+          *packedsamples = totalpackedsamples;
+
+        return -1;
+      }
+
+      totalpackedrecords += segpackedrecords;
+
       seg = seg->next;
     }
 
-- 
2.43.0


From 3e59bd240a2bed11c95fe6cc450f842ebb0affc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:22 +0000
Subject: [PATCH 40/89] fix: no records from segments emptied by earlier
 packing

---
 libmseed/tracelist.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index 8155a61..3f97a1d 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -2014,6 +2014,13 @@ mstl3_pack (MS3TraceList *mstl, void (*record_handler) (char *, int, void *),
     seg = id->first;
     while (seg)
     {
+      /* Skip segments emptied by earlier packing, starting after the last packed sample */
+      if (seg->numsamples == 0 && seg->starttime > seg->endtime)
+      {
+        seg = seg->next;
+        continue;
+      }
+
       msr->starttime = seg->starttime;
       msr->samprate = seg->samprate;
       msr->samplecnt = seg->samplecnt;
-- 
2.43.0


From 6aa9c4acb25cee42c9d17b2b814ab8c3c43f99cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:55 +0000
Subject: [PATCH 41/89] fix: day of month 0 is not a valid date

---
 libmseed/genutils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmseed/genutils.c b/libmseed/genutils.c
index 8a2b650..e1afdf4 100644
--- a/libmseed/genutils.c
+++ b/libmseed/genutils.c
@@ -124,7 +124,7 @@ static const int monthdays_leap[] = {31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30,
 #define VALIDMONTH(month) (month >= 1 && month <= 12)
 
 /* Check that a day-of-month is in a valid range */
-#define VALIDMONTHDAY(year, month, mday) (mday >= 0 && mday <= (LEAPYEAR (year) ? monthdays_leap[month - 1] : monthdays[month - 1]))
+#define VALIDMONTHDAY(year, month, mday) (mday >= 1 && mday <= (LEAPYEAR (year) ? monthdays_leap[month - 1] : monthdays[month - 1]))
 
 /* Check that a day-of-year is in a valid range */
 #define VALIDYEARDAY(year, yday) (yday >= 1 && yday <= (365 + (LEAPYEAR (year) ? 1 : 0)))
-- 
2.43.0


From f4c08d126a9e49be42954d9242b42ce839e2ed83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:02 +0000
Subject: [PATCH 42/89] fix: sign and fraction of negative Unix epoch time
 strings

---
 libmseed/genutils.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/libmseed/genutils.c b/libmseed/genutils.c
index e1afdf4..7febe18 100644
--- a/libmseed/genutils.c
+++ b/libmseed/genutils.c
@@ -936,6 +936,7 @@ ms_nstime2timestr (nstime_t nstime, char *timestr,
   int submicro;
   int printed  = 0;
   int expected = 0;
+  const char *sign;
 
   if (!timestr)
   {
@@ -959,6 +960,16 @@ ms_nstime2timestr (nstime_t nstime, char *timestr,
   microsec = nanosec / 1000;
   submicro = nanosec - (microsec * 1000);
 
+  /* Unix epoch values are signed, the fraction is that of the magnitude */
+  if (timeformat == UNIXEPOCH)
+  {
+    microsec = rawnanosec / 1000;
+    submicro = rawnanosec - (microsec * 1000);
+  }
+
+  /* Sign for negative epoch values with no whole seconds */
+  sign = (nstime < 0 && rawisec == 0) ? "-" : "";
+
   /* Calculate date-time parts if needed by format */
   if (timeformat == ISOMONTHDAY || timeformat == ISOMONTHDAY_Z ||
       timeformat == ISOMONTHDAY_DOY || timeformat == ISOMONTHDAY_DOY_Z ||
@@ -1052,7 +1063,7 @@ ms_nstime2timestr (nstime_t nstime, char *timestr,
       break;
     case UNIXEPOCH:
       expected = -1;
-      printed  = snprintf (timestr, 22, "%" PRId64 ".%06d", rawisec, rawnanosec / 1000);
+      printed  = snprintf (timestr, 22, "%s%" PRId64 ".%06d", sign, rawisec, microsec);
       break;
     case NANOSECONDEPOCH:
       expected = -1;
@@ -1096,7 +1107,7 @@ ms_nstime2timestr (nstime_t nstime, char *timestr,
       break;
     case UNIXEPOCH:
       expected = -1;
-      printed  = snprintf (timestr, 22, "%" PRId64 ".%09d", rawisec, rawnanosec);
+      printed  = snprintf (timestr, 22, "%s%" PRId64 ".%09d", sign, rawisec, rawnanosec);
       break;
     case NANOSECONDEPOCH:
       expected = -1;
@@ -1365,7 +1376,7 @@ ms_timestr2nstime (const char *timestr)
 
     if (fsec != 0.0)
     {
-      if (nstime >= 0)
+      if (timestr[0] != '-')
         nstime += (int)(fsec * 1000000000.0 + 0.5);
       else
         nstime -= (int)(fsec * 1000000000.0 + 0.5);
-- 
2.43.0


From fc964f0b37369ad388fbb9d165f80e5bce70b82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:10 +0000
Subject: [PATCH 43/89] fix: refuse time strings with seconds followed by
 something other than a fraction

---
 libmseed/genutils.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/libmseed/genutils.c b/libmseed/genutils.c
index 7febe18..a4e3472 100644
--- a/libmseed/genutils.c
+++ b/libmseed/genutils.c
@@ -1462,8 +1462,12 @@ ms_mdtimestr2nstime (const char *timestr)
   fields = sscanf (timestr, "%d%*[-,/:.]%d%*[-,/:.]%d%*[-,/:.Tt ]%d%*[-,/:.]%d%*[-,/:.]%d%lf",
                    &year, &mon, &mday, &hour, &min, &sec, &fsec);
 
-  /* Convert fractional seconds to nanoseconds */
-  if (fsec != 0.0)
+  /* Convert fractional seconds to nanoseconds, anything other than a fraction is not valid */
+  if (fsec < 0.0 || fsec >= 1.0)
+  {
+    nsec = UINT32_MAX;
+  }
+  else if (fsec != 0.0)
   {
     nsec = (uint32_t)(fsec * 1000000000.0 + 0.5);
   }
@@ -1568,8 +1572,12 @@ ms_seedtimestr2nstime (const char *seedtimestr)
   fields = sscanf (seedtimestr, "%d%*[-,:.]%d%*[-,:.Tt ]%d%*[-,:.]%d%*[-,:.]%d%lf",
                    &year, &yday, &hour, &min, &sec, &fsec);
 
-  /* Convert fractional seconds to nanoseconds */
-  if (fsec != 0.0)
+  /* Convert fractional seconds to nanoseconds, anything other than a fraction is not valid */
+  if (fsec < 0.0 || fsec >= 1.0)
+  {
+    nsec = UINT32_MAX;
+  }
+  else if (fsec != 0.0)
   {
     nsec = (uint32_t)(fsec * 1000000000.0 + 0.5);
   }
-- 
2.43.0


From 953a7e32cd307627610563c6a934a814dcb4728b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:18 +0000
Subject: [PATCH 44/89] fix: refuse times beyond the end of the representable
 range

---
 libmseed/genutils.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/libmseed/genutils.c b/libmseed/genutils.c
index a4e3472..e40c131 100644
--- a/libmseed/genutils.c
+++ b/libmseed/genutils.c
@@ -1178,6 +1178,7 @@ static nstime_t
 ms_time2nstime_int (int year, int yday, int hour, int min, int sec, uint32_t nsec)
 {
   nstime_t nstime;
+  int64_t isec;
   int shortyear;
   int a4, a100, a400;
   int intervening_leap_days;
@@ -1192,7 +1193,17 @@ ms_time2nstime_int (int year, int yday, int hour, int min, int sec, uint32_t nse
 
   days = (365 * (shortyear - 70) + intervening_leap_days + (yday - 1));
 
-  nstime = (nstime_t) (60 * (60 * ((nstime_t)24 * days + hour) + min) + sec) * NSTMODULUS + nsec;
+  isec = (60 * (60 * ((int64_t)24 * days + hour) + min) + sec);
+
+  /* Times late in the last supported year cannot be represented */
+  if (isec > INT64_MAX / NSTMODULUS ||
+      (isec == INT64_MAX / NSTMODULUS && nsec > INT64_MAX % NSTMODULUS))
+  {
+    ms_log (2, "Time cannot be represented: year %d, day %d\n", year, yday);
+    return NSTERROR;
+  }
+
+  nstime = (nstime_t)isec * NSTMODULUS + nsec;
 
   return nstime;
 } /* End of ms_time2nstime_int() */
-- 
2.43.0


From 1e09c9a9456a64de95194bbe40856e49be1095ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:25 +0000
Subject: [PATCH 45/89] fix: refuse epoch time strings out of range

---
 libmseed/genutils.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libmseed/genutils.c b/libmseed/genutils.c
index e40c131..c655507 100644
--- a/libmseed/genutils.c
+++ b/libmseed/genutils.c
@@ -1382,6 +1382,13 @@ ms_timestr2nstime (const char *timestr)
       return NSTERROR;
     }
 
+    /* Refuse values beyond the representable range */
+    if (sec >= INT64_MAX / NSTMODULUS || sec <= -(INT64_MAX / NSTMODULUS))
+    {
+      ms_log (2, "Epoch time out of range: '%s'\n", timestr);
+      return NSTERROR;
+    }
+
     /* Convert seconds and fractional seconds to nanoseconds, return combination */
     nstime = MS_EPOCH2NSTIME (sec);
 
-- 
2.43.0


From 6c1c08a5b772763d3b6f5937710dd0672cb95dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:33 +0000
Subject: [PATCH 46/89] fix: close leap second file on errors

---
 libmseed/genutils.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libmseed/genutils.c b/libmseed/genutils.c
index c655507..c5b4591 100644
--- a/libmseed/genutils.c
+++ b/libmseed/genutils.c
@@ -1851,6 +1851,7 @@ ms_readleapsecondfile (const char *filename)
       if ((ls = (LeapSecond *)libmseed_memory.malloc (sizeof (LeapSecond))) == NULL)
       {
         ms_log (2, "Cannot allocate LeapSecond entry, out of memory?\n");
+        fclose (fp);
         return -1;
       }
 
@@ -1881,6 +1882,7 @@ ms_readleapsecondfile (const char *filename)
   if (ferror (fp))
   {
     ms_log (2, "Error reading leap second file (%s): %s\n", filename, strerror (errno));
+    fclose (fp);
     return -1;
   }
 
-- 
2.43.0


From 3c9bc44d9af8badebe6ee166b6bb7d56753a2a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:03 +0000
Subject: [PATCH 47/89] fix: do not read past the end of unterminated text
 fields

---
 libmseed/genutils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmseed/genutils.c b/libmseed/genutils.c
index c5b4591..f9858b8 100644
--- a/libmseed/genutils.c
+++ b/libmseed/genutils.c
@@ -549,7 +549,7 @@ utf8length_int (const char *str, int maxlength)
   int length = 0;
   int offset;
 
-  for (offset = 0; str[offset] && offset < maxlength; offset++)
+  for (offset = 0; offset < maxlength && str[offset]; offset++)
   {
     type = utf8d[(uint8_t)str[offset]];
     state = utf8d[256 + state * 16 + type];
-- 
2.43.0


From ba52bb975a4920b07189033f25fd69e63d435c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:10 +0000
Subject: [PATCH 48/89] fix: keep extended channels of three characters as they
 are

---
 libmseed/genutils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmseed/genutils.c b/libmseed/genutils.c
index f9858b8..060c9e2 100644
--- a/libmseed/genutils.c
+++ b/libmseed/genutils.c
@@ -382,7 +382,7 @@ ms_nslc2sid (char *sid, int sidlen, uint16_t flags,
   needed++;
 
   /* Map SEED channel to extended channel if possible, otherwise direct copy */
-  if (!ms_seedchan2xchan (xchan, chan))
+  if (!strchr (chan, '_') && !ms_seedchan2xchan (xchan, chan))
   {
     chan = xchan;
   }
-- 
2.43.0


From 453bf4f402cd0f19a3640032a4674bbdea981609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:17 +0000
Subject: [PATCH 49/89] fix: find the end of truncated or empty messages stored
 in the registry

---
 libmseed/logging.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libmseed/logging.c b/libmseed/logging.c
index 32b3859..d3c5b20 100644
--- a/libmseed/logging.c
+++ b/libmseed/logging.c
@@ -410,9 +410,11 @@ rlog_int (MSLogParam *logp, const char *function, int level,
   if (level >= 1 && logp->registry.maxmessages > 0)
   {
     /* Remove trailing newline if present */
-    if (message[printed - 1] == '\n')
+    size_t length = strlen (message);
+
+    if (length > 0 && message[length - 1] == '\n')
     {
-      message[printed - 1] = '\0';
+      message[length - 1] = '\0';
       printed -= 1;
     }
 
-- 
2.43.0


From c8adb190d9d2f98cc21743c6629f38651337ef5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:24 +0000
Subject: [PATCH 50/89] fix: release log registry entries with the library's
 memory functions

---
 libmseed/logging.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libmseed/logging.c b/libmseed/logging.c
index d3c5b20..993e0a8 100644
--- a/libmseed/logging.c
+++ b/libmseed/logging.c
@@ -494,7 +494,7 @@ add_message_int (MSLogRegistry *logreg, const char *function, int level,
         logentry->next = NULL;
 
       if (count > logreg->maxmessages)
-        free (logentry);
+        libmseed_memory.free (logentry);
 
       logentry = lognext;
     }
@@ -619,7 +619,7 @@ ms_rlog_emit (MSLogParam *logp, int count, int context)
     print_message_int (logp, logprint->level, message, "\n");
 
     logentry = logprint->next;
-    free (logprint);
+    libmseed_memory.free (logprint);
     logprint = logentry;
   }
 
@@ -651,7 +651,7 @@ ms_rlog_free (MSLogParam *logp)
     freed++;
 
     logp->registry.messages = logentry->next;
-    free (logentry);
+    libmseed_memory.free (logentry);
     logentry = logp->registry.messages;
   }
 
-- 
2.43.0


From bcd2f59e6a38c57edd40c08864a0d96679494082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:47 +0000
Subject: [PATCH 51/89] fix: return the number of messages emitted

---
 libmseed/logging.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libmseed/logging.c b/libmseed/logging.c
index 993e0a8..71146c7 100644
--- a/libmseed/logging.c
+++ b/libmseed/logging.c
@@ -579,6 +579,7 @@ ms_rlog_emit (MSLogParam *logp, int count, int context)
   char local_message[MAX_LOG_MSG_LENGTH];
   char *message = NULL;
   int emit = (count > 0) ? count : -1;
+  int emitted = 0;
 
   if (!logp)
     logp = &gMSLogParam;
@@ -617,13 +618,14 @@ ms_rlog_emit (MSLogParam *logp, int count, int context)
     }
 
     print_message_int (logp, logprint->level, message, "\n");
+    emitted++;
 
     logentry = logprint->next;
     libmseed_memory.free (logprint);
     logprint = logentry;
   }
 
-  return 0;
+  return emitted;
 } /* End of ms_rlog_emit() */
 
 
-- 
2.43.0


From 658b732fa4fcf97ae919bc1333909899d7a64390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:54 +0000
Subject: [PATCH 52/89] fix: keep count of the messages in the registry

---
 libmseed/logging.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libmseed/logging.c b/libmseed/logging.c
index 71146c7..702afb8 100644
--- a/libmseed/logging.c
+++ b/libmseed/logging.c
@@ -494,7 +494,10 @@ add_message_int (MSLogRegistry *logreg, const char *function, int level,
         logentry->next = NULL;
 
       if (count > logreg->maxmessages)
+      {
         libmseed_memory.free (logentry);
+        logreg->messagecnt -= 1;
+      }
 
       logentry = lognext;
     }
@@ -589,6 +592,7 @@ ms_rlog_emit (MSLogParam *logp, int count, int context)
   while (logentry && emit)
   {
     logp->registry.messages = logentry->next;
+    logp->registry.messagecnt -= 1;
 
     logentry->next = logprint;
     logprint = logentry;
@@ -653,6 +657,7 @@ ms_rlog_free (MSLogParam *logp)
     freed++;
 
     logp->registry.messages = logentry->next;
+    logp->registry.messagecnt -= 1;
     libmseed_memory.free (logentry);
     logentry = logp->registry.messages;
   }
-- 
2.43.0


From cf696823eba6f660065cce94c3edecdb1e85860d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:36 +0000
Subject: [PATCH 53/89] fix: find pending extra headers of a record that has
 none stored

mseh_get_ptr_r() answered from the record's stored headers alone when there
were none, so values set through a parse state could not be read before
they were serialized.
---
 libmseed/extraheaders.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/libmseed/extraheaders.c b/libmseed/extraheaders.c
index ae9f896..df7fd96 100644
--- a/libmseed/extraheaders.c
+++ b/libmseed/extraheaders.c
@@ -165,13 +165,14 @@ mseh_get_ptr_r (const MS3Record *msr, const char *ptr,
     return MS_GENERROR;
   }
 
-  /* Nothing can be found in no headers */
-  if (!msr->extralength)
+  /* Nothing can be found in no headers, neither stored nor in the parse state */
+  if (!msr->extralength &&
+      (parsed == NULL || (parsed->doc == NULL && parsed->mut_doc == NULL)))
   {
     return 1;
   }
 
-  if (!msr->extra)
+  if (parsed == NULL && !msr->extra)
   {
     ms_log (2, "%s() Expected extra headers (msr->extra) are not present\n", __func__);
     return MS_GENERROR;
@@ -202,8 +203,9 @@ mseh_get_ptr_r (const MS3Record *msr, const char *ptr,
     }
   }
 
-  /* Create immutable document from mutable if needed */
-  if (parsed->mut_doc != NULL && parsed->doc == NULL)
+  /* Create immutable document from mutable if needed, an empty document has no root */
+  if (parsed->mut_doc != NULL && parsed->doc == NULL &&
+      yyjson_mut_doc_get_root (parsed->mut_doc) != NULL)
   {
     if ((parsed->doc = yyjson_mut_doc_imut_copy (parsed->mut_doc, &alc)) == NULL)
     {
-- 
2.43.0


From ab4f7a42da0a31c1d17cef8bf02b34482d8d61e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:45 +0000
Subject: [PATCH 54/89] fix: report extra headers that cannot be stored

mseh_set_ptr_r() without a parse state ignored a failure to serialize,
e.g. beyond the largest size, and returned success with the value lost.
---
 libmseed/extraheaders.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libmseed/extraheaders.c b/libmseed/extraheaders.c
index df7fd96..3b6663a 100644
--- a/libmseed/extraheaders.c
+++ b/libmseed/extraheaders.c
@@ -464,7 +464,10 @@ mseh_set_ptr_r (MS3Record *msr, const char *ptr,
   /* Serialized extra headers and free parse state if not being retained */
   if (parsestate == NULL)
   {
-    mseh_serialize (msr, &parsed);
+    if (rv == true && mseh_serialize (msr, &parsed) < 0)
+    {
+      rv = false;
+    }
     mseh_free_parsestate (&parsed);
   }
   /* If changes were applied, the immutable form of the document is now invalid */
-- 
2.43.0


From 6e4fbfb9ccd370697dd0df0c8b82b7754536c97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:53 +0000
Subject: [PATCH 55/89] fix: release the new parse state when extra headers
 cannot be parsed

---
 libmseed/extraheaders.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libmseed/extraheaders.c b/libmseed/extraheaders.c
index 3b6663a..fb20d17 100644
--- a/libmseed/extraheaders.c
+++ b/libmseed/extraheaders.c
@@ -58,6 +58,7 @@ parse_json (char *jsonstring, size_t length, LM_PARSED_JSON *parsed)
   yyjson_read_flag flg = YYJSON_READ_NOFLAG;
   yyjson_read_err err;
   yyjson_alc alc = {_priv_malloc, _priv_realloc, _priv_free, NULL};
+  LM_PARSED_JSON *allocated = NULL;
 
   /* Allocate parsed state if needed */
   if (!parsed)
@@ -71,6 +72,7 @@ parse_json (char *jsonstring, size_t length, LM_PARSED_JSON *parsed)
     {
       parsed->doc     = NULL;
       parsed->mut_doc = NULL;
+      allocated       = parsed;
     }
   }
 
@@ -99,6 +101,7 @@ parse_json (char *jsonstring, size_t length, LM_PARSED_JSON *parsed)
   {
     ms_log (2, "%s() Cannot parse extra header JSON: %s\n",
             __func__, (err.msg) ? err.msg : "Unknown error");
+    mseh_free_parsestate (&allocated);
     return NULL;
   }
 
-- 
2.43.0


From 6f72c7be0fb85327d6e3df562888e6441bd44982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:01 +0000
Subject: [PATCH 56/89] fix: release the parsed document in mseh_replace()

---
 libmseed/extraheaders.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libmseed/extraheaders.c b/libmseed/extraheaders.c
index fb20d17..feb22cc 100644
--- a/libmseed/extraheaders.c
+++ b/libmseed/extraheaders.c
@@ -1124,6 +1124,8 @@ mseh_replace (MS3Record *msr, char *jsonstring)
     /* Serialize new JSON string */
     serialized = yyjson_write_opts (doc, write_flg, &alc, &serialsize, &write_err);
 
+    yyjson_doc_free (doc);
+
     if (serialized == NULL)
     {
       ms_log (2, "%s() Cannot write extra header JSON: %s\n",
-- 
2.43.0


From 9fce27d9d0e7cf20190088ebc97633595b59d311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:09 +0000
Subject: [PATCH 57/89] fix: follow escaped quotes when printing extra headers

---
 libmseed/extraheaders.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libmseed/extraheaders.c b/libmseed/extraheaders.c
index feb22cc..ec3ea9f 100644
--- a/libmseed/extraheaders.c
+++ b/libmseed/extraheaders.c
@@ -1187,6 +1187,14 @@ mseh_print (const MS3Record *msr, int indent)
   ms_log (0, "%*s", indent, "");
   for (idx = 1; idx < (msr->extralength - 1); idx++)
   {
+    /* An escaped character in a string, e.g. \", does not end it */
+    if (instring && extra[idx] == '\\' && idx < (msr->extralength - 2))
+    {
+      ms_log (0, "%c%c", extra[idx], extra[idx + 1]);
+      idx++;
+      continue;
+    }
+
     /* Toggle "in string" flag for double quotes */
     if (extra[idx] == '"')
       instring = (instring) ? 0 : 1;
-- 
2.43.0


From 15672b20ed57ec0ece5dad2123ee74b275429c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:16 +0000
Subject: [PATCH 58/89] fix: return whole 64-bit integers from extra headers

Values beyond 32 bits were truncated through a conversion to int.
---
 libmseed/extraheaders.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmseed/extraheaders.c b/libmseed/extraheaders.c
index ec3ea9f..02c96ac 100644
--- a/libmseed/extraheaders.c
+++ b/libmseed/extraheaders.c
@@ -238,7 +238,7 @@ mseh_get_ptr_r (const MS3Record *msr, const char *ptr,
   else if (type == 'i' && yyjson_is_int (extravalue))
   {
     if (value)
-      *((int64_t *)value) = unsafe_yyjson_get_int (extravalue);
+      *((int64_t *)value) = unsafe_yyjson_get_sint (extravalue);
   }
   else if (type == 's' && yyjson_is_str (extravalue))
   {
-- 
2.43.0


From 264c9fc41411dd81ac305169c9ce945edd1fa6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:19 +0000
Subject: [PATCH 59/89] fix: hold whole identifier codes, and only of the
 trace, in the SYNC list

---
 libmseed/tracelist.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index 3f97a1d..8a5a3ba 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -2297,10 +2297,10 @@ mstl3_printsynclist (const MS3TraceList *mstl, const char *dccid, ms_subseconds_
   char starttime[40];
   char endtime[40];
   char yearday[32];
-  char net[11] = {0};
-  char sta[11] = {0};
-  char loc[11] = {0};
-  char chan[11] = {0};
+  char net[LM_SIDLEN];
+  char sta[LM_SIDLEN];
+  char loc[LM_SIDLEN];
+  char chan[LM_SIDLEN];
   time_t now;
   struct tm *nt;
 
@@ -2323,7 +2323,9 @@ mstl3_printsynclist (const MS3TraceList *mstl, const char *dccid, ms_subseconds_
   id = mstl->traces.next[0];
   while (id)
   {
-    ms_sid2nslc (id->sid, net, sta, loc, chan);
+    /* Codes are left empty if the identifier cannot be separated */
+    if (ms_sid2nslc (id->sid, net, sta, loc, chan))
+      net[0] = sta[0] = loc[0] = chan[0] = '\0';
 
     /* Loop through segment list */
     seg = id->first;
-- 
2.43.0


From 0353b4392e5f6779b429b8fb2f74b7a0dcaad04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:19 +0000
Subject: [PATCH 60/89] fix: report failed writes to output files, keep
 standard output open for the summary

---
 src/msi.c | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/msi.c b/src/msi.c
index 4497db3..b23ae40 100644
--- a/src/msi.c
+++ b/src/msi.c
@@ -316,7 +316,12 @@ main (int argc, char **argv)
 
           if (samplesize)
           {
-            fwrite (msr->datasamples, samplesize, msr->numsamples, bfp);
+            if (fwrite (msr->datasamples, samplesize, msr->numsamples, bfp) != (size_t)msr->numsamples)
+            {
+              ms_log (2, "Cannot write to binary data output file: %s (%s)\n",
+                      binfile, strerror (errno));
+              exit (1);
+            }
           }
           else
           {
@@ -328,7 +333,12 @@ main (int argc, char **argv)
 
       if (outfile)
       {
-        fwrite (msr->record, 1, msr->reclen, ofp);
+        if (fwrite (msr->record, 1, msr->reclen, ofp) != (size_t)msr->reclen)
+        {
+          ms_log (2, "Cannot write to output file: %s (%s)\n",
+                  outfile, strerror (errno));
+          exit (1);
+        }
       }
     }
 
@@ -346,11 +356,20 @@ main (int argc, char **argv)
     flp = flp->next;
   } /* End of looping over file list */
 
-  if (binfile)
-    fclose (bfp);
+  /* Flush standard output, leaving it open for the summary and lists */
+  if (binfile && ((bfp == stdout) ? fflush (bfp) : fclose (bfp)))
+  {
+    ms_log (2, "Cannot write to binary data output file: %s (%s)\n",
+            binfile, strerror (errno));
+    exit (1);
+  }
 
-  if (outfile)
-    fclose (ofp);
+  if (outfile && ((ofp == stdout) ? fflush (ofp) : fclose (ofp)))
+  {
+    ms_log (2, "Cannot write to output file: %s (%s)\n",
+            outfile, strerror (errno));
+    exit (1);
+  }
 
   if (basicsum)
     ms_log (0, "Files: %" PRId64 ", Records: %" PRId64 ", Samples: %" PRId64 "\n",
-- 
2.43.0


From c7e4b754f0221be6b9a5de20f71667fb0275e8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:19 +0000
Subject: [PATCH 61/89] fix: accept negative decimal values for gap limits

---
 src/msi.c | 24 +++++++-----------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/src/msi.c b/src/msi.c
index b23ae40..f842478 100644
--- a/src/msi.c
+++ b/src/msi.c
@@ -701,32 +701,22 @@ getoptval (int argcount, char **argvec, int argopt)
 /***************************************************************************
  * lisnumber:
  *
- * Test if the string is all digits allowing an initial minus sign.
+ * Test if the string is a decimal number allowing an initial minus sign.
  *
  * Return 0 if not a number otherwise 1.
  ***************************************************************************/
 static int
 lisnumber (char *number)
 {
-  int idx = 0;
+  char *end = NULL;
 
-  while (*(number + idx))
-  {
-    if (idx == 0 && *(number + idx) == '-')
-    {
-      idx++;
-      continue;
-    }
-
-    if (!isdigit ((int)*(number + idx)))
-    {
-      return 0;
-    }
+  /* Must start as a number, optionally with a minus sign, and be nothing else */
+  if (!isdigit ((unsigned char)number[(number[0] == '-') ? 1 : 0]) && number[(number[0] == '-') ? 1 : 0] != '.')
+    return 0;
 
-    idx++;
-  }
+  strtod (number, &end);
 
-  return 1;
+  return (end != number && *end == '\0') ? 1 : 0;
 } /* End of lisnumber() */
 
 /***************************************************************************
-- 
2.43.0


From 7b3a51dbadf4284c5e2b45b5f49152b0fab52fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:19 +0000
Subject: [PATCH 62/89] fix: exit with an error when data samples cannot be
 unpacked

---
 src/msi.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/msi.c b/src/msi.c
index f842478..e601726 100644
--- a/src/msi.c
+++ b/src/msi.c
@@ -81,6 +81,7 @@ main (int argc, char **argv)
   FILE *bfp = 0;
   FILE *ofp = 0;
   int retcode = MS_NOERROR;
+  int exitcode = 0;
 
   uint32_t flags = 0;
   int dataflag = 0;
@@ -243,7 +244,11 @@ main (int argc, char **argv)
       if (dataflag)
       {
         /* Parse the record (again) and unpack the data */
-        int unpacked = msr3_unpack_data (msr, verbose);
+        int64_t unpacked = msr3_unpack_data (msr, verbose);
+
+        /* Continue with other records, the error is reported by the exit code */
+        if (unpacked < 0)
+          exitcode = 1;
 
         if (unpacked > 0 && printdata && !tracegaponly)
         {
@@ -394,7 +399,7 @@ main (int argc, char **argv)
   if (mstl)
     mstl3_free (&mstl, 0);
 
-  return 0;
+  return exitcode;
 } /* End of main() */
 
 /***************************************************************************
-- 
2.43.0


From 87fa7933f27a7a65a99ac1f696b674e1970fba65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:25 +0000
Subject: [PATCH 63/89] fix: end printed text data with a newline whatever its
 length

The final piece of text of exactly 199 characters filled the log message and
its newline was dropped.
---
 src/msi.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/msi.c b/src/msi.c
index e601726..bb226ea 100644
--- a/src/msi.c
+++ b/src/msi.c
@@ -279,7 +279,8 @@ main (int argc, char **argv)
             /* Print any remaining ASCII and add a newline */
             if (length > 0)
             {
-              ms_log (0, "%.*s\n", length, textdata);
+              ms_log (0, "%.*s", length, textdata);
+              ms_log (0, "\n");
             }
             else
             {
-- 
2.43.0


From 68cf5e373f70856f8f27e559b0cfa30cb98fbe59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:41 +0000
Subject: [PATCH 64/89] fix: release the new trace ID, segment and record entry
 when adding a record fails

---
 libmseed/tracelist.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index 8a5a3ba..0488d03 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -432,6 +432,7 @@ mstl3_addmsr_recordptr (MS3TraceList *mstl, const MS3Record *msr, MS3RecordPtr *
 
     if (!(seg = mstl3_msr2seg (msr, endtime)))
     {
+      libmseed_memory.free (id);
       return NULL;
     }
     id->first = id->last = seg;
@@ -439,6 +440,9 @@ mstl3_addmsr_recordptr (MS3TraceList *mstl, const MS3Record *msr, MS3RecordPtr *
     /* Add MS3RecordPtr if requested */
     if (pprecptr && !(*pprecptr = mstl3_add_recordptr (seg, msr, endtime, 1)))
     {
+      libmseed_memory.free (seg->datasamples);
+      libmseed_memory.free (seg);
+      libmseed_memory.free (id);
       return NULL;
     }
 
@@ -691,6 +695,8 @@ mstl3_addmsr_recordptr (MS3TraceList *mstl, const MS3Record *msr, MS3RecordPtr *
         /* Add MS3RecordPtr if requested */
         if (pprecptr && !(*pprecptr = mstl3_add_recordptr (seg, msr, endtime, 0)))
         {
+          libmseed_memory.free (seg->datasamples);
+          libmseed_memory.free (seg);
           return NULL;
         }
 
@@ -1027,6 +1033,7 @@ mstl3_msr2seg (const MS3Record *msr, nstime_t endtime)
     if (!(samplesize = ms_samplesize (msr->sampletype)))
     {
       ms_log (2, "Unknown sample size for sample type: %c\n", msr->sampletype);
+      libmseed_memory.free (seg);
       return NULL;
     }
 
@@ -1035,6 +1042,7 @@ mstl3_msr2seg (const MS3Record *msr, nstime_t endtime)
     if (!(seg->datasamples = libmseed_memory.malloc ((size_t) (datasize))))
     {
       ms_log (2, "Error allocating memory\n");
+      libmseed_memory.free (seg);
       return NULL;
     }
     seg->datasize = datasize;
@@ -1315,6 +1323,7 @@ mstl3_add_recordptr (MS3TraceSeg *seg, const MS3Record *msr, nstime_t endtime, i
     if (seg->recordlist == NULL)
     {
       ms_log (2, "Cannot allocate memory\n");
+      msr3_free (&recordptr->msr);
       libmseed_memory.free (recordptr);
       return NULL;
     }
-- 
2.43.0


From 8373eb55af254924083254a75ab08dca35b62dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:41 +0000
Subject: [PATCH 65/89] fix: release the record when mstl3_readbuffer cannot
 determine the data bounds

---
 libmseed/tracelist.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index 0488d03..5b664d4 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -972,7 +972,10 @@ mstl3_readbuffer_selection (MS3TraceList **ppmstl, const char *buffer, uint64_t
     {
       /* Determine offset to data and length of data payload */
       if (msr3_data_bounds (msr, &dataoffset, &datasize))
+      {
+        msr3_free (&msr);
         return MS_GENERROR;
+      }
 
       recordptr->bufferptr  = buffer + offset;
       recordptr->fileptr    = NULL;
-- 
2.43.0


From 28f4c54a78bc49c9f5b2e1b51391ed77b799b74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:41 +0000
Subject: [PATCH 66/89] fix: keep the larger sample buffer when it cannot be
 reduced in size

---
 libmseed/tracelist.c | 40 +++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index 5b664d4..ce683f9 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -1396,6 +1396,7 @@ mstl3_convertsamples (MS3TraceSeg *seg, char type, int8_t truncate)
   int32_t *idata;
   float *fdata;
   double *ddata;
+  void *datasamples;
   int64_t idx;
 
   if (!seg)
@@ -1456,13 +1457,15 @@ mstl3_convertsamples (MS3TraceSeg *seg, char type, int8_t truncate)
       /* Reallocate buffer for reduced size needed, only if not pre-allocating */
       if (libmseed_prealloc_block_size == 0)
       {
-        if (!(seg->datasamples = libmseed_memory.realloc (seg->datasamples,
-                                                          (size_t) (seg->numsamples * sizeof (int32_t)))))
+        datasamples = libmseed_memory.realloc (seg->datasamples,
+                                               (size_t) (seg->numsamples * sizeof (int32_t)));
+
+        /* The larger buffer remains in use if it cannot be reduced */
+        if (datasamples)
         {
-          ms_log (2, "Cannot re-allocate buffer for sample conversion\n");
-          return -1;
+          seg->datasamples = datasamples;
+          seg->datasize = seg->numsamples * sizeof (int32_t);
         }
-        seg->datasize = seg->numsamples * sizeof (int32_t);
       }
     }
 
@@ -1485,13 +1488,15 @@ mstl3_convertsamples (MS3TraceSeg *seg, char type, int8_t truncate)
       /* Reallocate buffer for reduced size needed, only if not pre-allocating */
       if (libmseed_prealloc_block_size == 0)
       {
-        if (!(seg->datasamples = libmseed_memory.realloc (seg->datasamples,
-                                                          (size_t) (seg->numsamples * sizeof (float)))))
+        datasamples = libmseed_memory.realloc (seg->datasamples,
+                                               (size_t) (seg->numsamples * sizeof (float)));
+
+        /* The larger buffer remains in use if it cannot be reduced */
+        if (datasamples)
         {
-          ms_log (2, "Cannot re-allocate buffer after sample conversion\n");
-          return -1;
+          seg->datasamples = datasamples;
+          seg->datasize = seg->numsamples * sizeof (float);
         }
-        seg->datasize = seg->numsamples * sizeof (float);
       }
     }
 
@@ -1970,6 +1975,7 @@ mstl3_pack (MS3TraceList *mstl, void (*record_handler) (char *, int, void *),
   int segpackedrecords = 0;
   int64_t segpackedsamples = 0;
   int samplesize;
+  void *datasamples;
   size_t bufsize;
   size_t extralength;
 
@@ -2093,18 +2099,14 @@ mstl3_pack (MS3TraceList *mstl, void (*record_handler) (char *, int, void *),
           /* Reallocate buffer for reduced size needed, only if not pre-allocating */
           if (libmseed_prealloc_block_size == 0)
           {
-            seg->datasamples = libmseed_memory.realloc (seg->datasamples, bufsize);
+            datasamples = libmseed_memory.realloc (seg->datasamples, bufsize);
 
-            if (seg->datasamples == NULL)
+            /* The larger buffer remains in use if it cannot be reduced */
+            if (datasamples)
             {
-              ms_log (2, "Cannot (re)allocate datasamples buffer\n");
-              msr->extra = NULL;
-              msr->datasamples = NULL;
-              msr3_free (&msr);
-              return -1;
+              seg->datasamples = datasamples;
+              seg->datasize = bufsize;
             }
-
-            seg->datasize = bufsize;
           }
         }
         else
-- 
2.43.0


From 1873d655e07e7d3c6f91400dffc49db11299faf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:52 +0000
Subject: [PATCH 67/89] fix: do not lose the sample buffer when resizing
 buffers fails

---
 libmseed/msrutils.c  | 6 ++++--
 libmseed/tracelist.c | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/libmseed/msrutils.c b/libmseed/msrutils.c
index 763bbd9..c070f31 100644
--- a/libmseed/msrutils.c
+++ b/libmseed/msrutils.c
@@ -304,6 +304,7 @@ msr3_print (const MS3Record *msr, int8_t details)
 int
 msr3_resize_buffer (MS3Record *msr)
 {
+  void *datasamples = NULL;
   uint8_t samplesize = 0;
   size_t datasize;
 
@@ -321,14 +322,15 @@ msr3_resize_buffer (MS3Record *msr)
 
     if (msr->datasize > datasize)
     {
-      msr->datasamples = libmseed_memory.realloc (msr->datasamples, datasize);
+      datasamples = libmseed_memory.realloc (msr->datasamples, datasize);
 
-      if (msr->datasamples == NULL)
+      if (datasamples == NULL)
       {
         ms_log (2, "%s: Cannot (re)allocate memory\n", msr->sid);
         return MS_GENERROR;
       }
 
+      msr->datasamples = datasamples;
       msr->datasize = datasize;
     }
   }
diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index ce683f9..f53eb86 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -1550,6 +1550,7 @@ mstl3_convertsamples (MS3TraceSeg *seg, char type, int8_t truncate)
 int
 mstl3_resize_buffers (MS3TraceList *mstl)
 {
+  void *datasamples = NULL;
   MS3TraceID *id = NULL;
   MS3TraceSeg *seg = NULL;
   uint8_t samplesize = 0;
@@ -1576,14 +1577,15 @@ mstl3_resize_buffers (MS3TraceList *mstl)
 
         if (seg->datasize > datasize)
         {
-          seg->datasamples = libmseed_memory.realloc (seg->datasamples, datasize);
+          datasamples = libmseed_memory.realloc (seg->datasamples, datasize);
 
-          if (seg->datasamples == NULL)
+          if (datasamples == NULL)
           {
             ms_log (2, "%s: Cannot (re)allocate memory\n", id->sid);
             return MS_GENERROR;
           }
 
+          seg->datasamples = datasamples;
           seg->datasize = datasize;
         }
       }
-- 
2.43.0


From de22bff79e5ebdb897f74bb2f1fe56fff15682a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:52 +0000
Subject: [PATCH 68/89] fix: release the file list entry and read buffer when
 unpacking a record list fails

---
 libmseed/tracelist.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index f53eb86..e9ea118 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -1787,6 +1787,7 @@ mstl3_unpack_recordlist (MS3TraceID *id, MS3TraceSeg *seg, void *output,
           if ((filelistptr->fileptr = fopen (recordptr->filename, "rb")) == NULL)
           {
             ms_log (2, "%s: Cannot open file (%s): %s\n", id->sid, recordptr->filename, strerror(errno));
+            libmseed_memory.free (filelistptr);
 
             totalunpackedsamples = -1;
             break;
@@ -1804,7 +1805,9 @@ mstl3_unpack_recordlist (MS3TraceID *id, MS3TraceSeg *seg, void *output,
       /* Allocate memory if needed, over-allocating (x2) to minimize reallocation */
       if (recordptr->msr->reclen > filebuffersize)
       {
-        if ((filebuffer = libmseed_memory.realloc (filebuffer, recordptr->msr->reclen * 2)) == NULL)
+        char *newbuffer = libmseed_memory.realloc (filebuffer, recordptr->msr->reclen * 2);
+
+        if (newbuffer == NULL)
         {
           ms_log (2, "%s: Cannot allocate memory for file read buffer\n", id->sid);
 
@@ -1812,6 +1815,7 @@ mstl3_unpack_recordlist (MS3TraceID *id, MS3TraceSeg *seg, void *output,
           break;
         }
 
+        filebuffer = newbuffer;
         filebuffersize = recordptr->msr->reclen * 2;
       }
 
-- 
2.43.0


From 49d3c2a937a88ffeb5acb76f23fafc818a446289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:52 +0000
Subject: [PATCH 69/89] fix: release the sample buffer when it cannot be
 enlarged for unpacking

---
 libmseed/unpack.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/libmseed/unpack.c b/libmseed/unpack.c
index f5b2f03..a294574 100644
--- a/libmseed/unpack.c
+++ b/libmseed/unpack.c
@@ -1182,6 +1182,7 @@ msr3_unpack_data (MS3Record *msr, int8_t verbose)
   uint32_t dataoffset = 0;
   const char *encoded = NULL;
   char *encoded_allocated = NULL;
+  void *datasamples = NULL;
 
   if (!msr)
   {
@@ -1266,23 +1267,29 @@ msr3_unpack_data (MS3Record *msr, int8_t verbose)
     if (libmseed_prealloc_block_size)
     {
       size_t current_size  = msr->datasize;
-      msr->datasamples = libmseed_memory_prealloc (msr->datasamples, unpacksize, &current_size);
+      datasamples = libmseed_memory_prealloc (msr->datasamples, unpacksize, &current_size);
       msr->datasize = current_size;
     }
     else
     {
-      msr->datasamples = libmseed_memory.realloc (msr->datasamples, unpacksize);
+      datasamples = libmseed_memory.realloc (msr->datasamples, unpacksize);
       msr->datasize = unpacksize;
     }
 
-    if (msr->datasamples == NULL)
+    if (datasamples == NULL)
     {
       ms_log (2, "%s: Cannot (re)allocate memory\n", msr->sid);
+      if (msr->datasamples)
+        libmseed_memory.free (msr->datasamples);
+      msr->datasamples = NULL;
       msr->datasize = 0;
+      msr->numsamples = 0;
       if (encoded_allocated)
         libmseed_memory.free (encoded_allocated);
       return MS_GENERROR;
     }
+
+    msr->datasamples = datasamples;
   }
   else
   {
-- 
2.43.0


From c4cc1f773de6f60f4a0dea7ceaa69e2b2e3d026a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:52 +0000
Subject: [PATCH 70/89] fix: release the time window when a selection cannot be
 added

---
 libmseed/selection.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libmseed/selection.c b/libmseed/selection.c
index 70de5be..92450f9 100644
--- a/libmseed/selection.c
+++ b/libmseed/selection.c
@@ -209,6 +209,7 @@ ms3_addselect (MS3Selections **ppselections, const char *sidpattern,
     if (!(newsl = (MS3Selections *)libmseed_memory.malloc (sizeof (MS3Selections))))
     {
       ms_log (2, "Cannot allocate memory\n");
+      libmseed_memory.free (newst);
       return -1;
     }
     memset (newsl, 0, sizeof (MS3Selections));
@@ -250,6 +251,7 @@ ms3_addselect (MS3Selections **ppselections, const char *sidpattern,
       if (!(newsl = (MS3Selections *)libmseed_memory.malloc (sizeof (MS3Selections))))
       {
         ms_log (2, "Cannot allocate memory\n");
+        libmseed_memory.free (newst);
         return -1;
       }
       memset (newsl, 0, sizeof (MS3Selections));
-- 
2.43.0


From ddc360786c56bb05e828fb2ea0e8d0a0c914b72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:52 +0000
Subject: [PATCH 71/89] fix: close the selections file when reading it fails

---
 libmseed/selection.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/libmseed/selection.c b/libmseed/selection.c
index 92450f9..3f2a79b 100644
--- a/libmseed/selection.c
+++ b/libmseed/selection.c
@@ -558,6 +558,8 @@ ms3_readselectionsfile (MS3Selections **ppselections, const char *filename)
       if (starttime == NSTUNSET || starttime == NSTERROR)
       {
         ms_log (2, "Cannot convert data selection start time (line %d): %s\n", linecount, cp);
+        if (fp != stdin)
+          fclose (fp);
         return -1;
       }
     }
@@ -575,6 +577,8 @@ ms3_readselectionsfile (MS3Selections **ppselections, const char *filename)
       if (endtime == NSTUNSET || endtime == NSTERROR)
       {
         ms_log (2, "Cannot convert data selection end time (line %d): %s\n", linecount, cp);
+        if (fp != stdin)
+          fclose (fp);
         return -1;
       }
     }
@@ -596,6 +600,8 @@ ms3_readselectionsfile (MS3Selections **ppselections, const char *filename)
         if (longpver < 0 || longpver > 255 )
         {
           ms_log (2, "Cannot convert publication version (line %d): %s\n", linecount, fields[3]);
+          if (fp != stdin)
+            fclose (fp);
           return -1;
         }
         else
@@ -608,6 +614,8 @@ ms3_readselectionsfile (MS3Selections **ppselections, const char *filename)
       if (ms3_addselect (ppselections, fields[0], starttime, endtime, pubversion))
       {
         ms_log (2, "%s: Error adding selection on line %d\n", filename, linecount);
+        if (fp != stdin)
+          fclose (fp);
         return -1;
       }
     }
@@ -627,6 +635,8 @@ ms3_readselectionsfile (MS3Selections **ppselections, const char *filename)
         if (longpver < 0 || longpver > 255 )
         {
           ms_log (2, "Cannot convert publication version (line %d): %s\n", linecount, fields[4]);
+          if (fp != stdin)
+            fclose (fp);
           return -1;
         }
         else
@@ -639,6 +649,8 @@ ms3_readselectionsfile (MS3Selections **ppselections, const char *filename)
                               starttime, endtime, pubversion))
       {
         ms_log (2, "%s: Error adding selection on line %d\n", filename, linecount);
+        if (fp != stdin)
+          fclose (fp);
         return -1;
       }
     }
-- 
2.43.0


From df306ac722ce161403230d30851e04c44c22cb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:38 +0000
Subject: [PATCH 72/89] fix: report failure to allocate an extra header value
 instead of removing the header

---
 libmseed/extraheaders.c | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/libmseed/extraheaders.c b/libmseed/extraheaders.c
index 02c96ac..a25c222 100644
--- a/libmseed/extraheaders.c
+++ b/libmseed/extraheaders.c
@@ -325,6 +325,7 @@ mseh_set_ptr_r (MS3Record *msr, const char *ptr,
   yyjson_mut_val *merged_val = NULL;
   yyjson_mut_val *target_val = NULL;
   yyjson_mut_val *array_val = NULL;
+  yyjson_mut_val *new_val = NULL;
   bool rv = false;
 
   if (!msr || !ptr || !value)
@@ -390,24 +391,24 @@ mseh_set_ptr_r (MS3Record *msr, const char *ptr,
     }
   }
 
-  /* Set (or replace) header value at ptr */
+  /* Set (or replace) header value at ptr, setting a NULL (not allocated) value would remove it */
   switch (type)
   {
   case 'n':
-    rv = yyjson_mut_doc_ptr_set (parsed->mut_doc, ptr,
-                                 yyjson_mut_real (parsed->mut_doc, *((double *)value)));
+    new_val = yyjson_mut_real (parsed->mut_doc, *((double *)value));
+    rv = (new_val && yyjson_mut_doc_ptr_set (parsed->mut_doc, ptr, new_val));
     break;
   case 'i':
-    rv = yyjson_mut_doc_ptr_set (parsed->mut_doc, ptr,
-                                 yyjson_mut_sint (parsed->mut_doc, *((int64_t *)value)));
+    new_val = yyjson_mut_sint (parsed->mut_doc, *((int64_t *)value));
+    rv = (new_val && yyjson_mut_doc_ptr_set (parsed->mut_doc, ptr, new_val));
     break;
   case 's':
-    rv = yyjson_mut_doc_ptr_set (parsed->mut_doc, ptr,
-                                 yyjson_mut_strcpy (parsed->mut_doc, (const char *)value));
+    new_val = yyjson_mut_strcpy (parsed->mut_doc, (const char *)value);
+    rv = (new_val && yyjson_mut_doc_ptr_set (parsed->mut_doc, ptr, new_val));
     break;
   case 'b':
-    rv = yyjson_mut_doc_ptr_set (parsed->mut_doc, ptr,
-                                 yyjson_mut_bool (parsed->mut_doc, *((int *)value) ? true : false));
+    new_val = yyjson_mut_bool (parsed->mut_doc, *((int *)value) ? true : false);
+    rv = (new_val && yyjson_mut_doc_ptr_set (parsed->mut_doc, ptr, new_val));
     break;
   case 'M':
     /* Parse supplied patch */
@@ -439,8 +440,8 @@ mseh_set_ptr_r (MS3Record *msr, const char *ptr,
 
     break;
   case 'V':
-    rv = yyjson_mut_doc_ptr_set (parsed->mut_doc, ptr,
-                                 yyjson_mut_val_mut_copy (parsed->mut_doc, (yyjson_mut_val *)value));
+    new_val = yyjson_mut_val_mut_copy (parsed->mut_doc, (yyjson_mut_val *)value);
+    rv = (new_val && yyjson_mut_doc_ptr_set (parsed->mut_doc, ptr, new_val));
     break;
   case 'A':
     /* Search for existing array, create if necessary */
-- 
2.43.0


From 3579ab31383e397ef6198c0bfcd38dfe2cdd433e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:54 +0000
Subject: [PATCH 73/89] fix: report a failed URL transfer instead of treating
 it as the end of the data

---
 libmseed/msio.c | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/libmseed/msio.c b/libmseed/msio.c
index 8eacc9f..cddfac9 100644
--- a/libmseed/msio.c
+++ b/libmseed/msio.c
@@ -206,7 +206,7 @@ msio_fopen (LMIO *io, const char *path, const char *mode,
     ms_log (2, "URL support not included in library for %s\n", path);
     return -1;
 #else
-    long response_code;
+    long response_code = 0;
     struct header_callback_parameters hcp;
 
     io->type = LMIO_URL;
@@ -381,6 +381,11 @@ msio_fopen (LMIO *io, const char *path, const char *mode,
       ms_log (2, "Cannot open %s: response code %ld\n", path, response_code);
       return -1;
     }
+    else if (io->still_running < 0)
+    {
+      ms_log (2, "Cannot open %s\n", path);
+      return -1;
+    }
 #endif /* defined(LIBMSEED_URL) */
   }
   else
@@ -513,6 +518,10 @@ msio_fread (LMIO *io, void *buffer, size_t size)
     if (!io->still_running)
       return 0;
 
+    /* Transfer has already failed */
+    if (io->still_running < 0)
+      return -1;
+
     /* Set up destination buffer in write callback parameters */
     rcp.buffer = buffer;
     rcp.size   = size;
@@ -577,6 +586,25 @@ msio_fread (LMIO *io, void *buffer, size_t size)
 
     read = size - rcp.size;
 
+    /* Distinguish a failed transfer from a complete one, a failure is not the end of the data */
+    if (!io->still_running)
+    {
+      CURLMsg *msg;
+      int remaining;
+
+      while ((msg = curl_multi_info_read (io->handle2, &remaining)))
+      {
+        if (msg->msg == CURLMSG_DONE && msg->data.result != CURLE_OK)
+        {
+          /* HTTP response errors are reported when opening */
+          if (msg->data.result != CURLE_HTTP_RETURNED_ERROR)
+            ms_log (2, "Transfer failed: %s\n", curl_easy_strerror (msg->data.result));
+
+          io->still_running = -1;
+        }
+      }
+    }
+
 #endif /* defined(LIBMSEED_URL) */
   }
 
-- 
2.43.0


From 9dde63f7efda209609f2b2d5066e4932fed7da2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:54 +0000
Subject: [PATCH 74/89] fix: close input that cannot be opened or positioned,
 it would be read on the next call

---
 libmseed/msio.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libmseed/msio.c b/libmseed/msio.c
index cddfac9..a4f9ccd 100644
--- a/libmseed/msio.c
+++ b/libmseed/msio.c
@@ -374,16 +374,19 @@ msio_fopen (LMIO *io, const char *path, const char *mode,
     if (response_code == 404)
     {
       ms_log (2, "Cannot open %s: Not Found (404)\n", path);
+      msio_fclose (io);
       return -1;
     }
     else if (response_code >= 400 && response_code < 600)
     {
       ms_log (2, "Cannot open %s: response code %ld\n", path, response_code);
+      msio_fclose (io);
       return -1;
     }
     else if (io->still_running < 0)
     {
       ms_log (2, "Cannot open %s\n", path);
+      msio_fclose (io);
       return -1;
     }
 #endif /* defined(LIBMSEED_URL) */
@@ -404,6 +407,7 @@ msio_fopen (LMIO *io, const char *path, const char *mode,
       if (lmp_fseek64 (io->handle, *startoffset, SEEK_SET))
       {
         ms_log (2, "Cannot seek in %s to offset %" PRId64 "\n", path, *startoffset);
+        msio_fclose (io);
         return -1;
       }
     }
-- 
2.43.0


From 69373a00176657df8b945a2a44a2b7e7a3be211c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:54 +0000
Subject: [PATCH 75/89] fix: report when a server ignores a requested start of
 a byte range

---
 libmseed/msio.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libmseed/msio.c b/libmseed/msio.c
index a4f9ccd..25c9993 100644
--- a/libmseed/msio.c
+++ b/libmseed/msio.c
@@ -208,6 +208,7 @@ msio_fopen (LMIO *io, const char *path, const char *mode,
 #else
     long response_code = 0;
     struct header_callback_parameters hcp;
+    int64_t requestedstart = (startoffset) ? *startoffset : 0;
 
     io->type = LMIO_URL;
 
@@ -383,6 +384,12 @@ msio_fopen (LMIO *io, const char *path, const char *mode,
       msio_fclose (io);
       return -1;
     }
+    else if (response_code == 200 && requestedstart > 0)
+    {
+      ms_log (2, "Cannot open %s: byte range is not supported by server\n", path);
+      msio_fclose (io);
+      return -1;
+    }
     else if (io->still_running < 0)
     {
       ms_log (2, "Cannot open %s\n", path);
-- 
2.43.0


From c2d0f375649e7be0f5fc61e0a3eb7caf15c37b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:54 +0000
Subject: [PATCH 76/89] fix: do not use header callback data after opening a
 URL, trailers may follow the data

---
 libmseed/msio.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libmseed/msio.c b/libmseed/msio.c
index 25c9993..5505f97 100644
--- a/libmseed/msio.c
+++ b/libmseed/msio.c
@@ -370,6 +370,10 @@ msio_fopen (LMIO *io, const char *path, const char *mode,
     /* Start connection, get status & headers, without consuming any data */
     msio_fread (io, NULL, 0);
 
+    /* Remove header callback, its data do not outlive this function and trailers may follow the data */
+    curl_easy_setopt (io->handle, CURLOPT_HEADERFUNCTION, NULL);
+    curl_easy_setopt (io->handle, CURLOPT_HEADERDATA, NULL);
+
     curl_easy_getinfo (io->handle, CURLINFO_RESPONSE_CODE, &response_code);
 
     if (response_code == 404)
-- 
2.43.0


From f25ccda99263ac0e1d7b5a0dba1c36f40a9306c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:54 +0000
Subject: [PATCH 77/89] fix: read records near the maximum length from URLs

---
 libmseed/fileutils.c | 18 +++++++++++++++---
 libmseed/msio.c      |  4 ++--
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/libmseed/fileutils.c b/libmseed/fileutils.c
index 634eeae..8d7ad48 100644
--- a/libmseed/fileutils.c
+++ b/libmseed/fileutils.c
@@ -192,6 +192,11 @@ ms3_shift_msfp (MS3FileParam *msfp, int shift)
 #define MSFPBUFLEN(MSFP) (MSFP->readlength - MSFP->readoffset)
 
 /* Macro to return current reading position */
+/* Size of read buffer, URL reads need space for a complete libcurl receive buffer
+ * (CURL_MAX_WRITE_SIZE) beyond a record of maximum length, see msio_fread() */
+#define URLBUFLEN  (16384)
+#define READBUFLEN (MAXRECLEN + URLBUFLEN)
+
 #define MSFPREADPTR(MSFP) (MSFP->readbuffer + MSFP->readoffset)
 
 /*****************************************************************/ /**
@@ -262,6 +267,7 @@ ms3_readmsr_selection (MS3FileParam **ppmsfp, MS3Record **ppmsr, const char *msp
   char *pathname_range = NULL;
 
   int parseval  = 0;
+  int parselength = 0;
   int readsize  = 0;
   int readcount = 0;
   int retcode   = MS_NOERROR;
@@ -320,7 +326,7 @@ ms3_readmsr_selection (MS3FileParam **ppmsfp, MS3Record **ppmsr, const char *msp
   /* Allocate reading buffer */
   if (msfp->readbuffer == NULL)
   {
-    if (!(msfp->readbuffer = (char *)libmseed_memory.malloc (MAXRECLEN)))
+    if (!(msfp->readbuffer = (char *)libmseed_memory.malloc (READBUFLEN)))
     {
       ms_log (2, "Cannot allocate memory for read buffer\n");
       return MS_GENERROR;
@@ -411,6 +417,9 @@ ms3_readmsr_selection (MS3FileParam **ppmsfp, MS3Record **ppmsr, const char *msp
       /* Determine read size */
       readsize = (MAXRECLEN - msfp->readlength);
 
+      if (msfp->input.type == LMIO_URL)
+        readsize += URLBUFLEN;
+
       /* Read data into record buffer */
       readcount = (int)msio_fread (&msfp->input, msfp->readbuffer + msfp->readlength, readsize);
 
@@ -432,7 +441,10 @@ ms3_readmsr_selection (MS3FileParam **ppmsfp, MS3Record **ppmsr, const char *msp
       if (msio_feof (&msfp->input))
         pflags |= MSF_ATENDOFFILE;
 
-      parseval = msr3_parse (MSFPREADPTR (msfp), MSFPBUFLEN (msfp), ppmsr, pflags, verbose);
+      /* Limit to maximum record length, the buffer may contain more */
+      parselength = (MSFPBUFLEN (msfp) > MAXRECLEN) ? MAXRECLEN : MSFPBUFLEN (msfp);
+
+      parseval = msr3_parse (MSFPREADPTR (msfp), parselength, ppmsr, pflags, verbose);
 
       /* Record detected and parsed */
       if (parseval == 0)
@@ -521,7 +533,7 @@ ms3_readmsr_selection (MS3FileParam **ppmsfp, MS3Record **ppmsr, const char *msp
       else /* parseval > 0 (found record but need more data) */
       {
         /* Check for parse hints that are larger than MAXRECLEN */
-        if ((MSFPBUFLEN (msfp) + parseval) > MAXRECLEN)
+        if ((parselength + parseval) > MAXRECLEN)
         {
           if (flags & MSF_SKIPNOTDATA)
           {
diff --git a/libmseed/msio.c b/libmseed/msio.c
index 5505f97..2f4bcd9 100644
--- a/libmseed/msio.c
+++ b/libmseed/msio.c
@@ -546,9 +546,9 @@ msio_fread (LMIO *io, void *buffer, size_t size)
       return -1;
     }
 
-    /* Unpause connection */
-    curl_easy_pause (io->handle, CURLPAUSE_CONT);
+    /* Unpause connection, pending data may be delivered (and paused again) immediately */
     rcp.is_paused = 0;
+    curl_easy_pause (io->handle, CURLPAUSE_CONT);
 
     /* Receive data while connection running, destination space available
      * and connection is not paused. */
-- 
2.43.0


From 1000cf27c7c3df958d0a6f4814fdc79ea0a09d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:43 +0000
Subject: [PATCH 78/89] fix: do not take the end of a long line in a selection
 file for another selection

---
 libmseed/selection.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/libmseed/selection.c b/libmseed/selection.c
index 3f2a79b..4834e2d 100644
--- a/libmseed/selection.c
+++ b/libmseed/selection.c
@@ -418,6 +418,8 @@ ms3_addselect_comp (MS3Selections **ppselections, char *network, char *station,
  * (3-characters) it will automatically be converted into extended
  * channel form (band_source_subsource).
  *
+ * Lines are limited to 198 characters, longer lines are skipped.
+ *
  * In the latter version, the "Pubversion" field, which was "Quality"
  * in earlier versions of the library, is assumed to be a publication
  * version if it is an integer, otherwise it is ignored.
@@ -445,6 +447,8 @@ ms3_readselectionsfile (MS3Selections **ppselections, const char *filename)
   uint8_t isend3;
   uint8_t isstart6;
   uint8_t isend7;
+  int toolong;
+  int ch;
 
   if (!ppselections || !filename)
   {
@@ -478,6 +482,17 @@ ms3_readselectionsfile (MS3Selections **ppselections, const char *filename)
     /* Guarantee termination */
     selectline[sizeof (selectline) - 1] = '\0';
 
+    /* Discard the remainder of a line that did not fit, it is not another line */
+    toolong = 0;
+    if (strlen (selectline) == sizeof (selectline) - 2 && !strchr (selectline, '\n'))
+    {
+      while ((ch = fgetc (fp)) != EOF && ch != '\n')
+      {
+        if (!isspace (ch))
+          toolong = 1;
+      }
+    }
+
     line = selectline;
 
     /* Trim trailing whitespace (including newlines, carriage returns, etc.) if any */
@@ -508,6 +523,12 @@ ms3_readselectionsfile (MS3Selections **ppselections, const char *filename)
     if (*line == '#')
       continue;
 
+    if (toolong)
+    {
+      ms_log (1, "%s: Skipping data selection that is too long on line %d\n", filename, linecount);
+      continue;
+    }
+
     /* Set fields array to whitespace delimited fields */
     cp = line;
     next = 0;  /* For this loop: 0 = whitespace, 1 = non-whitespace */
-- 
2.43.0


From 93df146e453c72145f42b02b0c33de98480224a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:08 +0000
Subject: [PATCH 79/89] fix: do not take the end of a long line in a leap
 second file for another line

---
 libmseed/genutils.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libmseed/genutils.c b/libmseed/genutils.c
index 060c9e2..35acfdf 100644
--- a/libmseed/genutils.c
+++ b/libmseed/genutils.c
@@ -1776,6 +1776,7 @@ ms_readleapsecondfile (const char *filename)
   int TAIdelta;
   int fields;
   int count = 0;
+  int ch;
 
   if (!filename)
   {
@@ -1808,6 +1809,13 @@ ms_readleapsecondfile (const char *filename)
     /* Guarantee termination */
     readline[sizeof (readline) - 1] = '\0';
 
+    /* Discard the remainder of a line that did not fit, it is not another line */
+    if (strlen (readline) == sizeof (readline) - 2 && !strchr (readline, '\n'))
+    {
+      while ((ch = fgetc (fp)) != EOF && ch != '\n')
+        ;
+    }
+
     /* Terminate string at first newline character if any */
     if ((cp = strchr (readline, '\n')))
       *cp = '\0';
-- 
2.43.0


From fd24736e0469e4caff3fcbb8a427a6173a5193e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:08 +0000
Subject: [PATCH 80/89] fix: do not take the end of a long line in a list file
 for another file name

---
 src/msi.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/msi.c b/src/msi.c
index bb226ea..67cbc85 100644
--- a/src/msi.c
+++ b/src/msi.c
@@ -785,7 +785,7 @@ static int
 addlistfile (char *filename)
 {
   FILE *fp;
-  char filelistent[1024];
+  char filelistent[8192];
   int filecount = 0;
 
   if (verbose >= 1)
@@ -800,6 +800,15 @@ addlistfile (char *filename)
   while (fgets (filelistent, sizeof (filelistent), fp))
   {
     char *cp;
+    int toolong = 0;
+    int ch;
+
+    /* Discard the remainder of a line that did not fit, it is not another line */
+    if (strlen (filelistent) == sizeof (filelistent) - 1 && !strchr (filelistent, '\n'))
+    {
+      while ((ch = fgetc (fp)) != EOF && ch != '\n')
+        toolong = 1;
+    }
 
     /* End string at first newline character */
     if ((cp = strchr (filelistent, '\n')))
@@ -813,6 +822,13 @@ addlistfile (char *filename)
     if (*filelistent == '#')
       continue;
 
+    if (toolong)
+    {
+      ms_log (2, "Line of list file %s is too long: %.100s...\n", filename, filelistent);
+      fclose (fp);
+      return -1;
+    }
+
     if (verbose > 1)
       ms_log (1, "Adding '%s' from list file\n", filelistent);
 
-- 
2.43.0


From 5df742cdbc14fd3fcc52af1a41b42244142c4020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:47 +0000
Subject: [PATCH 81/89] fix: swap bytes in ms_parse_raw2() when the caller asks
 for it

The documented value 1 of swapflag was treated as 0.
---
 libmseed/parseutils.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/libmseed/parseutils.c b/libmseed/parseutils.c
index 8c168a7..10bb0db 100644
--- a/libmseed/parseutils.c
+++ b/libmseed/parseutils.c
@@ -563,10 +563,8 @@ ms_parse_raw2 (const char *record, int maxreclen, int8_t details, int8_t swapfla
   ms2_recordsid (record, sid, sizeof (sid));
 
   /* Check to see if byte swapping is needed by testing the year and day */
-  if (swapflag == -1 && !MS_ISVALIDYEARDAY (*pMS2FSDH_YEAR (record), *pMS2FSDH_DAY (record)))
-    swapflag = 1;
-  else
-    swapflag = 0;
+  if (swapflag == -1)
+    swapflag = (MS_ISVALIDYEARDAY (*pMS2FSDH_YEAR (record), *pMS2FSDH_DAY (record))) ? 0 : 1;
 
   if (details > 1)
   {
-- 
2.43.0


From e9505ccf59021bff6ec9c6850a0af1f1fbe970bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:47 +0000
Subject: [PATCH 82/89] fix: read only within the record in ms_parse_raw2()

A blockette header, or Opaque Data fields and headers, at the end of the
record were read past it.
---
 libmseed/parseutils.c | 41 ++++++++++++++++++++++++++++++++++++-----
 1 file changed, 36 insertions(+), 5 deletions(-)

diff --git a/libmseed/parseutils.c b/libmseed/parseutils.c
index 10bb0db..b5d03c2 100644
--- a/libmseed/parseutils.c
+++ b/libmseed/parseutils.c
@@ -818,6 +818,15 @@ ms_parse_raw2 (const char *record, int maxreclen, int8_t details, int8_t swapfla
     /* Traverse blockette chain */
     while (blkt_offset != 0 && blkt_offset < maxreclen)
     {
+      /* Sanity check that the blockette header is contained in the record */
+      if ((blkt_offset + 4) > maxreclen)
+      {
+        ms_log (2, "%s: Blockette header at offset %d does not fit in record (%d)\n",
+                sid, blkt_offset, maxreclen);
+        retval++;
+        break;
+      }
+
       /* Every blockette has a similar 4 byte header: type and next */
       memcpy (&blkt_type, record + blkt_offset, 2);
       memcpy (&next_blkt, record + blkt_offset + 2, 2);
@@ -836,7 +845,12 @@ ms_parse_raw2 (const char *record, int maxreclen, int8_t details, int8_t swapfla
         ms_log (0, "              next blockette: %u\n", next_blkt);
       }
 
-      blkt_length = ms2_blktlen (blkt_type, record + blkt_offset, swapflag);
+      /* A length is only available from an Opaque Data blockette contained in the record */
+      if (blkt_type == 2000 && (blkt_offset + 6) > maxreclen)
+        blkt_length = 6;
+      else
+        blkt_length = ms2_blktlen (blkt_type, record + blkt_offset, swapflag);
+
       if (blkt_length == 0)
       {
         ms_log (2, "%s: Unknown blockette length for type %d\n", sid, blkt_type);
@@ -847,7 +861,7 @@ ms_parse_raw2 (const char *record, int maxreclen, int8_t details, int8_t swapfla
       endofblockettes = blkt_offset + blkt_length - 1;
 
       /* Sanity check that the blockette is contained in the record */
-      if (endofblockettes > maxreclen)
+      if (endofblockettes >= maxreclen)
       {
         ms_log (2, "%s: Blockette type %d at offset %d with length %d does not fit in record (%d)\n",
                 sid, blkt_type, blkt_offset, blkt_length, maxreclen);
@@ -855,6 +869,15 @@ ms_parse_raw2 (const char *record, int maxreclen, int8_t details, int8_t swapfla
         break;
       }
 
+      /* Sanity check that an Opaque Data blockette contains its fixed fields */
+      if (blkt_type == 2000 && blkt_length < 15)
+      {
+        ms_log (2, "%s: Blockette type %d at offset %d is too short: %d\n",
+                sid, blkt_type, blkt_offset, blkt_length);
+        retval++;
+        break;
+      }
+
       if (blkt_type == 100)
       {
         if (details >= 1)
@@ -1138,7 +1161,7 @@ ms_parse_raw2 (const char *record, int maxreclen, int8_t details, int8_t swapfla
 
       else if (blkt_type == 405)
       {
-        if (details >= 1)
+        if (details >= 1 && (blkt_offset + 6) <= maxreclen)
           ms_log (0, "           first delay value: %u\n", HO2u(*pMS2B405_DELAYVALUES (record + blkt_offset), swapflag));
       }
 
@@ -1285,9 +1308,17 @@ ms_parse_raw2 (const char *record, int maxreclen, int8_t details, int8_t swapfla
 
           /* Crude display of the opaque data headers, hopefully printable */
           if (details > 1)
+          {
+            int headerlength = HO2u(*pMS2B2000_DATAOFFSET (record + blkt_offset), swapflag) - 15;
+
+            if (headerlength > blkt_length - 15)
+              headerlength = blkt_length - 15;
+            if (headerlength < 0)
+              headerlength = 0;
+
             ms_log (0, "                     headers: %.*s\n",
-                    (HO2u(*pMS2B2000_DATAOFFSET (record + blkt_offset), swapflag) - 15),
-                    pMS2B2000_PAYLOAD (record + blkt_offset));
+                    headerlength, pMS2B2000_PAYLOAD (record + blkt_offset));
+          }
         }
       }
 
-- 
2.43.0


From 3a56664b6b39d7df39b885eb9ecde1b9447e57be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:47 +0000
Subject: [PATCH 83/89] fix: do not follow a blockette that refers to itself in
 ms_parse_raw2()

A blockette of unknown length whose next offset is its own was followed
forever, and a next offset within the blockette was not counted as an
error.
---
 libmseed/parseutils.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libmseed/parseutils.c b/libmseed/parseutils.c
index b5d03c2..2019b5e 100644
--- a/libmseed/parseutils.c
+++ b/libmseed/parseutils.c
@@ -858,7 +858,7 @@ ms_parse_raw2 (const char *record, int maxreclen, int8_t details, int8_t swapfla
       }
 
       /* Track end of blockette chain */
-      endofblockettes = blkt_offset + blkt_length - 1;
+      endofblockettes = blkt_offset + ((blkt_length > 4) ? blkt_length : 4) - 1;
 
       /* Sanity check that the blockette is contained in the record */
       if (endofblockettes >= maxreclen)
@@ -1333,6 +1333,7 @@ ms_parse_raw2 (const char *record, int maxreclen, int8_t details, int8_t swapfla
       {
         ms_log (2, "%s: Next blockette offset (%d) is within current blockette ending at byte %d\n",
                 sid, next_blkt, endofblockettes);
+        retval++;
         blkt_offset = 0;
       }
       else
-- 
2.43.0


From d9c1b781131343898acb04e2b4e7bf493bca3d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:47 +0000
Subject: [PATCH 84/89] fix: check offsets against a record length only when it
 is known in ms_parse_raw2()

A record without Blockette 1000 was reported to have offsets beyond a
record length of -1, and a length exponent over 31 is undefined to shift.
---
 libmseed/parseutils.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/libmseed/parseutils.c b/libmseed/parseutils.c
index 2019b5e..77a0208 100644
--- a/libmseed/parseutils.c
+++ b/libmseed/parseutils.c
@@ -1192,7 +1192,15 @@ ms_parse_raw2 (const char *record, int maxreclen, int8_t details, int8_t swapfla
         char order[40];
 
         /* Calculate record size in bytes as 2^(blkt_1000->rec_len) */
-        b1000reclen = (uint32_t)1 << *pMS2B1000_RECLEN (record + blkt_offset);
+        if (*pMS2B1000_RECLEN (record + blkt_offset) <= 30)
+          b1000reclen = 1 << *pMS2B1000_RECLEN (record + blkt_offset);
+        else
+        {
+          ms_log (2, "%s: Blockette 1000 record length exponent invalid (0-30): %d\n", sid,
+                  *pMS2B1000_RECLEN (record + blkt_offset));
+          retval++;
+          b1000reclen = -1;
+        }
 
         /* Big or little endian? */
         if (*pMS2B1000_BYTEORDER (record + blkt_offset) == 0)
@@ -1353,13 +1361,13 @@ ms_parse_raw2 (const char *record, int maxreclen, int8_t details, int8_t swapfla
     }
 
     /* Check that the data and blockette offsets are within the record */
-    if (b1000reclen && HO2u(*pMS2FSDH_DATAOFFSET (record), swapflag) > b1000reclen)
+    if (b1000reclen > 0 && HO2u(*pMS2FSDH_DATAOFFSET (record), swapflag) > b1000reclen)
     {
       ms_log (2, "%s: Data offset (%d) beyond record length (%d)\n",
               sid, HO2u(*pMS2FSDH_DATAOFFSET (record), swapflag), b1000reclen);
       retval++;
     }
-    if (b1000reclen && HO2u(*pMS2FSDH_BLOCKETTEOFFSET (record), swapflag) > b1000reclen)
+    if (b1000reclen > 0 && HO2u(*pMS2FSDH_BLOCKETTEOFFSET (record), swapflag) > b1000reclen)
     {
       ms_log (2, "%s: Blockette offset (%d) beyond record length (%d)\n",
               sid, HO2u(*pMS2FSDH_BLOCKETTEOFFSET (record), swapflag), b1000reclen);
-- 
2.43.0


From b2d0447b7a825048c9c87d8dd1f930bf13c389ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:32 +0000
Subject: [PATCH 85/89] fix: report records that could not be written to an
 output file

---
 libmseed/fileutils.c | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/libmseed/fileutils.c b/libmseed/fileutils.c
index 8d7ad48..0a27113 100644
--- a/libmseed/fileutils.c
+++ b/libmseed/fileutils.c
@@ -891,6 +891,31 @@ ms_record_handler_int (char *record, int reclen, void *ofp)
   }
 } /* End of ms_record_handler_int() */
 
+/***************************************************************************
+ *
+ * Internal completion of an output file.  Any buffered data are
+ * written and the file is closed.
+ *
+ * Returns 0 when all data were written and -1 otherwise.
+ *
+ ***************************************************************************/
+static int
+ms_complete_output_int (FILE *ofp, const char *mspath)
+{
+  int failed = ferror (ofp);
+
+  if (fclose (ofp))
+    failed = 1;
+
+  if (failed)
+  {
+    ms_log (2, "Cannot write all records to output file %s\n", mspath);
+    return -1;
+  }
+
+  return 0;
+} /* End of ms_complete_output_int() */
+
 /**********************************************************************/ /**
  * @brief Write miniSEED from an ::MS3Record container to a file
  *
@@ -944,8 +969,9 @@ msr3_writemseed (MS3Record *msr, const char *mspath, int8_t overwrite,
   /* Pack the MS3Record */
   packedrecords = msr3_pack (msr, &ms_record_handler_int, ofp, NULL, flags, verbose - 1);
 
-  /* Close file and return record count */
-  fclose (ofp);
+  /* Complete output and return record count */
+  if (ms_complete_output_int (ofp, mspath))
+    return -1;
 
   return packedrecords;
 } /* End of msr3_writemseed() */
@@ -1011,8 +1037,9 @@ mstl3_writemseed (MS3TraceList *mstl, const char *mspath, int8_t overwrite,
   packedrecords = mstl3_pack (mstl, &ms_record_handler_int, ofp, maxreclen,
                               encoding, NULL, flags, verbose, NULL);
 
-  /* Close file and return record count */
-  fclose (ofp);
+  /* Complete output and return record count */
+  if (ms_complete_output_int (ofp, mspath))
+    return -1;
 
   return packedrecords;
 } /* End of mstl3_writemseed() */
-- 
2.43.0


From 17657c87a538a1a9d01a10bd94a575b3cc4938e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:32 +0000
Subject: [PATCH 86/89] fix: leave standard output open after writing records
 to it

---
 libmseed/fileutils.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libmseed/fileutils.c b/libmseed/fileutils.c
index 0a27113..c6a89df 100644
--- a/libmseed/fileutils.c
+++ b/libmseed/fileutils.c
@@ -894,7 +894,8 @@ ms_record_handler_int (char *record, int reclen, void *ofp)
 /***************************************************************************
  *
  * Internal completion of an output file.  Any buffered data are
- * written and the file is closed.
+ * written and the file is closed, except standard output which
+ * remains open.
  *
  * Returns 0 when all data were written and -1 otherwise.
  *
@@ -904,7 +905,7 @@ ms_complete_output_int (FILE *ofp, const char *mspath)
 {
   int failed = ferror (ofp);
 
-  if (fclose (ofp))
+  if ((ofp == stdout) ? fflush (ofp) : fclose (ofp))
     failed = 1;
 
   if (failed)
-- 
2.43.0


From 8201aa83dd0f43e118f338238ef778a5c283f18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:48 +0000
Subject: [PATCH 87/89] fix: refuse source identifier patterns too long for a
 selection

---
 libmseed/selection.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libmseed/selection.c b/libmseed/selection.c
index 4834e2d..418aa9e 100644
--- a/libmseed/selection.c
+++ b/libmseed/selection.c
@@ -191,6 +191,14 @@ ms3_addselect (MS3Selections **ppselections, const char *sidpattern,
     return -1;
   }
 
+  /* A pattern cut short would select something else */
+  if (strlen (sidpattern) >= sizeof (newsl->sidpattern))
+  {
+    ms_log (2, "Source ID pattern too long (%"PRIsize_t" characters): %s\n",
+            strlen (sidpattern), sidpattern);
+    return -1;
+  }
+
   /* Allocate new SelectTime and populate */
   if (!(newst = (MS3SelectTime *)libmseed_memory.malloc (sizeof (MS3SelectTime))))
   {
-- 
2.43.0


From 1b9b51f443c42deaf6956c08bc5b43ea10504f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:48 +0000
Subject: [PATCH 88/89] fix: keep long network, station, location and channel
 patterns of a selection whole

---
 libmseed/selection.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libmseed/selection.c b/libmseed/selection.c
index 418aa9e..4e518f6 100644
--- a/libmseed/selection.c
+++ b/libmseed/selection.c
@@ -317,10 +317,10 @@ ms3_addselect_comp (MS3Selections **ppselections, char *network, char *station,
                     nstime_t endtime, uint8_t pubversion)
 {
   char sidpattern[100];
-  char selnet[20];
-  char selsta[20];
-  char selloc[20];
-  char selchan[20];
+  char selnet[sizeof (sidpattern)];
+  char selsta[sizeof (sidpattern)];
+  char selloc[sizeof (sidpattern)];
+  char selchan[sizeof (sidpattern)];
 
   if (!ppselections)
   {
-- 
2.43.0


From 34c9e2345ecab59bbbcb6c80d0e5a3f80b72e267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:00 +0000
Subject: [PATCH 89/89] fix: sync listings of several threads write each
 other's date

---
 libmseed/tracelist.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index e9ea118..5090250 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -2322,7 +2322,7 @@ mstl3_printsynclist (const MS3TraceList *mstl, const char *dccid, ms_subseconds_
   char loc[LM_SIDLEN];
   char chan[LM_SIDLEN];
   time_t now;
-  struct tm *nt;
+  struct tm nt;
 
   if (!mstl)
   {
@@ -2331,10 +2331,12 @@ mstl3_printsynclist (const MS3TraceList *mstl, const char *dccid, ms_subseconds_
 
   /* Generate current time stamp */
   now = time (NULL);
-  nt = localtime (&now);
-  nt->tm_year += 1900;
-  nt->tm_yday += 1;
-  snprintf (yearday, sizeof (yearday), "%04d,%03d", nt->tm_year, nt->tm_yday);
+#if defined(LMP_WIN)
+  localtime_s (&nt, &now);
+#else
+  localtime_r (&now, &nt);
+#endif
+  snprintf (yearday, sizeof (yearday), "%04d,%03d", nt.tm_year + 1900, nt.tm_yday + 1);
 
   /* Print SYNC header line */
   ms_log (0, "%s|%s\n", (dccid) ? dccid : "DCC", yearday);
-- 
2.43.0

