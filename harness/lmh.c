/*
 * lmh.c - command-driven recorder over the PUBLIC libmseed API (libmseed.h only).
 *
 * Reads one command per line on stdin ("op key=value ..."), performs it against the
 * library built from the tree under test and prints exactly one JSON object per
 * command: the observable result of the call.  The verification drivers turn these
 * results into trace events that TLC checks against the TLA+ specification.
 * Nothing here decides anything.
 */
#define _GNU_SOURCE
#include <ctype.h>
#include <errno.h>
#include <fcntl.h>
#include <inttypes.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <pthread.h>
#include <sched.h>

#include <dirent.h>
#include "libmseed.h"

/* with LMH_THREADS every thread has its own set of the recorder's objects */
#ifdef LMH_THREADS
#define TV _Thread_local
#else
#define TV
#endif
static int threaded = 0;
static TV char *answer = NULL;

/* ------------------------------------------------------------------ output */
static TV char *O = NULL;
static TV size_t ol = 0, oc = 0;
static void oput (const char *s, size_t n)
{
  if (ol + n + 1 > oc)
  {
    oc = (ol + n + 1) * 2 + 4096;
    O = realloc (O, oc);
  }
  memcpy (O + ol, s, n);
  ol += n;
  O[ol] = 0;
}
static void of (const char *fmt, ...)
{
  char b[4096];
  va_list ap;
  va_start (ap, fmt);
  int n = vsnprintf (b, sizeof (b), fmt, ap);
  va_end (ap);
  oput (b, (size_t)n);
}
static void ohex (const void *p, size_t n)
{
  static const char *h = "0123456789abcdef";
  const unsigned char *u = p;
  oput ("\"", 1);
  for (size_t i = 0; i < n; i++)
  {
    char c[2] = {h[u[i] >> 4], h[u[i] & 15]};
    oput (c, 2);
  }
  oput ("\"", 1);
}
static void odbl (double d)
{
  uint64_t u;
  memcpy (&u, &d, 8);
  of ("\"%016" PRIx64 "\"", u);
}
static void ostart (void) { ol = 0; oput ("{", 1); }
static void oend (void)
{
  if (O[ol - 1] == ',')
    ol--;
  oput ("}\n", 2);
  if (threaded)
  {
    answer = strdup (O);
    return;
  }
  fwrite (O, 1, ol, stdout);
  fflush (stdout);
}
static void ki (const char *k, long long v) { of ("\"%s\":%lld,", k, v); }
static void kh (const char *k, const void *p, size_t n)
{
  of ("\"%s\":", k);
  ohex (p, n);
  oput (",", 1);
}
static void kd (const char *k, double v)
{
  of ("\"%s\":", k);
  odbl (v);
  oput (",", 1);
}

/* a file's content, null when there is none */
static void catfile (const char *k, const char *path)
{
  FILE *f = fopen (path, "rb");
  if (k)
    of ("\"%s\":", k);
  if (!f)
    of ("null");
  else
  {
    static TV char b[1 << 22];
    size_t n = fread (b, 1, sizeof (b), f);
    fclose (f);
    ohex (b, n);
  }
  if (k)
    of (",");
}

/* --------------------------------------------------------------- allocator */
/* Pointers handed out by the configured allocator, with the size. */
#ifdef LMH_THREADS
#define HTB 16
#else
#define HTB 20
#endif
#define HT (1 << HTB)
static TV void *hp[HT];
static TV size_t hs[HT];
static TV unsigned char hu[HT]; /* 0 never used, 1 live, 2 deleted */
static TV long nlive = 0, nforeign = 0, nmalloc = 0, nfail = 0;
static TV long failat = 0; /* fail the n-th allocation from now (0: never) */
/* memory events of the current command: kind (1 obtained, 2 released, 3 resized, 4 refused, 5 not the allocator's), block, block before */
static TV int hn[HT], nserial = 0, memlog = 0, memquiet = 0, basefds = 0;
static TV int (*ml)[3] = NULL;
static TV int mln = 0, mlc = 0;
extern TV long lm_direct;
static void mlput (int k, int a, int b)
{
  if (!memlog)
    return;
  if (mln == mlc)
  {
    mlc = mlc ? 2 * mlc : 256;
    ml = realloc (ml, sizeof (*ml) * mlc);
  }
  ml[mln][0] = k;
  ml[mln][1] = a;
  ml[mln][2] = b;
  mln++;
}
static size_t hfind (void *p)
{
  size_t h = ((uintptr_t)p >> 4) * 11400714819323198485ull >> (64 - HTB);
  for (;;)
  {
    h &= HT - 1;
    if (hu[h] == 0)
      return HT;
    if (hu[h] == 1 && hp[h] == p)
      return h;
    h++;
  }
}
static void hadd (void *p, size_t s)
{
  size_t h = ((uintptr_t)p >> 4) * 11400714819323198485ull >> (64 - HTB);
  /* the block may have been released behind the allocator's back and reused */
  size_t f = hfind (p);
  if (f != HT)
  {
    hs[f] = s;
    nforeign++;
    mlput (5, hn[f], 0);
    return;
  }
  for (;;)
  {
    h &= HT - 1;
    if (hu[h] != 1)
      break;
    h++;
  }
  hu[h] = 1;
  hp[h] = p;
  hs[h] = s;
  hn[h] = ++nserial;
  nlive++;
}
static int shouldfail (void)
{
  if (memquiet) /* the recorder's own */
    return 0;
  nmalloc++;
  if (failat > 0 && --failat == 0)
  {
    nfail++;
    mlput (4, 0, 0);
    return 1;
  }
  return 0;
}
static void *my_malloc (size_t s)
{
  if (shouldfail ())
    return NULL;
  void *p = malloc (s ? s : 1);
  if (!p)
    return NULL;
  memset (p, 0xA5, s);
  hadd (p, s);
  mlput (1, nserial, 0);
  return p;
}
/* a block for the recorder's own purposes, owned like the library's */
static void *own_malloc (size_t s)
{
  memquiet++;
  void *p = my_malloc (s);
  memquiet--;
  return p;
}
static void my_free (void *p)
{
  if (!p)
    return;
  size_t h = hfind (p);
  if (h == HT)
  {
    nforeign++;
    mlput (5, 0, 0);
    return; /* not ours: released through the wrong allocator; do not touch it */
  }
  hu[h] = 2;
  nlive--;
  mlput (2, hn[h], 0);
  free (p);
}
static void *my_realloc (void *p, size_t s)
{
  if (!p)
    return my_malloc (s);
  size_t h = hfind (p);
  if (h == HT)
  {
    nforeign++;
    mlput (5, 0, 0);
    return realloc (p, s ? s : 1);
  }
  if (shouldfail ())
    return NULL;
  size_t old = hs[h];
  void *q = malloc (s ? s : 1);
  if (!q)
    return NULL;
  memset (q, 0xA5, s);
  memcpy (q, p, old < s ? old : s);
  int was = hn[h];
  hu[h] = 2;
  nlive--;
  free (p);
  hadd (q, s);
  mlput (3, nserial, was);
  return q;
}

/* -------------------------------------------------------------------- args */
#define MAXARG 64
static TV char *ak[MAXARG], *av[MAXARG];
static TV int na = 0;
static const char *arg (const char *k)
{
  for (int i = 0; i < na; i++)
    if (!strcmp (ak[i], k))
      return av[i];
  return NULL;
}
static long long argi (const char *k, long long d)
{
  const char *v = arg (k);
  return v ? strtoll (v, NULL, 10) : d;
}
static double dblhex (const char *v)
{
  uint64_t u = strtoull (v, NULL, 16);
  double d;
  memcpy (&d, &u, 8);
  return d;
}
static double argd (const char *k, double d) /* decimal, or x<16 hex digits> */
{
  const char *v = arg (k);
  if (!v)
    return d;
  return (*v == 'x') ? dblhex (v + 1) : strtod (v, NULL);
}
static unsigned char *unhex (const char *v, size_t *n)
{
  size_t l = strlen (v) / 2;
  unsigned char *b = malloc (l + 1); /* exact + NUL for string use */
  for (size_t i = 0; i < l; i++)
  {
    char t[3] = {v[2 * i], v[2 * i + 1], 0};
    b[i] = (unsigned char)strtoul (t, NULL, 16);
  }
  b[l] = 0;
  *n = l;
  return b;
}
/* hex argument as malloc'd NUL-terminated string in an EXACT allocation (n+1) */
static char *args (const char *k)
{
  const char *v = arg (k);
  size_t n;
  if (!v)
    return NULL;
  return (char *)unhex (v, &n);
}

/* ------------------------------------------------------------------- slots */
#define NR 400
#define NB 400
#define NT 32
#define NS 32
static TV MS3Record *R[NR];
static TV unsigned char *B[NB];
static TV size_t Bl[NB];
static TV MS3TraceList *T[NT];
static TV MS3Selections *S[NS];
static TV MS3FileParam *F[NS];
static TV LM_PARSED_JSON *PS[NS];
static TV MSLogParam *LP[NS];
static TV int bclobber = 0;

static void bset (int b, const void *p, size_t n)
{
  free (B[b]);
  B[b] = malloc (n ? n : 1);
  if (n)
    memcpy (B[b], p, n);
  Bl[b] = n;
}
static void bapp (int b, const void *p, size_t n)
{
  unsigned char *q = malloc (Bl[b] + n + 1);
  if (Bl[b])
    memcpy (q, B[b], Bl[b]);
  if (n)
    memcpy (q + Bl[b], p, n);
  free (B[b]);
  B[b] = q;
  Bl[b] += n;
}

/* --------------------------------------------------------------------- log */
static TV char *lg_b = NULL;
static TV size_t lg_l = 0;
static TV char *ou_b = NULL;
static TV size_t ou_l = 0;
static void capb (char **b, size_t *l, const char *m)
{
  size_t n = strlen (m);
  *b = realloc (*b, *l + n + 1);
  memcpy (*b + *l, m, n + 1);
  *l += n;
}
static void cap_out (const char *m) { capb (&ou_b, &ou_l, m); }
static TV int nerr = 0; /* error messages since the last note */
static void cap_err (const char *m)
{
  capb (&lg_b, &lg_l, m);
  if (!strncmp (m, "Error: ", 7))
    nerr++;
}
/* per-handler sinks used by the log commands: handler index and text, in order */
static TV int nsink = 0;
static TV struct { int h; char *m; } sink[4096];
static void sinkadd (int h, const char *m)
{
  if (nsink < 4096)
  {
    sink[nsink].h = h;
    sink[nsink].m = strdup (m);
    nsink++;
  }
}
#define SINKF(i) static void sk##i (const char *m) { sinkadd (i, m); }
SINKF (0) SINKF (1) SINKF (2) SINKF (3) SINKF (4) SINKF (5) SINKF (6) SINKF (7)
static TV void (*skf[8]) (const char *) = {sk0, sk1, sk2, sk3, sk4, sk5, sk6, sk7};
static void osink (void)
{
  of ("\"sink\":[");
  for (int i = 0; i < nsink; i++)
  {
    of ("%s[%d,", i ? "," : "", sink[i].h);
    ohex (sink[i].m, strlen (sink[i].m));
    of ("]");
    free (sink[i].m);
  }
  nsink = 0;
  of ("],");
}

/* ------------------------------------------------------------------- dumps */
static void osamples (const char *k, const void *p, int64_t n, char type)
{
  of ("\"%s\":", k);
  if (!p || n <= 0)
  {
    of ("[],");
    return;
  }
  if (type == 't')
  {
    ohex (p, (size_t)n);
    of (",");
    return;
  }
  of ("[");
  for (int64_t i = 0; i < n; i++)
  {
    if (i)
      oput (",", 1);
    if (type == 'i')
      of ("%d", ((const int32_t *)p)[i]);
    else if (type == 'f')
    {
      uint32_t u;
      memcpy (&u, (const char *)p + 4 * i, 4);
      of ("\"%08x\"", u);
    }
    else if (type == 'd')
    {
      uint64_t u;
      memcpy (&u, (const char *)p + 8 * i, 8);
      of ("\"%016" PRIx64 "\"", u);
    }
    else
      of ("\"?\"");
  }
  of ("],");
}
static void otype (const char *k, char c)
{
  if (c >= 'a' && c <= 'z')
    of ("\"%s\":\"%c\",", k, c);
  else
    of ("\"%s\":\"%d\",", k, (int)(unsigned char)c);
}
static void orec (const MS3Record *m, int data)
{
  kh ("sid", m->sid, strnlen (m->sid, LM_SIDLEN));
  ki ("fmt", m->formatversion);
  ki ("flags", m->flags);
  ki ("st", m->starttime);
  kd ("rate", m->samprate);
  kd ("hz", msr3_sampratehz (m));
  ki ("nsper", msr3_nsperiod (m));
  ki ("enc", m->encoding);
  ki ("pub", m->pubversion);
  ki ("cnt", m->samplecnt);
  ki ("crc", m->crc);
  ki ("reclen", m->reclen);
  ki ("swap", m->swapflag);
  ki ("datalen", m->datalength);
  ki ("xlen", m->extralength);
  kh ("extra", m->extra ? m->extra : "", m->extra ? m->extralength : 0);
  ki ("end", msr3_endtime (m));
  ki ("num", m->numsamples);
  otype ("type", m->sampletype);
  ki ("dsize", (long long)m->datasize);
  if (data)
    osamples ("data", m->datasamples, m->numsamples, m->sampletype);
  else
    of ("\"data\":[],");
}

static void setdata (MS3Record *m, char type, const char *v)
{
  /* comma list of ints (i), hex words (f,d), hex (t); numsamples from it */
  size_t ss = ms_samplesize (type);
  int64_t n = 0;
  if (m->datasamples)
    libmseed_memory.free (m->datasamples);
  m->datasamples = NULL;
  m->numsamples = 0;
  m->datasize = 0;
  m->sampletype = type;
  if (!ss)
    return;
  if (type == 't')
  {
    size_t l;
    unsigned char *u = unhex (v, &l);
    m->datasamples = own_malloc (l);
    memcpy (m->datasamples, u, l);
    m->numsamples = (int64_t)l;
    m->datasize = l;
    free (u);
    return;
  }
  if (*v)
    n = 1;
  for (const char *p = v; *p; p++)
    if (*p == ',')
      n++;
  m->datasamples = own_malloc ((size_t)n * ss);
  m->datasize = (size_t)n * ss;
  m->numsamples = n;
  const char *p = v;
  for (int64_t i = 0; i < n; i++)
  {
    if (type == 'i')
      ((int32_t *)m->datasamples)[i] = (int32_t)strtoll (p, NULL, 10);
    else if (type == 'f')
    {
      uint32_t u = (uint32_t)strtoul (p, NULL, 16);
      memcpy ((char *)m->datasamples + 4 * i, &u, 4);
    }
    else if (type == 'd')
    {
      uint64_t u = strtoull (p, NULL, 16);
      memcpy ((char *)m->datasamples + 8 * i, &u, 8);
    }
    p = strchr (p, ',');
    if (p)
      p++;
    else
      break;
  }
}

/* tolerance callbacks */
static TV double g_timetol = -1.0, g_ratetol = -1.0;
static double cb_timetol (const MS3Record *m) { (void)m; return g_timetol; }
static double cb_ratetol (const MS3Record *m) { (void)m; return g_ratetol; }
static TV MS3Tolerance tolspec;
static const MS3Tolerance *argtol (void)
{
  const char *a = arg ("tt"), *b = arg ("rt");
  if (!a && !b)
    return NULL;
  tolspec.time = NULL;
  tolspec.samprate = NULL;
  if (a)
  {
    g_timetol = argd ("tt", 0);
    tolspec.time = cb_timetol;
  }
  if (b)
  {
    g_ratetol = argd ("rt", 0);
    tolspec.samprate = cb_ratetol;
  }
  return &tolspec;
}

/* record handler: append to buffer slot g_outb and note length */
static TV int g_outb = -1;
static TV int g_outn = 0;
static TV int g_outlen[100000];
static void rechandler (char *rec, int len, void *p)
{
  (void)p;
  if (g_outb >= 0)
    bapp (g_outb, rec, (size_t)len);
  if (g_outn < 100000)
    g_outlen[g_outn++] = len;
}
static void olens (void)
{
  of ("\"lens\":[");
  for (int i = 0; i < g_outn; i++)
    of ("%s%d", i ? "," : "", g_outlen[i]);
  of ("],");
  g_outn = 0;
}

static void otl (MS3TraceList *t, int data, int rl)
{
  if (!t)
  {
    of ("\"null\":1,");
    return;
  }
  ki ("numtraceids", t->numtraceids);
  of ("\"ids\":[");
  int k = 0;
  for (MS3TraceID *id = t->traces.next[0]; id; id = id->next[0])
  {
    of ("%s{", k++ ? "," : "");
    kh ("sid", id->sid, strnlen (id->sid, LM_SIDLEN));
    ki ("pub", id->pubversion);
    ki ("earliest", id->earliest);
    ki ("latest", id->latest);
    ki ("numseg", id->numsegments);
    /* is the entry reachable through lookup? */
    MS3TraceID *f = mstl3_findID (t, id->sid, id->pubversion, NULL);
    ki ("found", f == id);
    MS3TraceID *f0 = mstl3_findID (t, id->sid, 0, NULL);
    ki ("found0", f0 && !strcmp (f0->sid, id->sid));
    of ("\"segs\":[");
    int j = 0;
    MS3TraceSeg *prev = NULL, *lastseg = NULL;
    int linkok = 1;
    for (MS3TraceSeg *s = id->first; s; s = s->next)
    {
      if (s->prev != prev)
        linkok = 0;
      prev = s;
      lastseg = s;
      of ("%s{", j++ ? "," : "");
      ki ("st", s->starttime);
      ki ("en", s->endtime);
      kd ("rate", s->samprate);
      ki ("cnt", s->samplecnt);
      ki ("num", s->numsamples);
      otype ("type", s->sampletype);
      ki ("dsize", (long long)s->datasize);
      if (data)
        osamples ("data", s->datasamples, s->numsamples, s->sampletype);
      if (rl)
      {
        of ("\"rl\":[");
        if (s->recordlist)
        {
          int i = 0;
          MS3RecordPtr *lp = NULL;
          for (MS3RecordPtr *p = s->recordlist->first; p; p = p->next)
          {
            of ("%s[%lld,%lld,%lld,%lld,%u,%d", i++ ? "," : "", (long long)p->msr->starttime,
                (long long)p->endtime, (long long)p->msr->samplecnt, (long long)p->fileoffset,
                p->dataoffset, p->msr->pubversion);
            /* where in a known buffer slot the record pointer lies */
            int bs = -1;
            long long bo = -1;
            if (p->bufferptr)
              for (int b = 0; b < NB; b++)
                if (B[b] && (unsigned char *)p->bufferptr >= B[b] &&
                    (unsigned char *)p->bufferptr < B[b] + Bl[b])
                {
                  bs = b;
                  bo = (unsigned char *)p->bufferptr - B[b];
                }
            of (",%d,%lld,", bs, bo);
            ohex (p->filename ? p->filename : "", p->filename ? strlen (p->filename) : 0);
            of (",%d]", p->fileptr ? 1 : 0);
            lp = p;
          }
          of ("],\"rlcnt\":%lld,\"rllast\":%d,", (long long)s->recordlist->recordcnt,
              lp == s->recordlist->last);
        }
        else
          of ("],\"rlcnt\":-1,\"rllast\":1,");
      }
      ol--; /* drop trailing comma */
      of ("}");
    }
    if (lastseg != id->last)
      linkok = 0;
    if (id->first && id->first->prev)
      linkok = 0;
    of ("],\"link\":%d}", linkok);
  }
  of ("],");
  /* every skip-list level is an ordered sub-list of level 0 */
  int skok = 1;
  for (int lv = 1; lv < MSTRACEID_SKIPLIST_HEIGHT; lv++)
  {
    MS3TraceID *z = t->traces.next[0];
    for (MS3TraceID *id = t->traces.next[lv]; id; id = id->next[lv])
    {
      while (z && z != id)
        z = z->next[0];
      if (!z)
      {
        skok = 0;
        break;
      }
    }
  }
  ki ("skip", skok);
}

static void freeall (void)
{
  for (int i = 0; i < NR; i++)
    if (R[i])
      msr3_free (&R[i]);
  for (int i = 0; i < NT; i++)
    if (T[i])
      mstl3_free (&T[i], 1);
  for (int i = 0; i < NS; i++)
  {
    if (S[i])
      ms3_freeselections (S[i]);
    S[i] = NULL;
    if (F[i])
    {
      MS3Record *m = NULL;
      ms3_readmsr_selection (&F[i], &m, NULL, 0, NULL, 0);
    }
    F[i] = NULL;
    if (PS[i])
      mseh_free_parsestate (&PS[i]);
    if (LP[i])
    {
      ms_rlog_free (LP[i]);
      libmseed_memory.free (LP[i]);
      LP[i] = NULL;
    }
  }
  ms_rlog_free (NULL);
}

static void onalarm (int sig)
{
  (void)sig;
  static const char m[] = "{\"hang\":1}\n";
  if (write (1, m, sizeof (m) - 1)) {}
  _exit (77);
}

/* ------------------------------------------------------------- memory notes */
static TV int heldn;
static TV long lastasks = 0;
static void hold (const void *p)
{
  if (!p)
    return;
  size_t h = hfind ((void *)p);
  of ("%s%d", heldn++ ? "," : "", h == HT ? 0 : hn[h]);
}
static void holdmsr (const MS3Record *m)
{
  if (!m)
    return;
  hold (m);
  hold (m->extra);
  hold (m->datasamples);
}
static int openfds (void)
{
  int n = 0;
  DIR *d = opendir ("/proc/self/fd");
  if (!d)
    return 0;
  while (readdir (d))
    n++;
  closedir (d);
  return n;
}
/* what the command did with memory, and every block its caller's objects are made of now */
static void memnote (void)
{
  int hfds = 0, par = 0;
  of ("\"mem\":{\"ops\":[");
  for (int i = 0; i < mln; i++)
    of ("%s[%d,%d,%d]", i ? "," : "", ml[i][0], ml[i][1], ml[i][2]);
  of ("],\"held\":[");
  heldn = 0;
  for (int i = 0; i < NR; i++)
    holdmsr (R[i]);
  for (int i = 0; i < NT; i++)
    if (T[i])
    {
      hold (T[i]);
      for (MS3TraceID *id = T[i]->traces.next[0]; id; id = id->next[0])
      {
        hold (id);
        hold (id->prvtptr);
        for (MS3TraceSeg *g = id->first; g; g = g->next)
        {
          hold (g);
          hold (g->datasamples);
          hold (g->prvtptr);
          hold (g->recordlist);
          if (g->recordlist)
            for (MS3RecordPtr *q = g->recordlist->first; q; q = q->next)
            {
              hold (q);
              hold (q->prvtptr);
              holdmsr (q->msr);
            }
        }
      }
    }
  for (int i = 0; i < NS; i++)
  {
    for (MS3Selections *q = S[i]; q; q = q->next)
    {
      hold (q);
      for (MS3SelectTime *w = q->timewindows; w; w = w->next)
        hold (w);
    }
    if (F[i])
    {
      hold (F[i]);
      hold (F[i]->readbuffer);
      if (F[i]->input.handle && F[i]->input.type != LMIO_URL)
        hfds++;
    }
    if (LP[i])
    {
      hold (LP[i]);
      for (MSLogEntry *e = LP[i]->registry.messages; e; e = e->next)
        hold (e);
    }
    if (PS[i])
      par = 1;
  }
  if (leapsecondlist && hfind (leapsecondlist) != HT)
    for (LeapSecond *q = leapsecondlist; q; q = q->next)
      hold (q);
  of ("],");
  ki ("fds", openfds () - basefds);
  ki ("hfds", hfds);
  ki ("direct", lm_direct);
  ki ("par", par);
  ki ("errs", nerr);
  nerr = 0;
  ki ("asks", nmalloc - lastasks);
  ol--;
  of ("},");
  mln = 0;
  lm_direct = 0;
  lastasks = nmalloc;
}

#include "cmds.h"

static TV char *line = NULL;
static TV size_t linec = 0;

static void perform (char *cmd)
{
  char *sp, *tok = strtok_r (cmd, " ", &sp);
  char *op = tok;
  na = 0;
  while ((tok = strtok_r (NULL, " ", &sp)) && na < MAXARG)
  {
    char *eq = strchr (tok, '=');
    if (!eq)
      continue;
    *eq = 0;
    ak[na] = tok;
    av[na] = eq + 1;
    na++;
  }
  ostart ();
  docmd (op);
  if (memlog)
    memnote ();
  oend ();
}

/* Threads: lines are "<thread># <command>".  "free": each thread performs its lines on
 * its own, all at once.  "turns": the lines are performed in the order given, each by the
 * thread it names while the others wait. */
#define NTHR 8
static char **lines = NULL, **answers = NULL;
static int *whose = NULL, nlines = 0, turns = 0;
static pthread_barrier_t bar;
static pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
static int at = 0;
static void *thread (void *a)
{
  int me = *(int *)a;
#ifdef LMH_THREADS
  char d[16];
  snprintf (d, sizeof (d), "th%d", me);
  mkdir (d, 0700);
  if (unshare (CLONE_FS) || chdir (d))
    _exit (78);
#endif
  ms_rloginit (cap_out, "", cap_err, "Error: ", 0);
  pthread_barrier_wait (&bar);
  for (int i = 0; i < nlines; i++)
  {
    if (whose[i] != me)
      continue;
    if (turns)
    {
      pthread_mutex_lock (&mx);
      while (at != i)
        pthread_cond_wait (&cv, &mx);
    }
    perform (lines[i]);
    answers[i] = answer;
    if (turns)
    {
      at++;
      pthread_cond_broadcast (&cv);
      pthread_mutex_unlock (&mx);
    }
  }
  pthread_barrier_wait (&bar);
#ifdef LMH_THREADS
  freeall ();
#endif
  return NULL;
}
static int threads (int inturn)
{
  static char *l = NULL;
  static size_t lc = 0;
  ssize_t n;
  int cap = 0, id[NTHR];
  pthread_t th[NTHR];
  pthread_attr_t at_;
  while ((n = getline (&l, &lc, stdin)) > 0)
  {
    while (n > 0 && (l[n - 1] == '\n' || l[n - 1] == '\r'))
      l[--n] = 0;
    if (n < 3)
      continue;
    if (nlines == cap)
    {
      cap = cap ? 2 * cap : 1024;
      lines = realloc (lines, cap * sizeof (*lines));
      whose = realloc (whose, cap * sizeof (*whose));
    }
    whose[nlines] = atoi (l) % NTHR;
    lines[nlines++] = strdup (strchr (l, '#') + 2);
  }
  answers = calloc (nlines ? nlines : 1, sizeof (*answers));
  threaded = 1;
  turns = inturn;
  int nt = 0;
  for (int i = 0; i < nlines; i++)
    if (whose[i] >= nt)
      nt = whose[i] + 1;
  pthread_barrier_init (&bar, NULL, nt ? nt : 1);
  pthread_attr_init (&at_);
  pthread_attr_setstacksize (&at_, 64 << 20);
  alarm (100);
  for (int i = 0; i < nt; i++)
  {
    id[i] = i;
    pthread_create (&th[i], &at_, thread, &id[i]);
  }
  for (int i = 0; i < nt; i++)
    pthread_join (th[i], NULL);
  for (int i = 0; i < nlines; i++)
    fputs (answers[i] ? answers[i] : "\n", stdout);
  fflush (stdout);
  _exit (0);
}

int main (int argc, char **argv)
{
  libmseed_memory.malloc = my_malloc;
  libmseed_memory.realloc = my_realloc;
  libmseed_memory.free = my_free;
  libmseed_prealloc_block_size = 0;
  ms_rloginit (cap_out, "", cap_err, "Error: ", 0);
  signal (SIGALRM, onalarm);
  if (argc > 1)
    return threads (!strcmp (argv[1], "turns"));
  ssize_t n;
  while ((n = getline (&line, &linec, stdin)) > 0)
  {
    while (n > 0 && (line[n - 1] == '\n' || line[n - 1] == '\r'))
      line[--n] = 0;
    if (!n)
      continue;
    alarm (20);
    perform (line);
    alarm (0);
  }
  fflush (stdout);
  _exit (0);
}
