/* command table of lmh.c (included there) */

static TV char *RB[NR]; /* backing bytes of parsed records (exact allocations) */

static void keepbacking (int r, const char *b, size_t n)
{
  free (RB[r]);
  RB[r] = malloc (n ? n : 1);
  memcpy (RB[r], b, n);
}

static void lognote (void)
{
  kh ("log", lg_b ? lg_b : "", lg_l > 400 ? 400 : lg_l);
  lg_l = 0;
}
static void outnote (void)
{
  kh ("out", ou_b ? ou_b : "", ou_l);
  ou_l = 0;
}

/* back to the leap second table the library starts with */
static void builtinleaps (void)
{
  static TV LeapSecond *own = NULL;
  static TV int known = 0;
  if (!known)
    own = leapsecondlist;
  known = 1;
  while (leapsecondlist && leapsecondlist != own)
  {
    LeapSecond *n = leapsecondlist->next;
    libmseed_memory.free (leapsecondlist);
    leapsecondlist = n;
  }
  leapsecondlist = own;
}

static LM_PARSED_JSON **argps (void)
{
  const char *v = arg ("ps");
  return v ? &PS[atoi (v)] : NULL;
}

static void cmd_rec_new (int r)
{
  if (R[r])
    msr3_free (&R[r]);
  MS3Record *m = R[r] = msr3_init (NULL);
  const char *v;
  if ((v = arg ("sid")))
  {
    char *s = args ("sid");
    snprintf (m->sid, sizeof (m->sid), "%s", s);
    free (s);
  }
  m->formatversion = (uint8_t)argi ("fmt", 3);
  m->flags = (uint8_t)argi ("flags", 0);
  m->starttime = argi ("st", 0);
  m->samprate = argd ("rate", 1.0);
  m->encoding = (int16_t)argi ("enc", -1);
  m->pubversion = (uint8_t)argi ("pub", 1);
  m->reclen = (int32_t)argi ("reclen", -1);
  m->samplecnt = argi ("cnt", 0);
  if ((v = arg ("data")))
    setdata (m, *arg ("type"), v);
  else if ((v = arg ("gen"))) /* gen=<first>,<n> : consecutive integers in sample type */
  {
    long long first = strtoll (v, NULL, 10), n = strtoll (strchr (v, ',') + 1, NULL, 10);
    char ty = *arg ("type");
    size_t ss = ms_samplesize (ty);
    m->datasamples = own_malloc (n * ss);
    m->datasize = n * ss;
    m->numsamples = n;
    m->sampletype = ty;
    for (long long i = 0; i < n; i++)
    {
      if (ty == 'i')
        ((int32_t *)m->datasamples)[i] = (int32_t)(first + i);
      else if (ty == 'f')
        ((float *)m->datasamples)[i] = (float)(first + i);
      else if (ty == 'd')
        ((double *)m->datasamples)[i] = (double)(first + i);
      else
        ((char *)m->datasamples)[i] = (char)(33 + (first + i) % 90);
    }
  }
  if (arg ("cnt") == NULL)
    m->samplecnt = m->numsamples;
  if ((v = arg ("extra")) && *v)
  {
    size_t n;
    unsigned char *u = unhex (v, &n);
    m->extra = own_malloc (n);
    memcpy (m->extra, u, n);
    m->extralength = (uint16_t)n;
    free (u);
  }
}

static void clone_parsed (int r, int b, long long off, long long len, uint32_t flags)
{
  /* parse from an exact-size copy so that any over-read is visible */
  if (off < 0)
    off = 0;
  if (off > (long long)Bl[b])
    off = (long long)Bl[b];
  if (len < 0 || off + len > (long long)Bl[b])
    len = (long long)Bl[b] - off;
  if (R[r] && !argi ("reuse", 0))
    msr3_free (&R[r]);
  keepbacking (r, (char *)B[b] + off, (size_t)len);
  int rv = msr3_parse (RB[r], (uint64_t)len, &R[r], flags, (int8_t)argi ("v", 0));
  ki ("rv", rv);
  if (R[r])
    orec (R[r], rv == 0 && (flags & MSF_UNPACKDATA));
}

static void docmd (const char *op)
{
#define IS(x) (!strcmp (op, x))
  int r = (int)argi ("r", 0), b = (int)argi ("b", 0), t = (int)argi ("t", 0), s = (int)argi ("s", 0);
  char *p1 = NULL, *p2 = NULL;

  if (IS ("reset"))
  {
    freeall ();
    if (!threaded)
      builtinleaps ();
    for (int i = 0; i < NB; i++)
    {
      free (B[i]);
      B[i] = NULL;
      Bl[i] = 0;
    }
    for (int i = 0; i < NR; i++)
    {
      free (RB[i]);
      RB[i] = NULL;
    }
    if (!threaded)
      libmseed_prealloc_block_size = (size_t)argi ("prealloc", 0);
    bclobber = 0;
    failat = 0;
    memlog = 0;
    mln = 0;
    lm_direct = 0;
    lg_l = ou_l = 0;
    nsink = 0;
    ms_rlog_free (NULL);
    ms_rloginit (cap_out, "", cap_err, "Error: ", 0);
    ki ("live", nlive);
    ki ("foreign", nforeign);
    nforeign = 0;
  }
  else if (IS ("mem"))
  {
    ki ("live", nlive);
    ki ("foreign", nforeign);
    ki ("nmalloc", nmalloc);
    ki ("nfail", nfail);
  }
  else if (IS ("freeall"))
  {
    freeall ();
    ki ("live", nlive);
    ki ("foreign", nforeign);
  }
  else if (IS ("memlog"))
  {
    /* note memory events from here on; identities start afresh */
    memlog = 1;
    mln = 0;
    basefds = openfds ();
    lm_direct = 0;
  }
  else if (IS ("failat"))
    failat = (long)argi ("n", 0);
  else if (IS ("prealloc"))
    libmseed_prealloc_block_size = (size_t)argi ("n", 0);
  else if (IS ("lastlog"))
  {
    lognote ();
    outnote ();
  }
  /* ---------------------------------------------------------- buffers */
  else if (IS ("buf_set"))
  {
    size_t n;
    unsigned char *u = unhex (arg ("hex"), &n);
    bset (b, u, n);
    free (u);
    ki ("len", (long long)n);
  }
  else if (IS ("buf_cat"))
  {
    int o = (int)argi ("src", 0);
    bapp (b, B[o], Bl[o]);
    ki ("len", (long long)Bl[b]);
  }
  else if (IS ("buf_load"))
  {
    p1 = args ("path");
    FILE *f = fopen (p1, "rb");
    bset (b, "", 0);
    if (f)
    {
      char tmp[65536];
      size_t n;
      while ((n = fread (tmp, 1, sizeof tmp, f)) > 0)
        bapp (b, tmp, n);
      fclose (f);
    }
    ki ("ok", f != NULL);
    ki ("len", (long long)Bl[b]);
  }
  else if (IS ("buf_file"))
  {
    p1 = args ("path");
    FILE *f = argi ("gone", 0) ? NULL : fopen (p1, argi ("append", 0) ? "ab" : "wb");
    if (argi ("gone", 0))
      unlink (p1);
    if (f)
    {
      fwrite (B[b], 1, Bl[b], f);
      fclose (f);
    }
    ki ("ok", f != NULL);
  }
  else if (IS ("buf_slice"))
  {
    int o = (int)argi ("src", 0);
    long long off = argi ("off", 0), len = argi ("len", -1);
    if (len < 0 || off + len > (long long)Bl[o])
      len = (long long)Bl[o] - off;
    bset (b, B[o] + off, (size_t)len);
    ki ("len", len);
  }
  else if (IS ("buf_dump"))
  {
    ki ("len", (long long)Bl[b]);
    kh ("hex", B[b], Bl[b]);
  }
  /* ---------------------------------------------------------- records */
  else if (IS ("rec_new"))
  {
    cmd_rec_new (r);
    orec (R[r], 0);
  }
  else if (IS ("rec_free"))
    msr3_free (&R[r]);
  else if (IS ("rec_dump"))
  {
    if (R[r])
      orec (R[r], (int)argi ("data", 1));
    else
      ki ("null", 1);
  }
  else if (IS ("rec_raw"))
  {
    /* raw bytes of the record the structure points at */
    if (R[r] && R[r]->record)
      kh ("hex", R[r]->record, (size_t)R[r]->reclen);
    else
      ki ("null", 1);
  }
  else if (IS ("rec_set"))
  {
    MS3Record *m = R[r];
    if (arg ("st")) m->starttime = argi ("st", 0);
    if (arg ("rate")) m->samprate = argd ("rate", 0);
    if (arg ("enc")) m->encoding = (int16_t)argi ("enc", 0);
    if (arg ("reclen")) m->reclen = (int32_t)argi ("reclen", 0);
    if (arg ("pub")) m->pubversion = (uint8_t)argi ("pub", 0);
    if (arg ("flags")) m->flags = (uint8_t)argi ("flags", 0);
    if (arg ("fmt")) m->formatversion = (uint8_t)argi ("fmt", 0);
    if (arg ("cnt")) m->samplecnt = argi ("cnt", 0);
    if (arg ("num")) m->numsamples = argi ("num", 0);
    if (arg ("sid"))
    {
      p1 = args ("sid");
      snprintf (m->sid, sizeof (m->sid), "%s", p1);
    }
    orec (m, 0);
  }
  else if (IS ("rec_init"))
  {
    /* re-initialise an existing structure */
    R[r] = msr3_init (R[r]);
    ki ("ok", R[r] != NULL);
  }
  else if (IS ("rec_dup"))
  {
    int o = (int)argi ("src", 0);
    if (R[r])
      msr3_free (&R[r]);
    R[r] = msr3_duplicate (R[o], (int8_t)argi ("dd", 1));
    ki ("ok", R[r] != NULL);
    if (R[r])
      orec (R[r], 1);
  }
  else if (IS ("rec_resize"))
  {
    ki ("rv", msr3_resize_buffer (R[r]));
    orec (R[r], 1);
  }
  else if (IS ("rec_parse"))
  {
    clone_parsed (r, b, argi ("off", 0), argi ("len", -1), (uint32_t)argi ("fl", 0));
    lognote ();
  }
  else if (IS ("rec_unpack"))
  {
    int64_t n = msr3_unpack_data (R[r], 0);
    ki ("rv", n);
    orec (R[r], n >= 0);
    lognote ();
  }
  else if (IS ("rec_bounds"))
  {
    uint32_t o = 0, z = 0;
    ki ("rv", msr3_data_bounds (R[r], &o, &z));
    ki ("doff", o);
    ki ("dsz", z);
  }
  else if (IS ("rec_pack"))
  {
    int64_t packed = -777;
    g_outb = b;
    g_outn = 0;
    bset (b, "", 0);
    int rv = msr3_pack (R[r], rechandler, NULL, &packed, (uint32_t)argi ("fl", 0), 0);
    ki ("rv", rv);
    ki ("packed", packed);
    olens ();
    ki ("len", (long long)Bl[b]);
    lognote ();
  }
  else if (IS ("rec_hdr"))
  {
    /* pack only the header into an exact buffer of sz bytes; fmt 2 or 3; repack */
    long long sz = argi ("sz", 4096);
    char *buf = malloc ((size_t)sz ? (size_t)sz : 1);
    memset (buf, 0xEE, (size_t)sz);
    int rv;
    const char *k = arg ("kind");
    if (!strcmp (k, "2"))
      rv = msr3_pack_header2 (R[r], buf, (uint32_t)sz, 0);
    else if (!strcmp (k, "3"))
      rv = msr3_pack_header3 (R[r], buf, (uint32_t)sz, 0);
    else
      rv = msr3_repack_mseed3 (R[r], buf, (uint32_t)sz, 0);
    ki ("rv", rv);
    bset (b, buf, rv > 0 && rv <= sz ? (size_t)rv : 0);
    free (buf);
    lognote ();
  }
  else if (IS ("rec_print"))
  {
    ou_l = 0;
    msr3_print (R[r], (int8_t)argi ("d", 0));
    outnote ();
  }
  else if (IS ("rawparse"))
  {
    char *e = malloc (Bl[b] ? Bl[b] : 1);
    memcpy (e, B[b], Bl[b]);
    nerr = 0;
    int rv = argi ("fmt", 3) == 3 ? ms_parse_raw3 (e, (int)Bl[b], (int8_t)argi ("d", 0))
                                  : ms_parse_raw2 (e, (int)Bl[b], (int8_t)argi ("d", 0), (int8_t)argi ("sw", -1));
    free (e);
    ki ("rv", rv);
    ki ("told", nerr);
    nerr = 0;
    outnote ();
    lg_l = 0;
  }
  else if (IS ("detect"))
  {
    long long off = argi ("off", 0), len = argi ("len", -1);
    if (len < 0 || off + len > (long long)Bl[b])
      len = (long long)Bl[b] - off;
    char *e = malloc (len ? (size_t)len : 1);
    memcpy (e, B[b] + off, (size_t)len);
    uint8_t fv = 99;
    int64_t rv = ms3_detect (e, (uint64_t)len, &fv);
    free (e);
    ki ("rv", rv);
    ki ("fv", fv);
  }
  else if (IS ("decode"))
  {
    /* ms_decode_data on an exact copy of buffer b into an exact output */
    int enc = (int)argi ("enc", 0);
    long long cnt = argi ("cnt", 0), osz = argi ("osz", -1);
    uint8_t ss = 0;
    char ty = 0;
    ms_encoding_sizetype ((uint8_t)enc, &ss, &ty);
    if (osz < 0)
      osz = cnt * (ss ? ss : 1);
    char *in = malloc (Bl[b] ? Bl[b] : 1), *out = malloc (osz ? (size_t)osz : 1);
    memcpy (in, B[b], Bl[b]);
    memset (out, 0x5A, (size_t)osz);
    char sty = 0;
    int64_t rv = ms_decode_data (in, Bl[b], (uint8_t)enc, (uint64_t)cnt, out, (uint64_t)osz, &sty,
                                 (int8_t)argi ("swap", 0), "TEST", 0);
    ki ("rv", rv);
    otype ("type", sty);
    if (rv > 0)
      osamples ("data", out, rv, sty);
    else
      of ("\"data\":[],");
    free (in);
    free (out);
    lognote ();
  }
  else if (IS ("encsize"))
  {
    uint8_t ss = 77;
    char ty = 'Z';
    ki ("rv", ms_encoding_sizetype ((uint8_t)argi ("enc", 0), &ss, &ty));
    ki ("ss", ss);
    otype ("type", ty);
    ki ("tsz", ms_samplesize ((char)argi ("ty", 'i')));
  }
  else if (IS ("crc"))
  {
    ki ("crc", ms_crc32c (B[b], (int)Bl[b], (uint32_t)argi ("prev", 0)));
  }
  /* ------------------------------------------------------- trace lists */
  else if (IS ("tl_new"))
  {
    if (T[t])
      mstl3_free (&T[t], 1);
    T[t] = mstl3_init (NULL);
    if (arg ("prng"))
      T[t]->prngstate = (uint64_t)argi ("prng", 1);
    ki ("ok", T[t] != NULL);
  }
  else if (IS ("tl_free"))
  {
    if (T[t])
      mstl3_free (&T[t], 1);
    ki ("null", T[t] == NULL);
  }
  else if (IS ("tl_add"))
  {
    MS3RecordPtr *rp = NULL;
    int dorl = (int)argi ("rl", 0);
    MS3TraceSeg *sg = mstl3_addmsr_recordptr (T[t], R[r], dorl ? &rp : NULL, (int8_t)argi ("sv", 0),
                                              (int8_t)argi ("ah", 0), (uint32_t)argi ("fl", 0), argtol ());
    ki ("ok", sg != NULL);
    if (dorl && rp)
    {
      /* caller's part of the contract: say where the record is */
      if (arg ("file"))
      {
        char *fnm = args ("file");
        /* library does not own filename; keep it for the whole run */
        rp->filename = fnm;
        rp->fileoffset = argi ("off", 0);
      }
      else if (arg ("bb"))
        rp->bufferptr = (char *)B[argi ("bb", 0)] + argi ("off", 0);
      uint32_t dof = 0, dsz = 0;
      if (R[r]->record && msr3_data_bounds (R[r], &dof, &dsz) == 0)
        rp->dataoffset = dof;
    }
    if (sg)
    {
      ki ("sst", sg->starttime);
      ki ("sen", sg->endtime);
      ki ("scnt", sg->samplecnt);
      /* ordinal of the returned segment in its trace, and of the trace */
      int found = 0, io = 0;
      for (MS3TraceID *id = T[t]->traces.next[0]; id && !found; id = id->next[0], io++)
      {
        int so = 0;
        for (MS3TraceSeg *q = id->first; q; q = q->next, so++)
          if (q == sg)
          {
            found = 1;
            ki ("iord", io);
            ki ("sord", so);
            break;
          }
      }
      if (!found)
      {
        ki ("iord", -1);
        ki ("sord", -1);
      }
    }
    if (argi ("dump", 0))
      otl (T[t], argi ("dump", 0) > 1, dorl);
    lg_l = 0;
  }
  else if (IS ("tl_dump"))
    otl (T[t], (int)argi ("data", 0), (int)argi ("rl", 0));
  else if (IS ("tl_find"))
  {
    p1 = args ("sid");
    MS3TraceID *id = mstl3_findID (T[t], p1, (uint8_t)argi ("pub", 0), NULL);
    ki ("found", id != NULL);
    if (id)
    {
      kh ("sid", id->sid, strlen (id->sid));
      ki ("pub", id->pubversion);
    }
  }
  else if (IS ("tl_readbuf"))
  {
    if (argi ("rl", 0) == 0 && argi ("exact", 1))
    {
    }
    int64_t rv;
    int sl = (int)argi ("s", -1);
    uint64_t len = arg ("len") ? (uint64_t)argi ("len", 0) : Bl[b];
    const char *base = (char *)B[b] + argi ("off", 0);
    if (!arg ("len"))
      len -= (uint64_t)argi ("off", 0);
    if (sl >= 0)
      rv = mstl3_readbuffer_selection (&T[t], base, len, (int8_t)argi ("sv", 0),
                                       (uint32_t)argi ("fl", 0), argtol (), S[sl], 0);
    else
      rv = mstl3_readbuffer (&T[t], base, len, (int8_t)argi ("sv", 0), (uint32_t)argi ("fl", 0),
                             argtol (), 0);
    ki ("rv", rv);
    lg_l = 0;
  }
  else if (IS ("tl_readfile"))
  {
    p1 = args ("path");
    const char *keep = strdup (p1); /* record lists keep the name */
    int rv;
    if (arg ("s"))
      rv = ms3_readtracelist_selection (&T[t], keep, argtol (), S[s], (int8_t)argi ("sv", 0), (uint32_t)argi ("fl", 0), 0);
    else if (arg ("ts") || arg ("te"))
      rv = ms3_readtracelist_timewin (&T[t], keep, argtol (), arg ("ts") ? argi ("ts", 0) : NSTUNSET,
                                      arg ("te") ? argi ("te", 0) : NSTUNSET,
                                      (int8_t)argi ("sv", 0), (uint32_t)argi ("fl", 0), 0);
    else
      rv = ms3_readtracelist (&T[t], keep, argtol (), (int8_t)argi ("sv", 0), (uint32_t)argi ("fl", 0), 0);
    ki ("rv", rv);
    lognote ();
  }
  else if (IS ("tl_readrecs"))
  {
    /* the manual route: read record by record and add each */
    p1 = args ("path");
    MS3FileParam *fp = NULL;
    MS3Record *m = NULL;
    int rv, n = 0;
    if (!T[t])
      T[t] = mstl3_init (NULL);
    if (argi ("fd", 0))
    {
      int fd = open (p1, O_RDONLY);
      fp = ms3_mstl_init_fd (fd);
      if (!fp)
        close (fd); /* still the caller's */
    }
    const MS3Tolerance *tol = argtol ();
    while ((rv = ms3_readmsr_selection (&fp, &m, p1, (uint32_t)argi ("fl", 0), arg ("s") ? S[s] : NULL, 0)) == MS_NOERROR)
    {
      n++;
      mstl3_addmsr (T[t], m, (int8_t)argi ("sv", 0), 1, (uint32_t)argi ("fl", 0), tol);
    }
    ki ("rv", rv == MS_ENDOFFILE ? 0 : rv);
    ki ("n", n);
    ms3_readmsr_selection (&fp, &m, NULL, 0, NULL, 0);
    lognote ();
  }
  else if (IS ("tl_unpack"))
  {
    /* decode segment number seg of trace number id from its record list */
    int io = (int)argi ("id", 0), so = (int)argi ("seg", 0);
    MS3TraceID *id = T[t]->traces.next[0];
    while (id && io-- > 0)
      id = id->next[0];
    MS3TraceSeg *sg = id ? id->first : NULL;
    while (sg && so-- > 0)
      sg = sg->next;
    if (!sg)
      ki ("none", 1);
    else
    {
      const char *o = arg ("osz");
      void *out = NULL;
      long long osz = o ? atoll (o) : 0;
      if (o)
      {
        out = malloc (osz ? (size_t)osz : 1);
        memset (out, 0x5A, (size_t)osz);
      }
      int64_t rv = mstl3_unpack_recordlist (id, sg, out, (uint64_t)osz, 0);
      ki ("rv", rv);
      otype ("type", sg->sampletype);
      ki ("num", sg->numsamples);
      if (o)
      {
        /* sample type from the data when decoded to a caller's buffer */
        char ty = sg->sampletype;
        osamples ("data", out, rv, ty);
        free (out);
      }
      else
        osamples ("data", sg->datasamples, sg->numsamples, sg->sampletype);
    }
    lognote ();
  }
  else if (IS ("tl_convert"))
  {
    int io = (int)argi ("id", 0), so = (int)argi ("seg", 0);
    MS3TraceID *id = T[t]->traces.next[0];
    while (id && io-- > 0)
      id = id->next[0];
    MS3TraceSeg *sg = id ? id->first : NULL;
    while (sg && so-- > 0)
      sg = sg->next;
    if (!sg)
      ki ("none", 1);
    else
    {
      ki ("rv", mstl3_convertsamples (sg, *arg ("to"), (int8_t)argi ("trunc", 0)));
      otype ("type", sg->sampletype);
      ki ("num", sg->numsamples);
      osamples ("data", sg->datasamples, sg->numsamples, sg->sampletype);
    }
    lg_l = 0;
  }
  else if (IS ("tl_resize"))
  {
    ki ("rv", mstl3_resize_buffers (T[t]));
    otl (T[t], 1, 0);
  }
  else if (IS ("tl_pack"))
  {
    int64_t packed = -777;
    g_outb = b;
    g_outn = 0;
    bset (b, "", 0);
    p1 = args ("extra");
    /* the extra headers are the caller's: copy kept to check it is untouched */
    char *ex = p1 ? own_malloc (strlen (p1) + 1) : NULL;
    if (ex)
      strcpy (ex, p1);
    int64_t rv = mstl3_pack (T[t], rechandler, NULL, (int)argi ("reclen", 512), (int8_t)argi ("enc", -1), &packed,
                             (uint32_t)argi ("fl", 0), 0, ex);
    ki ("rv", rv);
    ki ("packed", packed);
    olens ();
    if (ex)
    {
      int alive = (hfind (ex) != HT);
      ki ("exalive", alive);
      if (alive)
      {
        ki ("exsame", !strcmp (ex, p1));
        libmseed_memory.free (ex);
      }
    }
    ki ("len", (long long)Bl[b]);
    lognote ();
  }
  else if (IS ("tl_write") || IS ("rec_write"))
  {
    /* limit=: files can grow to this size only; std=: file that standard output is for the call */
    int lst = IS ("tl_write"), keep = -1;
    long long lim = argi ("limit", -1);
    struct rlimit was, now;
    char *sp_ = args ("std");
    p1 = args ("path");
    if (sp_ && *sp_)
    {
      int fd = open (sp_, O_WRONLY | O_CREAT | O_APPEND, 0644);
      fflush (stdout);
      keep = dup (1);
      dup2 (fd, 1);
      close (fd);
    }
    getrlimit (RLIMIT_FSIZE, &was);
    if (arg ("limof"))
    {
      /* relative to what the file would come to with the content of a buffer */
      struct stat sb;
      const char *tgt = (sp_ && *sp_) ? sp_ : p1;
      long long base = (((sp_ && *sp_) || !argi ("ow", 1)) && stat (tgt, &sb) == 0) ? (long long)sb.st_size : 0;
      lim = base + (long long)Bl[argi ("limof", 0)] * argi ("num", 1000) / 1000 + argi ("limit", 0);
      if (lim < 0)
        lim = 0;
    }
    ki ("lim", lim);
    if (lim >= 0)
    {
      signal (SIGXFSZ, SIG_IGN);
      now = was;
      now.rlim_cur = (rlim_t)lim;
      setrlimit (RLIMIT_FSIZE, &now);
    }
    long long rv_ = lst ? (long long)mstl3_writemseed (T[t], p1, (int8_t)argi ("ow", 1), (int)argi ("reclen", 512), (int8_t)argi ("enc", -1),
                                                       (uint32_t)argi ("fl", 0), 0)
                        : (long long)msr3_writemseed (R[r], p1, (int8_t)argi ("ow", 1), (uint32_t)argi ("fl", 0), 0);
    if (keep >= 0)
    {
      int isopen = fcntl (1, F_GETFD) >= 0;
      if (!isopen)
      {
        /* the stream is gone: answer on the descriptor and stop */
        static const char m[] = "{\"rv\":-999,\"open\":0}\n";
        dup2 (keep, 1);
        if (write (1, m, sizeof (m) - 1)) {}
        _exit (70);
      }
      fflush (stdout);
      dup2 (keep, 1);
      close (keep);
      clearerr (stdout);
      ki ("open", isopen);
    }
    setrlimit (RLIMIT_FSIZE, &was);
    ki ("rv", rv_);
    lognote ();
  }
  else if (IS ("tl_print"))
  {
    ou_l = 0;
    const char *k = arg ("kind");
    ki ("t0", (long long)time (NULL));
    if (!strcmp (k, "trace"))
      mstl3_printtracelist (T[t], (ms_timeformat_t)argi ("tf", 0), (int8_t)argi ("d", 0), (int8_t)argi ("g", 0), (int8_t)argi ("ver", 0));
    else if (!strcmp (k, "gap"))
    {
      double mi = argd ("min", 0), ma = argd ("max", 0);
      mstl3_printgaplist (T[t], (ms_timeformat_t)argi ("tf", 0), arg ("min") ? &mi : NULL, arg ("max") ? &ma : NULL);
    }
    else
    {
      if (arg ("dcc"))
        p1 = args ("dcc");
      mstl3_printsynclist (T[t], p1, (ms_subseconds_t)argi ("ss", 0));
    }
    ki ("t1", (long long)time (NULL));
    outnote ();
  }
  /* ------------------------------------------------------------ reader */
  else if (IS ("rd_open"))
  {
    /* prepare a reader with an explicit range or a descriptor */
    MS3FileParam init = MS3FileParam_INITIALIZER;
    F[s] = own_malloc (sizeof (MS3FileParam));
    *F[s] = init;
    if (arg ("path"))
    {
      p1 = args ("path");
      snprintf (F[s]->path, sizeof (F[s]->path), "%s", p1);
    }
    F[s]->startoffset = argi ("start", 0);
    F[s]->endoffset = argi ("end", 0);
  }
  else if (IS ("rd_fd"))
  {
    p1 = args ("path");
    int fd = open (p1, O_RDONLY);
    F[s] = ms3_mstl_init_fd (fd);
    if (!F[s])
      close (fd); /* still the caller's */
    ki ("ok", F[s] != NULL);
  }
  else if (IS ("rd_next"))
  {
    p1 = args ("path");
    int sl = (int)argi ("sel", -1);
    int rv = ms3_readmsr_selection (&F[s], &R[r], p1, (uint32_t)argi ("fl", 0), sl >= 0 ? S[sl] : NULL, 0);
    ki ("rv", rv);
    if (F[s])
    {
      ki ("pos", F[s]->streampos);
      ki ("nrec", F[s]->recordcount);
      ki ("ateof", (F[s]->flags & MSF_ATENDOFFILE) != 0);
    }
    if (rv == 0 && R[r])
    {
      ki ("haverec", R[r]->record != NULL);
      if (R[r]->record && argi ("raw", 1))
        kh ("raw", R[r]->record, (size_t)R[r]->reclen);
      orec (R[r], (int)argi ("data", 0));
    }
    lognote ();
  }
  else if (IS ("rd_all"))
  {
    /* read to the end; report compactly [st, reclen, streampos-reclen-or-pos, crc of raw bytes] */
    p1 = args ("path");
    int sl = (int)argi ("sel", -1), rv;
    long long max = argi ("max", 1000000), n = 0;
    MS3FileParam *fp = F[s];
    F[s] = NULL;
    MS3Record *m = NULL;
    of ("\"recs\":[");
    while (n < max && (rv = ms3_readmsr_selection (&fp, &m, p1, (uint32_t)argi ("fl", 0), sl >= 0 ? S[sl] : NULL, 0)) == 0)
    {
      of ("%s[%d,%lld,%u,%d,%lld]", n ? "," : "", m->reclen, (long long)fp->streampos,
          m->record ? ms_crc32c ((const uint8_t *)m->record, m->reclen, 0) : 0, m->formatversion,
          (long long)m->numsamples);
      n++;
    }
    of ("],");
    ki ("rv", n < max ? rv : -999);
    ki ("n", n);
    if (fp)
      ki ("endpos", fp->streampos);
    ms3_readmsr_selection (&fp, &m, NULL, 0, NULL, 0);
    ki ("fpnull", fp == NULL);
    ki ("mnull", m == NULL);
    lognote ();
  }
  else if (IS ("rd_plain"))
  {
    /* the non-reentrant convenience reader */
    p1 = args ("path");
    int rv;
    long long n = 0;
    MS3Record *m = NULL;
    of ("\"recs\":[");
    while ((rv = ms3_readmsr (&m, p1, (uint32_t)argi ("fl", 0), 0)) == 0)
    {
      of ("%s[%d,%u]", n ? "," : "", m->reclen, m->record ? ms_crc32c ((const uint8_t *)m->record, m->reclen, 0) : 0);
      n++;
    }
    of ("],");
    ki ("rv", rv);
    ms3_readmsr (&m, NULL, 0, 0);
    ki ("mnull", m == NULL);
    lognote ();
  }
  else if (IS ("rd_close"))
  {
    int rv = ms3_readmsr_selection (&F[s], &R[r], NULL, 0, NULL, 0);
    ki ("rv", rv);
    ki ("null", F[s] == NULL && R[r] == NULL);
    F[s] = NULL;
  }
  else if (IS ("url"))
  {
    ki ("support", libmseed_url_support ());
    if (arg ("ua"))
    {
      p1 = args ("ua");
      p2 = args ("uav");
      ki ("rv", ms3_url_useragent (p1, p2));
    }
    if (arg ("up"))
    {
      p1 = args ("up");
      ki ("rv", ms3_url_userpassword (p1));
    }
    if (arg ("hdr"))
    {
      p1 = args ("hdr");
      ki ("rv", ms3_url_addheader (p1));
    }
    if (arg ("free"))
      ms3_url_freeheaders ();
  }
  /* -------------------------------------------------------- selections */
  else if (IS ("sel_add"))
  {
    p1 = args ("pat");
    ki ("rv", ms3_addselect (&S[s], p1, arg ("ts") ? argi ("ts", 0) : NSTUNSET, arg ("te") ? argi ("te", 0) : NSTUNSET,
                             (uint8_t)argi ("pub", 0)));
    lg_l = 0;
  }
  else if (IS ("sel_comp"))
  {
    char *n = args ("n"), *st = args ("st"), *l = args ("l"), *c = args ("c");
    ki ("rv", ms3_addselect_comp (&S[s], n, st, l, c, arg ("ts") ? argi ("ts", 0) : NSTUNSET,
                                  arg ("te") ? argi ("te", 0) : NSTUNSET, (uint8_t)argi ("pub", 0)));
    free (n);
    free (st);
    free (l);
    free (c);
    lg_l = 0;
  }
  else if (IS ("sel_file"))
  {
    p1 = args ("path");
    p2 = args ("in");
    if (p2)
    {
      /* standard input is this file for the call */
      FILE *was = stdin;
      stdin = fopen (p2, "rb");
      ki ("rv", ms3_readselectionsfile (&S[s], p1));
      fclose (stdin);
      stdin = was;
    }
    else
      ki ("rv", ms3_readselectionsfile (&S[s], p1));
    lognote ();
  }
  else if (IS ("sel_free"))
  {
    ms3_freeselections (S[s]);
    S[s] = NULL;
  }
  else if (IS ("sel_match"))
  {
    p1 = args ("sid");
    const MS3SelectTime *st = NULL;
    const MS3Selections *m = ms3_matchselect (S[s], p1, arg ("ts") ? argi ("ts", 0) : NSTUNSET,
                                              arg ("te") ? argi ("te", 0) : NSTUNSET, (int)argi ("pub", 0), &st);
    ki ("m", m != NULL);
    kh ("pat", m ? m->sidpattern : "", m ? strlen (m->sidpattern) : 0);
    ki ("mpub", m ? m->pubversion : -1);
    ki ("hastw", st != NULL);
    if (st)
    {
      ki ("ws", st->starttime);
      ki ("we", st->endtime);
    }
  }
  else if (IS ("sel_bulk"))
  {
    /* one pattern against many identifiers */
    MS3Selections *q = NULL;
    p1 = args ("pat");
    ki ("rv", ms3_addselect (&q, p1, NSTUNSET, NSTUNSET, 0));
    char *list = strdup (arg ("sids")), *sv = NULL;
    of ("\"m\":[");
    int k = 0;
    for (char *tk = strtok_r (list, ",", &sv); tk; tk = strtok_r (NULL, ",", &sv))
    {
      char id[200];
      int n = 0;
      if (*tk != '-')
        for (; tk[2 * n] && tk[2 * n + 1] && n < 199; n++)
        {
          unsigned v;
          sscanf (tk + 2 * n, "%2x", &v);
          id[n] = (char)v;
        }
      id[n] = '\0';
      of ("%s%d", k++ ? "," : "", ms3_matchselect (q, id, 0, 0, 0, NULL) != NULL);
    }
    of ("],");
    free (list);
    ms3_freeselections (q);
    lg_l = 0;
  }
  else if (IS ("sel_matchrec"))
  {
    const MS3SelectTime *st = NULL;
    const MS3Selections *m = msr3_matchselect (S[s], R[r], &st);
    ki ("m", m != NULL);
  }
  else if (IS ("sel_dump"))
  {
    of ("\"sel\":[");
    int k = 0;
    for (MS3Selections *q = S[s]; q; q = q->next)
    {
      of ("%s{", k++ ? "," : "");
      kh ("pat", q->sidpattern, strlen (q->sidpattern));
      ki ("pub", q->pubversion);
      of ("\"tw\":[");
      int j = 0;
      for (MS3SelectTime *w = q->timewindows; w; w = w->next)
        of ("%s[%lld,%lld]", j++ ? "," : "", (long long)w->starttime, (long long)w->endtime);
      of ("]}");
    }
    of ("],");
    if (arg ("print"))
    {
      ou_l = 0;
      ms3_printselections (S[s]);
      outnote ();
    }
  }
  /* -------------------------------------------------------------- time */
  else if (IS ("t_fmt"))
  {
    char *buf = malloc (37); /* the documented maximum */
    memset (buf, 'Q', 37);
    char *rvp = ms_nstime2timestr (argi ("t", 0), buf, (ms_timeformat_t)argi ("f", 0), (ms_subseconds_t)argi ("ss", 0));
    ki ("ok", rvp != NULL);
    kh ("str", rvp ? buf : "", rvp ? strlen (buf) : 0);
    if (rvp && arg ("back"))
      ki ("back", ms_timestr2nstime (buf));
    free (buf);
    lg_l = 0;
  }
  else if (IS ("t_cal"))
  {
    /* every day of one year: month and day forms and back, and the first second of the day */
    int y = (int)argi ("y", 0);
    of ("\"days\":[");
    for (int d = 0; d <= 367; d++)
    {
      int m = 0, md = 0, back = 0;
      int rv = ms_doy2md (y, d, &m, &md);
      if (rv)
        m = md = 0;
      nstime_t t = ms_time2nstime (y, d, 0, 0, 0, 0);
      of ("%s[%d,%d,", d ? "," : "", m, md);
      if (rv || ms_md2doy (y, m, md, &back))
        back = -1;
      uint16_t yy = 0, dd = 0;
      uint8_t h = 0, mi = 0, se = 0;
      uint32_t n = 0;
      int ok = t != NSTERROR && ms_nstime2time (t, &yy, &dd, &h, &mi, &se, &n) == 0;
      of ("%d,%d,%lld,%u,%u,%d]", back, t != NSTERROR, (long long)(t == NSTERROR ? 0 : t / 86400000000000LL), yy, dd, ok && !h && !mi && !se && !n && t % 86400000000000LL == 0);
    }
    of ("],\"md\":[");
    for (int m = 0; m <= 13; m++)
      for (int md = 0; md <= 32; md++)
      {
        int d = 0;
        if (ms_md2doy (y, m, md, &d))
          d = -1;
        of ("%s%d", m + md ? "," : "", d);
      }
    of ("],");
    lg_l = 0;
  }
  else if (IS ("t_parse"))
  {
    p1 = args ("str");
    const char *k = arg ("k");
    nstime_t v = !strcmp (k, "any") ? ms_timestr2nstime (p1) : !strcmp (k, "md") ? ms_mdtimestr2nstime (p1) : ms_seedtimestr2nstime (p1);
    ki ("t", v);
    ki ("err", v == NSTERROR);
    lg_l = 0;
  }
  else if (IS ("t_split"))
  {
    uint16_t y = 7, d = 7;
    uint8_t h = 7, m = 7, sc = 7;
    uint32_t n = 7;
    ki ("rv", ms_nstime2time (argi ("t", 0), &y, &d, &h, &m, &sc, &n));
    of ("\"f\":[%u,%u,%u,%u,%u,%u],", y, d, h, m, sc, n);
  }
  else if (IS ("t_join"))
  {
    nstime_t v = ms_time2nstime ((int)argi ("y", 0), (int)argi ("d", 0), (int)argi ("h", 0), (int)argi ("m", 0), (int)argi ("sc", 0), (uint32_t)argi ("n", 0));
    ki ("t", v);
    ki ("err", v == NSTERROR);
    lg_l = 0;
  }
  else if (IS ("t_doy2md"))
  {
    int m = -9, d = -9;
    ki ("rv", ms_doy2md ((int)argi ("y", 0), (int)argi ("d", 0), &m, &d));
    ki ("mo", m);
    ki ("md", d);
    lg_l = 0;
  }
  else if (IS ("t_md2doy"))
  {
    int d = -9;
    ki ("rv", ms_md2doy ((int)argi ("y", 0), (int)argi ("mo", 0), (int)argi ("md", 0), &d));
    ki ("d", d);
    lg_l = 0;
  }
  else if (IS ("t_sample"))
  {
    ki ("t", ms_sampletime (argi ("t", 0), argi ("off", 0), argd ("rate", 1)));
  }
  else if (IS ("leap_file"))
  {
    p1 = args ("path");
    ki ("rv", ms_readleapsecondfile (p1));
    int k = 0;
    of ("\"list\":[");
    for (LeapSecond *l = leapsecondlist; l; l = l->next)
      of ("%s[%lld,%d]", k++ ? "," : "", (long long)l->leapsecond, l->TAIdelta);
    of ("],");
    lognote ();
  }
  else if (IS ("leap_env"))
  {
    p1 = args ("path");
    if (p1)
      setenv ("LMH_LEAP", p1, 1);
    else
      unsetenv ("LMH_LEAP");
    ki ("rv", ms_readleapseconds ("LMH_LEAP"));
    lognote ();
  }
  else if (IS ("leap_dump"))
  {
    int k = 0;
    of ("\"list\":[");
    for (LeapSecond *l = leapsecondlist; l; l = l->next)
      of ("%s[%lld,%d]", k++ ? "," : "", (long long)l->leapsecond, l->TAIdelta);
    of ("],");
  }
  /* --------------------------------------------------------------- SID */
  else if (IS ("sid2nslc"))
  {
    p1 = args ("sid");
    char n[64], st[64], l[64], c[64];
    memset (n, 'Q', 64);
    memset (st, 'Q', 64);
    memset (l, 'Q', 64);
    memset (c, 'Q', 64);
    n[63] = st[63] = l[63] = c[63] = 0;
    ki ("rv", ms_sid2nslc (p1, n, st, l, c));
    kh ("n", n, strlen (n));
    kh ("st", st, strlen (st));
    kh ("l", l, strlen (l));
    kh ("c", c, strlen (c));
    lg_l = 0;
  }
  else if (IS ("nslc2sid"))
  {
    char *n = args ("n"), *st = args ("st"), *l = args ("l"), *c = args ("c");
    int sl = (int)argi ("len", LM_SIDLEN);
    char *out = malloc (sl > 0 ? (size_t)sl : 1); /* exact */
    memset (out, 'Q', sl > 0 ? (size_t)sl : 1);
    int rv = ms_nslc2sid (out, sl, (uint16_t)argi ("fl", 0), n, st, l, c);
    ki ("rv", rv);
    kh ("sid", out, rv >= 0 ? strnlen (out, (size_t)sl) : 0);
    ki ("term", rv >= 0 ? strnlen (out, (size_t)sl) < (size_t)sl : 1);
    free (out);
    free (n);
    free (st);
    free (l);
    free (c);
    lg_l = 0;
  }
  else if (IS ("chan"))
  {
    p1 = args ("c");
    char out[32];
    memset (out, 'Q', 32);
    out[31] = 0;
    ki ("rv", *arg ("k") == 'x' ? ms_seedchan2xchan (out, p1) : ms_xchan2seedchan (out, p1));
    kh ("c", out, strlen (out));
    lg_l = 0;
  }
  else if (IS ("strcp"))
  {
    size_t sn = 0;
    char *src = (char *)unhex (arg ("src"), &sn);
    int len = (int)argi ("len", 0);
    char *in = malloc (sn + 1); /* a string, or exactly the bytes given */
    if (sn)
      memcpy (in, src, sn);
    in[sn] = 0;
    if ((int)sn >= len)
    {
      char *x = malloc (len ? (size_t)len : 1);
      memcpy (x, in, (size_t)len);
      free (in);
      in = x;
    }
    char out[80];
    memset (out, 'Q', 80);
    const char *k = arg ("k");
    int rv = !strcmp (k, "clean") ? ms_strncpclean (out, in, len) : !strcmp (k, "tail") ? ms_strncpcleantail (out, in, len)
                                                                                        : ms_strncpopen (out, in, len);
    ki ("rv", rv);
    kh ("out", out, 80);
    free (in);
    free (src);
  }
  /* --------------------------------------------------------------- log */
  else if (IS ("lg_init"))
  {
    /* c: context index (absent = global), h1/h2 handler numbers or -1, p1/p2 prefixes, max */
    const char *c = arg ("c");
    int h1 = (int)argi ("h1", -1), h2 = (int)argi ("h2", -1);
    /* prefixes are kept by reference: leak on purpose */
    char *pf1 = args ("p1"), *pf2 = args ("p2");
    if (c)
    {
      MSLogParam *was = LP[atoi (c)];
      LP[atoi (c)] = ms_rloginit_l (was, h1 >= 0 ? skf[h1] : NULL, pf1, h2 >= 0 ? skf[h2] : NULL, pf2, (int)argi ("max", 0));
      ki ("ok", LP[atoi (c)] && (!was || was == LP[atoi (c)]));
    }
    else
      ms_rloginit (h1 >= 0 ? skf[h1] : NULL, pf1, h2 >= 0 ? skf[h2] : NULL, pf2, (int)argi ("max", 0));
    osink ();
  }
  else if (IS ("lg_log"))
  {
    const char *c = arg ("c");
    p1 = args ("msg");
    p2 = args ("fn");
    int rv = c ? ms_rlog_l (LP[atoi (c)], p2, (int)argi ("lv", 0), "%s", p1) : ms_rlog (p2, (int)argi ("lv", 0), "%s", p1);
    ki ("rv", rv);
    osink ();
  }
  else if (IS ("lg_emit"))
  {
    const char *c = arg ("c");
    ki ("rv", ms_rlog_emit (c ? LP[atoi (c)] : NULL, (int)argi ("n", 0), (int)argi ("ctx", 0)));
    osink ();
  }
  else if (IS ("lg_look"))
  {
    const char *c = arg ("c");
    int k = 0;
    of ("\"reg\":[");
    for (MSLogEntry *m = LP[atoi (c)]->registry.messages; m; m = m->next)
    {
      of ("%s[%d,", k++ ? "," : "", m->level);
      ohex (m->function, strnlen (m->function, sizeof m->function));
      of (",");
      ohex (m->message, strnlen (m->message, sizeof m->message));
      of ("]");
    }
    of ("],");
  }
  else if (IS ("lg_free"))
  {
    const char *c = arg ("c");
    ki ("rv", ms_rlog_free (c ? LP[atoi (c)] : NULL));
    osink ();
  }
  /* ----------------------------------------------------- extra headers */
  else if (IS ("eh_get"))
  {
    p1 = args ("ptr");
    char ty = *arg ("ty");
    if (ty == 'n')
    {
      double d = -12345.5;
      int rv = mseh_get_ptr_r (R[r], p1, &d, 'n', 0, argps ());
      ki ("rv", rv);
      kd ("d", d);
    }
    else if (ty == 'i')
    {
      int64_t d = -12345;
      int rv = mseh_get_ptr_r (R[r], p1, &d, 'i', 0, argps ());
      ki ("rv", rv);
      ki ("i", d);
    }
    else if (ty == 'b')
    {
      int d = -12345;
      int rv = mseh_get_ptr_r (R[r], p1, &d, 'b', 0, argps ());
      ki ("rv", rv);
      ki ("b", d);
    }
    else if (ty == 's')
    {
      int ml = (int)argi ("ml", 200);
      char *d = malloc ((size_t)ml);
      memset (d, 'Q', (size_t)ml);
      int rv = mseh_get_ptr_r (R[r], p1, d, 's', (uint32_t)ml, argps ());
      ki ("rv", rv);
      if (rv == 0)
        kh ("s", d, strnlen (d, (size_t)ml));
      else
        kh ("s", "", 0);
      free (d);
    }
    else
      ki ("rv", mseh_get_ptr_r (R[r], p1, NULL, 0, 0, argps ()));
    lg_l = 0;
  }
  else if (IS ("eh_set"))
  {
    p1 = args ("ptr");
    char ty = *arg ("ty");
    int rv = -99;
    if (ty == 'n')
    {
      double d = argd ("v", 0);
      rv = mseh_set_ptr_r (R[r], p1, &d, 'n', argps ());
    }
    else if (ty == 'i')
    {
      int64_t d = argi ("v", 0);
      rv = mseh_set_ptr_r (R[r], p1, &d, 'i', argps ());
    }
    else if (ty == 'b')
    {
      int d = (int)argi ("v", 0);
      rv = mseh_set_ptr_r (R[r], p1, &d, 'b', argps ());
    }
    else
    {
      p2 = args ("v");
      rv = mseh_set_ptr_r (R[r], p1, p2, ty, argps ());
    }
    ki ("rv", rv);
    ki ("xlen", R[r]->extralength);
    if (argi ("dump", 1))
      kh ("extra", R[r]->extra ? R[r]->extra : "", R[r]->extra ? R[r]->extralength : 0);
    lognote ();
  }
  else if (IS ("eh_setlong"))
  {
    /* set a string of n characters */
    p1 = args ("ptr");
    long long n = argi ("n", 0);
    p2 = malloc ((size_t)n + 1);
    memset (p2, 'x', (size_t)n);
    p2[n] = 0;
    ki ("rv", mseh_set_ptr_r (R[r], p1, p2, 's', argps ()));
    ki ("xlen", R[r]->extralength);
    kh ("extra", R[r]->extra ? R[r]->extra : "", R[r]->extra ? R[r]->extralength : 0);
    lg_l = 0;
  }
  else if (IS ("eh_ser"))
  {
    ki ("rv", mseh_serialize (R[r], argps ()));
    ki ("xlen", R[r]->extralength);
    kh ("extra", R[r]->extra ? R[r]->extra : "", R[r]->extra ? R[r]->extralength : 0);
    lg_l = 0;
  }
  else if (IS ("eh_free"))
  {
    mseh_free_parsestate (argps ());
    ki ("null", *argps () == NULL);
  }
  else if (IS ("eh_rep"))
  {
    p1 = args ("json");
    ki ("rv", mseh_replace (R[r], p1));
    ki ("xlen", R[r]->extralength);
    kh ("extra", R[r]->extra ? R[r]->extra : "", R[r]->extra ? R[r]->extralength : 0);
    lg_l = 0;
  }
  else if (IS ("eh_print"))
  {
    ou_l = 0;
    ki ("rv", mseh_print (R[r], (int)argi ("ind", 0)));
    outnote ();
  }
  else if (IS ("eh_ev"))
  {
    MSEHEventDetection e;
    memset (&e, 0, sizeof e);
    e.onsettime = NSTUNSET;
    e.medlookback = -1;
    e.medpickalgorithm = -1;
#define CPS(f, k) { char *z = args (k); if (z) { snprintf (e.f, sizeof e.f, "%s", z); free (z); } }
    CPS (type, "type") CPS (detector, "det") CPS (wave, "wave") CPS (units, "units")
    e.signalamplitude = argd ("amp", 0);
    e.signalperiod = argd ("per", 0);
    e.backgroundestimate = argd ("bg", 0);
    if (arg ("on"))
      e.onsettime = argi ("on", 0);
    if (arg ("snr"))
    {
      size_t n;
      unsigned char *u = unhex (arg ("snr"), &n);
      memcpy (e.medsnr, u, n < 6 ? n : 6);
      free (u);
    }
    e.medlookback = (int)argi ("lb", -1);
    e.medpickalgorithm = (int)argi ("pa", -1);
    p1 = args ("ptr");
    ki ("rv", mseh_add_event_detection_r (R[r], p1, &e, argps ()));
    kh ("extra", R[r]->extra ? R[r]->extra : "", R[r]->extra ? R[r]->extralength : 0);
    lg_l = 0;
  }
  else if (IS ("eh_cal"))
  {
    MSEHCalibration e;
    memset (&e, 0, sizeof e);
    e.begintime = e.endtime = NSTUNSET;
    CPS (type, "type") CPS (trigger, "trig") CPS (inputunits, "iu") CPS (amplituderange, "ar") CPS (inputchannel, "ic")
    CPS (coupling, "cp") CPS (rolloff, "ro") CPS (noise, "no")
    if (arg ("bt")) e.begintime = argi ("bt", 0);
    if (arg ("et")) e.endtime = argi ("et", 0);
    e.steps = (int)argi ("steps", -1);
    e.firstpulsepositive = (int)argi ("fpp", -1);
    e.alternatesign = (int)argi ("as", -1);
    e.continued = (int)argi ("cont", -1);
    e.amplitude = argd ("amp", 0);
    e.duration = argd ("dur", 0);
    e.sineperiod = argd ("sp", 0);
    e.stepbetween = argd ("sb", 0);
    e.refamplitude = argd ("ra", 0);
    p1 = args ("ptr");
    ki ("rv", mseh_add_calibration_r (R[r], p1, &e, argps ()));
    kh ("extra", R[r]->extra ? R[r]->extra : "", R[r]->extra ? R[r]->extralength : 0);
    lg_l = 0;
  }
  else if (IS ("eh_tex"))
  {
    MSEHTimingException e;
    memset (&e, 0, sizeof e);
    e.time = NSTUNSET;
    CPS (type, "type") CPS (clockstatus, "cs")
    if (arg ("tm")) e.time = argi ("tm", 0);
    e.vcocorrection = (float)argd ("vco", -1);
    e.usec = (int)argi ("us", 0);
    e.receptionquality = (int)argi ("rq", -1);
    e.count = (uint32_t)argi ("cnt", 0);
    p1 = args ("ptr");
    ki ("rv", mseh_add_timing_exception_r (R[r], p1, &e, argps ()));
    kh ("extra", R[r]->extra ? R[r]->extra : "", R[r]->extra ? R[r]->extralength : 0);
    lg_l = 0;
  }
  else if (IS ("eh_rec"))
  {
    MSEHRecenter e;
    memset (&e, 0, sizeof e);
    e.begintime = e.endtime = NSTUNSET;
    CPS (type, "type") CPS (trigger, "trig")
    if (arg ("bt")) e.begintime = argi ("bt", 0);
    if (arg ("et")) e.endtime = argi ("et", 0);
    p1 = args ("ptr");
    ki ("rv", mseh_add_recenter_r (R[r], p1, &e, argps ()));
    kh ("extra", R[r]->extra ? R[r]->extra : "", R[r]->extra ? R[r]->extralength : 0);
    lg_l = 0;
  }
  else if (IS ("msi"))
  {
    /* run the command: a=<hex>,<hex>,... in=<path of standard input> env=<NAME=VALUE> files=<hex>,... */
    char *av[64], *sp, *tok;
    int ac = 0, st = 0;
    char exe[4096];
    ssize_t el = readlink ("/proc/self/exe", exe, sizeof (exe) - 8);
    exe[el > 0 ? el : 0] = 0;
    strcpy (strrchr (exe, '/') + 1, "msi");
    av[ac++] = exe;
    char *list = strdup (arg ("a") ? arg ("a") : "");
    for (tok = strtok_r (list, ",", &sp); tok && ac < 63; tok = strtok_r (NULL, ",", &sp))
    {
      size_t n = strcmp (tok, "-") ? strlen (tok) / 2 : 0;
      av[ac] = malloc (n + 1);
      for (size_t i = 0; i < n; i++)
      {
        unsigned v = 0;
        sscanf (tok + 2 * i, "%2x", &v);
        av[ac][i] = (char)v;
      }
      av[ac++][n] = 0;
    }
    av[ac] = NULL;
    p1 = arg ("in") ? args ("in") : NULL;
    p2 = arg ("env") ? args ("env") : NULL;
    unlink (".out");
    unlink (".err");
    time_t day0 = time (NULL);
    pid_t pid = fork ();
    if (pid == 0)
    {
      int i = open (p1 ? p1 : "/dev/null", O_RDONLY);
      int o = open (".out", O_WRONLY | O_CREAT | O_TRUNC, 0600), e = open (".err", O_WRONLY | O_CREAT | O_TRUNC, 0600);
      if (arg ("full"))
        o = open ("/dev/full", O_WRONLY);
      dup2 (i, 0);
      dup2 (o, 1);
      dup2 (e, 2);
      for (int fd = 3; fd < 64; fd++)
        close (fd);
      setenv ("TZ", "UTC", 1);
      if (p2)
        putenv (p2);
      alarm (10);
      execv (exe, av);
      _exit (127);
    }
    while (waitpid (pid, &st, 0) < 0 && errno == EINTR)
      ;
    ki ("exit", WIFEXITED (st) ? WEXITSTATUS (st) : -WTERMSIG (st));
    ki ("t0", day0);
    ki ("t1", time (NULL));
    catfile ("out", ".out");
    catfile ("err", ".err");
    free (list);
    for (int i = 1; i < ac; i++)
      free (av[i]);
    if (arg ("files"))
    {
      char *fl = strdup (arg ("files")), *sq;
      of ("\"files\":[");
      int k = 0;
      for (tok = strtok_r (fl, ",", &sq); tok; tok = strtok_r (NULL, ",", &sq))
      {
        char path[300];
        size_t n = strlen (tok) / 2;
        for (size_t i = 0; i < n && i < 299; i++)
        {
          unsigned v = 0;
          sscanf (tok + 2 * i, "%2x", &v);
          path[i] = (char)v;
        }
        path[n < 299 ? n : 299] = 0;
        of (k++ ? "," : "");
        catfile (NULL, path);
        unlink (path);
      }
      of ("],");
      free (fl);
    }
  }
  else if (IS ("str"))
  {
    const char *e = ms_encodingstr ((uint8_t)argi ("enc", 0)), *x = ms_errorstr ((int)argi ("err", 0));
    kh ("e", e ? e : "", e ? strlen (e) : 0);
    kh ("x", x ? x : "", x ? strlen (x) : 0);
  }
  else
    of ("\"badop\":1,");

  free (p1);
  free (p2);
}
