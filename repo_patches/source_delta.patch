From e8e3abcf2d7a201a50ff87a557121bd008b43845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:40 +0000
Subject: [PATCH 01/47] fix: VLU: report a line that does not fit the buffer
 instead of looping or claiming EOF

---
 vlu.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vlu.c b/vlu.c
index 3c32a87..cb2c79b 100644
--- a/vlu.c
+++ b/vlu.c
@@ -128,6 +128,8 @@ VLU_Fd(struct vlu *l, int fd)
 	int i;
 
 	CHECK_OBJ_NOTNULL(l, LINEUP_MAGIC);
+	if (l->bufp == l->bufl)		/* Line does not fit in buffer */
+		return (-1);
 	i = read(fd, l->buf + l->bufp, l->bufl - l->bufp);
 	if (i == 0)
 		return (-2);
@@ -165,6 +167,8 @@ VLU_Feed(struct vlu *l, const char *ptr, int len)
 		u = len;
 		if (u > l->bufl - l->bufp)
 			u = l->bufl - l->bufp;
+		if (u == 0)		/* Line does not fit in buffer */
+			return (-1);
 		memcpy(l->buf + l->bufp, ptr, u);
 		len -= u;
 		ptr += u;
-- 
2.43.0


From 1e2a19ebf40346a6f39b0854ebd19401ccae5f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:19 +0000
Subject: [PATCH 02/47] fix: config: section names are case-insensitive, also
 when looking for duplicates

---
 config.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config.c b/config.c
index 925cc65..ff12ef1 100644
--- a/config.c
+++ b/config.c
@@ -106,7 +106,7 @@ config_parse(struct config *cfg)
 				return ("Section colon trouble");
 			*r = '\0';
 			VTAILQ_FOREACH(sc, &cfg->sections, list)
-				if (!strcmp(sc->name, p))
+				if (!strcasecmp(sc->name, p))
 					return ("Duplicate sections");
 			ALLOC_OBJ(sc, SECTION_MAGIC);
 			AN(sc);
-- 
2.43.0


From 3178009b452af6b0d5853873e307ff0a083be031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:54 +0000
Subject: [PATCH 03/47] fix: VNUM: refuse negative and out of range numbers

---
 vnum.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/vnum.c b/vnum.c
index 052f95a..3625940 100644
--- a/vnum.c
+++ b/vnum.c
@@ -43,6 +43,10 @@ static const char err_miss_num[] = "Missing number";
 static const char err_invalid_num[] = "Invalid number";
 static const char err_abs_req[] = "Absolute number required";
 static const char err_invalid_suff[] = "Invalid suffix";
+static const char err_range[] = "Number out of range";
+
+/* The first number too big for (u)intmax_t and off_t */
+#define VNUM_LIMIT	9223372036854775808.0
 
 /**********************************************************************
  * Convert (all of!) a string to a floating point number, and if we can
@@ -108,8 +112,12 @@ VNUM_2bytes(const char *p, uintmax_t *r, uintmax_t rel)
 	fval = VNUMpfx(p, &end);
 	if (isnan(fval))
 		return (err_invalid_num);
+	if (fval < 0.)
+		return (err_range);
 
 	if (end == NULL) {
+		if (fval >= VNUM_LIMIT)
+			return (err_range);
 		*r = (uintmax_t)fval;
 		return (NULL);
 	}
@@ -156,6 +164,9 @@ VNUM_2bytes(const char *p, uintmax_t *r, uintmax_t rel)
 			return (err_invalid_suff);
 	}
 
-	*r = (uintmax_t)round(fval);
+	fval = round(fval);
+	if (fval >= VNUM_LIMIT)
+		return (err_range);
+	*r = (uintmax_t)fval;
 	return (NULL);
 }
-- 
2.43.0


From 8fef6089d8b51adb18c2d071a7ab89ccf873440a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:14 +0000
Subject: [PATCH 04/47] fix: a forced ID may be given with its prefix

---
 ident.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ident.c b/ident.c
index 1e77e19..48e045c 100644
--- a/ident.c
+++ b/ident.c
@@ -86,7 +86,8 @@ Ident_Set(const struct aardwarc *aa, struct header *hdr,
 {
 	char id[SHA256_DIGEST_STRING_LENGTH];
 
-	assert(input == NULL || IDX_Valid_Id(aa, input, NULL) == NULL);
+	if (input != NULL)
+		AZ(IDX_Valid_Id(aa, input, &input));
 
 	if (input == NULL) {
 		Ident_Create(aa, hdr, digest, id);
-- 
2.43.0


From 8b6c1c885e67bd8286b01f39d8650dfb8bd6db90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:49 +0000
Subject: [PATCH 05/47] fix: Header_Get_Number: a number too big is not a
 number

---
 header.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/header.c b/header.c
index e7f84d3..11354a1 100644
--- a/header.c
+++ b/header.c
@@ -230,6 +230,8 @@ Header_Get_Number(const struct header *hd, const char *name)
 	for (; *p != '\0'; p++) {
 		if (*p < '0' || *p > '9')
 			return (-1);
+		if (r > (INTMAX_MAX - (*p - '0')) / 10)
+			return (-1);
 		r *= 10;
 		r += *p - '0';
 	}
-- 
2.43.0


From 58a7adccf6f96d80f7c0c4fa4763da49728ad64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:51 +0000
Subject: [PATCH 06/47] fix: proto: an event callback may disable or delete any
 event

---
 proto.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/proto.c b/proto.c
index 968017e..6ef9079 100644
--- a/proto.c
+++ b/proto.c
@@ -130,7 +130,7 @@ proto_dispatch_evs(void)
 {
 	struct pollfd *fds = NULL;
 	int nfds = 0, idx, i;
-	struct ev *ev, *ev2;
+	struct ev *ev;
 
 	while (!VTAILQ_EMPTY(&evs)) {
 		if (nfds < nevs) {
@@ -152,11 +152,19 @@ proto_dispatch_evs(void)
 		AN(idx);
 		i = poll(fds, idx, -1);
 		assert (i > 0);
-		VTAILQ_FOREACH_SAFE(ev, &evs, list, ev2) {
-			if (ev->idx < 0 || !fds[ev->idx].revents)
-				continue;
-			ev->func(ev->fd, ev->priv, fds[ev->idx].revents);
-		}
+		do {
+			/* Any callback can disable or delete any event */
+			VTAILQ_FOREACH(ev, &evs, list) {
+				if (!ev->enable || ev->idx < 0)
+					continue;
+				idx = ev->idx;
+				ev->idx = -1;
+				if (!fds[idx].revents)
+					continue;
+				ev->func(ev->fd, ev->priv, fds[idx].revents);
+				break;
+			}
+		} while (ev != NULL);
 	}
 	free(fds);
 }
-- 
2.43.0


From 5886a7dfb86dd1148e25c5626857deddfe872696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:57 +0000
Subject: [PATCH 07/47] fix: index: position lookups in the sorted index
 correctly

The bucket table before the records was not taken into account, the
record count was truncated to 32 bits, a negative position made lookups
abort, and an empty bucket positioned past the end of the file.
---
 index.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/index.c b/index.c
index 71a1e23..181d900 100644
--- a/index.c
+++ b/index.c
@@ -251,6 +251,7 @@ uint32_t silo, uint64_t offset, const char *cont)
 /**********************************************************************/
 
 #define INDEX_ID	0x4161L
+#define BUCKET_EMPTY	(1LL << 31)
 
 struct bucket {
 	unsigned		magic;
@@ -303,7 +304,7 @@ bucket_new(off_t nrec_estimate)
 
 	bp->buckets = calloc(sizeof *bp->buckets, bp->nbucket);
 	for (u = 0; u < bp->nbucket; u++)
-		bp->buckets[u] = 1ULL << 31;
+		bp->buckets[u] = BUCKET_EMPTY;
 	AN(bp->buckets);
 
 	return (bp);
@@ -357,7 +358,7 @@ bucket_seek(const void *rec, FILE *f)
 	long bucket;
 	uint64_t id;
 	unsigned nbucket;
-	unsigned nrec;
+	uint64_t nrec;
 	int64_t off;
 
 	AN(rec);
@@ -378,11 +379,17 @@ bucket_seek(const void *rec, FILE *f)
 		AZ(fseeko(f, bucket * 8, SEEK_SET));
 		assert(1 == fread(buf, sizeof buf, 1, f));
 		off = (int64_t)be64dec(buf);
-		frac += off;
-		AZ(fseeko(f, (long)frac * 32, SEEK_SET));
+		if (off == BUCKET_EMPTY)
+			off = 0;	// No hint, start from the beginning
+		else
+			off += (int64_t)frac;
+		if (off < 0)
+			off = 0;
 	} else {
-		AZ(fseeko(f, 1L << (nbucket + 3), SEEK_SET));
+		off = 0;
 	}
+	/* The records start after the buckets */
+	AZ(fseeko(f, (1L << (nbucket + 3)) + off * 32, SEEK_SET));
 }
 
 /*
-- 
2.43.0


From e8ab1b1317e12075714056b2e52f1acdd4803764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:30 +0000
Subject: [PATCH 08/47] fix: housekeeping: merge a left-over snapshot also when
 there is no appendix

---
 index.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/index.c b/index.c
index 181d900..7e143fd 100644
--- a/index.c
+++ b/index.c
@@ -575,10 +575,10 @@ idx_attempt_merge(const struct aardwarc *aa, uint8_t *spc,
 	i = link(VSB_data(vsba), VSB_data(vsbh));
 	if (i == 0) {
 		AZ(unlink(VSB_data(vsba)));
-	} else if (errno == ENOENT) {
+	} else if (errno == ENOENT && access(VSB_data(vsbh), F_OK)) {
 		fprintf(stderr, "No appendix to housekeep\n");
 		return (0);
-	} else if (errno == EEXIST) {
+	} else if (errno == EEXIST || errno == ENOENT) {
 		fprintf(stderr,
 		    "Found existing housekeeping snapshot\n");
 		fprintf(stderr,
-- 
2.43.0


From a5637652bbf3760cff839844e4cd6ace4a8f470c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:30 +0000
Subject: [PATCH 09/47] fix: housekeeping: do not free the sort buffer twice

---
 index.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/index.c b/index.c
index 7e143fd..982d3d1 100644
--- a/index.c
+++ b/index.c
@@ -596,7 +596,6 @@ idx_attempt_merge(const struct aardwarc *aa, uint8_t *spc,
 		fprintf(stderr,
 		    "Error opening housekeeping snapshot: %s\n",
 		    strerror(errno));
-		free(spc);
 		return (-1);
 	}
 
-- 
2.43.0


From 1f63857c7cc0bdab630a9f2d6070c9819697fc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:30 +0000
Subject: [PATCH 10/47] fix: housekeeping: cope with short reads of the
 snapshot

---
 index.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/index.c b/index.c
index 982d3d1..e999e8f 100644
--- a/index.c
+++ b/index.c
@@ -569,7 +569,7 @@ idx_attempt_merge(const struct aardwarc *aa, uint8_t *spc,
 {
 	int retval = 0;
 	int fd;
-	ssize_t sz;
+	ssize_t sz, rd;
 	int i;
 
 	i = link(VSB_data(vsba), VSB_data(vsbh));
@@ -600,13 +600,18 @@ idx_attempt_merge(const struct aardwarc *aa, uint8_t *spc,
 	}
 
 	do {
-		sz = read(fd, spc, aa->index_sort_size);
-		if (sz < 0) {
-			fprintf(stderr,
-			    "Read error on housekeeping snapshot: %s",
-			    strerror(errno));
-			AZ(close(fd));
-			return (-1);
+		/* Reads may return short */
+		for (sz = 0; sz < (ssize_t)aa->index_sort_size; sz += rd) {
+			rd = read(fd, spc + sz, aa->index_sort_size - sz);
+			if (rd < 0) {
+				fprintf(stderr, "Read error on "
+				    "housekeeping snapshot: %s",
+				    strerror(errno));
+				AZ(close(fd));
+				return (-1);
+			}
+			if (rd == 0)
+				break;
 		}
 		if (sz == 0)
 			break;
-- 
2.43.0


From 316419f8e1236b6a4fd5e24321cb518417c81bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:04 +0000
Subject: [PATCH 11/47] fix: index: look in the files in the order housekeeping
 moves entries

---
 index.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/index.c b/index.c
index e999e8f..60ca4e6 100644
--- a/index.c
+++ b/index.c
@@ -401,9 +401,10 @@ static const struct idxfiles {
 	const char	*suff;
 	int		sorted;
 } idxfiles[] = {
-	{ SUFF_SORTED,		1 },
+	/* In the order housekeeping moves entries, so none can be missed */
 	{ SUFF_APPENDIX,	0 },
 	{ SUFF_HOUSEKEEP,	0 },
+	{ SUFF_SORTED,		1 },
 	{ NULL, 0}
 };
 
-- 
2.43.0


From 29648b48726a2c6cb1ec6e10143feba7e5945fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:51 +0000
Subject: [PATCH 12/47] fix: index: an insertion racing with housekeeping must
 not get lost

---
 index.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/index.c b/index.c
index 60ca4e6..1029cef 100644
--- a/index.c
+++ b/index.c
@@ -136,6 +136,7 @@
 #include <stdlib.h>
 
 #include <sys/endian.h>
+#include <sys/stat.h>
 
 #include "vdef.h"
 
@@ -227,6 +228,7 @@ uint32_t silo, uint64_t offset, const char *cont)
 {
 	uint8_t rec[32];
 	int fd, i;
+	struct stat st1, st2;
 	struct vsb *vsb;
 
 	assert(aa->id_size >= 16);
@@ -240,11 +242,19 @@ uint32_t silo, uint64_t offset, const char *cont)
 		idx_key_bin(rec + 28, cont, 4);
 
 	vsb = idx_filename(aa, "appendix");
-	fd = open(VSB_data(vsb), O_WRONLY | O_CREAT | O_APPEND, 0644);
-	assert(fd >= 0);
-	i = write(fd, rec, sizeof rec);
-	assert(i == (int)sizeof rec);
-	assert(close(fd) == 0);
+	do {
+		fd = open(VSB_data(vsb), O_WRONLY | O_CREAT | O_APPEND, 0644);
+		assert(fd >= 0);
+		i = write(fd, rec, sizeof rec);
+		assert(i == (int)sizeof rec);
+		/*
+		 * If housekeeping took the file away after we opened it,
+		 * it may not have seen our record: write it once more.
+		 */
+		AZ(fstat(fd, &st1));
+		i = stat(VSB_data(vsb), &st2);
+		assert(close(fd) == 0);
+	} while (i || st1.st_dev != st2.st_dev || st1.st_ino != st2.st_ino);
 	VSB_delete(vsb);
 }
 
-- 
2.43.0


From 04e9fdf9bb3b7393697ce2c71de8891d7ade2e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:44 +0000
Subject: [PATCH 13/47] fix: housekeeping: never replace a sorted index that
 could not be opened

---
 index.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/index.c b/index.c
index 1029cef..7d58795 100644
--- a/index.c
+++ b/index.c
@@ -510,6 +510,7 @@ idx_merge(const struct aardwarc *aa, const uint8_t *ptr, ssize_t len)
 
 	vsb1 = idx_filename(aa, SUFF_SORTED);
 	f1 = fopen(VSB_data(vsb1), "r");
+	assert(f1 != NULL || errno == ENOENT);
 
 	bprintf(buf, "tmp.%jd", (intmax_t)getpid());
 	vsb2 = idx_filename(aa, buf);
-- 
2.43.0


From 46e5945cdc64693208bc32410ec7c0622546ca6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:03 +0000
Subject: [PATCH 14/47] fix: getjob: other records may share an ID or its
 prefix

---
 getjob.c | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/getjob.c b/getjob.c
index 846881e..43591a2 100644
--- a/getjob.c
+++ b/getjob.c
@@ -83,17 +83,14 @@ getjob_iter(void *priv, const char *key,
 	(void)key;
 
 	rs = Rsilo_Open(gj->aa, NULL, silo, offset);
-	AN(rs);
+	if (rs == NULL) {
+		gj->err = "Index Inconsistency: Silo not found.";
+		return (0);
+	}
 	hdr = Rsilo_ReadHeader(rs);
 	AN(hdr);
 
 	p = Header_Get_Id(hdr);
-	if ((flag & IDX_F_WARCINFO) && !strcasecmp(p, gj->id)) {
-		gj->err = "ID is warcinfo segment";
-		Header_Destroy(&hdr);
-		Rsilo_Close(&rs);
-		return (-1);
-	}
 	gjs = VTAILQ_LAST(&gj->segs, getjobseg_head);
 	if (gjs == NULL) {
 		if (strcasecmp(p, gj->id)) {
@@ -101,15 +98,30 @@ getjob_iter(void *priv, const char *key,
 			Rsilo_Close(&rs);
 			return (0);
 		}
+		/*
+		 * A warcinfo or continuation segment may have the same
+		 * content, and thus the same ID, as the object we look for.
+		 */
+		if (flag & IDX_F_WARCINFO) {
+			gj->err = "ID is warcinfo segment";
+			Header_Destroy(&hdr);
+			Rsilo_Close(&rs);
+			return (0);
+		}
 		if ((flag & IDX_F_SEGMENTED) && !(flag & IDX_F_FIRSTSEG)) {
 			gj->err = "ID is continuation segment";
 			Header_Destroy(&hdr);
 			Rsilo_Close(&rs);
-			return (-1);
+			return (0);
 		}
 	} else {
 		p = Header_Get(hdr, "WARC-Segment-Origin-ID");
-		AN(p);
+		if (p == NULL) {
+			/* Not a continuation segment at all */
+			Header_Destroy(&hdr);
+			Rsilo_Close(&rs);
+			return (0);
+		}
 		assert(p[0] == '<');
 		p++;
 		assert(!memcmp(p, gj->aa->prefix, strlen(gj->aa->prefix)));
@@ -129,12 +141,16 @@ getjob_iter(void *priv, const char *key,
 		assert(im >= 0);
 		segno = im;
 		if (segno != gjs->segno + 1) {
+			/*
+			 * Segments with the same content have the same ID,
+			 * only the segment number tells them apart.
+			 */
 			gj->err =
 			    "Index Inconsistency: "
 			    "Continuation out of order.";
 			Header_Destroy(&hdr);
 			Rsilo_Close(&rs);
-			return (-1);
+			return (0);
 		}
 	}
 
-- 
2.43.0


From e947de5fa7294cf874858983c80ec7bbeb208294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:09 +0000
Subject: [PATCH 15/47] fix: getjob: look for a complete set of segments

---
 getjob.c | 108 +++++++++++++++++++++++++++++++++++--------------------
 1 file changed, 70 insertions(+), 38 deletions(-)

diff --git a/getjob.c b/getjob.c
index 43591a2..57b77a3 100644
--- a/getjob.c
+++ b/getjob.c
@@ -65,6 +65,7 @@ struct getjob {
 
 	struct getjobseg_head	segs;
 	int			nsegs;
+	int			skip;
 };
 
 static int v_matchproto_(idx_iter_f)
@@ -154,6 +155,13 @@ getjob_iter(void *priv, const char *key,
 		}
 	}
 
+	if (gj->skip > 0) {
+		gj->skip--;
+		Header_Destroy(&hdr);
+		Rsilo_Close(&rs);
+		return (0);
+	}
+
 	ALLOC_OBJ(gjs, GETJOBSEG_MAGIC);
 	AN(gjs);
 
@@ -168,37 +176,79 @@ getjob_iter(void *priv, const char *key,
 	return(1);
 }
 
+static void
+getjob_pop(struct getjob *gj)
+{
+	struct getjobseg *gjs;
+
+	gjs = VTAILQ_LAST(&gj->segs, getjobseg_head);
+	CHECK_OBJ_NOTNULL(gjs, GETJOBSEG_MAGIC);
+	VTAILQ_REMOVE(&gj->segs, gjs, list);
+	gj->nsegs--;
+	if (gjs->hdr)
+		Header_Destroy(&gjs->hdr);
+	if (gjs->rs)
+		Rsilo_Close(&gjs->rs);
+	REPLACE(gjs->idx_cont, NULL);
+	FREE_OBJ(gjs);
+}
+
 void
 GetJob_Delete(struct getjob **pp)
 {
 	struct getjob *gj;
-	struct getjobseg *gjs;
 
 	AN(pp);
 	CAST_OBJ_NOTNULL(gj, *pp, GETJOB_MAGIC);
 	*pp = NULL;
 
-	while (1) {
-		gjs = VTAILQ_FIRST(&gj->segs);
-		if (gjs == NULL)
-			break;
-		VTAILQ_REMOVE(&gj->segs, gjs, list);
-		if (gjs->hdr)
-			Header_Destroy(&gjs->hdr);
-		if (gjs->rs)
-			Rsilo_Close(&gjs->rs);
-		REPLACE(gjs->idx_cont, NULL);
-		FREE_OBJ(gjs);
-	}
+	while (!VTAILQ_EMPTY(&gj->segs))
+		getjob_pop(gj);
 	FREE_OBJ(gj);
 }
 
+/*
+ * Find the rest of the segments, starting with the one indexed under nid.
+ *
+ * There can be more than one candidate, for instance if storing the object
+ * was interrupted and later repeated, so keep looking until we have found
+ * a complete set.
+ */
+
+static int
+getjob_chain(struct getjob *gj, const char *nid)
+{
+	struct getjobseg *gjs;
+	int n;
+
+	for (n = 0; ; n++) {
+		gj->skip = n;
+		if (IDX_Iter(gj->aa, nid, getjob_iter, gj) <= 0)
+			return (0);
+		gjs = VTAILQ_LAST(&gj->segs, getjobseg_head);
+		CHECK_OBJ_NOTNULL(gjs, GETJOBSEG_MAGIC);
+
+		AZ(gjs->idx_flag & IDX_F_WARCINFO);
+
+		if (!(gjs->idx_flag & IDX_F_SEGMENTED)) {
+			AZ(gjs->idx_flag & IDX_F_FIRSTSEG);
+			AZ(gjs->idx_flag & IDX_F_LASTSEG);
+			AZ(strcmp(gjs->idx_cont, "00000000"));
+			assert(VTAILQ_FIRST(&gj->segs) == gjs);
+			return (1);
+		}
+		if (gjs->idx_flag & IDX_F_LASTSEG)
+			return (1);
+		if (getjob_chain(gj, gjs->idx_cont))
+			return (1);
+		getjob_pop(gj);
+	}
+}
+
 struct getjob *
 GetJob_New(struct aardwarc *aa, const char *id, struct vsb *vsb)
 {
-	int i;
 	struct getjob *gj;
-	struct getjobseg *gjs;
 	const char *nid, *e;
 
 	e = IDX_Valid_Id(aa, id, &nid);
@@ -215,29 +265,11 @@ GetJob_New(struct aardwarc *aa, const char *id, struct vsb *vsb)
 	gj->vsb = vsb;
 	gj->err = "ID not found";
 
-	while (1) {
-		i = IDX_Iter(aa, nid, getjob_iter, gj);
-		if (i <= 0) {
-			AN (gj->err);
-			VSB_printf(vsb, "%s", gj->err);
-			GetJob_Delete(&gj);
-			return (NULL);
-		}
-		gjs = VTAILQ_LAST(&gj->segs, getjobseg_head);
-		CHECK_OBJ_NOTNULL(gjs, GETJOBSEG_MAGIC);
-
-		AZ(gjs->idx_flag & IDX_F_WARCINFO);
-
-		if (!(gjs->idx_flag & IDX_F_SEGMENTED)) {
-			AZ(gjs->idx_flag & IDX_F_FIRSTSEG);
-			AZ(gjs->idx_flag & IDX_F_LASTSEG);
-			AZ(strcmp(gjs->idx_cont, "00000000"));
-			assert(VTAILQ_FIRST(&gj->segs) == gjs);
-			break;
-		}
-		if (gjs->idx_flag & IDX_F_LASTSEG)
-			break;
-		nid = gjs->idx_cont;
+	if (!getjob_chain(gj, nid)) {
+		AN(gj->err);
+		VSB_printf(vsb, "%s", gj->err);
+		GetJob_Delete(&gj);
+		return (NULL);
 	}
 	return (gj);
 }
-- 
2.43.0


From e9996f989b7aeb0caeccb3b737b4308387aa65c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:36 +0000
Subject: [PATCH 16/47] fix: segjob: reserve enough room for the lengths of
 highly compressible objects

---
 segjob.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/segjob.c b/segjob.c
index 731f373..831fc35 100644
--- a/segjob.c
+++ b/segjob.c
@@ -125,12 +125,13 @@ segjob_newseg(struct segjob *sj)
 	Header_Set(sg->hdr, "WARC-Block-Digest", "sha256:%s", digest);
 
 	/*
-	 * We reserve two extra digits to allow up to 99% compression.
+	 * We reserve four extra digits because the object can be up to
+	 * 1032 times bigger than its compressed form.
 	 * This also covers the case where data is already gzip'ed and
 	 * the C-L-G is longer than the C-L
 	 */
 	im = sj->aa->silo_maxsize;
-	Header_Set(sg->hdr, "Content-Length", "00%jd", im);
+	Header_Set(sg->hdr, "Content-Length", "0000%jd", im);
 
 	if (sg->segno == 1) {
 		pad += Header_Len("WARC-Segment-Number", "1");
@@ -142,7 +143,7 @@ segjob_newseg(struct segjob *sj)
 
 		/* In case this becomes the last segment */
 		im = sj->size + sj->aa->silo_maxsize;
-		pad += Header_Len("WARC-Segment-Total-Length", "%00jd", im);
+		pad += Header_Len("WARC-Segment-Total-Length", "0000%jd", im);
 	}
 
 	REPLACE(digest, NULL);
-- 
2.43.0


From c182a32f75efcf9998e43629ad13265fdfcd8f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:50 +0000
Subject: [PATCH 17/47] fix: wsilo: put the silo in place before the index
 refers to it

Killed between the two, a store left index entries for a silo which did
not exist, on which byid and audit abort, and which later silos with the
same number did not match.
---
 wsilo.c | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/wsilo.c b/wsilo.c
index 534f1c6..a6b2a8b 100644
--- a/wsilo.c
+++ b/wsilo.c
@@ -461,24 +461,34 @@ silo_attempt_append(const struct wsilo *sl, uint32_t silono,
 
 /* Commit a silo ------------------------------------------------------*/
 
-void
-Wsilo_Install(struct wsilo **slp)
+static void
+wsilo_install(const struct wsilo *sl)
 {
-	struct wsilo *sl;
-
-	TAKE_OBJ_NOTNULL(sl, slp, WSILO_MAGIC);
 
-	IDX_Insert(sl->aa,
-	    sl->warcinfo_id, IDX_F_WARCINFO, sl->silo_no, 0, NULL);
 	/*
 	 * We don't use rename(2) because it wouldn't fail if the
 	 * destination silo already exists.
+	 *
+	 * The silo must be in place before anything is put in the index,
+	 * or an interruption would leave index entries for a silo which
+	 * does not exist, or worse: which comes to hold something else.
 	 */
 	AZ(link(VSB_data(sl->hold_fn), VSB_data(sl->silo_fn)));
 	if (sl->silo_no == sl->aa->cache_first_non_silo) {
 		sl->aa->cache_first_non_silo++;
 		AardWARC_WriteCache(sl->aa);
 	}
+	IDX_Insert(sl->aa,
+	    sl->warcinfo_id, IDX_F_WARCINFO, sl->silo_no, 0, NULL);
+}
+
+void
+Wsilo_Install(struct wsilo **slp)
+{
+	struct wsilo *sl;
+
+	TAKE_OBJ_NOTNULL(sl, slp, WSILO_MAGIC);
+	wsilo_install(sl);
 	wsilo_delete(sl);
 }
 
@@ -561,8 +571,9 @@ Wsilo_Commit(struct wsilo **slp, int segd, const char *id, const char *rid)
 		if (rid == NULL)
 			sl->idx |= IDX_F_LASTSEG;
 	}
+	wsilo_install(sl);
 	IDX_Insert(aa, id, sl->idx, sl->silo_no, sl->hd_start, rid);
-	Wsilo_Install(&sl);
+	wsilo_delete(sl);
 }
 
 void
-- 
2.43.0


From 559e2535dc6c6be9e805c459ecc083c2c405fe86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:16 +0000
Subject: [PATCH 18/47] fix: store: do not store what was read before a read
 error

An error while reading the input was taken for its end, and the
truncated object stored and reported as success.
---
 aardwarc.h   |  1 +
 main_store.c |  5 +++++
 segjob.c     | 10 ++++++++++
 3 files changed, 16 insertions(+)

diff --git a/aardwarc.h b/aardwarc.h
index 2413f47..59dbbb7 100644
--- a/aardwarc.h
+++ b/aardwarc.h
@@ -193,6 +193,7 @@ struct segjob *SegJob_New(struct aardwarc *, const struct header *,
     const char *);
 void SegJob_Feed(struct segjob *, const void *ptr, ssize_t len);
 char *SegJob_Commit(struct segjob *);
+void SegJob_Abandon(struct segjob *);
 
 /* silo.c */
 struct vsb *Silo_Filename(const struct aardwarc *, unsigned number, int hold);
diff --git a/main_store.c b/main_store.c
index 79236b7..e91783f 100644
--- a/main_store.c
+++ b/main_store.c
@@ -267,6 +267,11 @@ main_store(const char *a0, struct aardwarc *aa, int argc, char **argv)
 		if (rlen > 0)
 			SegJob_Feed(sj, ibuf_ptr, rlen);
 	} while (rlen > 0);
+	if (rlen < 0) {
+		fprintf(stderr, "Input file read error: %s\n", strerror(errno));
+		SegJob_Abandon(sj);
+		exit(1);
+	}
 
 	id = SegJob_Commit(sj);
 	printf("%s\n", id);
diff --git a/segjob.c b/segjob.c
index 831fc35..35f55e5 100644
--- a/segjob.c
+++ b/segjob.c
@@ -386,3 +386,13 @@ SegJob_Commit(struct segjob *sj)
 	}
 	return (id);
 }
+
+void
+SegJob_Abandon(struct segjob *sj)
+{
+
+	CHECK_OBJ_NOTNULL(sj, SEGJOB_MAGIC);
+	if (sj->cur_seg != NULL)
+		(void)deflateEnd(sj->gz);
+	segjob_destroy(sj);
+}
-- 
2.43.0


From 169d956feb03c63a2b4e1e224fb02927a1849c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:02 +0000
Subject: [PATCH 19/47] fix: wsilo: look for the silo again once we hold it

Another process may create the silo and drop its hold between our looking
for the one and taking the other, in which case we aborted when the silo
was to be installed.
---
 wsilo.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/wsilo.c b/wsilo.c
index a6b2a8b..1807145 100644
--- a/wsilo.c
+++ b/wsilo.c
@@ -167,6 +167,15 @@ Wsilo_New(struct aardwarc *aa, uint32_t silono)
 		exit(2);
 	}
 
+	if (!stat(VSB_data(vsb), &st)) {
+		/* Somebody else created it before we got hold of it */
+		AZ(close(fd));
+		AZ(unlink(VSB_data(vsb2)));
+		VSB_delete(vsb);
+		VSB_delete(vsb2);
+		return (NULL);
+	}
+
 	ALLOC_OBJ(sl, WSILO_MAGIC);
 	if (sl == NULL)
 		return (NULL);
-- 
2.43.0


From 34f22d4d7656c98082e3872039620b905ff9292c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:35 +0000
Subject: [PATCH 20/47] fix: silo: iterate over all silos, and pass the
 visitor's value on

The iteration ended at the first missing directory, so silos beyond a gap
were not reindexed or rebuilt, and it always returned zero.
---
 silo.c | 65 ++++++++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 50 insertions(+), 15 deletions(-)

diff --git a/silo.c b/silo.c
index a99e7b1..2d76b0a 100644
--- a/silo.c
+++ b/silo.c
@@ -82,32 +82,67 @@ Silo_Filename(const struct aardwarc *aa, unsigned number, int hold)
 	return (vsb);
 }
 
+/* Does this (part of a) silo directory exist ? -----------------------*/
+
+static int
+silo_dir(const struct aardwarc *aa, int lvl, unsigned num)
+{
+	struct vsb *vsb;
+	struct stat st;
+	int i;
+
+	vsb = VSB_new_auto();
+	AN(vsb);
+	VSB_cat(vsb, aa->silo_dirname);
+	if (num == 0)
+		VSB_printf(vsb, "%d/", lvl);
+	else
+		numpart(vsb, lvl, num);
+	AZ(VSB_finish(vsb));
+	i = stat(VSB_data(vsb), &st);
+	if (i && errno == ENOENT)
+		i = 0;
+	else
+		i = 1;
+	VSB_delete(vsb);
+	return (i);
+}
+
 int
 Silo_Iter(const struct aardwarc *aa, byte_iter_f *func, void *priv)
 {
 	struct vsb *vsb;
-	uint32_t u;
+	uint64_t u, n;
 	struct stat st;
-	int i, retval = 0;
+	int i, lvl, retval = 0;
 
 	CHECK_OBJ_NOTNULL(aa, AARDWARC_MAGIC);
 	AN(func);
 
-	for (u = 0; retval == 0; u++) {
-		vsb = VSB_new_auto();
-		AN(vsb);
-		VSB_cat(vsb, aa->silo_dirname);
-		numpart(vsb, 0, u);
-		AZ(VSB_finish(vsb));
-		i = stat(VSB_data(vsb), &st);
-		if (i && errno == ENOENT)
-			break;
-		VSB_delete(vsb);
-		vsb = Silo_Filename(aa, u, 0);
+	for (u = 0; retval == 0 && u <= UINT32_MAX; ) {
+
+		/* Skip directories which do not exist */
+		for (lvl = 4, n = 100000000; lvl > 0; lvl--, n /= 100) {
+			if (u < n || u % n != 0)
+				continue;
+			if (u == n && !silo_dir(aa, lvl, 0)) {
+				u *= 100;
+				break;
+			}
+			if (!silo_dir(aa, lvl, (unsigned)(u / n))) {
+				u += n;
+				break;
+			}
+		}
+		if (lvl > 0)
+			continue;
+
+		vsb = Silo_Filename(aa, (unsigned)u, 0);
 		i = stat(VSB_data(vsb), &st);
 		if (!i && S_ISREG(st.st_mode))
-			retval = func(priv, VSB_data(vsb), u);
+			retval = func(priv, VSB_data(vsb), (ssize_t)u);
 		VSB_delete(vsb);
+		u++;
 	}
-	return (0);
+	return (retval);
 }
-- 
2.43.0


From 87d2dd84db47a7f1ec857b631280d572f03e6bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:40 +0000
Subject: [PATCH 21/47] fix: audit: missing segments

Audit looked for the next segment again and again if it was missing, gave
up if the segments were not met in order, and stopped auditing segmented
objects at the first incomplete one.
---
 main_audit.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/main_audit.c b/main_audit.c
index b8c5e22..cf03d84 100644
--- a/main_audit.c
+++ b/main_audit.c
@@ -91,7 +91,7 @@ audit_check_digest_header(struct vsb *err, const struct audit *ap,
 	is = Header_Get(ap->hdr, hdn);
 	if (is == NULL) {
 		VSB_printf(err, "ERROR: %s missing\n", hdn);
-	} else if (memcmp(is, "sha256:", 7)) {
+	} else if (strncmp(is, "sha256:", 7)) {
 		VSB_printf(err, "ERROR: %s is not sha256\n", hdn);
 	} else if (strcmp(is + 7, expect)) {
 		VSB_printf(err, "ERROR: %s difference\n", hdn);
@@ -210,7 +210,7 @@ audit_one_pending(struct aardwarc *aa, struct vsb *err)
 				continue;
 			if (*origin++ != '<')
 				continue;
-			if (memcmp(aa->prefix, origin, strlen(aa->prefix)))
+			if (strncmp(aa->prefix, origin, strlen(aa->prefix)))
 				continue;
 			origin += strlen(aa->prefix);
 			if (strncmp(origin, oid, strlen(oid)))
@@ -235,10 +235,10 @@ audit_one_pending(struct aardwarc *aa, struct vsb *err)
 			}
 			ap = apn;
 		}
-	} while (ap == ap1);
+	} while (ap != ap1);
 
 	printf("ERROR: Failed to find segment %d\n", ap->segment + 1);
-	return (0);
+	return (-1);
 }
 
 static void
-- 
2.43.0


From 4e589d5c6301a772224aae96d941371bde7c26b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:46 +0000
Subject: [PATCH 22/47] fix: audit: examine all silos, also those after a
 missing number

---
 main_audit.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/main_audit.c b/main_audit.c
index cf03d84..bb3ca92 100644
--- a/main_audit.c
+++ b/main_audit.c
@@ -375,6 +375,17 @@ audit_silo(struct aardwarc *aa, const char *fn, int nsilo)
 	return (0);
 }
 
+static int v_matchproto_(byte_iter_f)
+audit_silo_iter(void *priv, const void *fn, ssize_t silono)
+{
+	struct aardwarc *aa;
+
+	(void)fn;
+	CAST_OBJ_NOTNULL(aa, priv, AARDWARC_MAGIC);
+	(void)audit_silo(aa, NULL, (int)silono);
+	return (0);
+}
+
 static
 void
 usage_audit(const char *a0, const char *a00, const char *err)
@@ -392,7 +403,7 @@ usage_audit(const char *a0, const char *a00, const char *err)
 int v_matchproto_(main_f)
 main_audit(const char *a0, struct aardwarc *aa, int argc, char **argv)
 {
-	int ch, i;
+	int ch;
 	const char *a00 = *argv;
 	struct audit *ap;
 	struct vsb *err;
@@ -419,9 +430,7 @@ main_audit(const char *a0, struct aardwarc *aa, int argc, char **argv)
 	argv += optind;
 
 	if (argc == 0) {
-		i = 0;
-		while (!audit_silo(aa, NULL, i++))
-			continue;
+		(void)Silo_Iter(aa, audit_silo_iter, aa);
 	} else {
 		while (argc-- > 0)
 			if (audit_silo(aa, *argv++, -1))
-- 
2.43.0


From 72f8b5a92106f58ed7460844b1fbb540b4e6b686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:25 +0000
Subject: [PATCH 23/47] fix: audit: report silos which cannot be opened, and
 audit the others

---
 main_audit.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/main_audit.c b/main_audit.c
index bb3ca92..322fde6 100644
--- a/main_audit.c
+++ b/main_audit.c
@@ -432,9 +432,9 @@ main_audit(const char *a0, struct aardwarc *aa, int argc, char **argv)
 	if (argc == 0) {
 		(void)Silo_Iter(aa, audit_silo_iter, aa);
 	} else {
-		while (argc-- > 0)
-			if (audit_silo(aa, *argv++, -1))
-				break;
+		for (; argc > 0; argc--, argv++)
+			if (audit_silo(aa, *argv, -1))
+				printf("ERROR: Cannot open silo %s\n", *argv);
 	}
 
 	err = VSB_new_auto();
-- 
2.43.0


From 0b1eea433beea197dccdcbed1ac17c6de8b3c44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:31 +0000
Subject: [PATCH 24/47] fix: byid: compare the whole ID-fragment

The index only holds the first 24 digits of the IDs, so longer fragments
listed records which do not match them.
---
 main_byid.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/main_byid.c b/main_byid.c
index 1de27a1..fb5ad8c 100644
--- a/main_byid.c
+++ b/main_byid.c
@@ -55,6 +55,7 @@ struct privs {
 	unsigned		magic;
 #define PRIVS_MAGIC		0x37ea975a
 	struct aardwarc *aa;
+	const char	*nid;
 	int		retval;
 };
 
@@ -77,6 +78,12 @@ byid_iter(void *priv, const char *key,
 	hdr = Rsilo_ReadHeader(rs);
 	AN(hdr);
 	p = Header_Get_Id(hdr);
+	if (strncasecmp(p, pp->nid, strlen(pp->nid))) {
+		/* The index only holds the first part of the ID */
+		Header_Destroy(&hdr);
+		Rsilo_Close(&rs);
+		return (0);
+	}
 	printf("id %s", p);
 	p = Header_Get(hdr, "WARC-Type");
 	printf(" wt %s", p);
@@ -124,6 +131,7 @@ main_byid(const char *a0, struct aardwarc *aa, int argc, char **argv)
 			fprintf(stderr, "Invalid ID-fragment\n");
 			exit(1);
 		}
+		privs->nid = nid;
 		(void)IDX_Iter(aa, nid, byid_iter, privs);
 	}
 	if (ok)
-- 
2.43.0


From 22ce80dada182f21cbfbb989e308dd507f260b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:10 +0000
Subject: [PATCH 25/47] fix: filter: IDs shorter than the index key, and
 records sharing a key

With IDs of less than 96 bits every object was reported missing, and with
-s only the first of several records with the same key was examined.
---
 main_filter.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/main_filter.c b/main_filter.c
index 91bcfc1..e644127 100644
--- a/main_filter.c
+++ b/main_filter.c
@@ -109,8 +109,9 @@ static int v_matchproto_(idx_iter_f)
 filter_iter(void *priv, const char *key,
     uint32_t flag, uint32_t silo, int64_t offset, const char *cont)
 {
-	struct cand *c;
+	struct cand *c, *c2;
 	struct filt *fp;
+	size_t len;
 
 	CAST_OBJ_NOTNULL(fp, priv, FILT_MAGIC);
 	(void)flag;
@@ -118,18 +119,29 @@ filter_iter(void *priv, const char *key,
 
 	if (VTAILQ_EMPTY(&sorted))
 		return (1);
+
+	/* IDs can be both longer and shorter than the key in the index */
+	len = strlen(key);
+	if (len > fp->aa->id_size)
+		len = fp->aa->id_size;
+
 	if (next_cand == NULL || strcmp(key, fp->last) < 0)
 		next_cand = VTAILQ_FIRST(&sorted);
 	strlcpy(fp->last, key, sizeof fp->last);
-	while (next_cand != NULL && strcmp(next_cand->id, key) < 0)
+	while (next_cand != NULL && strncmp(next_cand->id, key, len) < 0)
 		next_cand = VTAILQ_NEXT(next_cand, sortlist);
-	while (next_cand != NULL &&
-	    !strncmp(key, next_cand->id, strlen(key))) {
-		c = next_cand;
-		next_cand = VTAILQ_NEXT(c, sortlist);
+
+	/*
+	 * Leave next_cand at the first one which was not found, there can
+	 * be several records with the same key.
+	 */
+	for (c = next_cand; c != NULL && !strncmp(key, c->id, len); c = c2) {
+		c2 = VTAILQ_NEXT(c, sortlist);
 		if (!s_flag || !filter_s_check(fp, silo, offset, c->id)) {
 			c->found = 1;
 			VTAILQ_REMOVE(&sorted, c, sortlist);
+			if (c == next_cand)
+				next_cand = c2;
 		}
 	}
 	return(0);
-- 
2.43.0


From 1616fab1f992758c705a318bcfad114e9dd8fe25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:45 +0000
Subject: [PATCH 26/47] fix: filter: IDs in upper case were reported missing

---
 main_filter.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/main_filter.c b/main_filter.c
index e644127..a54bc50 100644
--- a/main_filter.c
+++ b/main_filter.c
@@ -27,6 +27,7 @@
  *
  */
 
+#include <ctype.h>
 #include <errno.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -152,7 +153,7 @@ read_file(const struct aardwarc *aa, FILE *fi)
 {
 	char buf[BUFSIZ], *p;
 	struct cand *c1, *c2;
-	int retval = 0;
+	int i, retval = 0;
 	size_t sl;
 
 	while (fgets(buf, sizeof buf, fi) != NULL) {
@@ -183,6 +184,9 @@ read_file(const struct aardwarc *aa, FILE *fi)
 			    buf);
 			exit(1);
 		}
+		/* The index is in lower case */
+		for (i = 0; p[i] != '\0'; i++)
+			p[i] = tolower(p[i]);
 		REPLACE(c1->id, p);
 		AN(c1->id);
 		c2 = VTAILQ_LAST(&candidates, candhead);
-- 
2.43.0


From 81d70b37c118292b72638432c95a17b8c2b56486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:45 +0000
Subject: [PATCH 27/47] fix: dumpindex: -t lists segmented records, bad
 id-parts are refused

-t resource and -t metadata left segmented objects out, and an id-part
which is not hexadecimal caused an abort.
---
 main_dumpindex.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/main_dumpindex.c b/main_dumpindex.c
index 77fcb25..570a30b 100644
--- a/main_dumpindex.c
+++ b/main_dumpindex.c
@@ -57,7 +57,7 @@ dumpindex_iter(void *priv, const char *key,
 	uint32_t *u;
 
 	u = priv;
-	if (*u != 0 && flag != *u)
+	if (*u != 0 && !(flag & *u))
 		return (0);
 	printf("%s 0x%08x %8u %12jd %s\n", key, flag, silo, offset, cont);
 	return(0);
@@ -98,6 +98,13 @@ main_dumpindex(const char *a0, struct aardwarc *aa, int argc, char **argv)
 	argc -= optind;
 	argv += optind;
 
+	for (ch = 0; ch < argc; ch++) {
+		if (argv[ch][strspn(argv[ch], "0123456789abcdefABCDEF")]) {
+			fprintf(stderr, "Invalid ID-fragment\n");
+			exit(1);
+		}
+	}
+
 	if (argc == 0)
 		(void)IDX_Iter(aa, NULL, dumpindex_iter, &u);
 	else
-- 
2.43.0


From 090bd0194f2d7eb5d68437765110c354cae66eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:34 +0000
Subject: [PATCH 28/47] fix: reindex: find the number of a silo in its filename

A filename without a directory failed an assertion, and with a
silo.basename which does not start with the number, all silos were indexed
as number zero (or whatever digits came first).
---
 main_reindex.c | 46 ++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 42 insertions(+), 4 deletions(-)

diff --git a/main_reindex.c b/main_reindex.c
index 2d0049e..ff7c84a 100644
--- a/main_reindex.c
+++ b/main_reindex.c
@@ -32,6 +32,7 @@
  *	Handle duplicates (reindex2)
  */
 
+#include <stdint.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -40,6 +41,7 @@
 #include "vdef.h"
 
 #include "vas.h"
+#include "vsb.h"
 #include "miniobj.h"
 
 #include "aardwarc.h"
@@ -203,6 +205,39 @@ got_seg(const struct aardwarc *aa, const struct header *hdr,
 		try_seg(aa, seg2);
 }
 
+/* Find the number of a silo from its filename -------------------------*/
+
+static ssize_t
+silo_number(const struct aardwarc *aa, const char *fn)
+{
+	const char *p, *q;
+	char *e;
+	struct vsb *vsb;
+	unsigned long ul;
+	int i;
+
+	p = strrchr(fn, '/');
+	if (p == NULL)
+		p = fn;
+	else
+		p++;
+	/* "silo.basename" may have digits of its own, so try all of them */
+	for (q = p; *q != '\0'; q++) {
+		ul = strtoul(q, &e, 10);
+		if (e == q || ul > UINT32_MAX)
+			continue;
+		vsb = VSB_new_auto();
+		AN(vsb);
+		VSB_printf(vsb, aa->silo_basename, (unsigned)ul);
+		AZ(VSB_finish(vsb));
+		i = strcmp(VSB_data(vsb), p);
+		VSB_destroy(&vsb);
+		if (i == 0)
+			return ((ssize_t)ul);
+	}
+	return (-1);
+}
+
 static int v_matchproto_(byte_iter_f)
 silo_iter(void *priv, const void *fn, ssize_t silono)
 {
@@ -221,10 +256,13 @@ silo_iter(void *priv, const void *fn, ssize_t silono)
 		return (-1);
 
 	if (silono < 0) {
-		p = strrchr(fn, '/');
-		AN(p);
-		p++;
-		silono = (ssize_t)strtoul(p, NULL, 10);
+		silono = silo_number(aa, fn);
+		if (silono < 0) {
+			fprintf(stderr, "Not the name of a silo: %s\n",
+			    (const char *)fn);
+			Rsilo_Close(&rs);
+			return (-1);
+		}
 	}
 
 	while (1) {
-- 
2.43.0


From f25bf07600dc5ed44b53bf6d43e4e8e2dbef4ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:40 +0000
Subject: [PATCH 29/47] fix: filter: with -s a dangling index entry is not a
 record

Opening a silo which is not there failed an assertion.
---
 main_filter.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/main_filter.c b/main_filter.c
index a54bc50..e7bae06 100644
--- a/main_filter.c
+++ b/main_filter.c
@@ -94,9 +94,13 @@ filter_s_check(const struct filt *fp, uint32_t silo, int64_t offset,
 	int retval = 0;
 
 	rs = Rsilo_Open(fp->aa, NULL, silo, offset);
-	AN(rs);
+	if (rs == NULL)
+		return (1);
 	hdr = Rsilo_ReadHeader(rs);
-	AN(hdr);
+	if (hdr == NULL) {
+		Rsilo_Close(&rs);
+		return (1);
+	}
 	p = Header_Get_Id(hdr);
 	AN(p);
 	if (strcasecmp(p, key))
-- 
2.43.0


From 769dfb8d0d1f92f82984bce4310c3c09ae1f7bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:50 +0000
Subject: [PATCH 30/47] fix: reindex: left-over copies of segments

A segmented store which was interrupted and then repeated made reindex
fail an assertion.  When matching what is left over against the index, all
of the key is compared, in either case, and segments which already are in
the index are left alone.
---
 main_reindex.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/main_reindex.c b/main_reindex.c
index ff7c84a..7a669f9 100644
--- a/main_reindex.c
+++ b/main_reindex.c
@@ -101,9 +101,9 @@ emit_seg(const struct aardwarc *aa, struct seg *seg, struct seg *seg2)
 	CHECK_OBJ_NOTNULL(seg2, SEG_MAGIC);
 	IDX_Insert(aa, seg->id, seg->flg, seg->silono, seg->off, seg2->id);
 	AZ(seg->done);
-	AZ(seg2->used);
-	seg->done++;
-	seg2->used++;
+	seg->done = 1;
+	/* An interrupted store may have left another copy of 'seg' behind */
+	seg2->used = 1;
 	if (seg->used && seg->done)
 		drop_seg(seg);
 	if (seg2->used && seg2->done)
@@ -126,16 +126,22 @@ reindex_iter(void *priv, const char *key,
     uint32_t flag, uint32_t silo, int64_t offset, const char *cont)
 {
 	struct seg *seg, *seg2;
+	size_t l;
 
 	(void)silo;
 	(void)offset;
 	if (!(flag & IDX_F_SEGMENTED))
 		return(0);
 	VTAILQ_FOREACH_SAFE(seg, &segs, list, seg2) {
-		if (!strncmp(key, seg->id, 16)) {
+		if (seg->done || seg->flg != flag)
+			continue;
+		l = strlen(seg->id);
+		if (l > strlen(key))
+			l = strlen(key);
+		if (!strncasecmp(key, seg->id, l)) {
 			IDX_Insert(priv, seg->id, seg->flg, seg->silono,
 			    seg->off, cont);
-			seg->done++;
+			seg->done = 1;
 			drop_seg(seg);
 		}
 	}
-- 
2.43.0


From eef309768ef4428e0c4cec53484b51ede7f2a9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:11 +0000
Subject: [PATCH 31/47] fix: audit: ignore-metadata-record-id also for
 segmented metadata

An explicit ID of a segmented metadata object was reported as an error
even with -i ignore-metadata-record-id.
---
 main_audit.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/main_audit.c b/main_audit.c
index 322fde6..792a636 100644
--- a/main_audit.c
+++ b/main_audit.c
@@ -157,6 +157,7 @@ audit_final_pending(struct aardwarc *aa, struct vsb *err, struct audit *ap0,
     struct audit *apn)
 {
 	char buf[64];
+	const char *type;
 	char dig[SHA256_DIGEST_STRING_LENGTH];
 	char id[SHA256_DIGEST_STRING_LENGTH];
 
@@ -168,6 +169,11 @@ audit_final_pending(struct aardwarc *aa, struct vsb *err, struct audit *ap0,
 	(void)SHA256_End(ap0->sha256, dig);
 	audit_check_digest_header(err, ap0, "WARC-Payload-Digest", dig);
 
+	type = Header_Get(ap0->hdr, "WARC-Type");
+	AN(type);
+	if (!strcmp(type, "metadata") && ignore_metadata_record_id)
+		return;
+
 	Ident_Create(aa, ap0->hdr, dig, id);
 	if (strcmp(id, Header_Get_Id(ap0->hdr))) {
 		VSB_printf(err, "ERROR: %s difference\n", "WARC-Record-ID");
-- 
2.43.0


From a7784f16fc5d3f7546ba80e8340846e0a11913f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:52 +0000
Subject: [PATCH 32/47] fix: CGI: no gzip for a client which refuses it with
 q=0

---
 main_cgi.c | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/main_cgi.c b/main_cgi.c
index 43155ac..28909d7 100644
--- a/main_cgi.c
+++ b/main_cgi.c
@@ -27,6 +27,7 @@
  *
  */
 
+#include <ctype.h>
 #include <stdio.h>
 #include <string.h>
 #include <stdlib.h>
@@ -59,6 +60,27 @@ get_iter(void *priv, const void *ptr, ssize_t len)
 	return (0);
 }
 
+/* Does the client accept gzip, "gzip;q=0" says it does not. */
+static int
+accepts_gzip(const char *p)
+{
+
+	p = strstr(p, "gzip");
+	if (p == NULL)
+		return (0);
+	p += strlen("gzip");
+	p += strspn(p, " \t");
+	if (*p != ';')
+		return (1);
+	p++;
+	p += strspn(p, " \t");
+	if (strncasecmp(p, "q=", 2))
+		return (1);
+	p += 2;
+	p += strspn(p, "0.");
+	return (isdigit((unsigned char)*p));
+}
+
 int v_matchproto_(main_f)
 main_cgi(const char *a0, struct aardwarc *aa, int argc, char **argv)
 {
@@ -112,8 +134,8 @@ main_cgi(const char *a0, struct aardwarc *aa, int argc, char **argv)
 	}
 
 	p = getenv("HTTP_ACCEPT_ENCODING");
-	if (p != NULL && strstr(p, "gzip"))
-		gzip = 1;
+	if (p != NULL)
+		gzip = accepts_gzip(p);
 
 	if (*id == '/')
 		id++;
-- 
2.43.0


From cbfd6bd9e6e289059e0155489b8c6e9cd8cec55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:35 +0000
Subject: [PATCH 33/47] fix: rebuild: do not write past the end of the output
 buffer

---
 main_rebuild.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/main_rebuild.c b/main_rebuild.c
index 2feeef0..1e53141 100644
--- a/main_rebuild.c
+++ b/main_rebuild.c
@@ -276,7 +276,6 @@ rebuild_silo_iter(void *priv, const void *fn, ssize_t silono)
 		}
 		i = inflate(zs, 0);
 		oz = sizeof obuf - zs->avail_out;
-		obuf[oz] = '\0';
 		rebuild_process(rb, obuf, oz);
 		if (i == Z_STREAM_END) {
 			assert(inflateEnd(zs) == Z_OK);
-- 
2.43.0


From 3cfb79b13768d48d4a9391e053ce52375e9ad89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:35 +0000
Subject: [PATCH 34/47] fix: rebuild: close the silos which are read

---
 main_rebuild.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/main_rebuild.c b/main_rebuild.c
index 1e53141..a4502ed 100644
--- a/main_rebuild.c
+++ b/main_rebuild.c
@@ -285,6 +285,8 @@ rebuild_silo_iter(void *priv, const void *fn, ssize_t silono)
 	} while (i == Z_OK);
 
 	AZ(close(rb->fdo));
+	(void)inflateEnd(zs);
+	AZ(fclose(fi));
 
 	return(0);
 }
-- 
2.43.0


From 94192f033327c1315e5e6dfac31168ab0a3ca4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:34 +0000
Subject: [PATCH 35/47] fix: a forced ID is the same one in upper case

---
 ident.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ident.c b/ident.c
index 48e045c..7fc892e 100644
--- a/ident.c
+++ b/ident.c
@@ -28,6 +28,7 @@
  */
 
 
+#include <ctype.h>
 #include <unistd.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -85,6 +86,7 @@ Ident_Set(const struct aardwarc *aa, struct header *hdr,
     const char *digest, const char *input)
 {
 	char id[SHA256_DIGEST_STRING_LENGTH];
+	char *p;
 
 	if (input != NULL)
 		AZ(IDX_Valid_Id(aa, input, &input));
@@ -93,7 +95,11 @@ Ident_Set(const struct aardwarc *aa, struct header *hdr,
 		Ident_Create(aa, hdr, digest, id);
 		Header_Set_Id(hdr, id);
 	} else {
-		Header_Set_Id(hdr, input);
+		/* IDs are lower case, no matter how they are spelled */
+		bprintf(id, "%s", input);
+		for (p = id; *p != '\0'; p++)
+			*p = tolower(*p);
+		Header_Set_Id(hdr, id);
 	}
 }
 
-- 
2.43.0


From 13f3080e4a73631ea0d1865cc6a4e350707290b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:34 +0000
Subject: [PATCH 36/47] fix: metadata refers to the ID in the archive, however
 -r spells it

---
 main_store.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/main_store.c b/main_store.c
index e91783f..3dd3124 100644
--- a/main_store.c
+++ b/main_store.c
@@ -254,6 +254,8 @@ main_store(const char *a0, struct aardwarc *aa, int argc, char **argv)
 			exit(1);
 		}
 		VSB_destroy(&vsb);
+		/* As in the archive, no matter how the argument spells it */
+		ref = Digest2Ident(aa, Header_Get_Id(GetJob_Header(gj, 1)));
 		GetJob_Delete(&gj);
 		Header_Set(hdr, "WARC-Refers-To", "<%s>", ref);
 	}
-- 
2.43.0


From f3c04100d5ebb779b60efabbb3cc31ecb8146715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:48 +0000
Subject: [PATCH 37/47] fix: get: report that the output cannot be opened or
 written

---
 main_get.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/main_get.c b/main_get.c
index 306a2b5..d4aaacb 100644
--- a/main_get.c
+++ b/main_get.c
@@ -27,6 +27,7 @@
  *
  */
 
+#include <errno.h>
 #include <stdio.h>
 #include <string.h>
 #include <stdlib.h>
@@ -135,6 +136,11 @@ main_get(const char *a0, struct aardwarc *aa, int argc, char **argv)
 
 	if (of != NULL) {
 		gp->dst = fopen(of, "w");
+		if (gp->dst == NULL) {
+			fprintf(stderr,
+			    "Cannot open %s: %s\n", of, strerror(errno));
+			exit (1);
+		}
 		gp->hdr = stdout;
 	} else {
 		gp->dst = stdout;
@@ -185,6 +191,11 @@ main_get(const char *a0, struct aardwarc *aa, int argc, char **argv)
 		}
 	}
 
+	if (fflush(gp->dst) || ferror(gp->dst)) {
+		fprintf(stderr, "Output write error: %s\n", strerror(errno));
+		exit (1);
+	}
+
 	FREE_OBJ(gp);
 	GetJob_Delete(&gj);
 	return (0);
-- 
2.43.0


From f8b90d5bdc3b04aefb827428781b1db8110db133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:48 +0000
Subject: [PATCH 38/47] fix: get -z of a truncated silo does not end in success

---
 rsilo.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rsilo.c b/rsilo.c
index 0f06b93..d7da7dd 100644
--- a/rsilo.c
+++ b/rsilo.c
@@ -242,8 +242,7 @@ Rsilo_ReadGZChunk(struct rsilo *rs, byte_iter_f *func, void *priv)
 		if (sz > rs->silo_bodylen)
 			sz = rs->silo_bodylen;
 		sz = read(rs->silo_fd, ibuf, sz);
-		if (sz <= 0)
-			return(0);
+		assert(sz > 0);
 		ll += sz;
 		j = func(priv, ibuf, sz);
 		if (j)
-- 
2.43.0


From e1db54d20fbd410d8c2641e1866cfebc47c83ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:59 +0000
Subject: [PATCH 39/47] fix: stevedore: do not abort when an answer comes after
 the client has gone

The event of standard input is deleted at its end.
---
 main_stevedore.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/main_stevedore.c b/main_stevedore.c
index 1f8f30f..8c5051a 100644
--- a/main_stevedore.c
+++ b/main_stevedore.c
@@ -246,7 +246,8 @@ store_line(void *priv, const char *line)
 
 	CAST_OBJ_NOTNULL(jp, priv, JOB_MAGIC);
 	proto_out(1, PROTO_DATA, line, strlen(line));
-	proto_ctl_ev(stdin_ev, 1);
+	if (stdin_ev != 0)
+		proto_ctl_ev(stdin_ev, 1);
 	return (0);
 }
 
@@ -276,7 +277,8 @@ meta_line(void *priv, const char *line)
 
 	CAST_OBJ_NOTNULL(jp, priv, JOB_MAGIC);
 	proto_out(1, PROTO_META, line, strlen(line));
-	proto_ctl_ev(stdin_ev, 1);
+	if (stdin_ev != 0)
+		proto_ctl_ev(stdin_ev, 1);
 	return (0);
 }
 
-- 
2.43.0


From bb8780bca36d37e2794f6de70767deaad37323b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:59 +0000
Subject: [PATCH 40/47] fix: stevedore: end when the client goes away in the
 middle of an object

The store job never sees the end of its input as long as we keep the pipe
open, so we waited for each other for ever. Inside a frame we already exit.
---
 main_stevedore.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/main_stevedore.c b/main_stevedore.c
index 8c5051a..407d5db 100644
--- a/main_stevedore.c
+++ b/main_stevedore.c
@@ -321,6 +321,8 @@ input(int fd, void *priv, int revents)
 	i = proto_in(fd, &cmd, &size);
 	if (i == 0) {
 		proto_del_ev(&stdin_ev);
+		if (store_job != NULL || meta_job != NULL)
+			exit(3);
 		return;
 	}
 	if (i != 1)
-- 
2.43.0


From 0df25c15abadd37cbdabbc2c112d2bb6921d330d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:59 +0000
Subject: [PATCH 41/47] fix: stevedore: end of input inside a filter or
 metadata frame

The filter request was freed while still on the queue, and with an object
under way we waited for it for ever. Exit as for data frames.
---
 main_stevedore.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/main_stevedore.c b/main_stevedore.c
index 407d5db..bfd2656 100644
--- a/main_stevedore.c
+++ b/main_stevedore.c
@@ -340,10 +340,9 @@ input(int fd, void *priv, int revents)
 			j = 0;
 			while (size > j) {
 				i = read(0, fp->id + j, size - j);
-				if (i == 0) {
+				if (i <= 0) {
 					proto_del_ev(&stdin_ev);
-					FREE_OBJ(fp);
-					return;
+					exit(3);
 				}
 				j += i;
 			}
@@ -389,9 +388,9 @@ input(int fd, void *priv, int revents)
 			assert (size + 1UL < sizeof buf);
 			while (size > j) {
 				i = read(0, buf + j, size - j);
-				if (i == 0) {
+				if (i <= 0) {
 					proto_del_ev(&stdin_ev);
-					return;
+					exit(3);
 				}
 				j += i;
 			}
-- 
2.43.0


From 26d1fd62022616c6c87121aa464221b16f7ee8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:36 +0000
Subject: [PATCH 42/47] fix: stow: the listing of one target does not stay for
 the next

The record of the listing was left on the list of objects which wait for
an acknowledgement, so the first acknowledgement of the second target
was held up against the listing of the first one.
---
 main_stow.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/main_stow.c b/main_stow.c
index a3b1ad3..0faed77 100644
--- a/main_stow.c
+++ b/main_stow.c
@@ -480,6 +480,7 @@ data_resp(struct stow_job *sj, char *p, size_t len)
 				__func__, __LINE__, cp->digest, pp);
 		}
 		AZ(strncmp(cp->digest, pp, strlen(pp)));
+		VTAILQ_REMOVE(&ack_list, cp, list);
 		metadata(sj, cp);
 		return;
 	}
-- 
2.43.0


From d15bbb6c3658474c87eac97621d58c8c13b83acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:36 +0000
Subject: [PATCH 43/47] fix: stow: send the metadata after all the files

When the archive has the listing already, but not all the files (they
were stowed incompletely, or the same listing describes other files now),
the metadata was sent before the files, and the files not at all.
---
 main_stow.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/main_stow.c b/main_stow.c
index 0faed77..ab76efa 100644
--- a/main_stow.c
+++ b/main_stow.c
@@ -618,7 +618,9 @@ stevedore_out(int fd, void *priv, int revents)
 			exit(2);
 		}
 	}
-	if (sj->meta != NULL)
+
+	/* The listing may be there already, but everything else goes first */
+	if (sj->meta != NULL && cp == NULL && VTAILQ_EMPTY(&ack_list))
 		send_metadata(sj, fd);
 
 	AN(stevedore_0_ev);
-- 
2.43.0


From c8d88871d322dda1b2deecf54187e5401a0d4eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:36 +0000
Subject: [PATCH 44/47] fix: stow: no success unless the server has
 acknowledged the metadata

---
 main_stow.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/main_stow.c b/main_stow.c
index ab76efa..78c4240 100644
--- a/main_stow.c
+++ b/main_stow.c
@@ -102,6 +102,7 @@ struct stow_job {
 	SHA256_CTX		mtree_sha;
 
 	struct subj		*meta;
+	int			stowed;
 
 	FILE *			missing;
 	FILE *			changed;
@@ -540,6 +541,7 @@ stevedore_in(int fd, void *priv, int revents)
 		break;
 	case PROTO_META:
 		fprintf(stderr, "STOWED as %s\n", (char*)u);
+		sj->stowed = 1;
 		proto_del_ev(&stevedore_0_ev);
 		break;
 	default:
@@ -773,6 +775,10 @@ main_stow(const char *a0, struct aardwarc *aa, int argc, char **argv)
 			    WEXITSTATUS(st), WTERMSIG(st), WCOREDUMP(st));
 			exit(2);
 		}
+		if (!sj->stowed) {
+			fprintf(stderr, "Job %s was not stowed\n", sj->job);
+			exit(2);
+		}
 
 		fprintf(stderr, "Done job %s\n", sj->job);
 	}
-- 
2.43.0


From 18079cc2eca3a76a153b05bcb7cd99190d8b2748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:54 +0000
Subject: [PATCH 45/47] fix: reindex: segments with the same content are not
 the same segment

---
 main_reindex.c | 39 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/main_reindex.c b/main_reindex.c
index 7a669f9..c739f43 100644
--- a/main_reindex.c
+++ b/main_reindex.c
@@ -121,6 +121,40 @@ try_seg(const struct aardwarc *aa, struct seg *seg)
 		emit_seg(aa, seg2, seg);
 }
 
+/*
+ * Segments with the same content have the same ID, only the segment number
+ * and where they belong tell them apart.
+ */
+
+static int
+same_seg(struct aardwarc *aa, const struct seg *seg, uint32_t silo,
+    int64_t offset)
+{
+	struct rsilo *rs;
+	struct header *hdr;
+	const char *p;
+	int retval = 0;
+
+	if (seg->segno == 1)
+		return (1);
+	rs = Rsilo_Open(aa, NULL, silo, offset);
+	if (rs == NULL)
+		return (1);	/* No way to tell */
+	hdr = Rsilo_ReadHeader(rs);
+	if (hdr != NULL) {
+		p = Header_Get(hdr, "WARC-Segment-Origin-ID");
+		if (p != NULL)
+			p = strrchr(p, '/');
+		if (p != NULL &&
+		    !strncasecmp(p + 1, seg->parent, aa->id_size) &&
+		    Header_Get_Number(hdr, "WARC-Segment-Number") == seg->segno)
+			retval = 1;
+		Header_Destroy(&hdr);
+	}
+	Rsilo_Close(&rs);
+	return (retval);
+}
+
 static int v_matchproto_(idx_iter_f)
 reindex_iter(void *priv, const char *key,
     uint32_t flag, uint32_t silo, int64_t offset, const char *cont)
@@ -128,8 +162,6 @@ reindex_iter(void *priv, const char *key,
 	struct seg *seg, *seg2;
 	size_t l;
 
-	(void)silo;
-	(void)offset;
 	if (!(flag & IDX_F_SEGMENTED))
 		return(0);
 	VTAILQ_FOREACH_SAFE(seg, &segs, list, seg2) {
@@ -138,7 +170,8 @@ reindex_iter(void *priv, const char *key,
 		l = strlen(seg->id);
 		if (l > strlen(key))
 			l = strlen(key);
-		if (!strncasecmp(key, seg->id, l)) {
+		if (!strncasecmp(key, seg->id, l) &&
+		    same_seg(priv, seg, silo, offset)) {
 			IDX_Insert(priv, seg->id, seg->flg, seg->silono,
 			    seg->off, cont);
 			seg->done = 1;
-- 
2.43.0


From 601b98973de2e3e27ce7b8889d902e0a39299023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:59 +0000
Subject: [PATCH 46/47] fix: get: segments of two stores of an object are not
 one object

---
 getjob.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/getjob.c b/getjob.c
index 57b77a3..190a2e3 100644
--- a/getjob.c
+++ b/getjob.c
@@ -207,6 +207,19 @@ GetJob_Delete(struct getjob **pp)
 	FREE_OBJ(gj);
 }
 
+/* Do the segments found add up to the length the last one says ? */
+
+static int
+getjob_adds_up(struct getjob *gj, const struct getjobseg *last)
+{
+
+	if (Header_Get_Number(last->hdr, "WARC-Segment-Total-Length") ==
+	    GetJob_TotalLength(gj, 0))
+		return (1);
+	gj->err = "Index Inconsistency: Segments do not add up.";
+	return (0);
+}
+
 /*
  * Find the rest of the segments, starting with the one indexed under nid.
  *
@@ -237,9 +250,10 @@ getjob_chain(struct getjob *gj, const char *nid)
 			assert(VTAILQ_FIRST(&gj->segs) == gjs);
 			return (1);
 		}
-		if (gjs->idx_flag & IDX_F_LASTSEG)
-			return (1);
-		if (getjob_chain(gj, gjs->idx_cont))
+		if (gjs->idx_flag & IDX_F_LASTSEG) {
+			if (getjob_adds_up(gj, gjs))
+				return (1);
+		} else if (getjob_chain(gj, gjs->idx_cont))
 			return (1);
 		getjob_pop(gj);
 	}
-- 
2.43.0


From 399d000701f58d7851ece92e24b82a1c125d66dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:00 +0000
Subject: [PATCH 47/47] fix: rebuild: old records may be larger than a stdio
 buffer

---
 main_rebuild.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/main_rebuild.c b/main_rebuild.c
index a4502ed..6c47d11 100644
--- a/main_rebuild.c
+++ b/main_rebuild.c
@@ -52,7 +52,7 @@ struct rebuild {
 	int				fdo;
 
 	char				hdrbuf[BUFSIZ];
-	unsigned char			fixbuf[BUFSIZ];
+	unsigned char			*fixbuf;
 	size_t				hdrlen;
 	struct vsb			*vsb;
 	int				state;
@@ -105,6 +105,9 @@ rebuild_process(struct rebuild *rb, const unsigned char *ptr, ssize_t len)
 			if (q != NULL) {
 				rb->state = 3;
 				rb->rlen = 0;
+				assert(rb->clen >= 0);
+				rb->fixbuf = realloc(rb->fixbuf, rb->clen + 1);
+				AN(rb->fixbuf);
 				SHA256_Init(rb->sha256);
 				continue;
 			}
@@ -165,10 +168,14 @@ rebuild_process(struct rebuild *rb, const unsigned char *ptr, ssize_t len)
 			rb->body_start = lseek(rb->fdo, 0, SEEK_CUR);
 			Gzip_InitDeflate(rb->zs);
 			Gzip_AddAa(rb->zs);
-			rb->zs->avail_in = rb->clen;
-			rb->zs->next_in = rb->fixbuf;
-			rb->rlen = 0;
-			rb->state = 11;
+			rb->state = 10;
+			rb->rlen = rb->clen;
+			for (ll = 0; ll < rb->clen; ll += oz) {
+				oz = sizeof rb->obuf / 2;
+				if (oz > rb->clen - ll)
+					oz = rb->clen - ll;
+				rebuild_process(rb, rb->fixbuf + ll, oz);
+			}
 			continue;
 		}
 		if (rb->state == 10) {
@@ -336,6 +343,7 @@ main_rebuild(const char *a0, struct aardwarc *aa, int argc, char **argv)
 		retval |= rebuild_silo_iter(rb, *argv++, -1);
 
 	VSB_destroy(&rb->vsb);
+	free(rb->fixbuf);
 	FREE_OBJ(rb);
 	return (retval);
 }
-- 
2.43.0

