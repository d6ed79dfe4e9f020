From 10ad8bdb6a6deb0c826de151aa14a03925a9dddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:10 +0000
Subject: [PATCH 1/5] fix: write the user page again if its checkpoint fails
 without recovery

With one user page per checkpoint group, the checkpoint page may be the
second page of a block. If programming it fails, recover_from() finds a
block-aligned head, skips the block and returns success, because there
is nothing to recover. push_meta() passed that on as success of the
enqueue/copy, although the user page was left behind in the bad block.
---
 dhara/journal.c | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/dhara/journal.c b/dhara/journal.c
index 87743c3..5c6be75 100644
--- a/dhara/journal.c
+++ b/dhara/journal.c
@@ -772,6 +772,9 @@ static void finish_recovery(struct dhara_journal *j)
 	clear_recovery(j);
 }
 
+/* Returns 0 on success, -1 on error, or 1 if the block failed, but the
+ * page can be written again immediately.
+ */
 static int push_meta(struct dhara_journal *j, const uint8_t *meta,
 		     dhara_error_t *err)
 {
@@ -795,17 +798,17 @@ static int push_meta(struct dhara_journal *j, const uint8_t *meta,
 		return 0;
 	}
 
-	/* We don't need to check for immediate recover, because that'll
-	 * never happen -- we're not block-aligned.
-	 */
 	hdr_put_magic(j->page_buf);
 	hdr_set_epoch(j->page_buf, j->epoch);
 	hdr_set_tail(j->page_buf, j->tail);
 	hdr_set_bb_current(j->page_buf, j->bb_current);
 	hdr_set_bb_last(j->page_buf, j->bb_last);
 
+	/* If no recovery is needed (the user page was the first in its
+	 * block), the user page still has to be written again.
+	 */
 	if (dhara_nand_prog(j->nand, j->head + 1, j->page_buf, &my_err) < 0)
-		return recover_from(j, my_err, err);
+		return recover_from(j, my_err, err) < 0 ? -1 : 1;
 
 	j->flags &= ~DHARA_JOURNAL_F_DIRTY;
 
@@ -832,13 +835,17 @@ int dhara_journal_enqueue(struct dhara_journal *j,
 	int i;
 
 	for (i = 0; i < DHARA_MAX_RETRIES; i++) {
+		int ret;
+
 		if (!(prepare_head(j, &my_err) ||
 		      (data && dhara_nand_prog(j->nand, j->head, data,
 					       &my_err))))
-			return push_meta(j, meta, err);
+			ret = push_meta(j, meta, err);
+		else
+			ret = recover_from(j, my_err, err) < 0 ? -1 : 1;
 
-		if (recover_from(j, my_err, err) < 0)
-			return -1;
+		if (ret <= 0)
+			return ret;
 	}
 
 	dhara_set_error(err, DHARA_E_TOO_BAD);
@@ -853,12 +860,16 @@ int dhara_journal_copy(struct dhara_journal *j,
 	int i;
 
 	for (i = 0; i < DHARA_MAX_RETRIES; i++) {
+		int ret;
+
 		if (!(prepare_head(j, &my_err) ||
 		      dhara_nand_copy(j->nand, p, j->head, &my_err)))
-			return push_meta(j, meta, err);
+			ret = push_meta(j, meta, err);
+		else
+			ret = recover_from(j, my_err, err) < 0 ? -1 : 1;
 
-		if (recover_from(j, my_err, err) < 0)
-			return -1;
+		if (ret <= 0)
+			return ret;
 	}
 
 	dhara_set_error(err, DHARA_E_TOO_BAD);
-- 
2.43.0


From 05925fdd719733159937575212438cb1c614d6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:25 +0000
Subject: [PATCH 2/5] fix: don't start a recovery when the journal is empty

If a page program fails in the middle of a block while the root is
DHARA_PAGE_NONE, recover_from() set up a recovery of DHARA_PAGE_NONE:
out-of-range pages were read and an out-of-range block marked bad.
There is nothing to recover in this case: continue in the next block.
---
 dhara/journal.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/dhara/journal.c b/dhara/journal.c
index 5c6be75..b2899d3 100644
--- a/dhara/journal.c
+++ b/dhara/journal.c
@@ -739,6 +739,14 @@ static int recover_from(struct dhara_journal *j,
 		return 0;
 	}
 
+	/* Is the journal empty? Then there's nothing to recover. The
+	 * block may hold the last checkpoint, so don't mark it bad yet.
+	 */
+	if (j->root == DHARA_PAGE_NONE) {
+		j->tail = j->head;
+		return 0;
+	}
+
 	j->recover_root = j->root;
 	j->recover_next =
 		j->recover_root & ~((1 << j->nand->log2_ppb) - 1);
@@ -805,7 +813,8 @@ static int push_meta(struct dhara_journal *j, const uint8_t *meta,
 	hdr_set_bb_last(j->page_buf, j->bb_last);
 
 	/* If no recovery is needed (the user page was the first in its
-	 * block), the user page still has to be written again.
+	 * block, or the only one in the journal), the user page still
+	 * has to be written again.
 	 */
 	if (dhara_nand_prog(j->nand, j->head + 1, j->page_buf, &my_err) < 0)
 		return recover_from(j, my_err, err) < 0 ? -1 : 1;
-- 
2.43.0


From a5e0a795cd9363f0d4b28800f7e7cd99fce4d8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:25 +0000
Subject: [PATCH 3/5] fix: initialise the sector count in dhara_map_init

Without a successful or failed resume, the sector count was left
uninitialised, and dhara_map_clear() and others depend on it.
---
 dhara/map.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dhara/map.c b/dhara/map.c
index 48ec45e..7c4ab02 100644
--- a/dhara/map.c
+++ b/dhara/map.c
@@ -76,6 +76,7 @@ void dhara_map_init(struct dhara_map *m, const struct dhara_nand *n,
 
 	dhara_journal_init(&m->journal, n, page_buf);
 	m->gc_ratio = gc_ratio;
+	m->count = 0;
 }
 
 int dhara_map_resume(struct dhara_map *m, dhara_error_t *err)
-- 
2.43.0


From 31bd3aeaaa9964464f2e6585afe29e40931259c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:59 +0000
Subject: [PATCH 4/5] fix: check for a full journal again after skipping a bad
 block

With two-page blocks, skipping a bad block could leave the head in the
block just before the last-synced tail. The next checkpoint then moved the
head onto that block, and the journal was erased.
---
 dhara/journal.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/dhara/journal.c b/dhara/journal.c
index b2899d3..c3ff945 100644
--- a/dhara/journal.c
+++ b/dhara/journal.c
@@ -613,11 +613,9 @@ static int skip_block(struct dhara_journal *j, dhara_error_t *err)
 	return 0;
 }
 
-/* Make sure the head pointer is on a ready-to-program page. */
-static int prepare_head(struct dhara_journal *j, dhara_error_t *err)
+static int check_full(const struct dhara_journal *j, dhara_error_t *err)
 {
 	const dhara_page_t next = next_upage(j, j->head);
-	int i;
 
 	/* We can't write if doing so would cause the head pointer to
 	 * roll onto the same block as the last-synced tail.
@@ -628,6 +626,17 @@ static int prepare_head(struct dhara_journal *j, dhara_error_t *err)
 		return -1;
 	}
 
+	return 0;
+}
+
+/* Make sure the head pointer is on a ready-to-program page. */
+static int prepare_head(struct dhara_journal *j, dhara_error_t *err)
+{
+	int i;
+
+	if (check_full(j, err) < 0)
+		return -1;
+
 	j->flags |= DHARA_JOURNAL_F_DIRTY;
 	if (!is_aligned(j->head, j->nand->log2_ppb))
 		return 0;
@@ -639,7 +648,7 @@ static int prepare_head(struct dhara_journal *j, dhara_error_t *err)
 			return dhara_nand_erase(j->nand, blk, err);
 
 		j->bb_current++;
-		if (skip_block(j, err) < 0)
+		if (skip_block(j, err) < 0 || check_full(j, err) < 0)
 			return -1;
 	}
 
-- 
2.43.0


From 946cc2fdb0d6424b25da60dc14590fd256a07e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:39 +0000
Subject: [PATCH 5/5] fix: don't skip a block on resume when groups hold one
 user page

next_upage() of a group's first page is the next group, or the next block,
when a group has a single user page. If the last checkpoint filled its
block, the whole next block was then skipped, and the tail with it if it
stood in the block after that: its live pages were lost.
---
 dhara/journal.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/dhara/journal.c b/dhara/journal.c
index c3ff945..b9b450c 100644
--- a/dhara/journal.c
+++ b/dhara/journal.c
@@ -368,9 +368,7 @@ static int find_root(struct dhara_journal *j, dhara_page_t start,
 static int find_head(struct dhara_journal *j, dhara_page_t start,
 		     dhara_error_t *err)
 {
-	j->head = next_upage(j, start);
-	if (!j->head)
-		roll_stats(j);
+	j->head = start;
 
 	/* Starting from the last good checkpoint, find either:
 	 *
-- 
2.43.0

