From 6e657cb2d2fa4ce315715ae625b2eb8f07a8916f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:06 +0000
Subject: [PATCH 01/37] fix: run -execdir ... + in the right directory for
 paths with trailing slashes

bfs_exec_changed_dirs() only noticed when a file was in a deeper directory
than the buffered ones.  With -depth, a root like a/b/ comes after its own
children, has a shorter nameoff, and shares the a/b/ prefix, so ./b/ was
passed to a command running in a/b instead of a.
---
 src/exec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exec.c b/src/exec.c
index 45c9f1d..5b7e6d1 100644
--- a/src/exec.c
+++ b/src/exec.c
@@ -574,7 +574,7 @@ static int bfs_exec_flush(struct bfs_exec *execbuf) {
 /** Check if we need to flush the execbuf because we're changing directories. */
 static bool bfs_exec_changed_dirs(const struct bfs_exec *execbuf, const struct BFTW *ftwbuf) {
 	if (execbuf->flags & BFS_EXEC_CHDIR) {
-		if (ftwbuf->nameoff > execbuf->wd_len
+		if (ftwbuf->nameoff != execbuf->wd_len
 		    || (execbuf->wd_path && strncmp(ftwbuf->path, execbuf->wd_path, execbuf->wd_len) != 0)) {
 			bfs_exec_debug(execbuf, "Changed directories, executing buffered command\n");
 			return true;
-- 
2.43.0


From 8028e621058d3a1d2c97ea9f2d4edfc9a3d41b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:06 +0000
Subject: [PATCH 02/37] fix: keep the other signal hooks when the last one is
 removed

rcu_list_remove() reset the tail to the head of the list even if the list
was not empty, so the next hook registered replaced all the remaining ones.
---
 src/sighook.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sighook.c b/src/sighook.c
index a87bed5..cfe9bc9 100644
--- a/src/sighook.c
+++ b/src/sighook.c
@@ -290,7 +290,7 @@ static void rcu_list_remove(struct rcu_list *list, struct rcu_node *node) {
 	if (next) {
 		next->self = node->self;
 	} else {
-		list->tail = &list->head;
+		list->tail = node->self;
 	}
 	rcu_destroy(&node->next);
 }
-- 
2.43.0


From 4b52fd45c6eca8a727905caa338e4d37d56b78a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:06 +0000
Subject: [PATCH 03/37] fix: don't let atsigexit() turn ignored signals into
 fatal ones

If bfs is started with e.g. SIGHUP ignored (nohup), installing our handler
for it meant that the signal killed bfs anyway, and that -exec'd commands
didn't inherit the ignored disposition through posix_spawn().
---
 src/sighook.c | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/sighook.c b/src/sighook.c
index cfe9bc9..9448341 100644
--- a/src/sighook.c
+++ b/src/sighook.c
@@ -638,19 +638,31 @@ struct sighook *sighook(int sig, sighook_fn *fn, void *arg, enum sigflags flags)
 	return ret;
 }
 
+/** Install our handler for a fatal signal, unless it's being ignored (e.g. by nohup). */
+static void siginit_fatal(int sig) {
+	struct sigaction action;
+	if (sigaction(sig, NULL, &action) == 0
+	    && !(action.sa_flags & SA_SIGINFO)
+	    && action.sa_handler == SIG_IGN) {
+		return;
+	}
+
+	// Ignore errors; atsigexit() is best-effort anyway and things
+	// like sanitizer runtimes or valgrind may reserve signals for
+	// their own use
+	siginit(sig);
+}
+
 struct sighook *atsigexit(sighook_fn *fn, void *arg) {
 	mutex_lock(&sigmutex);
 
 	for (size_t i = 0; i < countof(FATAL_SIGNALS); ++i) {
-		// Ignore errors; atsigexit() is best-effort anyway and things
-		// like sanitizer runtimes or valgrind may reserve signals for
-		// their own use
-		siginit(FATAL_SIGNALS[i]);
+		siginit_fatal(FATAL_SIGNALS[i]);
 	}
 
 #ifdef SIGRTMIN
 	for (int i = SIGRTMIN; i <= SIGRTMAX; ++i) {
-		siginit(i);
+		siginit_fatal(i);
 	}
 #endif
 
-- 
2.43.0


From f8b72f422633485ae0c2313aca39a3327e44de81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:06 +0000
Subject: [PATCH 04/37] fix: don't update the status bar after hiding it

If both SIGINFO and the status timer fired since the last file, the bar was
hidden and then updated anyway through a NULL pointer.
---
 src/eval.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eval.c b/src/eval.c
index 0d1bf68..8d3a718 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -1477,7 +1477,7 @@ static enum bftw_action eval_callback(const struct BFTW *ftwbuf, void *ptr) {
 		}
 	}
 
-	if (exchange(&args->alrm_flag, false, relaxed)) {
+	if (exchange(&args->alrm_flag, false, relaxed) && args->bar) {
 		eval_status(&state, args->bar, args->count);
 	}
 
-- 
2.43.0


From 4f73b85ab1cf09b6959d6f6aa6e4b57f020805df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:06 +0000
Subject: [PATCH 05/37] fix: visit mount points in -xdev -depth searches

-xdev pruned mount points after the pre-order visit, so their post-order
visit never happened and -depth searches skipped them altogether.
---
 src/bftw.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/bftw.c b/src/bftw.c
index f822456..a77d8b0 100644
--- a/src/bftw.c
+++ b/src/bftw.c
@@ -1805,7 +1805,14 @@ static enum bftw_action bftw_call_back(struct bftw_state *state, const char *nam
 			ret = BFTW_PRUNE;
 		} else if (state->flags & BFTW_PRUNE_MOUNTS) {
 			if (bftw_is_mount(state, name)) {
-				ret = BFTW_PRUNE;
+				if (state->flags & BFTW_POST_ORDER) {
+					// We won't descend, but the mount point still gets its post-order visit
+					state->ftwbuf.visit = BFTW_POST;
+					ret = state->callback(ftwbuf, state->ptr);
+				}
+				if (ret == BFTW_CONTINUE) {
+					ret = BFTW_PRUNE;
+				}
 			}
 		}
 		break;
-- 
2.43.0


From 2f94e1882baaed5c43262f4a7c678f51402758f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:43 +0000
Subject: [PATCH 06/37] fix: report errors that first happen in a later pass of
 -S ids/eds

Iterative deepening re-reads the shallow directories in every pass, and
dropped all the errors from them.  If such an error was new (e.g. transient
EIO/EMFILE), the files below that directory were skipped silently, with a
successful exit status.
---
 src/bftw.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/bftw.c b/src/bftw.c
index a77d8b0..e3291e7 100644
--- a/src/bftw.c
+++ b/src/bftw.c
@@ -2178,6 +2178,8 @@ struct bftw_ids_state {
 	size_t max_depth;
 	/** The set of pruned paths. */
 	struct trie pruned;
+	/** The set of paths with reported errors. */
+	struct trie errors;
 	/** Whether the bottom has been found. */
 	bool bottom;
 };
@@ -2192,7 +2194,14 @@ static enum bftw_action bftw_ids_callback(const struct BFTW *ftwbuf, void *ptr)
 	}
 
 	if (ftwbuf->type == BFS_ERROR) {
-		if (ftwbuf->depth + 1 >= state->min_depth) {
+		// Don't repeat errors from the previous passes, but don't swallow new ones either
+		bool reported = trie_find_str(&state->errors, ftwbuf->path);
+		if (!reported && !trie_insert_str(&state->errors, ftwbuf->path)) {
+			state->nested.error = errno;
+			return BFTW_STOP;
+		}
+
+		if (!reported || ftwbuf->depth + 1 >= state->min_depth) {
 			return state->delegate(ftwbuf, state->ptr);
 		} else {
 			return BFTW_PRUNE;
@@ -2249,6 +2258,7 @@ static int bftw_ids_init(struct bftw_ids_state *state, const struct bftw_args *a
 	state->min_depth = 0;
 	state->max_depth = 1;
 	trie_init(&state->pruned);
+	trie_init(&state->errors);
 	state->bottom = false;
 
 	struct bftw_args ids_args = *args;
@@ -2260,6 +2270,7 @@ static int bftw_ids_init(struct bftw_ids_state *state, const struct bftw_args *a
 
 /** Finish an iterative deepening search. */
 static int bftw_ids_destroy(struct bftw_ids_state *state) {
+	trie_destroy(&state->errors);
 	trie_destroy(&state->pruned);
 	return bftw_state_destroy(&state->nested);
 }
-- 
2.43.0


From 4c9a68dfd89ee177601a204eaa6d6e8042c7bd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:43 +0000
Subject: [PATCH 07/37] fix: skip duplicate files in -S ids -depth -unique
 searches

Files pruned from the pre-order passes were only remembered if they were
directories, so duplicates of other files were visited in the post-order
passes anyway.
---
 src/bftw.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/bftw.c b/src/bftw.c
index e3291e7..5197ff2 100644
--- a/src/bftw.c
+++ b/src/bftw.c
@@ -2170,6 +2170,8 @@ struct bftw_ids_state {
 	void *ptr;
 	/** Which visit this search corresponds to. */
 	enum bftw_visit visit;
+	/** Whether every file will be visited again in post-order. */
+	bool post_order;
 	/** Whether to override the bftw_visit. */
 	bool force_visit;
 	/** The current minimum depth (inclusive). */
@@ -2234,7 +2236,7 @@ static enum bftw_action bftw_ids_callback(const struct BFTW *ftwbuf, void *ptr)
 		break;
 
 	case BFTW_PRUNE:
-		if (ftwbuf->type == BFS_DIR) {
+		if (ftwbuf->type == BFS_DIR || state->post_order) {
 			if (!trie_insert_str(&state->pruned, ftwbuf->path)) {
 				state->nested.error = errno;
 				ret = BFTW_STOP;
@@ -2254,6 +2256,7 @@ static int bftw_ids_init(struct bftw_ids_state *state, const struct bftw_args *a
 	state->delegate = args->callback;
 	state->ptr = args->ptr;
 	state->visit = BFTW_PRE;
+	state->post_order = false;
 	state->force_visit = false;
 	state->min_depth = 0;
 	state->max_depth = 1;
@@ -2284,6 +2287,8 @@ static int bftw_ids(const struct bftw_args *args) {
 		return -1;
 	}
 
+	state.post_order = args->flags & BFTW_POST_ORDER;
+
 	while (!state.bottom) {
 		state.bottom = true;
 
-- 
2.43.0


From 2126889640d8686d25b7ab3b8e0507fcef8121de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:20 +0000
Subject: [PATCH 08/37] fix: set errno when bftw_type() already knows that a
 link is broken

Otherwise bfs -L ... -printf %Y depends on a stale errno: after -exec, for
example, it prints ? instead of N for broken links.
---
 src/bftw.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bftw.c b/src/bftw.c
index 5197ff2..721472b 100644
--- a/src/bftw.c
+++ b/src/bftw.c
@@ -178,6 +178,8 @@ enum bfs_type bftw_type(const struct BFTW *ftwbuf, enum bfs_stat_flags flags) {
 		if (ftwbuf->type != BFS_LNK) {
 			return ftwbuf->type;
 		} else if (ftwbuf->stat_flags & BFS_STAT_TRYFOLLOW) {
+			// We already know the link is broken
+			errno = ENOENT;
 			return BFS_ERROR;
 		}
 	}
-- 
2.43.0


From ee1a0016224623abacd3e0b0d3c31d423cf96d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:36 +0000
Subject: [PATCH 09/37] fix: don't treat everything after an ignored expression
 as unreachable

When data flow analysis replaces a pure expression with an ignored result by
-false, both outcomes of the original expression lead there, and parents may
already be annotated as always true because of it.  Without this, both

    $ bfs ! -name foo , -print
    $ bfs \( -print -true \) , -print

lose the last -print.
---
 src/opt.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/opt.c b/src/opt.c
index 49e8873..35d9df0 100644
--- a/src/opt.c
+++ b/src/opt.c
@@ -1832,8 +1832,15 @@ static struct bfs_expr *opt_ignore(struct bfs_opt *opt, struct bfs_expr *expr, b
 
 done:
 	if (!delete && expr->pure) {
-		// If we're not deleting the expression entirely, replace it with -false
-		expr = opt_const(opt, false);
+		// If we're not deleting the expression entirely, replace it with
+		// -false, unless we already promised that it's always true
+		bool value = expr->always_true;
+		if (value) {
+			df_join(&opt->after_true, &opt->after_false);
+		} else {
+			df_join(&opt->after_false, &opt->after_true);
+		}
+		expr = opt_const(opt, value);
 	}
 	return expr;
 }
-- 
2.43.0


From ed061b1e1f0599c54a4f7838d89d95603e4fa938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:37 +0000
Subject: [PATCH 10/37] fix: re-annotate comma expressions after simplifying
 them

Dropping a negation from an ignored operand can change the value of the comma
expression itself, so its always_true/always_false annotations may go stale.
With assertions enabled, a search like

    bfs . -printf V , ! \( -print -printf P \( -print , -true \) \)

aborted in eval_expr().
---
 src/opt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opt.c b/src/opt.c
index 35d9df0..325e223 100644
--- a/src/opt.c
+++ b/src/opt.c
@@ -2126,7 +2126,7 @@ static struct bfs_expr *simplify_comma(struct bfs_opt *opt, struct bfs_expr *exp
 		return only_child(expr);
 	}
 
-	return expr;
+	return visit_shallow(opt, expr, &annotate);
 }
 
 /**
-- 
2.43.0


From 98ba3cda39f1fc6b10f20b58ec9a772b3c4a5a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:17 +0000
Subject: [PATCH 11/37] fix: don't assume -nouser/-nogroup when -uid/-gid is
 false

When -uid N or -gid N was true for an existing user or group, the optimizer
also concluded that -nouser or -nogroup must be true when it was false.  So
e.g. 'bfs ! -uid 0 -nouser' matched every file not owned by root.
---
 src/opt.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/opt.c b/src/opt.c
index 325e223..34cc528 100644
--- a/src/opt.c
+++ b/src/opt.c
@@ -1655,7 +1655,9 @@ static struct bfs_expr *data_flow_gid(struct bfs_opt *opt, struct bfs_expr *expr
 		gid_t gid = range->min;
 		bool nogroup = !bfs_getgrgid(opt->ctx->groups, gid);
 		if (errno == 0) {
-			data_flow_pred(opt, NOGROUP_PRED, nogroup);
+			// Other groups may or may not exist, so we learn
+			// nothing about -nogroup if this is false
+			constrain_pred(&opt->after_true.preds[NOGROUP_PRED], nogroup);
 		}
 	}
 
@@ -1729,7 +1731,9 @@ static struct bfs_expr *data_flow_uid(struct bfs_opt *opt, struct bfs_expr *expr
 		uid_t uid = range->min;
 		bool nouser = !bfs_getpwuid(opt->ctx->users, uid);
 		if (errno == 0) {
-			data_flow_pred(opt, NOUSER_PRED, nouser);
+			// Other users may or may not exist, so we learn
+			// nothing about -nouser if this is false
+			constrain_pred(&opt->after_true.preds[NOUSER_PRED], nouser);
 		}
 	}
 
-- 
2.43.0


From 8c7f1b5d90ca5987c4ccb4c16f220163cb30a63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:56 +0000
Subject: [PATCH 12/37] fix: compare -size ranges in bytes

The optimizer tracked the possible values of -size without their units, so
mixing units could wrongly make an expression always true or false.  For
example, 'bfs -size -10M -size +50' (over 25 KiB, under 10 MiB) never matched
anything.
---
 src/eval.c | 13 +------------
 src/expr.c | 16 ++++++++++++++++
 src/expr.h |  5 +++++
 src/opt.c  | 38 +++++++++++++++++++++++++++++++++++---
 4 files changed, 57 insertions(+), 15 deletions(-)

diff --git a/src/eval.c b/src/eval.c
index 8d3a718..a98b637 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -951,18 +951,7 @@ bool eval_size(const struct bfs_expr *expr, struct bfs_eval *state) {
 		return false;
 	}
 
-	static const off_t scales[] = {
-		[BFS_BLOCKS] = 512,
-		[BFS_BYTES] = 1,
-		[BFS_WORDS] = 2,
-		[BFS_KB] = 1LL << 10,
-		[BFS_MB] = 1LL << 20,
-		[BFS_GB] = 1LL << 30,
-		[BFS_TB] = 1LL << 40,
-		[BFS_PB] = 1LL << 50,
-	};
-
-	off_t scale = scales[expr->size_unit];
+	off_t scale = bfs_size_scale(expr->size_unit);
 	off_t size = (statbuf->size + scale - 1) / scale; // Round up
 	return bfs_expr_cmp(expr, size);
 }
diff --git a/src/expr.c b/src/expr.c
index ca37ffc..47d831e 100644
--- a/src/expr.c
+++ b/src/expr.c
@@ -13,6 +13,22 @@
 #include "xregex.h"
 
 #include <string.h>
+#include <sys/types.h>
+
+off_t bfs_size_scale(enum bfs_size_unit unit) {
+	static const off_t scales[] = {
+		[BFS_BLOCKS] = 512,
+		[BFS_BYTES] = 1,
+		[BFS_WORDS] = 2,
+		[BFS_KB] = 1LL << 10,
+		[BFS_MB] = 1LL << 20,
+		[BFS_GB] = 1LL << 30,
+		[BFS_TB] = 1LL << 40,
+		[BFS_PB] = 1LL << 50,
+	};
+
+	return scales[unit];
+}
 
 struct bfs_expr *bfs_expr_new(struct bfs_ctx *ctx, bfs_eval_fn *eval_fn, size_t argc, char **argv, enum bfs_kind kind) {
 	bfs_assert(kind != BFS_PATH);
diff --git a/src/expr.h b/src/expr.h
index c116778..24fa893 100644
--- a/src/expr.h
+++ b/src/expr.h
@@ -97,6 +97,11 @@ enum bfs_size_unit {
 	BFS_PB,
 };
 
+/**
+ * Get the number of bytes in a size unit.
+ */
+off_t bfs_size_scale(enum bfs_size_unit unit);
+
 /**
  * A linked list of expressions.
  */
diff --git a/src/opt.c b/src/opt.c
index 34cc528..1c6afde 100644
--- a/src/opt.c
+++ b/src/opt.c
@@ -1707,8 +1707,41 @@ static struct bfs_expr *data_flow_samefile(struct bfs_opt *opt, struct bfs_expr
 
 /** Transfer function for -size. */
 static struct bfs_expr *data_flow_size(struct bfs_opt *opt, struct bfs_expr *expr, const struct visitor *visitor) {
-	struct df_range *range = &opt->after_true.ranges[SIZE_RANGE];
-	if (range->min == range->max) {
+	struct df_range *true_range = &opt->after_true.ranges[SIZE_RANGE];
+	struct df_range *false_range = &opt->after_false.ranges[SIZE_RANGE];
+
+	// Sizes are rounded up to a multiple of the unit, so -size N matches
+	// the byte sizes (min, max]
+	long long scale = bfs_size_scale(expr->size_unit);
+	if (expr->num <= LLONG_MAX / scale - 1) {
+		long long max = expr->num * scale;
+		long long min = max - scale;
+
+		switch (expr->int_cmp) {
+		case BFS_INT_EQUAL:
+			constrain_min(true_range, min + 1);
+			constrain_max(true_range, max);
+			if (false_range->min > min) {
+				constrain_min(false_range, max + 1);
+			}
+			if (false_range->max <= max) {
+				constrain_max(false_range, min);
+			}
+			break;
+
+		case BFS_INT_LESS:
+			constrain_max(true_range, min);
+			constrain_min(false_range, min + 1);
+			break;
+
+		case BFS_INT_GREATER:
+			constrain_min(true_range, max + 1);
+			constrain_max(false_range, max);
+			break;
+		}
+	}
+
+	if (true_range->min == true_range->max || expr->int_cmp == BFS_INT_EQUAL) {
 		expr->probability = 0.01;
 	} else {
 		expr->probability = 0.5;
@@ -1898,7 +1931,6 @@ static struct bfs_expr *data_flow_visit(struct bfs_opt *opt, struct bfs_expr *ex
 		{eval_gid,     GID_RANGE},
 		{eval_inum,   INUM_RANGE},
 		{eval_links, LINKS_RANGE},
-		{eval_size,   SIZE_RANGE},
 		{eval_uid,     UID_RANGE},
 	};
 
-- 
2.43.0


From a2ff73e36a741a6a1be6af42a856254cc8a12e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:30 +0000
Subject: [PATCH 13/37] fix: don't confuse inode numbers across devices in
 -samefile analysis

The optimizer assumed that a file which is not -samefile X can't have X's
inode number, but it can if it's on another device.  For example,
'bfs /proc /sys -maxdepth 0 -inum 1 ! -samefile /proc' didn't find /sys.
---
 src/opt.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/opt.c b/src/opt.c
index 1c6afde..f5b06a9 100644
--- a/src/opt.c
+++ b/src/opt.c
@@ -1699,8 +1699,7 @@ static struct bfs_expr *data_flow_samefile(struct bfs_opt *opt, struct bfs_expr
 	struct df_range *true_range = &opt->after_true.ranges[INUM_RANGE];
 	constrain_range(true_range, expr->ino);
 
-	struct df_range *false_range = &opt->after_false.ranges[INUM_RANGE];
-	range_remove(false_range, expr->ino);
+	// A different file can have the same inode number on another device
 
 	return expr;
 }
-- 
2.43.0


From 0d8fbc337cd4d70ab9126f25800580a16f12950a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:26 +0000
Subject: [PATCH 14/37] fix: don't treat allocation failure as end-of-file in
 xgetdelim()

getdelim() doesn't set the stream's error indicator when it runs out of memory
(at least on glibc), so xgetdelim() would report a successful end-of-file and
-files0-from would silently drop the rest of the paths.
---
 src/bfstd.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bfstd.c b/src/bfstd.c
index b78af7a..a384188 100644
--- a/src/bfstd.c
+++ b/src/bfstd.c
@@ -182,7 +182,8 @@ char *xgetdelim(FILE *file, char delim) {
 		return chunk;
 	} else {
 		free(chunk);
-		if (!ferror(file)) {
+		// Allocation failures don't necessarily set the error indicator
+		if (feof(file) && !ferror(file)) {
 			errno = 0;
 		}
 		return NULL;
-- 
2.43.0


From 353f67fb4062a9b4eb8875ee5b9e545c7ee1e7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:40 +0000
Subject: [PATCH 15/37] fix: report fork() failures when spawning a command

Restoring the signal mask reset errno to 0, so a failed fork() looked like
a command that merely returned false: no error message, and for
-exec ... \; a successful exit status.
---
 src/xspawn.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/xspawn.c b/src/xspawn.c
index 3fa4e60..936310f 100644
--- a/src/xspawn.c
+++ b/src/xspawn.c
@@ -651,18 +651,20 @@ static pid_t bfs_fork_spawn(struct bfs_resolver *res, const struct bfs_spawn *ct
 		bfs_spawn_exec(res, ctx, argv, envp, &old_mask, pipefd);
 	}
 
+	int error = errno;
+
 	// Restore the original signal mask
 	errno = pthread_sigmask(SIG_SETMASK, &old_mask, NULL);
 	bfs_everify(errno == 0, "pthread_sigmask()");
 
 	if (pid < 0) {
 		// fork() failed
+		errno = error;
 		goto fail;
 	}
 
 	xclose(pipefd[1]);
 
-	int error;
 	ssize_t nbytes = xread(pipefd[0], &error, sizeof(error));
 	xclose(pipefd[0]);
 	if (nbytes == sizeof(error)) {
-- 
2.43.0


From 755363b49e086d75a7444b3dfa1d90e9f8ac5f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:00 +0000
Subject: [PATCH 16/37] fix: don't derive data-flow facts from impure
 predicates

---
 src/opt.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/opt.c b/src/opt.c
index f5b06a9..fba690d 100644
--- a/src/opt.c
+++ b/src/opt.c
@@ -1916,7 +1916,10 @@ static struct bfs_expr *data_flow_visit(struct bfs_opt *opt, struct bfs_expr *ex
 
 	for (size_t i = 0; i < countof(preds); ++i) {
 		if (preds[i].eval_fn == expr->eval_fn) {
-			data_flow_pred(opt, preds[i].pred, true);
+			// Impure predicates may change their minds later
+			if (expr->pure) {
+				data_flow_pred(opt, preds[i].pred, true);
+			}
 			break;
 		}
 	}
-- 
2.43.0


From 9cab1cd19c9904d050f486c9671b8d11671d42c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:49 +0000
Subject: [PATCH 17/37] fix: let atsigexit() handle ignored signals again

This reverts 4b52fd4.  The existing unit tests rely on atsigexit() hooks
running (and the signal being fatal) even if the tests themselves are run
with SIGINT, SIGQUIT or SIGPIPE ignored, e.g. as a background job.
---
 src/sighook.c | 22 +++++-----------------
 1 file changed, 5 insertions(+), 17 deletions(-)

diff --git a/src/sighook.c b/src/sighook.c
index 9448341..cfe9bc9 100644
--- a/src/sighook.c
+++ b/src/sighook.c
@@ -638,31 +638,19 @@ struct sighook *sighook(int sig, sighook_fn *fn, void *arg, enum sigflags flags)
 	return ret;
 }
 
-/** Install our handler for a fatal signal, unless it's being ignored (e.g. by nohup). */
-static void siginit_fatal(int sig) {
-	struct sigaction action;
-	if (sigaction(sig, NULL, &action) == 0
-	    && !(action.sa_flags & SA_SIGINFO)
-	    && action.sa_handler == SIG_IGN) {
-		return;
-	}
-
-	// Ignore errors; atsigexit() is best-effort anyway and things
-	// like sanitizer runtimes or valgrind may reserve signals for
-	// their own use
-	siginit(sig);
-}
-
 struct sighook *atsigexit(sighook_fn *fn, void *arg) {
 	mutex_lock(&sigmutex);
 
 	for (size_t i = 0; i < countof(FATAL_SIGNALS); ++i) {
-		siginit_fatal(FATAL_SIGNALS[i]);
+		// Ignore errors; atsigexit() is best-effort anyway and things
+		// like sanitizer runtimes or valgrind may reserve signals for
+		// their own use
+		siginit(FATAL_SIGNALS[i]);
 	}
 
 #ifdef SIGRTMIN
 	for (int i = SIGRTMIN; i <= SIGRTMAX; ++i) {
-		siginit_fatal(i);
+		siginit(i);
 	}
 #endif
 
-- 
2.43.0


From 5676f3178022238729fcd991a491d6cca5946be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:40 +0000
Subject: [PATCH 18/37] fix: report errors reading -files0-from

---
 src/parse.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parse.c b/src/parse.c
index 9c39d6b..1edad34 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -3560,6 +3560,7 @@ static int parse_files0_roots(struct bfs_parser *parser) {
 		char *path = xgetdelim(file, '\0');
 		if (!path) {
 			if (errno) {
+				parse_expr_error(parser, expr, "%s.\n", errstr());
 				goto fail;
 			} else {
 				break;
-- 
2.43.0


From 6b65df908ee83c525aea239e29c4d2c1285204e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:00 +0000
Subject: [PATCH 19/37] fix: don't return truncated records from xgetdelim() on
 read errors

---
 src/bfstd.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bfstd.c b/src/bfstd.c
index a384188..b64ccec 100644
--- a/src/bfstd.c
+++ b/src/bfstd.c
@@ -175,7 +175,8 @@ char *xgetdelim(FILE *file, char delim) {
 	char *chunk = NULL;
 	size_t n = 0;
 	ssize_t len = getdelim(&chunk, &n, delim, file);
-	if (len >= 0) {
+	// getdelim() returns a truncated record if reading the rest of it fails
+	if (len >= 0 && !ferror(file)) {
 		if (chunk[len] == delim) {
 			chunk[len] = '\0';
 		}
-- 
2.43.0


From 6441765c28ba5ce5e8ce70b1ee03cffbb40b5906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:14 +0000
Subject: [PATCH 20/37] fix: reset the terminal before removing the status
 bar's exit hook

---
 src/bar.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bar.c b/src/bar.c
index 1b0691a..80e4f3e 100644
--- a/src/bar.c
+++ b/src/bar.c
@@ -211,10 +211,13 @@ void bfs_bar_hide(struct bfs_bar *bar) {
 	}
 
 	sigunhook(bar->winch_hook);
-	sigunhook(bar->exit_hook);
 
+	// Reset the terminal before we remove the exit hook, so that a fatal
+	// signal in between can't leave the scrollable region set
 	bfs_bar_reset(bar);
 
+	sigunhook(bar->exit_hook);
+
 	xclose(bar->fd);
 	free(bar);
 }
-- 
2.43.0


From 6e0c76585dfeef25c764e72ad9c7312fa106ce26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:14 +0000
Subject: [PATCH 21/37] fix: don't let a late SIGALRM kill bfs after hiding the
 status bar

---
 src/eval.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/eval.c b/src/eval.c
index a98b637..38e9efe 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -1396,7 +1396,9 @@ static void eval_siginfo(int sig, siginfo_t *info, void *ptr) {
 
 /** Show the status bar. */
 static void eval_show_bar(struct callback_args *args) {
-	args->alrm_hook = sighook(SIGALRM, eval_sigalrm, args, SH_CONTINUE);
+	if (!args->alrm_hook) {
+		args->alrm_hook = sighook(SIGALRM, eval_sigalrm, args, SH_CONTINUE);
+	}
 	if (!args->alrm_hook) {
 		goto fail;
 	}
@@ -1423,9 +1425,6 @@ fail:
 
 	bfs_bar_hide(args->bar);
 	args->bar = NULL;
-
-	sigunhook(args->alrm_hook);
-	args->alrm_hook = NULL;
 }
 
 /** Hide the status bar. */
@@ -1433,8 +1432,8 @@ static void eval_hide_bar(struct callback_args *args) {
 	xtimer_stop(args->timer);
 	args->timer = NULL;
 
-	sigunhook(args->alrm_hook);
-	args->alrm_hook = NULL;
+	// Keep the SIGALRM hook, since another thread may not have handled the
+	// last SIGALRM yet, and without the hook it would be fatal
 
 	bfs_bar_hide(args->bar);
 	args->bar = NULL;
@@ -1776,6 +1775,7 @@ int bfs_eval(struct bfs_ctx *ctx) {
 	if (args.bar) {
 		eval_hide_bar(&args);
 	}
+	sigunhook(args.alrm_hook);
 
 	if (ctx->ignore_errors && args.nerrors > 0) {
 		bfs_warning(ctx, "Suppressed errors: %zu\n", args.nerrors);
-- 
2.43.0


From 3185502af37a63b1baee7a052b5c4341e8987623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:00 +0000
Subject: [PATCH 22/37] fix: don't drop requests popped together with IOQ_STOP

---
 src/ioq.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/ioq.c b/src/ioq.c
index 1efedd7..194d38f 100644
--- a/src/ioq.c
+++ b/src/ioq.c
@@ -897,12 +897,17 @@ static bool ioq_ring_prep(struct ioq_ring_state *state) {
 		if (ent == &IOQ_STOP) {
 			ioqq_push(ioq->pending, ent);
 			state->stop = true;
-			break;
 		} else if (ent) {
 			ioq_prep_sqe(state, ent);
 		} else {
 			break;
 		}
+
+		// If the queue wrapped around while we were popping this batch,
+		// there may be requests left in it after IOQ_STOP
+		if (state->stop && ioq_batch_empty(&pending)) {
+			break;
+		}
 	}
 
 	bfs_assert(ioq_batch_empty(&pending));
@@ -945,15 +950,22 @@ static void ioq_sync_work(struct ioq_thread *thread) {
 	ioq_batch_reset(&pending);
 	ioq_batch_reset(&ready);
 
+	bool stop = false;
 	while (true) {
 		if (ioq_batch_empty(&pending)) {
+			// If the queue wrapped around while we were popping this
+			// batch, there may be requests left in it after IOQ_STOP
+			if (stop) {
+				break;
+			}
 			ioq_batch_flush(ioq->ready, &ready);
 		}
 
 		struct ioq_ent *ent = ioq_batch_pop(ioq->pending, &pending, true);
 		if (ent == &IOQ_STOP) {
 			ioqq_push(ioq->pending, ent);
-			break;
+			stop = true;
+			continue;
 		}
 
 		if (!ioq_check_cancel(ioq, ent)) {
-- 
2.43.0


From 1e7e10af4cb6f53f38b67f454616eaf954d88f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:54 +0000
Subject: [PATCH 23/37] fix: don't report root files deleted by an earlier pass
 of -S eds

---
 src/bftw.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/bftw.c b/src/bftw.c
index 721472b..b2d1d0f 100644
--- a/src/bftw.c
+++ b/src/bftw.c
@@ -2198,6 +2198,10 @@ static enum bftw_action bftw_ids_callback(const struct BFTW *ftwbuf, void *ptr)
 	}
 
 	if (ftwbuf->type == BFS_ERROR) {
+		if (trie_find_str(&state->pruned, ftwbuf->path)) {
+			return BFTW_PRUNE;
+		}
+
 		// Don't repeat errors from the previous passes, but don't swallow new ones either
 		bool reported = trie_find_str(&state->errors, ftwbuf->path);
 		if (!reported && !trie_insert_str(&state->errors, ftwbuf->path)) {
@@ -2250,6 +2254,15 @@ static enum bftw_action bftw_ids_callback(const struct BFTW *ftwbuf, void *ptr)
 		break;
 	}
 
+	// Non-directories are done already, so don't complain if they're gone
+	// (e.g. due to -delete) in a later pass
+	if (ret != BFTW_STOP && ftwbuf->depth == 0 && ftwbuf->type != BFS_DIR && !state->post_order) {
+		if (!trie_insert_str(&state->pruned, ftwbuf->path)) {
+			state->nested.error = errno;
+			ret = BFTW_STOP;
+		}
+	}
+
 	return ret;
 }
 
-- 
2.43.0


From 6ef3ed3fc933e88f62d15fc3d5cb16937a70af52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:43 +0000
Subject: [PATCH 24/37] fix: don't leak the path in bfs_getfilecon()

---
 src/fsade.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fsade.c b/src/fsade.c
index dfdf125..b339ea1 100644
--- a/src/fsade.c
+++ b/src/fsade.c
@@ -501,6 +501,10 @@ char *bfs_getfilecon(const struct BFTW *ftwbuf) {
 		ret = getfilecon(path, &con);
 	}
 
+	int error = errno;
+	free_fake_at(ftwbuf, path);
+	errno = error;
+
 	if (ret >= 0) {
 		return con;
 	} else {
-- 
2.43.0


From a7c7019953f362d789ff04d195ed43f2f7f503da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:25 +0000
Subject: [PATCH 25/37] fix: report errors reading one kind of ACL when the
 other kind is absent

---
 src/fsade.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fsade.c b/src/fsade.c
index b339ea1..2311fef 100644
--- a/src/fsade.c
+++ b/src/fsade.c
@@ -268,8 +268,8 @@ int bfs_check_acl(const struct BFTW *ftwbuf) {
 #  endif
 	};
 
-	int ret = -1, error = 0;
-	for (size_t i = 0; i < countof(acl_types) && ret <= 0; ++i) {
+	int ret = 0, error = 0;
+	for (size_t i = 0; i < countof(acl_types) && ret == 0; ++i) {
 		acl_type_t type = acl_types[i];
 
 		if (type == ACL_TYPE_DEFAULT && ftwbuf->type != BFS_DIR) {
@@ -281,8 +281,8 @@ int bfs_check_acl(const struct BFTW *ftwbuf) {
 		acl_t acl = acl_get_file(path, type);
 		if (!acl) {
 			error = errno;
-			if (is_absence_error(error)) {
-				ret = 0;
+			if (!is_absence_error(error)) {
+				ret = -1;
 			}
 			continue;
 		}
-- 
2.43.0


From 18800af6a8afbe5d23cb93bfa2efadf5b12e108c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:27 +0000
Subject: [PATCH 26/37] fix: keep the paths pruned by iterative deepening apart
 for each root

---
 src/bftw.c | 72 ++++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 53 insertions(+), 19 deletions(-)

diff --git a/src/bftw.c b/src/bftw.c
index b2d1d0f..5e2555a 100644
--- a/src/bftw.c
+++ b/src/bftw.c
@@ -200,6 +200,8 @@ struct bftw_file {
 	struct bftw_file *parent;
 	/** The root under which this file was found. */
 	struct bftw_file *root;
+	/** The index of that root in the list of starting paths. */
+	size_t root_index;
 
 	/**
 	 * List node for:
@@ -718,7 +720,7 @@ static void bftw_cache_destroy(struct bftw_cache *cache) {
 }
 
 /** Create a new bftw_file. */
-static struct bftw_file *bftw_file_new(struct bftw_cache *cache, struct bftw_file *parent, const char *name) {
+static struct bftw_file *bftw_file_new(struct bftw_cache *cache, struct bftw_file *parent, size_t root_index, const char *name) {
 	size_t namelen = strlen(name);
 	struct bftw_file *file = varena_alloc(&cache->files, namelen + 1);
 	if (!file) {
@@ -729,11 +731,13 @@ static struct bftw_file *bftw_file_new(struct bftw_cache *cache, struct bftw_fil
 
 	if (parent) {
 		file->root = parent->root;
+		file->root_index = parent->root_index;
 		file->depth = parent->depth + 1;
 		file->nameoff = bftw_child_nameoff(parent);
 		++parent->refcount;
 	} else {
 		file->root = file;
+		file->root_index = root_index;
 		file->depth = 0;
 		file->nameoff = 0;
 	}
@@ -809,6 +813,8 @@ struct bftw_state {
 	const char **paths;
 	/** The number of starting paths. */
 	size_t npaths;
+	/** The index of the last starting path. */
+	size_t root_index;
 	/** bftw() callback. */
 	bftw_callback *callback;
 	/** bftw() callback data. */
@@ -900,6 +906,7 @@ static bool bftw_must_buffer(const struct bftw_state *state) {
 static int bftw_state_init(struct bftw_state *state, const struct bftw_args *args) {
 	state->paths = args->paths;
 	state->npaths = args->npaths;
+	state->root_index = 0;
 	state->callback = args->callback;
 	state->ptr = args->ptr;
 	state->flags = args->flags;
@@ -2026,7 +2033,7 @@ static int bftw_visit(struct bftw_state *state, const char *name) {
 	struct bftw_file *file = state->file;
 
 	if (bftw_buffer_file(state, file, name)) {
-		file = bftw_file_new(cache, file, name);
+		file = bftw_file_new(cache, file, state->root_index, name);
 		if (!file) {
 			state->error = errno;
 			return -1;
@@ -2043,7 +2050,7 @@ static int bftw_visit(struct bftw_state *state, const char *name) {
 	switch (bftw_call_back(state, name, BFTW_PRE)) {
 	case BFTW_CONTINUE:
 		if (name) {
-			file = bftw_file_new(cache, state->file, name);
+			file = bftw_file_new(cache, state->file, state->root_index, name);
 		} else {
 			state->file = NULL;
 		}
@@ -2114,6 +2121,7 @@ static int bftw_state_destroy(struct bftw_state *state) {
  */
 static int bftw_impl(struct bftw_state *state) {
 	for (size_t i = 0; i < state->npaths; ++i) {
+		state->root_index = i;
 		if (bftw_visit(state, state->paths[i]) != 0) {
 			return -1;
 		}
@@ -2180,10 +2188,10 @@ struct bftw_ids_state {
 	size_t min_depth;
 	/** The current maximum depth (exclusive). */
 	size_t max_depth;
-	/** The set of pruned paths. */
-	struct trie pruned;
-	/** The set of paths with reported errors. */
-	struct trie errors;
+	/** The set of pruned paths, for each root. */
+	struct trie *pruned;
+	/** The set of paths with reported errors, for each root. */
+	struct trie *errors;
 	/** Whether the bottom has been found. */
 	bool bottom;
 };
@@ -2197,14 +2205,20 @@ static enum bftw_action bftw_ids_callback(const struct BFTW *ftwbuf, void *ptr)
 		mutbuf->visit = state->visit;
 	}
 
+	// The same path may be reached from different roots
+	const struct bftw_file *file = state->nested.file;
+	size_t root_index = file ? file->root_index : state->nested.root_index;
+	struct trie *pruned = &state->pruned[root_index];
+	struct trie *errors = &state->errors[root_index];
+
 	if (ftwbuf->type == BFS_ERROR) {
-		if (trie_find_str(&state->pruned, ftwbuf->path)) {
+		if (trie_find_str(pruned, ftwbuf->path)) {
 			return BFTW_PRUNE;
 		}
 
 		// Don't repeat errors from the previous passes, but don't swallow new ones either
-		bool reported = trie_find_str(&state->errors, ftwbuf->path);
-		if (!reported && !trie_insert_str(&state->errors, ftwbuf->path)) {
+		bool reported = trie_find_str(errors, ftwbuf->path);
+		if (!reported && !trie_insert_str(errors, ftwbuf->path)) {
 			state->nested.error = errno;
 			return BFTW_STOP;
 		}
@@ -2217,13 +2231,13 @@ static enum bftw_action bftw_ids_callback(const struct BFTW *ftwbuf, void *ptr)
 	}
 
 	if (ftwbuf->depth < state->min_depth) {
-		if (trie_find_str(&state->pruned, ftwbuf->path)) {
+		if (trie_find_str(pruned, ftwbuf->path)) {
 			return BFTW_PRUNE;
 		} else {
 			return BFTW_CONTINUE;
 		}
 	} else if (state->visit == BFTW_POST) {
-		if (trie_find_str(&state->pruned, ftwbuf->path)) {
+		if (trie_find_str(pruned, ftwbuf->path)) {
 			return BFTW_PRUNE;
 		}
 	}
@@ -2243,7 +2257,7 @@ static enum bftw_action bftw_ids_callback(const struct BFTW *ftwbuf, void *ptr)
 
 	case BFTW_PRUNE:
 		if (ftwbuf->type == BFS_DIR || state->post_order) {
-			if (!trie_insert_str(&state->pruned, ftwbuf->path)) {
+			if (!trie_insert_str(pruned, ftwbuf->path)) {
 				state->nested.error = errno;
 				ret = BFTW_STOP;
 			}
@@ -2257,7 +2271,7 @@ static enum bftw_action bftw_ids_callback(const struct BFTW *ftwbuf, void *ptr)
 	// Non-directories are done already, so don't complain if they're gone
 	// (e.g. due to -delete) in a later pass
 	if (ret != BFTW_STOP && ftwbuf->depth == 0 && ftwbuf->type != BFS_DIR && !state->post_order) {
-		if (!trie_insert_str(&state->pruned, ftwbuf->path)) {
+		if (!trie_insert_str(pruned, ftwbuf->path)) {
 			state->nested.error = errno;
 			ret = BFTW_STOP;
 		}
@@ -2275,21 +2289,41 @@ static int bftw_ids_init(struct bftw_ids_state *state, const struct bftw_args *a
 	state->force_visit = false;
 	state->min_depth = 0;
 	state->max_depth = 1;
-	trie_init(&state->pruned);
-	trie_init(&state->errors);
 	state->bottom = false;
 
+	state->pruned = ALLOC_ARRAY(struct trie, args->npaths);
+	state->errors = ALLOC_ARRAY(struct trie, args->npaths);
+	if (!state->pruned || !state->errors) {
+		free(state->errors);
+		free(state->pruned);
+		return -1;
+	}
+	for (size_t i = 0; i < args->npaths; ++i) {
+		trie_init(&state->pruned[i]);
+		trie_init(&state->errors[i]);
+	}
+
 	struct bftw_args ids_args = *args;
 	ids_args.callback = bftw_ids_callback;
 	ids_args.ptr = state;
 	ids_args.flags &= ~BFTW_POST_ORDER;
-	return bftw_state_init(&state->nested, &ids_args);
+	if (bftw_state_init(&state->nested, &ids_args) != 0) {
+		free(state->errors);
+		free(state->pruned);
+		return -1;
+	}
+
+	return 0;
 }
 
 /** Finish an iterative deepening search. */
 static int bftw_ids_destroy(struct bftw_ids_state *state) {
-	trie_destroy(&state->errors);
-	trie_destroy(&state->pruned);
+	for (size_t i = 0; i < state->nested.npaths; ++i) {
+		trie_destroy(&state->errors[i]);
+		trie_destroy(&state->pruned[i]);
+	}
+	free(state->errors);
+	free(state->pruned);
 	return bftw_state_destroy(&state->nested);
 }
 
-- 
2.43.0


From 0323b7c1ea5929b86c08c7e916c90636b03b0a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:09 +0000
Subject: [PATCH 27/37] fix: don't assume the user/group tables stay the same
 when running commands

---
 src/opt.c | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/opt.c b/src/opt.c
index fba690d..8a631b4 100644
--- a/src/opt.c
+++ b/src/opt.c
@@ -360,6 +360,8 @@ struct bfs_opt {
 
 	/** Whether to produce warnings. */
 	bool warn;
+	/** Whether any commands are executed, which may edit the user/group tables. */
+	bool exec;
 	/** Whether the result of this expression is ignored. */
 	bool ignore_result;
 
@@ -1651,7 +1653,7 @@ static struct bfs_expr *data_flow_empty(struct bfs_opt *opt, struct bfs_expr *ex
 /** Transfer function for -gid. */
 static struct bfs_expr *data_flow_gid(struct bfs_opt *opt, struct bfs_expr *expr, const struct visitor *visitor) {
 	struct df_range *range = &opt->after_true.ranges[GID_RANGE];
-	if (range->min == range->max) {
+	if (range->min == range->max && !opt->exec) {
 		gid_t gid = range->min;
 		bool nogroup = !bfs_getgrgid(opt->ctx->groups, gid);
 		if (errno == 0) {
@@ -1759,7 +1761,7 @@ static struct bfs_expr *data_flow_type(struct bfs_opt *opt, struct bfs_expr *exp
 /** Transfer function for -uid. */
 static struct bfs_expr *data_flow_uid(struct bfs_opt *opt, struct bfs_expr *expr, const struct visitor *visitor) {
 	struct df_range *range = &opt->after_true.ranges[UID_RANGE];
-	if (range->min == range->max) {
+	if (range->min == range->max && !opt->exec) {
 		uid_t uid = range->min;
 		bool nouser = !bfs_getpwuid(opt->ctx->users, uid);
 		if (errno == 0) {
@@ -1917,7 +1919,11 @@ static struct bfs_expr *data_flow_visit(struct bfs_opt *opt, struct bfs_expr *ex
 	for (size_t i = 0; i < countof(preds); ++i) {
 		if (preds[i].eval_fn == expr->eval_fn) {
 			// Impure predicates may change their minds later
-			if (expr->pure) {
+			bool pure = expr->pure;
+			if (expr->eval_fn == eval_nogroup || expr->eval_fn == eval_nouser) {
+				pure &= !opt->exec;
+			}
+			if (pure) {
 				data_flow_pred(opt, preds[i].pred, true);
 			}
 			break;
@@ -2300,6 +2306,23 @@ static bool single_exec(const struct bfs_expr *expr) {
 	return expr->eval_fn == eval_exec && !(expr->exec->flags & BFS_EXEC_MULTI);
 }
 
+/** Check if an expression executes any commands. */
+static bool opt_has_exec(const struct bfs_expr *expr) {
+	if (expr->eval_fn == eval_exec) {
+		return true;
+	}
+
+	if (bfs_expr_is_parent(expr)) {
+		for_expr (child, expr) {
+			if (opt_has_exec(child)) {
+				return true;
+			}
+		}
+	}
+
+	return false;
+}
+
 int bfs_optimize(struct bfs_ctx *ctx) {
 	bfs_ctx_dump(ctx, DEBUG_OPT);
 
@@ -2311,6 +2334,7 @@ int bfs_optimize(struct bfs_ctx *ctx) {
 		.level = ctx->optlevel,
 		.depth = 0,
 		.warn = ctx->warn,
+		.exec = opt_has_exec(ctx->exclude) || opt_has_exec(ctx->expr),
 		.ignore_result = false,
 		.impure = &impure,
 	};
-- 
2.43.0


From 26a977c2f91b67a5207f81759ffa8a7745ca125f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:06 +0000
Subject: [PATCH 28/37] fix: keep ignoring signals that were ignored at startup

Installing a hook for SIGHUP, SIGINT, etc. replaced SIG_IGN, so that bfs under
nohup (or in a shell's background job) could be killed by a signal it was
started with ignored, and commands run by -exec no longer ignored it either.
---
 src/sighook.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/sighook.c b/src/sighook.c
index cfe9bc9..4780033 100644
--- a/src/sighook.c
+++ b/src/sighook.c
@@ -587,6 +587,13 @@ static int siginit(int sig) {
 		return -1;
 	}
 
+	if (!(original.sa_flags & SA_SIGINFO) && original.sa_handler == SIG_IGN) {
+		// Keep ignoring signals that were ignored when we started, e.g.
+		// because of nohup.  Child processes should ignore them too.
+		signals = updated;
+		return 0;
+	}
+
 	struct sigsave *save = ALLOC(struct sigsave);
 	if (!save) {
 		return -1;
-- 
2.43.0


From 4edcaf5b92f872bb9a8a78883d282b9ca729950f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:06 +0000
Subject: [PATCH 29/37] fix: restore the default SIGCHLD disposition

If SIGCHLD is ignored when bfs starts, children are reaped automatically and
every -exec fails with ECHILD even though the command ran.
---
 src/main.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/main.c b/src/main.c
index da07508..79870a2 100644
--- a/src/main.c
+++ b/src/main.c
@@ -57,6 +57,7 @@
 #include <errno.h>
 #include <fcntl.h>
 #include <locale.h>
+#include <signal.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <time.h>
@@ -120,6 +121,13 @@ int main(int argc, char *argv[]) {
 		return EXIT_FAILURE;
 	}
 
+	// If SIGCHLD is ignored, child processes are reaped automatically, and we
+	// can't wait for them
+	struct sigaction sa;
+	if (sigaction(SIGCHLD, NULL, &sa) == 0 && sa.sa_handler == SIG_IGN) {
+		signal(SIGCHLD, SIG_DFL);
+	}
+
 	// Use the system locale instead of "C"
 	int locale_err = 0;
 	if (!setlocale(LC_ALL, "")) {
-- 
2.43.0


From ec83f4174cd1aeab2873b1c385476f8c37297611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:03 +0000
Subject: [PATCH 30/37] fix: keep handling SIGPIPE even if it was ignored at
 startup

Programs started from e.g. Python often inherit an ignored SIGPIPE by accident,
and the unit tests expect atsigexit() to work for it.
---
 src/sighook.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sighook.c b/src/sighook.c
index 4780033..dc440ca 100644
--- a/src/sighook.c
+++ b/src/sighook.c
@@ -587,9 +587,10 @@ static int siginit(int sig) {
 		return -1;
 	}
 
-	if (!(original.sa_flags & SA_SIGINFO) && original.sa_handler == SIG_IGN) {
+	if (sig != SIGPIPE && !(original.sa_flags & SA_SIGINFO) && original.sa_handler == SIG_IGN) {
 		// Keep ignoring signals that were ignored when we started, e.g.
 		// because of nohup.  Child processes should ignore them too.
+		// SIGPIPE is often ignored by accident, so always handle it.
 		signals = updated;
 		return 0;
 	}
-- 
2.43.0


From b2d88759ee13a9100e153c53fd82b0a07858399d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:28 +0000
Subject: [PATCH 31/37] fix: don't crash after failing to open a working
 directory for -execdir {} +

The next file in the same directory found the previous path still set, and
failed an assertion (or leaked it).
---
 src/exec.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/exec.c b/src/exec.c
index 5b7e6d1..023488e 100644
--- a/src/exec.c
+++ b/src/exec.c
@@ -637,6 +637,9 @@ static int bfs_exec_multi(struct bfs_exec *execbuf, const struct BFTW *ftwbuf) {
 
 	if ((execbuf->flags & BFS_EXEC_CHDIR) && execbuf->wd_fd < 0) {
 		if (bfs_exec_openwd(execbuf, ftwbuf) != 0) {
+			int error = errno;
+			bfs_exec_closewd(execbuf, ftwbuf);
+			errno = error;
 			ret = -1;
 			goto out_arg;
 		}
-- 
2.43.0


From 021f3998f91c20e5fc5cbcaaeabd1c7a0e18c3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:59 +0000
Subject: [PATCH 32/37] fix: skip directories when searching the PATH for a
 command

---
 src/xspawn.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/xspawn.c b/src/xspawn.c
index 936310f..2901b80 100644
--- a/src/xspawn.c
+++ b/src/xspawn.c
@@ -16,6 +16,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <sys/resource.h>
+#include <sys/stat.h>
 #include <sys/types.h>
 #include <unistd.h>
 
@@ -363,7 +364,9 @@ static int bfs_resolve_late(struct bfs_resolver *res) {
 			return -1;
 		}
 
-		if (xfaccessat(AT_FDCWD, buf, X_OK) == 0) {
+		// Directories are often "executable", but can't be executed
+		struct stat sb;
+		if (xfaccessat(AT_FDCWD, buf, X_OK) == 0 && stat(buf, &sb) == 0 && !S_ISDIR(sb.st_mode)) {
 			res->exe = buf;
 			res->done = true;
 			return 0;
-- 
2.43.0


From a8c5b14f0f45bffb8d5e6d3ad4c2574d364fddea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:22 +0000
Subject: [PATCH 33/37] fix: don't run -execdir {} + in / for files elsewhere

---
 src/exec.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/exec.c b/src/exec.c
index 023488e..93e732f 100644
--- a/src/exec.c
+++ b/src/exec.c
@@ -265,6 +265,16 @@ static void bfs_exec_free_arg(char *arg, const char *tmpl) {
 	}
 }
 
+/** Get the length of the path to a file's parent directory. */
+static size_t bfs_exec_wd_len(const struct BFTW *ftwbuf) {
+	if (ftwbuf->nameoff == 0 && ftwbuf->path[0] == '/') {
+		// The root directory is its own parent
+		return 1;
+	} else {
+		return ftwbuf->nameoff;
+	}
+}
+
 /** Open a file to use as the working directory. */
 static int bfs_exec_openwd(struct bfs_exec *execbuf, const struct BFTW *ftwbuf) {
 	bfs_assert(execbuf->wd_fd < 0);
@@ -285,14 +295,10 @@ static int bfs_exec_openwd(struct bfs_exec *execbuf, const struct BFTW *ftwbuf)
 		}
 	}
 
-	execbuf->wd_len = ftwbuf->nameoff;
+	execbuf->wd_len = bfs_exec_wd_len(ftwbuf);
 	if (execbuf->wd_len == 0) {
-		if (ftwbuf->path[0] == '/') {
-			++execbuf->wd_len;
-		} else {
-			// The path is something like "foo", so we're already in the right directory
-			return 0;
-		}
+		// The path is something like "foo", so we're already in the right directory
+		return 0;
 	}
 
 	execbuf->wd_path = strndup(ftwbuf->path, execbuf->wd_len);
@@ -574,7 +580,7 @@ static int bfs_exec_flush(struct bfs_exec *execbuf) {
 /** Check if we need to flush the execbuf because we're changing directories. */
 static bool bfs_exec_changed_dirs(const struct bfs_exec *execbuf, const struct BFTW *ftwbuf) {
 	if (execbuf->flags & BFS_EXEC_CHDIR) {
-		if (ftwbuf->nameoff != execbuf->wd_len
+		if (bfs_exec_wd_len(ftwbuf) != execbuf->wd_len
 		    || (execbuf->wd_path && strncmp(ftwbuf->path, execbuf->wd_path, execbuf->wd_len) != 0)) {
 			bfs_exec_debug(execbuf, "Changed directories, executing buffered command\n");
 			return true;
-- 
2.43.0


From 0b7affa548025ed147128f89e29b70cd4c55ad92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:58 +0000
Subject: [PATCH 34/37] fix: report each error only once with iterative
 deepening

---
 src/bftw.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/bftw.c b/src/bftw.c
index 5e2555a..019eb79 100644
--- a/src/bftw.c
+++ b/src/bftw.c
@@ -34,6 +34,7 @@
 
 #include <errno.h>
 #include <fcntl.h>
+#include <stdint.h>
 #include <stdlib.h>
 #include <string.h>
 #include <sys/stat.h>
@@ -2190,7 +2191,7 @@ struct bftw_ids_state {
 	size_t max_depth;
 	/** The set of pruned paths, for each root. */
 	struct trie *pruned;
-	/** The set of paths with reported errors, for each root. */
+	/** The last error reported for each path, for each root. */
 	struct trie *errors;
 	/** Whether the bottom has been found. */
 	bool bottom;
@@ -2217,17 +2218,19 @@ static enum bftw_action bftw_ids_callback(const struct BFTW *ftwbuf, void *ptr)
 		}
 
 		// Don't repeat errors from the previous passes, but don't swallow new ones either
-		bool reported = trie_find_str(errors, ftwbuf->path);
-		if (!reported && !trie_insert_str(errors, ftwbuf->path)) {
+		struct trie_leaf *leaf = trie_insert_str(errors, ftwbuf->path);
+		if (!leaf) {
 			state->nested.error = errno;
 			return BFTW_STOP;
 		}
 
-		if (!reported || ftwbuf->depth + 1 >= state->min_depth) {
-			return state->delegate(ftwbuf, state->ptr);
-		} else {
+		void *error = (void *)(intptr_t)ftwbuf->error;
+		if (leaf->value == error) {
 			return BFTW_PRUNE;
 		}
+		leaf->value = error;
+
+		return state->delegate(ftwbuf, state->ptr);
 	}
 
 	if (ftwbuf->depth < state->min_depth) {
-- 
2.43.0


From 37f82289c7a3d53aa1d4bad453d51a6bf0d240aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:31 +0000
Subject: [PATCH 35/37] fix: reserve file descriptors for looking up user and
 group names

-ls, -fls, and -printf %u/%g silently printed numeric IDs instead of names
once bftw() had used up all the available file descriptors.  Reserve some
for getpwuid_r()/getgrgid_r(), like -nouser and -nogroup already do.
---
 src/parse.c  | 6 ++++++
 src/printf.c | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/src/parse.c b/src/parse.c
index 1edad34..8823f9e 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -1416,6 +1416,9 @@ static struct bfs_expr *parse_fls(struct bfs_parser *parser, int arg1, int arg2)
 		return NULL;
 	}
 
+	// For getpwuid_r() and getgrgid_r(), like -nouser/-nogroup
+	expr->ephemeral_fds = 3;
+
 	if (expr_open(parser, expr, expr->argv[1]) != 0) {
 		return NULL;
 	}
@@ -1662,6 +1665,9 @@ static struct bfs_expr *parse_ls(struct bfs_parser *parser, int arg1, int arg2)
 		return NULL;
 	}
 
+	// For getpwuid_r() and getgrgid_r(), like -nouser/-nogroup
+	expr->ephemeral_fds = 3;
+
 	init_print_expr(parser, expr);
 	return expr;
 }
diff --git a/src/printf.c b/src/printf.c
index 30ec201..04727b0 100644
--- a/src/printf.c
+++ b/src/printf.c
@@ -780,6 +780,8 @@ int bfs_printf_parse(const struct bfs_ctx *ctx, struct bfs_expr *expr, const cha
 			case 'g':
 				fmt.fn = bfs_printf_g;
 				fmt.ptr = ctx->groups;
+				// For getgrgid_r(), like -nogroup
+				expr->ephemeral_fds = 3;
 				break;
 			case 'G':
 				fmt.fn = bfs_printf_G;
@@ -829,6 +831,8 @@ int bfs_printf_parse(const struct bfs_ctx *ctx, struct bfs_expr *expr, const cha
 			case 'u':
 				fmt.fn = bfs_printf_u;
 				fmt.ptr = ctx->users;
+				// For getpwuid_r(), like -nouser
+				expr->ephemeral_fds = 3;
 				break;
 			case 'U':
 				fmt.fn = bfs_printf_U;
-- 
2.43.0


From 264aaa33486b58a827698109c1a908c796dbd334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:44 +0000
Subject: [PATCH 36/37] fix: make -regex find a match for the whole path if
 there is one

onig_match() stops at the first alternative that matches, so that -regex
'a|ab' did not match ab.  Ask for a match of the whole string instead.
---
 src/xregex.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/xregex.c b/src/xregex.c
index 796544e..019b784 100644
--- a/src/xregex.c
+++ b/src/xregex.c
@@ -266,7 +266,12 @@ int bfs_regexec(struct bfs_regex *regex, const char *str, enum bfs_regexec_flags
 
 	int ret;
 	if (flags & BFS_REGEX_ANCHOR) {
-		ret = onig_match(regex->impl, ustr, end, ustr, NULL, ONIG_OPTION_DEFAULT);
+		OnigOptionType options = ONIG_OPTION_DEFAULT;
+#ifdef ONIG_OPTION_MATCH_WHOLE_STRING
+		// Otherwise, a|ab would only match the a in ab
+		options = ONIG_OPTION_MATCH_WHOLE_STRING;
+#endif
+		ret = onig_match(regex->impl, ustr, end, ustr, NULL, options);
 	} else {
 		ret = onig_search(regex->impl, ustr, end, ustr, end, NULL, ONIG_OPTION_DEFAULT);
 	}
-- 
2.43.0


From 374dc1cd7c98aa1b4c1d85ba2e07e5cc4149245c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:44 +0000
Subject: [PATCH 37/37] fix: reset the terminal's colors on fatal signals with
 NO_COLOR and -color

The hook was only installed if colors were already on before the command
line was parsed.
---
 src/ctx.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ctx.c b/src/ctx.c
index 05baa1d..6c4a8d1 100644
--- a/src/ctx.c
+++ b/src/ctx.c
@@ -140,7 +140,8 @@ CFILE *bfs_ctx_dedup(struct bfs_ctx *ctx, CFILE *cfile, const char *path) {
 	ctx_file->error = 0;
 	ctx_file->hook = NULL;
 
-	if (cfile->colors) {
+	// -color may still turn on colors for a terminal
+	if (cfile->colors || isatty(cfile->fd)) {
 		ctx_file->hook = atsigexit(cfreset_hook, cfile);
 		if (!ctx_file->hook) {
 			goto fail;
-- 
2.43.0

