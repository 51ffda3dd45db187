From 9cf09e97ddbb646c9d45f2e692c86be5c5da0d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:12 +0000
Subject: [PATCH 01/42] fix: stop at the end of input when reading a binary
 field

An end of file (or a read error) in m, e1, e2 or e3 was taken for a wrong
value, so the generator asked for it again forever.
---
 src/gen/field.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/gen/field.c b/src/gen/field.c
index 3c93880..7bdfe28 100644
--- a/src/gen/field.c
+++ b/src/gen/field.c
@@ -50,22 +50,38 @@ GENERATOR(field_gen_input) {
 		}
 		case FIELD_BINARY: {
 			GEN m = input_short("m:");
+			if (m == gen_m2) {
+				avma = ltop;
+				return INT_MIN;
+			}
 			if (!equalis(m, cfg->bits)) {
 				avma = ltop;
 				return 0;
 			}
 
 			GEN e1 = input_short("e1:");
+			if (e1 == gen_m2) {
+				avma = ltop;
+				return INT_MIN;
+			}
 			if (equalii(e1, gen_m1) || gcmp(e1, m) > 0) {
 				avma = ltop;
 				return 0;
 			}
 			GEN e2 = input_short("e2:");
+			if (e2 == gen_m2) {
+				avma = ltop;
+				return INT_MIN;
+			}
 			if (equalii(e2, gen_m1) || gcmp(e2, m) > 0) {
 				avma = ltop;
 				return 0;
 			}
 			GEN e3 = input_short("e3:");
+			if (e3 == gen_m2) {
+				avma = ltop;
+				return INT_MIN;
+			}
 			if (equalii(e3, gen_m1) || gcmp(e3, m) > 0) {
 				avma = ltop;
 				return 0;
-- 
2.43.0


From f2ee695c2bf46c77264c936700beea40fc76e2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:12 +0000
Subject: [PATCH 02/42] fix: stop at the end of input when reading a seed

An end of file (or a read error) was taken for an invalid seed, which was
then asked for again forever.
---
 src/exhaustive/ansi.c      | 3 ++-
 src/exhaustive/brainpool.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/exhaustive/ansi.c b/src/exhaustive/ansi.c
index e369fb2..7526940 100644
--- a/src/exhaustive/ansi.c
+++ b/src/exhaustive/ansi.c
@@ -6,6 +6,7 @@
 #include "ansi.h"
 #include "gen/field.h"
 #include "gen/seed.h"
+#include "io/input.h"
 #include "io/output.h"
 #include "util/bits.h"
 #include "util/memory.h"
@@ -62,7 +63,7 @@ GENERATOR(ansi_gen_seed_input) {
 	if (!ansi_seed_valid(cstr)) {
 		fprintf(err, "SEED must be at least 160 bits(40 hex characters).\n");
 		avma = ltop;
-		return 0;
+		return (feof(in) || ferror(in)) ? INT_MIN : 0;
 	}
 
 	seed_t *seed = ansi_new();
diff --git a/src/exhaustive/brainpool.c b/src/exhaustive/brainpool.c
index 56c095d..b39e4ad 100644
--- a/src/exhaustive/brainpool.c
+++ b/src/exhaustive/brainpool.c
@@ -6,6 +6,7 @@
 #include "brainpool.h"
 #include "gen/gens.h"
 #include "gen/seed.h"
+#include "io/input.h"
 #include "io/output.h"
 #include "math/subgroup.h"
 #include "obj/point.h"
@@ -88,7 +89,7 @@ GENERATOR(brainpool_gen_seed_input) {
 	if (!brainpool_seed_valid(cstr)) {
 		fprintf(err, "SEED must be exactly 160 bits(40 hex characters).\n");
 		avma = ltop;
-		return 0;
+		return (feof(in) || ferror(in)) ? INT_MIN : 0;
 	}
 
 	seed_t *seed = brainpool_new();
-- 
2.43.0


From afcae20661adec1a13e682c71868328229f04b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:12 +0000
Subject: [PATCH 03/42] fix: keep the last character of a string that ends the
 input

The last item of the input need not be followed by a delimiter, only strip
one that is there.
---
 src/io/input.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/io/input.c b/src/io/input.c
index 507bd59..495341f 100644
--- a/src/io/input.c
+++ b/src/io/input.c
@@ -80,14 +80,13 @@ GEN input_string(const char *prompt) {
 
 	ssize_t len = getdelim(&line, &n, delim, in);
 	if (len <= 0) {
-		return strtoGENstr("");
-	}
-	if (len == 1) {
 		free(line);
 		return strtoGENstr("");
 	}
 
-	line[len - 1] = 0;
+	if (line[len - 1] == delim) {
+		line[len - 1] = 0;
+	}
 	GEN result = strtoGENstr(line);
 	free(line);
 	return result;
-- 
2.43.0


From 98f9dd22a2e2afe2b2cb2457309c2d4ddf42687e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:12 +0000
Subject: [PATCH 04/42] fix: do not take the end of input for a family
 parameter

The markers input_int returns for no number and for the end of input were
used as z = -1 and z = -2.
---
 src/exhaustive/family.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/exhaustive/family.c b/src/exhaustive/family.c
index 08505b6..129eb70 100644
--- a/src/exhaustive/family.c
+++ b/src/exhaustive/family.c
@@ -86,6 +86,11 @@ GENERATOR(family_gen_seed_random) {
 
 GENERATOR(family_gen_seed_input) {
 	GEN inp = input_int("z:", cfg->bits);
+	if (inp == gen_m1) {
+		return 0;
+	} else if (inp == gen_m2) {
+		return INT_MIN;
+	}
 	curve->seed = family_new_seed();
 	curve->seed->family.z = inp;
 	curve->seed->seed = bits_from_i(curve->seed->family.z);
-- 
2.43.0


From 3cf829e2ef1c9653cc2d4338dd22de781c99fd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:12 +0000
Subject: [PATCH 05/42] fix: separate all curves output by the threaded invalid
 method

When the last curves are generated before the main thread gets to output
them, *generated is already nprimes and no separator was written between
them.
---
 src/invalid/invalid.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/invalid/invalid.c b/src/invalid/invalid.c
index 3679c6b..7f93b5c 100644
--- a/src/invalid/invalid.c
+++ b/src/invalid/invalid.c
@@ -277,12 +277,13 @@ static size_t invalid_curves_threaded(const curve_t *curve, pari_ulong *primes,
 		               (void *)&threads[i]);
 	}
 
+	size_t noutput = 0;
 	while (true) {
 		pthread_cond_wait(&generated_cond, &state_mutex);
 		for (size_t i = 0; i < nprimes; ++i) {
 			if (old_states[i] != states[i] && states[i] == STATE_GENERATED) {
 				output_o(local_curves[i]);
-				if (*generated != nprimes) {
+				if (++noutput != nprimes) {
 					output_o_separator();
 				}
 				old_states[i] = states[i];
-- 
2.43.0


From e26bd6c5cd040c55f260d46b59abfe5e9d2ee228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:12 +0000
Subject: [PATCH 06/42] fix: write a separator only before a curve that follows

When generating a further curve fails, or there are no primes to generate
invalid curves for, the output was not valid JSON.
---
 src/exhaustive/exhaustive.c | 4 ++--
 src/invalid/invalid.c       | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/exhaustive/exhaustive.c b/src/exhaustive/exhaustive.c
index e8870f8..1649cd7 100644
--- a/src/exhaustive/exhaustive.c
+++ b/src/exhaustive/exhaustive.c
@@ -476,10 +476,10 @@ int exhaustive_generate(exhaustive_t *setup) {
 		}
 		debug_log_end("Generated new curve");
 
-		output_o(curve);
-		if (i != cfg->count - 1) {
+		if (i != 0) {
 			output_o_separator();
 		}
+		output_o(curve);
 		curve_free(&curve);
 	}
 	output_o_end();
diff --git a/src/invalid/invalid.c b/src/invalid/invalid.c
index 7f93b5c..3a11e67 100644
--- a/src/invalid/invalid.c
+++ b/src/invalid/invalid.c
@@ -362,7 +362,6 @@ int invalid_do() {
 
 	output_o_begin();
 	output_o(curve);
-	output_o_separator();
 
 	debug_log_start("Starting to generate primes to product over order^2");
 	pari_ulong *primes;
@@ -371,8 +370,10 @@ int invalid_do() {
 
 	if (!nprimes) {
 		fprintf(err, "No orders to generate curves for, quitting.");
+		output_o_end();
 		return EXIT_FAILURE;
 	}
+	output_o_separator();
 
 	curve_t **curves = try_calloc(nprimes * sizeof(curve_t *));
 	debug_log_start("Starting to generate invalid curves");
-- 
2.43.0


From 121041670bb1b8c2d87cb42813189db3fff6ac57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:36 +0000
Subject: [PATCH 07/42] fix: fail when the output could not be written

Errors of writing to or closing the output file (a full disk, say) were
ignored and the exit status was that of a success.
---
 src/ecgen.c     |  4 +++-
 src/io/output.c | 11 +++++++++--
 src/io/output.h |  2 +-
 3 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/ecgen.c b/src/ecgen.c
index 307960e..3e226e2 100644
--- a/src/ecgen.c
+++ b/src/ecgen.c
@@ -98,7 +98,9 @@ int quit(int status) {
 
 	timeout_quit();
 
-	output_quit();
+	if (!output_quit()) {
+		status = EXIT_FAILURE;
+	}
 	input_quit();
 
 	return status;
diff --git a/src/io/output.c b/src/io/output.c
index c4704c1..8f4f8d7 100644
--- a/src/io/output.c
+++ b/src/io/output.c
@@ -274,9 +274,15 @@ static bool output_is_std(FILE *stream) {
 	return (stream == stdout || stream == stderr || stream == stdin);
 }
 
-void output_quit(void) {
+bool output_quit(void) {
+	bool result = !ferror(out);
 	if (!output_is_std(out)) {
-		fclose(out);
+		if (fclose(out)) {
+			result = false;
+		}
+	}
+	if (!result) {
+		fprintf(err, "Failed to write the output.\n");
 	}
 	if (!output_is_std(err)) {
 		fclose(err);
@@ -284,4 +290,5 @@ void output_quit(void) {
 	if (!output_is_std(verbose)) {
 		fclose(verbose);  // My name is fClose Verbose!
 	}
+	return result;
 }
diff --git a/src/io/output.h b/src/io/output.h
index f68acfc..cec878d 100644
--- a/src/io/output.h
+++ b/src/io/output.h
@@ -200,6 +200,6 @@ bool output_init();
 /**
  * @brief Deinitialize output.
  */
-void output_quit(void);
+bool output_quit(void);
 
 #endif  // ECGEN_IO_OUTPUT_H
-- 
2.43.0


From 0c6930ef944c5b3e4524d2d8b1abd74c163e8440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:36 +0000
Subject: [PATCH 08/42] fix: do not loop forever when /dev/urandom can not be
 read

Fall back to the time, as when it can not be opened.
---
 src/io/output.h   | 1 +
 src/util/random.c | 8 +++++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/io/output.h b/src/io/output.h
index cec878d..0c7cb5f 100644
--- a/src/io/output.h
+++ b/src/io/output.h
@@ -199,6 +199,7 @@ bool output_init();
 
 /**
  * @brief Deinitialize output.
+ * @return whether all of the output was written
  */
 bool output_quit(void);
 
diff --git a/src/util/random.c b/src/util/random.c
index b88bb50..1431b17 100644
--- a/src/util/random.c
+++ b/src/util/random.c
@@ -15,7 +15,13 @@ void random_reseed(void) {
 	if (rand) {
 		size_t read = 0;
 		while (read < sizeof(pari_ulong)) {
-			read += fread(((uint8_t*) &seed) + read, 1, sizeof(pari_ulong) - read, rand);
+			size_t got = fread(((uint8_t*) &seed) + read, 1, sizeof(pari_ulong) - read, rand);
+			if (got == 0) {
+				// urandom doesn't work, don't use what it gave
+				seed = 0;
+				break;
+			}
+			read += got;
 		}
 
 		fclose(rand);
-- 
2.43.0


From c37aa3af614c58b9693b7ca03373b503e8c2ab90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:29 +0000
Subject: [PATCH 09/42] fix: set up the timeout before arming its timer

A timer that expired before sigsetjmp made the handler jump to where the
previous timeout was set up (or to nowhere), one that expired before
timeout_in was set was lost, so the computation had no timeout.
---
 src/util/timeout.c | 14 ++++++++++++++
 src/util/timeout.h | 24 ++++++++++--------------
 2 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/src/util/timeout.c b/src/util/timeout.c
index 6fdbf16..070ca3b 100644
--- a/src/util/timeout.c
+++ b/src/util/timeout.c
@@ -19,6 +19,20 @@ void timeout_handle(int signum, siginfo_t *siginfo, void *other) {
 	if (timeout_in) siglongjmp(timeout_ptr, 1);
 }
 
+bool timeout_arm(unsigned long seconds) {
+	sevp->sigev_notify = SIGEV_THREAD_ID;
+	sevp->sigev_signo = SIGALRM;
+	sevp->sigev_value.sival_int = 0;
+	SIGEV_UN_TID_SYS_GETTID
+	timer_create(CLOCK_MONOTONIC, sevp, timeout_timer);
+	struct itimerspec timer_time = {
+	    .it_interval = {.tv_sec = 0, .tv_nsec = 0},
+	    .it_value = {.tv_sec = seconds, .tv_nsec = 0}};
+	timeout_in = true;
+	timer_settime(*timeout_timer, 0, &timer_time, NULL);
+	return true;
+}
+
 void timeout_thread_init() {
 	timeout_timer = try_calloc(sizeof(timer_t));
 	sevp = try_calloc(sizeof(struct sigevent));
diff --git a/src/util/timeout.h b/src/util/timeout.h
index 57e3d22..36ffbe7 100644
--- a/src/util/timeout.h
+++ b/src/util/timeout.h
@@ -43,20 +43,9 @@ extern __thread struct sigevent *sevp;
  * <code>timeout_stop</code> when the timed interval ends.
  * @param seconds how long to run the <code>else</code> branch for
  */
-#define timeout_start(seconds)                                \
-	if ((seconds) != 0) {                                     \
-		sevp->sigev_notify = SIGEV_THREAD_ID;                 \
-		sevp->sigev_signo = SIGALRM;                          \
-		sevp->sigev_value.sival_int = 0;                      \
-		SIGEV_UN_TID_SYS_GETTID                               \
-		timer_create(CLOCK_MONOTONIC, sevp, timeout_timer);   \
-		struct itimerspec timer_time = {                      \
-		    .it_interval = {.tv_sec = 0, .tv_nsec = 0},       \
-		    .it_value = {.tv_sec = (seconds), .tv_nsec = 0}}; \
-		timer_settime(*timeout_timer, 0, &timer_time, NULL);  \
-		timeout_in = true;                                    \
-	};                                                        \
-	if ((seconds) != 0 && sigsetjmp(timeout_ptr, 1) == 1)
+#define timeout_start(seconds)  \
+	if ((seconds) != 0 &&       \
+	    (sigsetjmp(timeout_ptr, 1) == 1 || !timeout_arm(seconds)))
 
 /**
  * @brief Stop a timer.
@@ -69,6 +58,13 @@ extern __thread struct sigevent *sevp;
 		}                                 \
 	}
 
+/**
+ * @brief Arm the timer, timeout_ptr has to be set up before it.
+ * @param seconds
+ * @return true
+ */
+bool timeout_arm(unsigned long seconds);
+
 void timeout_thread_init();
 
 void timeout_thread_quit();
-- 
2.43.0


From 09519f9f7dd35fbcea21c6e56c6f6f5bb3386d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:29 +0000
Subject: [PATCH 10/42] fix: do not jump out of PARI when it can not be
 interrupted

The timeout handler ignored PARI's own protection of its critical sections,
jumping out of malloc and the like, and left the error handler of the
interrupted computation installed.
---
 src/util/timeout.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/util/timeout.c b/src/util/timeout.c
index 070ca3b..7c034ee 100644
--- a/src/util/timeout.c
+++ b/src/util/timeout.c
@@ -9,6 +9,7 @@ __thread sigjmp_buf timeout_ptr;
 __thread bool timeout_in = false;
 __thread timer_t *timeout_timer;
 __thread struct sigevent *sevp;
+static __thread jmp_buf *timeout_env;
 
 void timeout_handle(int signum, siginfo_t *siginfo, void *other) {
 	sigset_t mask;
@@ -16,7 +17,16 @@ void timeout_handle(int signum, siginfo_t *siginfo, void *other) {
 	sigaddset(&mask, SIGALRM);
 	sigprocmask(SIG_UNBLOCK, &mask, NULL);
 
-	if (timeout_in) siglongjmp(timeout_ptr, 1);
+	if (PARI_SIGINT_block) {
+		// PARI can not be interrupted now, it raises the signal when it can.
+		PARI_SIGINT_pending = signum;
+		return;
+	}
+
+	if (timeout_in) {
+		iferr_env = timeout_env;
+		siglongjmp(timeout_ptr, 1);
+	}
 }
 
 bool timeout_arm(unsigned long seconds) {
@@ -28,6 +38,7 @@ bool timeout_arm(unsigned long seconds) {
 	struct itimerspec timer_time = {
 	    .it_interval = {.tv_sec = 0, .tv_nsec = 0},
 	    .it_value = {.tv_sec = seconds, .tv_nsec = 0}};
+	timeout_env = iferr_env;
 	timeout_in = true;
 	timer_settime(*timeout_timer, 0, &timer_time, NULL);
 	return true;
-- 
2.43.0


From 6d808cbca9d7b94d577fd65c533ff5e78a0d4fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:29 +0000
Subject: [PATCH 11/42] fix: do not time out reading the input

With --timeout, waiting for a parameter on the standard input counted as
computing it. The generation then started again with the next parameters
of the input, taking them for the first ones.
---
 src/io/input.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/io/input.c b/src/io/input.c
index 495341f..054f46f 100644
--- a/src/io/input.c
+++ b/src/io/input.c
@@ -6,6 +6,7 @@
 
 #include "input.h"
 #include "output.h"
+#include "util/timeout.h"
 
 FILE *in;
 int delim;
@@ -17,6 +18,8 @@ static GEN input_i(const char *prompt, unsigned long bits) {
 	char *line = NULL;
 	size_t n = 0;
 
+	// the timeout is for the computation, not for waiting for the input
+	timeout_stop();
 	ssize_t len = getdelim(&line, &n, delim, in);
 	if (len <= 0) {
 		if (feof(in)) {
@@ -78,6 +81,8 @@ GEN input_string(const char *prompt) {
 	char *line = NULL;
 	size_t n = 0;
 
+	// the timeout is for the computation, not for waiting for the input
+	timeout_stop();
 	ssize_t len = getdelim(&line, &n, delim, in);
 	if (len <= 0) {
 		free(line);
-- 
2.43.0


From 923f2962a69006aadeccfcebf43ab1a0ac4bfe0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:07 +0000
Subject: [PATCH 12/42] fix: use the Koblitz curve orders only for binary
 Koblitz curves

With --fp, or with --twist, --koblitz got the order of the binary Koblitz
curve of that size, if it was in the table.
---
 src/gen/order.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/gen/order.c b/src/gen/order.c
index a9d22b2..7baf92f 100644
--- a/src/gen/order.c
+++ b/src/gen/order.c
@@ -104,7 +104,11 @@ GENERATOR(order_gen_prime) {
 
 GENERATOR(order_gen_koblitz) {
 	pari_sp ltop = avma;
-	GEN order = koblitz_get_order(cfg->bits, itou(curve->a));
+	// the table is of the curves over binary fields, not of their twists.
+	GEN order = NULL;
+	if (cfg->field == FIELD_BINARY && typ(curve->a) == t_INT) {
+		order = koblitz_get_order(cfg->bits, itou(curve->a));
+	}
 	if (order) {
 		curve->order = gerepilecopy(ltop, order);
 		obj_insert_shallow(curve->curve, 1, curve->order);
-- 
2.43.0


From 4570f6090d51b43187266f5b17708d6ee9e9bfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:07 +0000
Subject: [PATCH 13/42] fix: try another seed when ANSI r is zero in the field

It has no inverse, which crashed.
---
 src/exhaustive/ansi.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/exhaustive/ansi.c b/src/exhaustive/ansi.c
index 7526940..3251f97 100644
--- a/src/exhaustive/ansi.c
+++ b/src/exhaustive/ansi.c
@@ -125,6 +125,13 @@ static GENERATOR(ansi_gen_equation_fp) {
 	curve->seed->ansi.r = r;
 
 	GEN r_inv = Fp_invsafe(r, curve->field);
+	if (!r_inv) {
+		bits_free(&c0);
+		bits_free(&W0);
+		bits_free(&W);
+		avma = ltop;
+		return -3;
+	}
 	GEN a;
 	GEN b2;
 	do {
-- 
2.43.0


From e7f193a00c8b4d2cf47db07b2613f1d651f962a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:07 +0000
Subject: [PATCH 14/42] fix: reduce the a of ANSI curves into the field

The output a could be larger than p.
---
 src/exhaustive/ansi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exhaustive/ansi.c b/src/exhaustive/ansi.c
index 3251f97..0296324 100644
--- a/src/exhaustive/ansi.c
+++ b/src/exhaustive/ansi.c
@@ -135,7 +135,7 @@ static GENERATOR(ansi_gen_equation_fp) {
 	GEN a;
 	GEN b2;
 	do {
-		a = random_int(cfg->bits);
+		a = modii(random_int(cfg->bits), curve->field);
 		b2 = mulii(powis(a, 3), r_inv);
 	} while (!Fp_issquare(b2, curve->field));
 	GEN b = Fp_sqrt(b2, curve->field);
-- 
2.43.0


From f7786e744c92c61eaf49ed41c1c8d9dfeb6f0d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:07 +0000
Subject: [PATCH 15/42] fix: do not find the searched hex across two points

The end of a point and the 0 of the 0x of the next one could match. Also,
joining no strings with a separator allocated no memory for the result.
---
 src/gen/hex.c  | 8 +-------
 src/util/str.c | 2 +-
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/gen/hex.c b/src/gen/hex.c
index 58250a0..6e2d92d 100644
--- a/src/gen/hex.c
+++ b/src/gen/hex.c
@@ -27,14 +27,8 @@ static char *hex_points(point_t *points[], size_t len) {
 		p[i] = hex_point(pt);
 	}
 
-	size_t total = 1;
+	char *result = str_join(",", p, len);
 	for (size_t i = 0; i < len; ++i) {
-		total += strlen(p[i]);
-	}
-
-	char *result = try_calloc(total);
-	for (size_t i = 0; i < len; ++i) {
-		strcat(result, p[i]);
 		try_free(p[i]);
 	}
 	return result;
diff --git a/src/util/str.c b/src/util/str.c
index ff075f2..6dd2479 100644
--- a/src/util/str.c
+++ b/src/util/str.c
@@ -28,7 +28,7 @@ char *str_join(char *separator, char **strings, size_t len) {
 	for (size_t i = 0; i < len; ++i) {
 		if (strings[i]) total += strlen(strings[i]);
 	}
-	if (separator) total += (len - 1) * strlen(separator);
+	if (separator && len) total += (len - 1) * strlen(separator);
 	char *result = try_calloc(total);
 	for (size_t i = 0; i < len; ++i) {
 		if (strings[i]) {
-- 
2.43.0


From 10f79da741f5a9012d231ee381be6ce9dea2cd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:07 +0000
Subject: [PATCH 16/42] fix: generate a point for every small prime of an
 invalid curve

The vector with the prime appended was thrown away, so only the first prime
of a curve got its point.
---
 src/gen/point.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gen/point.c b/src/gen/point.c
index 21d0c26..6bf0666 100644
--- a/src/gen/point.c
+++ b/src/gen/point.c
@@ -118,7 +118,7 @@ GENERATOR(points_gen_trial) {
 				if (orders_per_gen[i] == gen_0) {
 					orders_per_gen[i] = gtovec(num);
 				} else {
-					vec_append(orders_per_gen[i], num);
+					orders_per_gen[i] = vec_append(orders_per_gen[i], num);
 				}
 			}
 		}
-- 
2.43.0


From c7e4b2f49ef0a8accc11006cba6af6dc5d511fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:07 +0000
Subject: [PATCH 17/42] fix: do not pick the point at infinity as a random
 point

It has no coordinates to output, which crashed.
---
 src/gen/point.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/gen/point.c b/src/gen/point.c
index 6bf0666..94f4922 100644
--- a/src/gen/point.c
+++ b/src/gen/point.c
@@ -12,11 +12,17 @@ GENERATOR(point_gen_random) {
 	long which_gen = itos(random_range(gen_0, stoi(curve->ngens)));
 
 	subgroup_t *subgroup = curve->generators[which_gen];
-	GEN mul = random_range(gen_0, subgroup->generator->order);
-	GEN p = ellmul(curve->curve, subgroup->generator->point, mul);
 	point_t *point = point_new();
-	point->point = p;
-	point->order = ellorder(curve->curve, p, NULL);
+	// Handle the special case of subgroup of order 2.
+	if (equalis(subgroup->generator->order, 2)) {
+		point->point = gcopy(subgroup->generator->point);
+		point->order = stoi(2);
+	} else {
+		GEN mul = random_range(gen_1, subgroup->generator->order);
+		point->point =
+		    ellmul(curve->curve, subgroup->generator->point, mul);
+		point->order = ellorder(curve->curve, point->point, NULL);
+	}
 	subgroup->npoints = 1;
 	subgroup->points = points_new(1);
 	subgroup->points[0] = point;
-- 
2.43.0


From 409ce2678eddd68c819d1ebdd8a7630340cd5660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:07 +0000
Subject: [PATCH 18/42] fix: do not free b before there is a new one

A timeout in between made the next try use the freed one.
---
 src/exhaustive/family.c | 3 ++-
 src/exhaustive/nums.c   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/exhaustive/family.c b/src/exhaustive/family.c
index 129eb70..a5d973a 100644
--- a/src/exhaustive/family.c
+++ b/src/exhaustive/family.c
@@ -129,8 +129,9 @@ GENERATOR(family_gen_equation_iter) {
 	} else {
 		if (curve == b_curve) {
 			GEN bn = addii(b, gen_1);
-			gunclone(b);
+			GEN old = b;
 			b = gclone(bn);
+			gunclone(old);
 			curve->b = gerepilecopy(ltop, gmodulo(bn, curve->field));
 			return 1;
 		} else {
diff --git a/src/exhaustive/nums.c b/src/exhaustive/nums.c
index 7e41938..9fe21c1 100644
--- a/src/exhaustive/nums.c
+++ b/src/exhaustive/nums.c
@@ -45,8 +45,9 @@ GENERATOR(nums_gen_b) {
 			} else {
 				bn = addiu(b, 1);
 			}
-			gunclone(b);
+			GEN old = b;
 			b = gclone(bn);
+			gunclone(old);
 			curve->b = gerepilecopy(ltop, gmodulo(bn, curve->field));
 			return 1;
 		} else {
-- 
2.43.0


From 608487abd7645f60e6803bd33e488e020035ed2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:07 +0000
Subject: [PATCH 19/42] fix: release the PARI stack after each generated curve

With a large --count the stack overflowed, however small the curves.
---
 src/exhaustive/exhaustive.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/exhaustive/exhaustive.c b/src/exhaustive/exhaustive.c
index 1649cd7..e643269 100644
--- a/src/exhaustive/exhaustive.c
+++ b/src/exhaustive/exhaustive.c
@@ -468,6 +468,7 @@ int exhaustive_generate(exhaustive_t *setup) {
 	int result = EXIT_SUCCESS;
 	for (unsigned long i = 0; i < cfg->count; ++i) {
 		debug_log_start("Generating new curve");
+		pari_sp ltop = avma;
 		curve_t *curve = curve_new();
 		if (!exhaustive_gen(curve, setup, OFFSET_SEED, OFFSET_END)) {
 			curve_free(&curve);
@@ -481,6 +482,7 @@ int exhaustive_generate(exhaustive_t *setup) {
 		}
 		output_o(curve);
 		curve_free(&curve);
+		avma = ltop;
 	}
 	output_o_end();
 
-- 
2.43.0


From 154cd6db5d60ea4f5abc0c064fece88793b3a162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:07 +0000
Subject: [PATCH 20/42] fix: check the right alpha when picking an anomalous
 curve field

If p divides the alpha that is used later there is no c, which crashed.
---
 src/cm/anomalous.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cm/anomalous.c b/src/cm/anomalous.c
index 70df8e4..c1a4989 100644
--- a/src/cm/anomalous.c
+++ b/src/cm/anomalous.c
@@ -98,7 +98,7 @@ GENERATOR(anomalous_gen_field) {
 	do {
 		p = anomalous_prime(i, cfg->bits);
 		gerepileall(ltop, 1, &p);
-	} while (!kronecker(disc_table[0]->alpha, p));
+	} while (!kronecker(disc_table[i]->alpha, p));
 
 	curve->field = gerepilecopy(ltop, p);
 	return 1;
-- 
2.43.0


From 60b3175282099909357b1ed27946d462c273ce75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:59 +0000
Subject: [PATCH 21/42] fix: tell the CM curve of a composite order from its
 twist

A point of the twist was multiplied on the curve, and a point killed by
one order cleared of the common factors was taken as a proof of that order,
which it is not. The loop never ended if no point was killed.
---
 src/cm/cm_any.c | 33 ++++++++++++---------------------
 1 file changed, 12 insertions(+), 21 deletions(-)

diff --git a/src/cm/cm_any.c b/src/cm/cm_any.c
index f948ac1..b45888a 100644
--- a/src/cm/cm_any.c
+++ b/src/cm/cm_any.c
@@ -175,35 +175,26 @@ GEN cm_construct_curve(GEN order, GEN d, GEN p, bool ord_prime) {
 			// might be true for a point on the twist as well as a point o the
 			// right curve.
 			//
-			// We calculate what the twist order is, then compute gcd of the
-			// orders which leads to the product of the factors that the orders
-			// do not share. By multiplying a random point by this product on
-			// some curve, we can determine that that curve has that number of
-			// points.
+			// We calculate what the twist order is. A point that is not
+			// killed by one of the orders shows that the curve has the other.
+			// If the points do not tell them apart, the curve is counted.
 			GEN twist_order = subii(addis(p, 1), subii(order, addis(p, 1)));
 			GEN twist = ellinit(elltwist(e, NULL), p, 0);
-			GEN gcd = gcdii(order, twist_order);
-			GEN orig_mul = divii(order, gcd);
-			GEN twist_mul = divii(twist_order, gcd);
-			while (true) {
-				GEN orig_point = genrand(e);
-				if (ell_is_inf(ellmul(e, orig_point, orig_mul))) {
-					debug_log("Got curve.");
-					return gerepilecopy(ltop, e);
-				}
-				if (ell_is_inf(ellmul(e, orig_point, twist_mul))) {
+			for (int tries = 0; tries < 20; ++tries) {
+				GEN point = genrand(e);
+				if (!ell_is_inf(ellmul(e, point, order))) {
 					debug_log("Got curve twist.");
 					return gerepilecopy(ltop, twist);
 				}
-				GEN twist_point = genrand(twist);
-				if (ell_is_inf(ellmul(e, twist_point, twist_mul))) {
+				if (!ell_is_inf(ellmul(e, point, twist_order))) {
 					debug_log("Got curve.");
 					return gerepilecopy(ltop, e);
 				}
-				if (ell_is_inf(ellmul(e, twist_point, orig_mul))) {
-					debug_log("Got curve twist.");
-					return gerepilecopy(ltop, twist);
-				}
+			}
+			if (equalii(ellff_get_card(e), order)) {
+				return gerepilecopy(ltop, e);
+			} else {
+				return gerepilecopy(ltop, twist);
 			}
 		}
 	}
-- 
2.43.0


From 33cfcaac38cd875693d1d9c9877b1a2dce764b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:59 +0000
Subject: [PATCH 22/42] fix: try all the twists of CM curves with j-invariant 0
 or 1728

There are six (or four) of them, but only the curve and its quadratic
twist were considered, so the curve could have a wrong order.
---
 src/cm/cm_any.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/cm/cm_any.c b/src/cm/cm_any.c
index b45888a..d83df98 100644
--- a/src/cm/cm_any.c
+++ b/src/cm/cm_any.c
@@ -157,11 +157,27 @@ GEN cm_construct_curve(GEN order, GEN d, GEN p, bool ord_prime) {
 		pari_TRY { checkell(e); };
 		pari_ENDCATCH{};
 
+		if (equalis(d, -3) || equalis(d, -4)) {
+			// There are more twists than just the quadratic one.
+			for (GEN c = gen_1; cmpii(c, p) < 0; c = addis(c, 1)) {
+				GEN v = equalis(d, -3) ? mkvec2(gen_0, c) : mkvec2(c, gen_0);
+				e = ellinit(v, p, 0);
+				if (equalii(ellff_get_card(e), order)) {
+					debug_log("Got curve.");
+					return gerepilecopy(ltop, e);
+				}
+			}
+			continue;
+		}
+
 		if (ord_prime) {
 			// Easy part, the requested order is prime so
 			// [order]G = 0 iff the curve has exactly order points, for any G on
 			// it. otherwise it is the twist
-			GEN g = genrand(e);
+			GEN g;
+			do {
+				g = genrand(e);
+			} while (ell_is_inf(g));
 			if (ell_is_inf(ellmul(e, g, order))) {
 				debug_log("Got curve.");
 				return gerepilecopy(ltop, e);
-- 
2.43.0


From 6c632d13ad469a0db2187c3a1567d863a5fc56a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:59 +0000
Subject: [PATCH 23/42] fix: do not free b before there is a new one when
 starting over

---
 src/exhaustive/family.c | 3 ++-
 src/exhaustive/nums.c   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/exhaustive/family.c b/src/exhaustive/family.c
index a5d973a..d1c7027 100644
--- a/src/exhaustive/family.c
+++ b/src/exhaustive/family.c
@@ -136,8 +136,9 @@ GENERATOR(family_gen_equation_iter) {
 			return 1;
 		} else {
 			// dont use b, regenerate it,
-			gunclone(b);
+			GEN old = b;
 			b = gclone(gen_1);
+			gunclone(old);
 			curve->b = gerepilecopy(ltop, gmodulo(gen_1, curve->field));
 			b_curve = curve;
 			return 1;
diff --git a/src/exhaustive/nums.c b/src/exhaustive/nums.c
index 9fe21c1..f997d3d 100644
--- a/src/exhaustive/nums.c
+++ b/src/exhaustive/nums.c
@@ -52,8 +52,9 @@ GENERATOR(nums_gen_b) {
 			return 1;
 		} else {
 			// dont use b, regenerate it,
-			gunclone(b);
+			GEN old = b;
 			b = gclone(gen_1);
+			gunclone(old);
 			curve->b = gerepilecopy(ltop, gmodulo(gen_1, curve->field));
 			curve_b = curve;
 			return 1;
-- 
2.43.0


From fa0ef67773c4d6fda4c431833be7f2ba54e5dde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:35 +0000
Subject: [PATCH 24/42] fix: do not realloc to nothing when no CM prime was
 found

It looked like running out of memory.
---
 src/cm/cm_prime.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cm/cm_prime.c b/src/cm/cm_prime.c
index 33d2a12..ca66f6a 100644
--- a/src/cm/cm_prime.c
+++ b/src/cm/cm_prime.c
@@ -45,7 +45,9 @@ static size_t add_primes(GEN r, GEN order, GEN **primes, size_t nprimes) {
 		}
 	}
 
-	*primes = try_realloc(*primes, sizeof(GEN) * nprimes);
+	if (nprimes) {
+		*primes = try_realloc(*primes, sizeof(GEN) * nprimes);
+	}
 
 	return nprimes;
 }
-- 
2.43.0


From 0be681a93b4dac75cfba38b72cc5893b604ec01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:35 +0000
Subject: [PATCH 25/42] fix: search all CM discriminants under the raised bound

Products of primes over the bound were never tried again with a larger
one, so for many prime orders the search did not end.
---
 src/cm/cm_prime.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cm/cm_prime.c b/src/cm/cm_prime.c
index ca66f6a..4106696 100644
--- a/src/cm/cm_prime.c
+++ b/src/cm/cm_prime.c
@@ -133,6 +133,8 @@ static void qdisc_next(cm_prime_qdisc_t *qdisc) {
 		    add_primes(qdisc->r, qdisc->order, &(qdisc->Sp), qdisc->nprimes);
 		rlog2 = sqri(mulii(addis(qdisc->r, 1), logN));
 		imax = int2n(qdisc->nprimes);
+		// products that were over the last bound might be good now.
+		qdisc->i = gen_0;
 
 		btop = avma;
 	}
-- 
2.43.0


From 216bec044775a88b05289586d446d9e816a404e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:11 +0000
Subject: [PATCH 26/42] fix: generate the requested points on CM curves of
 prime order

--points was ignored for them.
---
 src/cm/cm.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/cm/cm.c b/src/cm/cm.c
index 9dffc1d..0a76483 100644
--- a/src/cm/cm.c
+++ b/src/cm/cm.c
@@ -68,7 +68,6 @@ static void cm_ginit(gen_f *generators, bool prime) {
 		generators[OFFSET_B] = &gen_skip;
 		if (prime) {
 			generators[OFFSET_CURVE] = &cm_gen_curve_prime;
-			generators[OFFSET_POINTS] = &points_gen_prime;
 		} else {
 			generators[OFFSET_CURVE] = &cm_gen_curve_any;
 		}
-- 
2.43.0


From 54450510b98dad356dd10f8ab7f0694a3eed13cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:33 +0000
Subject: [PATCH 27/42] fix: accept -1 and -2 as curve coefficients

---
 src/gen/equation.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gen/equation.c b/src/gen/equation.c
index 619378f..adaabb5 100644
--- a/src/gen/equation.c
+++ b/src/gen/equation.c
@@ -14,10 +14,10 @@ GENERATOR(a_gen_random) {
 GENERATOR(a_gen_input) {
 	pari_sp ltop = avma;
 	GEN inp = input_int("a:", cfg->bits);
-	if (gequalm1(inp)) {
+	if (inp == gen_m1) {
 		avma = ltop;
 		return 0;
-	} else if (equalii(inp, gen_m2)) {
+	} else if (inp == gen_m2) {
 		avma = ltop;
 		return INT_MIN;
 	}
@@ -68,10 +68,10 @@ GENERATOR(b_gen_random) {
 GENERATOR(b_gen_input) {
 	pari_sp ltop = avma;
 	GEN inp = input_int("b:", cfg->bits);
-	if (gequalm1(inp)) {
+	if (inp == gen_m1) {
 		avma = ltop;
 		return 0;
-	} else if (equalii(inp, gen_m2)) {
+	} else if (inp == gen_m2) {
 		avma = ltop;
 		return INT_MIN;
 	}
-- 
2.43.0


From 7fe8df88f5b133006885f2e339513ec997594c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:50 +0000
Subject: [PATCH 28/42] fix: twist a retried curve without the order of the
 previous one

---
 src/gen/curve.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gen/curve.c b/src/gen/curve.c
index 7ea2fb5..ee43b27 100644
--- a/src/gen/curve.c
+++ b/src/gen/curve.c
@@ -39,6 +39,8 @@ GENERATOR(curve_gen_any_twist) {
 	if (result != 1) {
 		return result;
 	} else {
+		// an order from before a retry is not the order of this curve
+		curve->order = NULL;
 		twist_rand(curve);
 		return 1;
 	}
-- 
2.43.0


From 090a8041056a17208d469dc2ac661f216d9174b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:16 +0000
Subject: [PATCH 29/42] fix: do not take input that is not an integer for one

---
 src/io/input.c | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/io/input.c b/src/io/input.c
index 054f46f..7b91b15 100644
--- a/src/io/input.c
+++ b/src/io/input.c
@@ -11,6 +11,22 @@
 FILE *in;
 int delim;
 
+static bool input_is_int(const char *number) {
+	const char *digits = "0123456789";
+	if (number[0] == '0' && (number[1] == 'x' || number[1] == 'X')) {
+		digits = "0123456789abcdefABCDEF";
+		number += 2;
+	} else if (number[0] == '0' && (number[1] == 'b' || number[1] == 'B')) {
+		digits = "01";
+		number += 2;
+	}
+	size_t len = strspn(number, digits);
+	// only whitespace and the delimiter can follow
+	const char *end = number + len;
+	end += strspn(end, " \t\r\n");
+	return len > 0 && (*end == delim || *end == 0);
+}
+
 static GEN input_i(const char *prompt, unsigned long bits) {
 	if (prompt && in == stdin) {
 		fprintf(err, "%s ", prompt);
@@ -35,10 +51,16 @@ static GEN input_i(const char *prompt, unsigned long bits) {
 		free(line);
 		return gen_m1;
 	}
-	bool sign = line[0] == '-';
+	char *number = line + strspn(line, " \t\r\n");
+	bool sign = number[0] == '-';
+	if (!input_is_int(number + sign)) {
+		fprintf(err, "Not an integer.\n");
+		free(line);
+		return gen_m1;
+	}
 
 	pari_sp ltop = avma;
-	GEN in = strtoi(line + sign);
+	GEN in = strtoi(number + sign);
 	if (sign) {
 		togglesign(in);
 	}
-- 
2.43.0


From afc6ed5695ccac7a1ebba63c1fb5350d19f6eda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:08 +0000
Subject: [PATCH 30/42] fix: do not unroll points of generators left out by a
 timeout

---
 src/gen/point.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/gen/point.c b/src/gen/point.c
index 94f4922..516dac9 100644
--- a/src/gen/point.c
+++ b/src/gen/point.c
@@ -180,8 +180,11 @@ GENERATOR(points_gen_nonprime) {
 UNROLL(points_unroll) {
 	if (curve->generators) {
 		for (size_t i = 0; i < curve->ngens; ++i) {
-			points_free_deep(&curve->generators[i]->points,
-			                 curve->generators[i]->npoints);
+			// a timeout can leave some generators out
+			if (curve->generators[i]) {
+				points_free_deep(&curve->generators[i]->points,
+				                 curve->generators[i]->npoints);
+			}
 		}
 	}
 	return -1;
-- 
2.43.0


From 17617eb83a6f12b58e2fefb2b3f914ab88d4aa54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:32 +0000
Subject: [PATCH 31/42] fix: do not close PARI before it was opened

When the regular expression can not be compiled (out of memory), the
message was followed by a segmentation fault in pari_close.
---
 src/ecgen.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ecgen.c b/src/ecgen.c
index 3e226e2..f08b6f6 100644
--- a/src/ecgen.c
+++ b/src/ecgen.c
@@ -112,7 +112,8 @@ int quit(int status) {
 int main(int argc, char *argv[]) {
 	memset(cfg, 0, sizeof(config_t));
 	if (!cli_init()) {
-		return quit(EXIT_FAILURE);
+		// nothing is initialized yet, so there is nothing to quit
+		return EXIT_FAILURE;
 	}
 	argp_parse(&argp, argc, argv, 0, 0, cfg);
 	cli_quit();
-- 
2.43.0


From d9202b0fdd21c28781c29c6460bb6c81f8f4f526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:48 +0000
Subject: [PATCH 32/42] fix: report PARI errors in threads instead of crashing

PARI can not handle an error in a thread it did not create: running out
of memory or of thread stack was a segmentation fault.
---
 src/invalid/invalid_thread.c | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/invalid/invalid_thread.c b/src/invalid/invalid_thread.c
index 2e01109..416b315 100644
--- a/src/invalid/invalid_thread.c
+++ b/src/invalid/invalid_thread.c
@@ -18,11 +18,7 @@ static size_t invalid_get_generated(thread_t *thread) {
 	return result;
 }
 
-void *invalid_thread(void *arg) {
-	thread_t *thread = (thread_t *)arg;
-	pari_thread_start(thread->pari_thread);
-	random_init();
-	timeout_thread_init();
+static void invalid_search(thread_t *thread) {
 	arg_t *invalid_argss[OFFSET_END] = {NULL};
 	exhaustive_t invalid_setup = {.generators = thread->setup->generators,
 	                              .validators = thread->setup->validators,
@@ -88,6 +84,23 @@ void *invalid_thread(void *arg) {
 		if (nfree == 0) avma = btop;
 	}
 	curve_free(&invalid);
+}
+
+void *invalid_thread(void *arg) {
+	thread_t *thread = (thread_t *)arg;
+	pari_thread_start(thread->pari_thread);
+	pari_CATCH(CATCH_ALL) {
+		// PARI does not know this thread, so it can not report the error.
+		fprintf(stderr, "  ***   Error %s in a thread. End of program.\n",
+		        numerr_name(err_get_num(pari_err_last())));
+		exit(EXIT_FAILURE);
+	}
+	pari_TRY {
+		random_init();
+		timeout_thread_init();
+		invalid_search(thread);
+	}
+	pari_ENDCATCH
 
 	pari_thread_close();
 	timeout_thread_quit();
-- 
2.43.0


From ec1432982dbb142e5f140be43bc4dbb8388c8586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:40 +0000
Subject: [PATCH 33/42] fix: random integers of n bits do not include 2^n

It has one bit more: a binary curve with such a coefficient is not over
its field, a seed of it is not 160 bits long.
---
 src/util/random.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/random.c b/src/util/random.c
index 1431b17..d713926 100644
--- a/src/util/random.c
+++ b/src/util/random.c
@@ -50,7 +50,7 @@ bool random_init(void) {
 GEN random_prime(unsigned long bits) {
 	pari_sp ltop = avma;
 
-	GEN range = mkvec2(int2n(bits - 1), int2n(bits));
+	GEN range = mkvec2(int2n(bits - 1), subis(int2n(bits), 1));
 
 	GEN p;
 	pari_sp btop = avma;
@@ -65,7 +65,7 @@ GEN random_prime(unsigned long bits) {
 GEN random_int(unsigned long bits) {
 	pari_sp ltop = avma;
 
-	GEN range = mkvec2(int2n(bits - 1), int2n(bits));
+	GEN range = mkvec2(int2n(bits - 1), subis(int2n(bits), 1));
 	return gerepilecopy(ltop, genrand(range));
 }
 
-- 
2.43.0


From 26e0c84b51293c0a462d11a0948a6d174724d5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:27 +0000
Subject: [PATCH 34/42] fix: no point at infinity as the generator of a
 Brainpool curve

Its coordinates do not exist: writing it was a segmentation fault.
---
 src/exhaustive/brainpool.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/exhaustive/brainpool.c b/src/exhaustive/brainpool.c
index b39e4ad..a39ebdb 100644
--- a/src/exhaustive/brainpool.c
+++ b/src/exhaustive/brainpool.c
@@ -258,6 +258,11 @@ GENERATOR(brainpool_gen_gens) {
 CHECK(brainpool_check_gens) {
 	pari_sp ltop = avma;
 	point_t *G = curve->generators[0]->generator;
+	// the multiple of the seed can be a multiple of the order
+	if (ell_is_inf(G->point)) {
+		avma = ltop;
+		return -5;
+	}
 	GEN min_degree = divis(subii(G->order, gen_1), 100);
 	if (mpcmp(min_degree, gens_get_embedding(curve->field, G->order)) >= 0) {
 		avma = ltop;
-- 
2.43.0


From b2f047d1ff28fe72d23b3cd0c205c5c12a1d9686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:27 +0000
Subject: [PATCH 35/42] fix: generator of a subgroup of the cofactor on curves
 that are not cyclic

A curve of order cofactor * prime was passed over if the other generator
has a part of the cofactor.
---
 src/gen/gens.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/gen/gens.c b/src/gen/gens.c
index a743e79..cd1ac56 100644
--- a/src/gen/gens.c
+++ b/src/gen/gens.c
@@ -67,11 +67,12 @@ GENERATOR(gens_gen_cofactor) {
 			break;
 		}
 
-		if (dvdiu(gen_order, cofactor)) {
-			GEN res = diviuexact(gen_order, cofactor);
+		// the other generator can have a part of the cofactor
+		if (dvdii(gen_order, order)) {
+			GEN mul = diviiexact(gen_order, order);
 			p = point_new();
-			p->point = gcopy(ellmul(curve->curve, gen, utoi(cofactor)));
-			p->order = res;
+			p->point = gcopy(ellmul(curve->curve, gen, mul));
+			p->order = gcopy(order);
 			p->cofactor = utoi(cofactor);
 			break;
 		}
-- 
2.43.0


From fc3f27a5b4f0962170e488c5a292c4e2547058e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:03 +0000
Subject: [PATCH 36/42] fix: anomalous fields have the number of bits asked for

---
 src/cm/anomalous.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/cm/anomalous.c b/src/cm/anomalous.c
index c1a4989..ba1461c 100644
--- a/src/cm/anomalous.c
+++ b/src/cm/anomalous.c
@@ -42,8 +42,15 @@ static GEN anomalous_prime(size_t i, unsigned long bits) {
 
 	pari_sp ltop = avma;
 	GEN last = divis(addis(D, 1), 4);
-	GEN lower = divii(subii(int2n(bits - 1), last), D);
-	GEN upper = divii(subii(int2n(bits), last), D);
+	// round up, or the prime could be too small
+	GEN lower =
+	    truedivii(addii(subii(int2n(bits - 1), last), subis(D, 1)), D);
+	GEN upper = truedivii(subii(int2n(bits), last), D);
+	if (cmpii(lower, upper) > 0) {
+		// there is no such prime
+		avma = ltop;
+		return NULL;
+	}
 
 	GEN lower_bound = gceil(
 	    gdiv(gsub(gsqrt(addis(mulis(lower, 4), 1), BIGDEFAULTPREC * 2), gen_1),
@@ -55,6 +62,10 @@ static GEN anomalous_prime(size_t i, unsigned long bits) {
 	GEN range = gtovec0(gen_0, 2);
 	gel(range, 1) = lower_bound;
 	gel(range, 2) = upper_bound;
+	if (cmpii(lower_bound, upper_bound) > 0) {
+		avma = ltop;
+		return NULL;
+	}
 	GEN first, middle;
 	GEN p, b;
 
@@ -97,6 +108,10 @@ GENERATOR(anomalous_gen_field) {
 	GEN p;
 	do {
 		p = anomalous_prime(i, cfg->bits);
+		if (!p) {
+			avma = ltop;
+			return INT_MIN;
+		}
 		gerepileall(ltop, 1, &p);
 	} while (!kronecker(disc_table[i]->alpha, p));
 
-- 
2.43.0


From c7642bd6bb2f9e9ca70aa60946f92e4a9b7f157a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:35 +0000
Subject: [PATCH 37/42] fix: all the twists of a curve with d = -3 or -4 are
 tried for the subgroup

---
 src/cm/cm_any.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/cm/cm_any.c b/src/cm/cm_any.c
index d83df98..4d7451d 100644
--- a/src/cm/cm_any.c
+++ b/src/cm/cm_any.c
@@ -243,6 +243,19 @@ GEN cm_construct_curve_subgroup(GEN r, GEN d, GEN p) {
 		pari_TRY { checkell(e); };
 		pari_ENDCATCH{};
 
+		if (equalis(d, -3) || equalis(d, -4)) {
+			// There are more twists, any of them may have the subgroup.
+			for (GEN c = gen_1; cmpii(c, p) < 0; c = addis(c, 1)) {
+				GEN v = equalis(d, -3) ? mkvec2(gen_0, c) : mkvec2(c, gen_0);
+				e = ellinit(v, p, 0);
+				if (dvdii(ellff_get_card(e), r)) {
+					debug_log("Got curve.");
+					return gerepilecopy(ltop, e);
+				}
+			}
+			continue;
+		}
+
 		GEN ord = ellff_get_card(e);
 		if (dvdii(ord, r)) {
 			debug_log("Got curve.");
-- 
2.43.0


From 31aa377fa1b4e437028005db31f87941c5ab3241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:54 +0000
Subject: [PATCH 38/42] fix: threads that can not be created are not waited for

---
 src/invalid/invalid.c | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/invalid/invalid.c b/src/invalid/invalid.c
index 3a11e67..1ded0b9 100644
--- a/src/invalid/invalid.c
+++ b/src/invalid/invalid.c
@@ -271,10 +271,26 @@ static size_t invalid_curves_threaded(const curve_t *curve, pari_ulong *primes,
 		threads[i].setup = setup;
 	}
 
+	size_t nthreads = 0;
 	pthread_mutex_lock(&state_mutex);
-	for (size_t i = 0; i < cfg->threads; ++i) {
-		pthread_create(&pthreads[i], NULL, &invalid_thread,
-		               (void *)&threads[i]);
+	while (nthreads < cfg->threads &&
+	       pthread_create(&pthreads[nthreads], NULL, &invalid_thread,
+	                      (void *)&threads[nthreads]) == 0) {
+		++nthreads;
+	}
+	if (!nthreads) {
+		// Could not create any threads, this one has to do.
+		pthread_mutex_unlock(&state_mutex);
+		for (size_t i = 0; i < cfg->threads; ++i) {
+			pari_thread_free(&pari_threads[i]);
+		}
+		pthread_mutex_destroy(&state_mutex);
+		pthread_cond_destroy(&generated_cond);
+		try_free(generated);
+		try_free(states);
+		try_free(old_states);
+		try_free(local_curves);
+		return invalid_curves_single(curve, primes, nprimes, curves, setup);
 	}
 
 	size_t noutput = 0;
@@ -295,7 +311,7 @@ static size_t invalid_curves_threaded(const curve_t *curve, pari_ulong *primes,
 	}
 	pthread_mutex_unlock(&state_mutex);
 
-	for (size_t i = 0; i < cfg->threads; ++i) {
+	for (size_t i = 0; i < nthreads; ++i) {
 		pthread_join(pthreads[i], NULL);
 	}
 
-- 
2.43.0


From 9d3daefdc84186dc097fcb0dedc6d23fa4ebb1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:08 +0000
Subject: [PATCH 39/42] fix: SEA is not used over small fields, where PARI's
 fails for some curves

---
 src/exhaustive/nums.c |  3 ++-
 src/gen/order.c       | 12 ++++++++++--
 src/gen/order.h       | 10 ++++++++++
 3 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/exhaustive/nums.c b/src/exhaustive/nums.c
index f997d3d..3d377e5 100644
--- a/src/exhaustive/nums.c
+++ b/src/exhaustive/nums.c
@@ -4,6 +4,7 @@
  */
 
 #include "nums.h"
+#include "gen/order.h"
 #include "math/subgroup.h"
 #include "obj/point.h"
 #include "obj/subgroup.h"
@@ -64,7 +65,7 @@ GENERATOR(nums_gen_b) {
 
 GENERATOR(nums_gen_order) {
 	pari_sp ltop = avma;
-	GEN order = ellsea(curve->curve, 1);
+	GEN order = order_sea(curve->curve, 1);
 	GEN frobenius = subii(addis(curve->field, 1), order);
 	GEN twist_order = addii(order, muliu(frobenius, 2));
 	if (gequal0(order) || !(isprime(order)) || !(isprime(twist_order))) {
diff --git a/src/gen/order.c b/src/gen/order.c
index 7baf92f..8fe48d2 100644
--- a/src/gen/order.c
+++ b/src/gen/order.c
@@ -33,9 +33,17 @@ GENERATOR(order_gen_any) {
 	return 1;
 }
 
+GEN order_sea(GEN curve, pari_ulong smallfact) {
+	// PARI's SEA fails for some curves over small fields.
+	if (cfg->bits < 64) {
+		return ellff_get_card(curve);
+	}
+	return ellsea(curve, smallfact);
+}
+
 GENERATOR(order_gen_sea) {
 	pari_sp ltop = avma;
-	GEN order = ellsea(curve->curve, 0);
+	GEN order = order_sea(curve->curve, 0);
 	if (gequal0(order)) {
 		avma = ltop;
 		return -4;
@@ -91,7 +99,7 @@ GENERATOR(order_gen_smooth) {
 
 GENERATOR(order_gen_prime) {
 	pari_sp ltop = avma;
-	GEN order = ellsea(curve->curve, 1);
+	GEN order = order_sea(curve->curve, 1);
 	if (gequal0(order) || !(isprime(order))) {
 		avma = ltop;
 		return -4;
diff --git a/src/gen/order.h b/src/gen/order.h
index 9dc1553..47005c8 100644
--- a/src/gen/order.h
+++ b/src/gen/order.h
@@ -33,6 +33,16 @@ GENERATOR(order_gen_input);
  */
 GENERATOR(order_gen_any);
 
+/**
+ * Calculates the order of a curve with the SEA algorithm, or by other means
+ * if the field is small.
+ *
+ * @param curve an elliptic curve
+ * @param smallfact as for ellsea
+ * @return the order, or zero if it has a small factor
+ */
+GEN order_sea(GEN curve, pari_ulong smallfact);
+
 /**
  * GENERATOR(gen_f)
  * Calculates the curve order, using the SEA algorithm.
-- 
2.43.0


From 0ca5f15f9c71a430dcaeb56a661e8e0381db737b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:29 +0000
Subject: [PATCH 40/42] fix: random bit strings of whole bytes have no random
 last byte

---
 src/util/bits.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/util/bits.c b/src/util/bits.c
index 0d60c26..59a5145 100644
--- a/src/util/bits.c
+++ b/src/util/bits.c
@@ -21,6 +21,7 @@ bits_t *bits_new_rand(size_t bit_len) {
 	for (size_t i = 0; i < result->allocated; ++i) {
 		if (i == result->allocated - 1) {
 			size_t last_bits = bit_len % 8;
+			if (last_bits == 0) last_bits = 8;
 			result->bits[i] = (unsigned char)random_bits(last_bits)
 			                  << (8 - last_bits);
 		} else {
-- 
2.43.0


From 7ccc2b85ce41d335957fb61331aa2143e253bee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:27 +0000
Subject: [PATCH 41/42] fix: a seed that is given up is freed

---
 src/exhaustive/exhaustive.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/exhaustive/exhaustive.c b/src/exhaustive/exhaustive.c
index e643269..d8dc11d 100644
--- a/src/exhaustive/exhaustive.c
+++ b/src/exhaustive/exhaustive.c
@@ -417,6 +417,12 @@ int exhaustive_gen_retry(curve_t *curve, const exhaustive_t *setup,
 					--i;
 				}
 			}
+			// what is generated again replaces what was there
+			if (new_state < state && setup->unrolls &&
+			    setup->unrolls[new_state]) {
+				setup->unrolls[new_state](curve, stack_tops[new_state],
+				                          stack_tops[new_state]);
+			}
 
 			if (timeout) {
 				verbose_log("#");
-- 
2.43.0


From aad2a078884f2bad09c1e1e70a8b9ab0b8ffcc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:54 +0000
Subject: [PATCH 42/42] fix: the primes of a range that holds none, or starts
 at zero

---
 src/invalid/invalid.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/invalid/invalid.c b/src/invalid/invalid.c
index 1ded0b9..23dc6c8 100644
--- a/src/invalid/invalid.c
+++ b/src/invalid/invalid.c
@@ -79,7 +79,8 @@ static size_t invalid_primes(GEN order, pari_ulong **primes) {
 
 	if (cfg->invalid_primes) {
 		char *end = NULL;
-		last = (pari_ulong)strtol(cfg->invalid_primes, &end, 10) - 1;
+		last = (pari_ulong)strtol(cfg->invalid_primes, &end, 10);
+		last = last > 2 ? last - 1 : 1;
 		if (end && *end) {
 			end++;
 			upper = (pari_ulong)strtol(end, NULL, 10);
@@ -108,10 +109,12 @@ static size_t invalid_primes(GEN order, pari_ulong **primes) {
 		}
 	}
 	/* realloc to smaller size, to tightly fit all generated primes */
-	pari_ulong *new_primes =
-	    pari_realloc(*primes, nprimes * sizeof(pari_ulong));
-	if (new_primes) {
-		*primes = new_primes;
+	if (nprimes) {
+		pari_ulong *new_primes =
+		    pari_realloc(*primes, nprimes * sizeof(pari_ulong));
+		if (new_primes) {
+			*primes = new_primes;
+		}
 	}
 	avma = ltop;
 
-- 
2.43.0

