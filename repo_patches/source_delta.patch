From 0c21d37500b159b9c2d4cc250d1ab4cd0a442a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:32 +0000
Subject: [PATCH 01/29] fix: spasm_realloc with size 0 freed the buffer and
 lost the values of a matrix trimmed to zero entries; failure on a NULL
 pointer went unnoticed

---
 src/spasm_util.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/spasm_util.c b/src/spasm_util.c
index 5ac2909..69e203c 100644
--- a/src/spasm_util.c
+++ b/src/spasm_util.c
@@ -80,8 +80,9 @@ void *spasm_calloc(i64 count, i64 size)
 
 void *spasm_realloc(void *ptr, i64 size)
 {
-	void *x = realloc(ptr, size);
-	if (ptr != NULL && x == NULL && size != 0)
+	/* realloc(ptr, 0) may free ptr and return NULL, which cannot be told apart from a failure */
+	void *x = realloc(ptr, (size != 0) ? size : 1);
+	if (x == NULL)
 		err(1, "realloc failed");
 	return x;
 }
-- 
2.43.0


From 5e74a8632ab7aea2f83c8767758b06c211d034f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:32 +0000
Subject: [PATCH 02/29] fix: spasm_compress left stale entries behind when
 duplicates cancel (row start was overwritten while removing zeroes)

---
 src/spasm_triplet.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/spasm_triplet.c b/src/spasm_triplet.c
index 9c1cb58..af59cb1 100644
--- a/src/spasm_triplet.c
+++ b/src/spasm_triplet.c
@@ -42,8 +42,11 @@ static void remove_explicit_zeroes(struct spasm_csr *A)
 	if (Ax == NULL)
 		return;
 	i64 nz = 0;
+	i64 end = 0;         /* end of row i in the original matrix */
 	for (int i = 0; i < n; i++) {
-		for (i64 it = Ap[i]; it < Ap[i + 1]; it++) {
+		i64 begin = end;
+		end = Ap[i + 1];
+		for (i64 it = begin; it < end; it++) {
 			int j = Aj[it];
 			spasm_ZZp x = Ax[it];
 			if (x == 0)
-- 
2.43.0


From 0b76b8ab081f4b19b534bc97c31a882882471b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:32 +0000
Subject: [PATCH 03/29] fix: spasm_kernel_from_rref stored p-1 instead of the
 balanced representative -1 (overflows for p > 2^31)

---
 src/spasm_kernel.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spasm_kernel.c b/src/spasm_kernel.c
index 7bc4a06..71ba2a9 100644
--- a/src/spasm_kernel.c
+++ b/src/spasm_kernel.c
@@ -160,7 +160,7 @@ struct spasm_csr * spasm_kernel_from_rref(const struct spasm_csr *R, const int *
 		if (qinv[j] >= 0)
 			continue;           /* skip pivotal columns of R */
 		Kj[nnz] = j;
-		Kx[nnz] = prime - 1;
+		Kx[nnz] = -1;
 		nnz += 1;
 		for (i64 px = Rtp[j]; px < Rtp[j + 1]; px++) {
 			int i = Rtj[px];
-- 
2.43.0


From 4ba2c48f84e2bd5b12f610351e75cc749918d94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:32 +0000
Subject: [PATCH 04/29] fix: GPLU stopped too early after a Schur complement
 (bound on the rank ignored the pivots already found)

---
 src/spasm_echelonize.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spasm_echelonize.c b/src/spasm_echelonize.c
index 8c0778c..9de19fe 100644
--- a/src/spasm_echelonize.c
+++ b/src/spasm_echelonize.c
@@ -56,7 +56,7 @@ static void echelonize_GPLU(const struct spasm_csr *A, const int *p, int n, cons
 	(void) opts;
 	assert(p != NULL);
 	int m = A->m;
-	int r = spasm_min(A->n, m);  /* upper-bound on rank */
+	int r = spasm_min(fact->U->n + n, m);  /* upper-bound on rank */
 	int verbose_step = spasm_max(1, n / 1000);
 	fprintf(stderr, "[echelonize/GPLU] processing matrix of dimension %d x %d\n", n, m);
 	
-- 
2.43.0


From 6e257e33329a9a05e5008f0e964394622170d827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:32 +0000
Subject: [PATCH 05/29] fix: heap overflow in echelonize_dense (pivotal[] is
 indexed by the rows of the original matrix)

---
 src/spasm_echelonize.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/spasm_echelonize.c b/src/spasm_echelonize.c
index 9de19fe..1a174e4 100644
--- a/src/spasm_echelonize.c
+++ b/src/spasm_echelonize.c
@@ -396,8 +396,9 @@ static void echelonize_dense(const struct spasm_csr *A, const int *p, int n, con
 	int *q = spasm_malloc(Sm * sizeof(*q));
 	size_t *Sqinv = spasm_malloc(Sm * sizeof(*Sqinv));                   /* for FFPACK */
 	size_t *Sp = spasm_malloc(opts->dense_block_size * sizeof(*Sp));     /* for FFPACK / LU only */
-	bool *pivotal = spasm_malloc(A->n * sizeof(*pivotal));
-	for (int i = 0; i < A->n; i++)
+	int n_orig = (fact->Ltmp != NULL) ? fact->Ltmp->n : A->n;             /* A may be a schur complement */
+	bool *pivotal = spasm_malloc(n_orig * sizeof(*pivotal));
+	for (int i = 0; i < n_orig; i++)
 		pivotal[i] = 0;
 
 	int processed = 0;
-- 
2.43.0


From c3dce71d28f62dcb349a77cc24a72112e880ad3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:32 +0000
Subject: [PATCH 06/29] fix: echelonize_dense dropped the remaining rows after
 a Schur complement when switching to low-rank mode

---
 src/spasm_echelonize.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spasm_echelonize.c b/src/spasm_echelonize.c
index 1a174e4..ef9c0a6 100644
--- a/src/spasm_echelonize.c
+++ b/src/spasm_echelonize.c
@@ -408,7 +408,7 @@ static void echelonize_dense(const struct spasm_csr *A, const int *p, int n, con
 	fprintf(stderr, "[echelonize/dense] processing dense schur complement of dimension %d x %d; block size=%d, type %s\n", 
 		n, Sm, opts->dense_block_size, spasm_datatype_name(datatype));
 	bool lowrank_mode = 0;
-	int rank_ub = spasm_min(A->n - U->n, A->m - U->n);
+	int rank_ub = spasm_min(n, A->m - U->n);
 
 	for (;;) {
 		/* compute a chunk of the schur complement, then echelonize with FFPACK */
@@ -437,7 +437,7 @@ static void echelonize_dense(const struct spasm_csr *A, const int *p, int n, con
 		processed += Sn;
 		p += Sn;
 		Sm = m - U->n;
-		rank_ub = spasm_min(A->n - U->n, A->m - U->n);
+		rank_ub = spasm_min(n - processed, A->m - U->n);
 		fprintf(stderr, "[echelonize/dense] found %d new pivots\n", rr);
 
 		/* 
-- 
2.43.0


From 895e4e841367862cde405e7c1272e150252e388b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:32 +0000
Subject: [PATCH 07/29] fix: low-rank mode ignored the last rows (the rows are
 not reordered, all of them must be kept)

---
 src/spasm_echelonize.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/spasm_echelonize.c b/src/spasm_echelonize.c
index ef9c0a6..3609f52 100644
--- a/src/spasm_echelonize.c
+++ b/src/spasm_echelonize.c
@@ -366,7 +366,6 @@ static void echelonize_dense_lowrank(const struct spasm_csr *A, const int *p, in
 			fprintf(stderr, "[echelonize/dense/low-rank] Not enough pivots, increasing weight to %d\n", w);
 		}
 		update_U_after_rref(rr, Sm, S, datatype, Sp, q, fact);
-		n -= rr;
 		Sm -= rr;
 		rank_ub -= rr;
 		round += 1;
-- 
2.43.0


From 981a73571c1838bab0f9e08f068d06ba9d0df073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:32 +0000
Subject: [PATCH 08/29] fix: spasm_schur_dense_randomized reused the same
 coefficients at each call (wrong completion test, endless loop in low-rank
 mode)

---
 src/spasm_schur.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spasm_schur.c b/src/spasm_schur.c
index 80b3423..f1cc64d 100644
--- a/src/spasm_schur.c
+++ b/src/spasm_schur.c
@@ -357,6 +357,7 @@ void spasm_schur_dense_randomized(const struct spasm_csr *A, const int *p, int n
 	fprintf(stderr, "[schur/dense/random] dimension %d x %d, weight %d...\n", N, Sm, w);
 	double start = spasm_wtime();
 	int verbose_step = spasm_max(1, N / 1000);
+	u64 seed = (((u64) rand()) << 32) ^ rand();      /* each invocation must use fresh coefficients */
 
 	#pragma omp parallel
 	{
@@ -366,7 +367,7 @@ void spasm_schur_dense_randomized(const struct spasm_csr *A, const int *p, int n
 		#pragma omp for schedule(dynamic, verbose_step)
 		for (i64 k = 0; k < N; k++) {
 			spasm_prng_ctx ctx;
-			spasm_prng_seed_simple(prime, k, 0, &ctx);
+			spasm_prng_seed_simple(prime, seed, k, &ctx);
 
 			for (int j = 0; j < m; j++)
 				y[j] = 0;
-- 
2.43.0


From 7c0cf45024b700074c582051931d1eff528bbc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:32 +0000
Subject: [PATCH 09/29] fix: divisions by zero converted to integers when the
 Schur complement has no rows or no columns

---
 src/spasm_echelonize.c | 2 ++
 src/spasm_schur.c      | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/spasm_echelonize.c b/src/spasm_echelonize.c
index 3609f52..375ff2c 100644
--- a/src/spasm_echelonize.c
+++ b/src/spasm_echelonize.c
@@ -319,6 +319,8 @@ static void echelonize_dense_lowrank(const struct spasm_csr *A, const int *p, in
 	int *Uqinv = fact->qinv;
 	int m = A->m;
 	int Sm = m - U->n;
+	if (n == 0 || Sm == 0)
+		return;               /* empty schur complement */
 	i64 prime = spasm_get_prime(A);
 	spasm_datatype datatype = spasm_datatype_choose(prime);
 
diff --git a/src/spasm_schur.c b/src/spasm_schur.c
index f1cc64d..6aff86a 100644
--- a/src/spasm_schur.c
+++ b/src/spasm_schur.c
@@ -14,8 +14,8 @@ double spasm_schur_estimate_density(const struct spasm_csr *A, const int *p, int
 		return 0;
 	int m = A->m;
 	i64 nnz = 0;
-	if (n == 0)
-		return 0;
+	if (m == U->n)
+		return 0;        /* the schur complement has no columns */
 
 	#pragma omp parallel
 	{
-- 
2.43.0


From 65faec3b082d2d7ae7ddc41e696b6ed9e5309cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:03 +0000
Subject: [PATCH 10/29] fix: loading a rank certificate read i[] twice and j[]
 never, and accepted truncated or malformed files and negative ranks

---
 src/spasm_certificate.c | 55 +++++++++++++++++++++++++++++------------
 1 file changed, 39 insertions(+), 16 deletions(-)

diff --git a/src/spasm_certificate.c b/src/spasm_certificate.c
index c5aa5ae..015ebc8 100644
--- a/src/spasm_certificate.c
+++ b/src/spasm_certificate.c
@@ -3,6 +3,7 @@
 #include <assert.h>
 #include <math.h>
 #include <err.h>
+#include <string.h>
 
 #include "spasm.h"
 
@@ -100,6 +101,8 @@ bool spasm_certificate_rank_verify(const struct spasm_csr *A, const u8 *hash, co
 	int m = A->m;
 	int r = proof->r;
 
+	if (r < 0)
+		return 0;
 	for (int i = 0; i < 32; i++)
 		if (hash[i] != proof->hash[i])
 			return 0;
@@ -240,32 +243,52 @@ void spasm_rank_certificate_save(const struct spasm_rank_certificate *proof, FIL
 	fprintf(f, "\n");
 }
 
+static bool load_int(FILE *f, int *x)
+{
+	i64 y;
+	if (1 != fscanf(f, "%" SCNd64, &y) || y < INT32_MIN || y > INT32_MAX)
+		return 0;
+	*x = y;
+	return 1;
+}
+
+/* on failure, nothing is allocated */
 bool spasm_rank_certificate_load(FILE *f, struct spasm_rank_certificate *proof)
 {
 	int r;
-	if (1 != fscanf(f, "%d", &r))
+	if (!load_int(f, &r) || r < 0)
 		return 0;
-	proof->r = r;
-	proof->i = malloc(r * sizeof(*proof->i));
-	proof->j = malloc(r * sizeof(*proof->i));
-	proof->x = malloc(r * sizeof(*proof->i));
-	proof->y = malloc(r * sizeof(*proof->i));
-	if (1 != fscanf(f, "%" SCNd64 "\n", &proof->prime))
+	if (1 != fscanf(f, "%" SCNd64, &proof->prime))
 		return 0;
 	char hash[65];
-	if (NULL == fgets(hash, 65, f))
+	if (1 != fscanf(f, " %64[0-9a-fA-F]", hash) || strlen(hash) != 64)
 		return 0;
 	for (int i = 0; i < 32; i++) {
 		char byte[3] = {hash[2*i], hash[2*i+1], 0};
 		proof->hash[i] = strtoul(byte, NULL, 16);
 	}
-	for (int k = 0; k < r; k++)
-		fscanf(f, "%d", &proof->i[k]);
-	for (int k = 0; k < r; k++)
-		fscanf(f, "%d", &proof->i[k]);
-	for (int k = 0; k < r; k++)
-		fscanf(f, "%d", &proof->x[k]);
-	for (int k = 0; k < r; k++)
-		fscanf(f, "%d", &proof->y[k]);
+	proof->r = r;
+	proof->i = NULL;
+	proof->j = NULL;
+	proof->x = NULL;
+	proof->y = NULL;
+	int **dest[4] = {&proof->i, &proof->j, &proof->x, &proof->y};
+	for (int a = 0; a < 4; a++) {
+		i64 size = 0;                /* enlarged on the go: do not trust r before having seen the data */
+		for (int k = 0; k < r; k++) {
+			if (k == size) {
+				size = 2 * size + 1024;
+				*dest[a] = spasm_realloc(*dest[a], size * sizeof(int));
+			}
+			if (!load_int(f, *dest[a] + k))
+				goto failure;
+		}
+	}
 	return 1;
+failure:
+	free(proof->i);
+	free(proof->j);
+	free(proof->x);
+	free(proof->y);
+	return 0;
 }
\ No newline at end of file
-- 
2.43.0


From 86f25dab8cb5eac25d45bbb19779cffd88e8ccfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:03 +0000
Subject: [PATCH 11/29] fix: check_cert printed the opposite verdict, exited
 with 0 on incorrect certificates, and went on with unreadable ones

---
 tools/check_cert.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tools/check_cert.c b/tools/check_cert.c
index 2f6d717..a13fb3d 100644
--- a/tools/check_cert.c
+++ b/tools/check_cert.c
@@ -2,6 +2,7 @@
 #include <stdio.h>
 #include <assert.h>
 #include <argp.h>
+#include <err.h>
 
 #include "spasm.h"
 #include "common.h"
@@ -70,13 +71,14 @@ int main(int argc, char **argv)
 	/* load certificate */
 	FILE *f = open_input(args.cert_file);
 	struct spasm_rank_certificate proof;
-	spasm_rank_certificate_load(f, &proof);
+	if (!spasm_rank_certificate_load(f, &proof))
+		errx(1, "Cannot load the certificate (truncated or malformed file)");
 
 	bool correct = spasm_certificate_rank_verify(A, hash, &proof);
 	
-	if (!correct)
+	if (correct)
 		fprintf(stderr, "CORRECT certificate\n");
 	else
 		fprintf(stderr, "INCORRECT certificate\n");	
-	return correct;
+	return correct ? EXIT_SUCCESS : EXIT_FAILURE;
 }
\ No newline at end of file
-- 
2.43.0


From c77ce4615f85f99061df30709abeb1a191c114d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:03 +0000
Subject: [PATCH 12/29] fix: rank wrote the certificate of the transpose when
 the matrix has more columns than rows

---
 tools/rank.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/rank.c b/tools/rank.c
index 1437cab..b64f798 100644
--- a/tools/rank.c
+++ b/tools/rank.c
@@ -81,7 +81,7 @@ int main(int argc, char **argv)
 	/* load input matrix */
 	u8 hash[32];
 	struct spasm_triplet *T = load_input_matrix(&args.input, hash);
-	if (args.allow_transpose && (T->n < T->m)) {
+	if (args.allow_transpose && !args.certificate && (T->n < T->m)) {     /* the certificate is about the input matrix */
 		fprintf(stderr, "[rank] transposing matrix : ");
 		fflush(stderr);
 		spasm_triplet_transpose(T);
-- 
2.43.0


From 8d036f8d9d1464ecbe34bd8bd3ff196606997e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:03 +0000
Subject: [PATCH 13/29] fix: echelonize truncated moduli above 2^31

---
 tools/echelonize.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/echelonize.c b/tools/echelonize.c
index 6514a63..40e007c 100644
--- a/tools/echelonize.c
+++ b/tools/echelonize.c
@@ -27,7 +27,7 @@ void parse_command_line_options(int argc, char **argv)
 	while ((ch = getopt_long(argc, argv, "", longopts, NULL)) != -1) {
 		switch (ch) {
 		case 'p':
-			prime = atoi(optarg);
+			prime = atoll(optarg);
 			break;
 		case 'r':
 			rref = 1;
-- 
2.43.0


From 9f195cf54d3aece89716a76592915b6708548807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:03 +0000
Subject: [PATCH 14/29] fix: solve read out of bounds when the right-hand sides
 do not have as many columns as the matrix

---
 tools/solve.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/solve.c b/tools/solve.c
index de1701e..4118255 100644
--- a/tools/solve.c
+++ b/tools/solve.c
@@ -2,6 +2,7 @@
 #include <stdio.h>
 #include <assert.h>
 #include <argp.h>
+#include <err.h>
 
 #include "spasm.h"
 #include "common.h"
@@ -87,6 +88,8 @@ int main(int argc, char **argv)
 	T = load_input_matrix(&rhs_in, hash);
 	struct spasm_csr *B = spasm_compress(T);
 	spasm_triplet_free(T);
+	if (B->m != m)
+		errx(1, "the right-hand sides have %d columns but the matrix has %d", B->m, m);
 
 	/* echelonize A */
 	fprintf(stderr, "Echelonizing A\n");
-- 
2.43.0


From d88d3008ff86d151c6af44aaf3ea61c839a97cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:03 +0000
Subject: [PATCH 15/29] fix: spasm_triplet_load refused MatrixMarket files with
 no entries, aborted on bad indices, and silently altered numbers that do not
 fit or are not integers

---
 src/spasm_io.c | 38 ++++++++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/src/spasm_io.c b/src/spasm_io.c
index 162470d..5bab153 100644
--- a/src/spasm_io.c
+++ b/src/spasm_io.c
@@ -5,6 +5,8 @@
 #include <err.h>
 #include <string.h>
 #include <ctype.h>
+#include <errno.h>
+#include <limits.h>
 
 #include "spasm.h"
 
@@ -25,6 +27,26 @@ static bool read_line(const char *fn, i64 line, char *buffer, int size, spasm_sh
  	return 0;
 }
 
+/*
+ * Read "i j x" (x can be ignored), followed by nothing else than white space.
+ * Return false if the line does not have this form or if a number does not fit.
+ */
+static bool parse_entry(const char *buffer, int *i, int *j, i64 *x)
+{
+	i64 ii, jj;
+	int end = -1;
+	errno = 0;
+	if (sscanf(buffer, "%" SCNd64 " %" SCNd64 " %" SCNd64 " %n", &ii, &jj, x, &end) != 3 || errno == ERANGE)
+		return 0;
+	if (end < 0 || buffer[end] != '\0')
+		return 0;
+	if (ii < 0 || ii > INT_MAX || jj < 0 || jj > INT_MAX)
+		return 0;
+	*i = ii;
+	*j = jj;
+	return 1;
+}
+
 static void validate_mm_header(const char *buffer)
 {
 	char mtx[1024], crd[1024], data_type[1024], storage_scheme[1024];
@@ -90,7 +112,7 @@ struct spasm_triplet *spasm_triplet_load(FILE * f, i64 prime, u8 *hash)
 			if (buffer[0] != '%')
 				break;
 		}
-		if (sscanf(buffer, "%d %d %" SCNd64 "\n", &i, &j, &nnz) != 3)
+		if (!parse_entry(buffer, &i, &j, &nnz) || nnz < 0 || nnz > INT64_MAX / (i64) sizeof(i64))
 			errx(1, "[spasm_triplet_load] bad MatrixMarking dimensions (line %" PRId64 ")\n", line);
 		spasm_human_format(nnz, hnnz);
 		fprintf(stderr, "[IO] loading %d x %d MatrixMarket matrix modulo %" PRId64 " with %s non-zero... ", 
@@ -99,7 +121,13 @@ struct spasm_triplet *spasm_triplet_load(FILE * f, i64 prime, u8 *hash)
 	} else {
 		/* SMS header */
 		char type;
-		if (sscanf(buffer, "%d %d %c\n", &i, &j, &type) != 3)
+		i64 ii, jj;
+		errno = 0;
+		if (sscanf(buffer, "%" SCNd64 " %" SCNd64 " %c\n", &ii, &jj, &type) != 3 || errno == ERANGE)
+			errx(1, "[spasm_triplet_load] bad SMS file (header)\n");
+		i = ii;
+		j = jj;
+		if (ii != i || jj != j || i < 0 || j < 0)
 			errx(1, "[spasm_triplet_load] bad SMS file (header)\n");
 		if (prime != -1 && type != 'M')
 			errx(1, "[spasm_triplet_load] only ``Modular'' type supported\n");
@@ -111,8 +139,8 @@ struct spasm_triplet *spasm_triplet_load(FILE * f, i64 prime, u8 *hash)
 	struct spasm_triplet *T = spasm_triplet_alloc(i, j, nnz, prime, prime != -1);
 
 	i64 x;
-	bool end = 0;
 	i64 entries = 0;
+	bool end = (mm && nnz == 0);
 	for (;;) { 
 		line += 1;
 		eof = read_line("spasm_triplet_load", line, buffer, 1024, ctx, f);
@@ -125,7 +153,7 @@ struct spasm_triplet *spasm_triplet_load(FILE * f, i64 prime, u8 *hash)
 		if (!end && eof)
 			errx(1, "[spasm_triplet_load] premature end of file (line %" PRId64 ", read %" PRId64" nz)", line, entries);
 
-		if (sscanf(buffer, "%d %d %" SCNd64 "\n", &i, &j, &x) != 3)
+		if (!parse_entry(buffer, &i, &j, &x))
 			errx(1, "parse error line %" PRId64, line);
 		if (i == 0 && j == 0 && x == 0) {
 			if (mm)
@@ -133,6 +161,8 @@ struct spasm_triplet *spasm_triplet_load(FILE * f, i64 prime, u8 *hash)
 			end = 1;
 		}
 		if (!end) {
+			if (i == 0 || j == 0)
+				errx(1, "invalid entry (%d, %d) line %" PRId64, i, j, line);
 			spasm_add_entry(T, i - 1, j - 1, x);
 			entries += 1;
 		}
-- 
2.43.0


From 9800d3645b96c04d24d81bff69e252ef8271b3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:03 +0000
Subject: [PATCH 16/29] fix: memory leaks in the strongly connected components
 and Dulmage-Mendelsohn decompositions

---
 src/spasm_dm.c  | 4 ++++
 src/spasm_scc.c | 1 +
 2 files changed, 5 insertions(+)

diff --git a/src/spasm_dm.c b/src/spasm_dm.c
index 8505d98..d679677 100644
--- a/src/spasm_dm.c
+++ b/src/spasm_dm.c
@@ -1,4 +1,5 @@
 #include <assert.h>
+#include <stdlib.h>
 
 #include "spasm.h"
 
@@ -137,6 +138,8 @@ struct spasm_dm *spasm_dulmage_mendelsohn(const struct spasm_csr *A)
 	collect_matched(m, wj, imatch, p, q, cc, rr, 2, -1);
 	collect_matched(m, wj, imatch, p, q, cc, rr, 3, 3);
 	collect_unmatched(n, wi, p, rr, 3);
+	free(jmatch);
+	free(imatch);
 
 	/* --- fine DM decomposition ---------------------------------- */
 
@@ -148,6 +151,7 @@ struct spasm_dm *spasm_dulmage_mendelsohn(const struct spasm_csr *A)
 	struct spasm_csr *B = spasm_permute(A, p, qinv, SPASM_IGNORE_VALUES);
 	struct spasm_csr *C = spasm_submatrix(B, rr[1], rr[2], cc[2], cc[3], SPASM_IGNORE_VALUES);
 	spasm_csr_free(B);
+	free(qinv);
 
 	struct spasm_dm *SCC = spasm_strongly_connected_components(C);
 	int n_scc = SCC->nb;
diff --git a/src/spasm_scc.c b/src/spasm_scc.c
index 2938b09..9c55a0f 100644
--- a/src/spasm_scc.c
+++ b/src/spasm_scc.c
@@ -111,6 +111,7 @@ struct spasm_dm *spasm_strongly_connected_components(const struct spasm_csr *A)
 
 	free(stack);
 	free(pstack);
+	free(prev);
 	free(marks);
 	free(lowlink);
 	return P;
-- 
2.43.0


From 4b7f785342a84aec91a88ff72f762db7d7322633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:03 +0000
Subject: [PATCH 17/29] fix: spasm_factorization_verify did not check its
 allocations

---
 src/spasm_certificate.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/spasm_certificate.c b/src/spasm_certificate.c
index 015ebc8..0710221 100644
--- a/src/spasm_certificate.c
+++ b/src/spasm_certificate.c
@@ -175,10 +175,10 @@ bool spasm_factorization_verify(const struct spasm_csr *A, const struct spasm_lu
 	int n = A->n;
 	int m = A->m;
 	int r = U->n;
-	spasm_ZZp *x = malloc(n * sizeof(*x));
-	spasm_ZZp *y = malloc(r * sizeof(*y));
-	spasm_ZZp *z = malloc(m * sizeof(*z));
-	spasm_ZZp *t = malloc(m * sizeof(*t));
+	spasm_ZZp *x = spasm_malloc(n * sizeof(*x));
+	spasm_ZZp *y = spasm_malloc(r * sizeof(*y));
+	spasm_ZZp *z = spasm_malloc(m * sizeof(*z));
+	spasm_ZZp *t = spasm_malloc(m * sizeof(*t));
 	bool correct = 1;
 	bool complete = 0;
 	
-- 
2.43.0


From 9cfbc5a11c36c363f1685a22b502202b75f27a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:03 +0000
Subject: [PATCH 18/29] fix: write errors (e.g. full device) went unnoticed
 when saving matrices, images and certificates

---
 src/spasm_certificate.c | 2 ++
 src/spasm_io.c          | 6 ++++++
 2 files changed, 8 insertions(+)

diff --git a/src/spasm_certificate.c b/src/spasm_certificate.c
index 0710221..9a09de2 100644
--- a/src/spasm_certificate.c
+++ b/src/spasm_certificate.c
@@ -241,6 +241,8 @@ void spasm_rank_certificate_save(const struct spasm_rank_certificate *proof, FIL
 	for (int k = 0; k < r; k++)
 		fprintf(f, "%d ", proof->y[k]);
 	fprintf(f, "\n");
+	if (fflush(f) != 0 || ferror(f))
+		err(1, "[spasm_rank_certificate_save] write error");
 }
 
 static bool load_int(FILE *f, int *x)
diff --git a/src/spasm_io.c b/src/spasm_io.c
index 5bab153..306d140 100644
--- a/src/spasm_io.c
+++ b/src/spasm_io.c
@@ -207,6 +207,8 @@ void spasm_csr_save(const struct spasm_csr *A, FILE *f)
 			fprintf(f, "%d %d %" PRId64 "\n", i + 1, Aj[px] + 1, x);
 		}
 	fprintf(f, "0 0 0\n");
+	if (fflush(f) != 0 || ferror(f))
+		err(1, "[spasm_csr_save] write error");
 }
 
 /*
@@ -223,6 +225,8 @@ void spasm_triplet_save(const struct spasm_triplet *A, FILE *f)
 	for (i64 px = 0; px < nz; px++)
 		fprintf(f, "%d %d %d\n", Ai[px] + 1, Aj[px] + 1, (Ax != NULL) ? Ax[px] : 1);
 	fprintf(f, "0 0 0\n");
+	if (fflush(f) != 0 || ferror(f))
+		err(1, "[spasm_triplet_save] write error");
 }
 
 /* Saves a PBM (bitmap) of specified dimensions of A.
@@ -337,6 +341,8 @@ void spasm_save_pnm(const struct spasm_csr *A, FILE *f, int x, int y, int mode,
 				fprintf(f, "\n");
 		}
 	}
+	if (fflush(f) != 0 || ferror(f))
+		err(1, "[spasm_save_pnm] write error");
 
 	free(w);
 }
-- 
2.43.0


From 3ee00a350a03588a21386ace9e9d4d9351ea03a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:03 +0000
Subject: [PATCH 19/29] fix: assertion failure when saving a matrix without
 entries as a gray image

---
 src/spasm_io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spasm_io.c b/src/spasm_io.c
index 306d140..8444e6c 100644
--- a/src/spasm_io.c
+++ b/src/spasm_io.c
@@ -302,7 +302,7 @@ void spasm_save_pnm(const struct spasm_csr *A, FILE *f, int x, int y, int mode,
 				fprintf(f, "%d ", (w[i * x + j] > 0) ? 1 : 0);
 				break;
 			case 2: 
-				intensity = 1.0 - exp(0.1 * log(w[i * x + j] / max));
+				intensity = (max == 0) ? 1.0 : 1.0 - exp(0.1 * log(w[i * x + j] / max));
 				/* intensity = 1.0 - ((double) w[i * x + j]) / max; */
 				assert(0 <= intensity && intensity <= 1.0);
 				fprintf(f, "%.0f ", 255.0 * intensity);
-- 
2.43.0


From 5f63da70ec4653c7935a6e00a4eb4bcf67ef6194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:03 +0000
Subject: [PATCH 20/29] fix: bitmap computed a null width or height when only
 one of them is given; division by zero on empty matrices

---
 tools/bitmap.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/bitmap.c b/tools/bitmap.c
index 687375a..13cfd78 100644
--- a/tools/bitmap.c
+++ b/tools/bitmap.c
@@ -54,16 +54,16 @@ int main(int argc, char **argv) {
 		mpix = 1;
 	
 	if (mpix > 0 && w < 0 && h < 0) {
-		double alpha = sqrt((mpix * 1e6) / (((double) n) * m));
+		double alpha = (n > 0 && m > 0) ? sqrt((mpix * 1e6) / (((double) n) * m)) : 0;
 		w = alpha * m;
 		h = alpha * n;
 		fprintf(stderr, "[bitmap] targeting %.1f Mpixels ; w=%d, h=%d\n", mpix, w, h);
 	}
 	if ((mpix < 0) && (w < 0) && (h > 0))
-		w = m * (h / n);
+		w = (n > 0) ? ((i64) m) * spasm_min(h, n) / n : 0;
 
 	if ((mpix < 0) && (w > 0) && (h < 0))
-		h = n * (w / m);
+		h = (m > 0) ? ((i64) n) * spasm_min(w, m) / m : 0;
 
 	w = spasm_min(w, m);
 	h = spasm_min(h, n);
-- 
2.43.0


From 1665b34e341eb1143198cd52faa1cfc6d1d47f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:48 +0000
Subject: [PATCH 21/29] fix: spasm_submatrix wrote out of bounds when the row
 range is reversed (r_1 < r_0)

---
 src/spasm_submatrix.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spasm_submatrix.c b/src/spasm_submatrix.c
index 78bd92f..5f7a2be 100644
--- a/src/spasm_submatrix.c
+++ b/src/spasm_submatrix.c
@@ -14,7 +14,7 @@ struct spasm_csr *spasm_submatrix(const struct spasm_csr * A, int r_0, int r_1,
 
 	int Bn = spasm_max(0, r_1 - r_0);
 	int Bm = spasm_max(0, c_1 - c_0);
-	i64 Bnz = spasm_max(0, Ap[r_1] - Ap[r_0]);
+	i64 Bnz = (r_0 < r_1) ? Ap[r_1] - Ap[r_0] : 0;
 	struct spasm_csr *B = spasm_csr_alloc(Bn, Bm, Bnz, prime, (A->x != NULL) && with_values);
 	i64 *Bp = B->p;
 	int *Bj = B->j;
@@ -35,7 +35,7 @@ struct spasm_csr *spasm_submatrix(const struct spasm_csr * A, int r_0, int r_1,
 	}
 
 	/* finalize */
-	Bp[r_1 - r_0] = k;
+	Bp[Bn] = k;
 
 	/* shrink */
 	spasm_csr_realloc(B, -1);
-- 
2.43.0


From 545f6673a6cec0e242b0f9cdf7bd325bb4425d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:48 +0000
Subject: [PATCH 22/29] fix: division by zero when drawing the decomposition of
 an empty matrix

---
 src/spasm_io.c | 2 +-
 tools/dm.c     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spasm_io.c b/src/spasm_io.c
index 8444e6c..219e7be 100644
--- a/src/spasm_io.c
+++ b/src/spasm_io.c
@@ -277,7 +277,7 @@ void spasm_save_pnm(const struct spasm_csr *A, FILE *f, int x, int y, int mode,
 	int limits_v[2] = {};
 	int *r = NULL, *c = NULL;
 
-	if (DM != NULL) {
+	if (DM != NULL && n > 0 && m > 0) {
 		int *rr = DM->rr;
 		int *cc = DM->cc;
 		limits_h[0] = ((long long int) cc[2]) * ((long long int) x) / ((long long int) m);
diff --git a/tools/dm.c b/tools/dm.c
index b6ec6de..043a132 100644
--- a/tools/dm.c
+++ b/tools/dm.c
@@ -98,7 +98,7 @@ int main(int argc, char **argv) {
 
     case 'i':
         ;
-        double alpha = sqrt((mpix * 1e6) / (((double) n) * m));
+        double alpha = (n > 0 && m > 0) ? sqrt((mpix * 1e6) / (((double) n) * m)) : 0;
         int w = alpha * m;
         int h = alpha * n;
         spasm_save_pnm(B, stdout, w, h, 3, DM);
-- 
2.43.0


From 79b87af8e2d053803300a89bee71f2e1911618b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:30 +0000
Subject: [PATCH 23/29] fix: spasm_save_pnm wrote out of bounds when the image
 has a null width or height

---
 src/spasm_io.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spasm_io.c b/src/spasm_io.c
index 219e7be..459569d 100644
--- a/src/spasm_io.c
+++ b/src/spasm_io.c
@@ -240,8 +240,8 @@ void spasm_save_pnm(const struct spasm_csr *A, FILE *f, int x, int y, int mode,
 	const i64 *Ap = A->p;
 	int n = A->n;
 	int m = A->m;
-	x = spasm_min(x, m);
-	y = spasm_min(y, n);
+	x = spasm_max(0, spasm_min(x, m));
+	y = spasm_max(0, spasm_min(y, n));
 	int *w = spasm_malloc(x * y * sizeof(int));
 	assert(f != NULL);
 	assert((mode-1)*(mode-2)*(mode-3) == 0);
@@ -254,7 +254,7 @@ void spasm_save_pnm(const struct spasm_csr *A, FILE *f, int x, int y, int mode,
 	if (mode > 1)
 		fprintf(f, "255\n");
 
-	for (i64 i = 0; i < n; i++) {
+	for (i64 i = 0; x > 0 && y > 0 && i < n; i++) {
 		i64 k = i * y / n;
 		int *ww = w + k * x;
 		for (i64 px = Ap[i]; px < Ap[i + 1]; px++) {
-- 
2.43.0


From 4d1f31e64c837567bd8d7b98a86ac511f57efbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:12 +0000
Subject: [PATCH 24/29] fix: the count of concurrent writers was read and
 released without synchronisation

---
 src/spasm_kernel.c | 11 ++++++-----
 src/spasm_rref.c   | 11 ++++++-----
 src/spasm_schur.c  | 20 +++++++++++---------
 3 files changed, 23 insertions(+), 19 deletions(-)

diff --git a/src/spasm_kernel.c b/src/spasm_kernel.c
index 71ba2a9..da4380b 100644
--- a/src/spasm_kernel.c
+++ b/src/spasm_kernel.c
@@ -69,10 +69,11 @@ struct spasm_csr * spasm_kernel(const struct spasm_lu *fact)
 				/* not enough room in R ? realloc twice the size */
 				if (nnz + row_nz > K->nzmax) {
 					/* wait until other threads stop writing into R */
-					#pragma omp flush(writing)
-					while (writing > 0) {
-						#pragma omp flush(writing)
-					}
+					int busy;
+					do {
+						#pragma omp atomic read seq_cst
+						busy = writing;
+					} while (busy > 0);
 					fprintf(stderr, "increasing K; %" PRId64 " ---> %" PRId64 "\n", K->nzmax, 2 * K->nzmax + row_nz);
 					spasm_csr_realloc(K, 2 * K->nzmax + row_nz);
 					Kj = K->j;
@@ -104,7 +105,7 @@ struct spasm_csr * spasm_kernel(const struct spasm_lu *fact)
 			Kp[local_i + 1] = local_nnz;
 
 			/* we're done writing */
-			#pragma omp atomic update
+			#pragma omp atomic update seq_cst
 			writing--;
 
 			if (tid == 0) {
diff --git a/src/spasm_rref.c b/src/spasm_rref.c
index 21d7b9f..1b0dd21 100644
--- a/src/spasm_rref.c
+++ b/src/spasm_rref.c
@@ -83,10 +83,11 @@ struct spasm_csr * spasm_rref(const struct spasm_lu *fact, int *Rqinv)
 				/* not enough room in R ? realloc twice the size */
 				if (nnz + m > R->nzmax) {
 					/* wait until other threads stop writing into R */
-					#pragma omp flush(writing)
-					while (writing > 0) {
-						#pragma omp flush(writing)
-					}
+					int busy;
+					do {
+						#pragma omp atomic read seq_cst
+						busy = writing;
+					} while (busy > 0);
 					spasm_csr_realloc(R, 2 * R->nzmax + m);
 					Rj = R->j;
 					Rx = R->x;
@@ -114,7 +115,7 @@ struct spasm_csr * spasm_rref(const struct spasm_lu *fact, int *Rqinv)
 			qinv_local[pivot] = i;
 
 			/* we're done writing */
-			#pragma omp atomic update
+			#pragma omp atomic update seq_cst
 			writing--;
 
 			if (tid == 0) {
diff --git a/src/spasm_schur.c b/src/spasm_schur.c
index 6aff86a..193bf57 100644
--- a/src/spasm_schur.c
+++ b/src/spasm_schur.c
@@ -116,10 +116,11 @@ struct spasm_csr *spasm_schur(const struct spasm_csr *A, const int *p, int n, co
 				/* enough room in S? */
 				if (snz + row_snz > S->nzmax) {
 					/* wait until other threads stop writing into it */
-					#pragma omp flush(writing)
-					while (writing > 0) {
-						#pragma omp flush(writing)
-					}
+					int busy;
+					do {
+						#pragma omp atomic read seq_cst
+						busy = writing;
+					} while (busy > 0);
 					spasm_csr_realloc(S, 2 * S->nzmax + m);
 					Sj = S->j;
 					Sx = S->x;
@@ -132,10 +133,11 @@ struct spasm_csr *spasm_schur(const struct spasm_csr *A, const int *p, int n, co
 
 				if (L != NULL && lnz + row_lnz > L->nzmax) {
 					/* wait until other threads stop writing into it */
-					#pragma omp flush(writing)
-					while (writing > 0) {
-						#pragma omp flush(writing)
-					}
+					int busy;
+					do {
+						#pragma omp atomic read seq_cst
+						busy = writing;
+					} while (busy > 0);
 					spasm_triplet_realloc(L, 2 * L->nzmax + m);
 					Li = L->i;
 					Lj = L->j;
@@ -171,7 +173,7 @@ struct spasm_csr *spasm_schur(const struct spasm_csr *A, const int *p, int n, co
 			}
 			Sp[local_i + 1] = local_snz;
 
-			#pragma omp atomic update
+			#pragma omp atomic update seq_cst
 			writing -= 1;        /* unregister as a writing thread */
 
 			if (tid == 0 && (i % verbose_step) == 0) {
-- 
2.43.0


From bd020f30a4138a7d51a8c0ea95de6c02ecd78e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:27 +0000
Subject: [PATCH 25/29] fix: indices of entries truncated to 32 bits in
 compression, components, RREF, kernel and stack

---
 src/spasm_kernel.c  | 2 +-
 src/spasm_rref.c    | 2 +-
 src/spasm_scc.c     | 3 +--
 src/spasm_triplet.c | 4 ++--
 tools/stack.c       | 4 ++--
 5 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/spasm_kernel.c b/src/spasm_kernel.c
index da4380b..8e31e9c 100644
--- a/src/spasm_kernel.c
+++ b/src/spasm_kernel.c
@@ -147,7 +147,7 @@ struct spasm_csr * spasm_kernel_from_rref(const struct spasm_csr *R, const int *
 	const i64 *Rp = R->p;
 	const int *Rj = R->j;
 	for (int i = 0; i < n; i++) {
-		int px = Rp[i];
+		i64 px = Rp[i];
 		int j = Rj[px];
 		p[i] = j;
 	}
diff --git a/src/spasm_rref.c b/src/spasm_rref.c
index 1b0dd21..79ba01b 100644
--- a/src/spasm_rref.c
+++ b/src/spasm_rref.c
@@ -135,7 +135,7 @@ struct spasm_csr * spasm_rref(const struct spasm_lu *fact, int *Rqinv)
 
 		#pragma omp for
 		for (int i = 0; i < n; i++) {
-			int px = Rp[i];
+			i64 px = Rp[i];
 			int j = Rj[px];
 			Rqinv[j] = i;
 		}
diff --git a/src/spasm_scc.c b/src/spasm_scc.c
index 9c55a0f..f7499cd 100644
--- a/src/spasm_scc.c
+++ b/src/spasm_scc.c
@@ -58,8 +58,7 @@ struct spasm_dm *spasm_strongly_connected_components(const struct spasm_csr *A)
 			int px2 = spasm_row_weight(A, j);
 			int px;
 			for (px = pstack[j]; px < px2; px++) {
-				int p = Ap[j] + px;
-				int k = Aj[p];
+				int k = Aj[Ap[j] + px];
 				if (marks[k] >= 0) {
 					/* update */
 					lowlink[j] = spasm_min(lowlink[j], lowlink[k]);
diff --git a/src/spasm_triplet.c b/src/spasm_triplet.c
index af59cb1..48656cc 100644
--- a/src/spasm_triplet.c
+++ b/src/spasm_triplet.c
@@ -124,7 +124,7 @@ struct spasm_csr *spasm_compress(const struct spasm_triplet * T)
 	spasm_ZZp *Cx = C->x;
 
 	/* compute row counts */
-	for (int it = 0; it < nz; it++) {
+	for (i64 it = 0; it < nz; it++) {
 		int i = Ti[it];
 		assert(i < n);
 		w[i] += 1;
@@ -154,7 +154,7 @@ struct spasm_csr *spasm_compress(const struct spasm_triplet * T)
 
 	/* success; free w and return C */
 	char mem[16];
-	int size = sizeof(int) * (n + nz) + sizeof(spasm_ZZp) * ((Cx != NULL) ? nz : 0);
+	i64 size = sizeof(int) * (n + nz) + sizeof(spasm_ZZp) * ((Cx != NULL) ? nz : 0);
 	spasm_human_format(size, mem);
 	fprintf(stderr, "%" PRId64 " actual NZ, Mem usage = %sbyte [%.2fs]\n", spasm_nnz(C), mem, spasm_wtime() - start);
 	return C;
diff --git a/tools/stack.c b/tools/stack.c
index 812fc16..8632e24 100644
--- a/tools/stack.c
+++ b/tools/stack.c
@@ -32,7 +32,7 @@ int main() {
 		q[j] = 0;
 	
 	/* mark non-empty rows/columns */
-	for (int k = 0; k < nz; k++) {
+	for (i64 k = 0; k < nz; k++) {
 		p[Ai[k]] = 1;
 		q[Aj[k]] = 1;
 	}
@@ -54,7 +54,7 @@ int main() {
 	A->m = v;
 	fprintf(stderr, "but is in fact %d x %d\n", u, v);
 
-	for (int k = 0; k < nz; k++) {
+	for (i64 k = 0; k < nz; k++) {
 		Ai[k] = p[Ai[k]];
 		Aj[k] = q[Aj[k]];
 	}
-- 
2.43.0


From c995aa13679cd0127943f0c64307aad39622bfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:00 +0000
Subject: [PATCH 26/29] fix: spasm_human_format left its output unset for
 numbers above 10^15

---
 src/spasm_util.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/spasm_util.c b/src/spasm_util.c
index 69e203c..03ab5a8 100644
--- a/src/spasm_util.c
+++ b/src/spasm_util.c
@@ -60,6 +60,7 @@ void spasm_human_format(i64 n, char *target)
 		snprintf(target, 8, "%.1ft", n / 1e12);
 		return;
 	}
+	snprintf(target, 8, "%.1fp", n / 1e15);
 }
 
 void *spasm_malloc(i64 size)
-- 
2.43.0


From 1839b235aa5832f9453f8ef2a37c97d4f0463cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:55 +0000
Subject: [PATCH 27/29] fix: spasm_save_pnm overflowed on images of more than
 2^31 pixels

---
 src/spasm_io.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/spasm_io.c b/src/spasm_io.c
index 459569d..fc76fcd 100644
--- a/src/spasm_io.c
+++ b/src/spasm_io.c
@@ -242,11 +242,11 @@ void spasm_save_pnm(const struct spasm_csr *A, FILE *f, int x, int y, int mode,
 	int m = A->m;
 	x = spasm_max(0, spasm_min(x, m));
 	y = spasm_max(0, spasm_min(y, n));
-	int *w = spasm_malloc(x * y * sizeof(int));
+	int *w = spasm_malloc((i64) x * y * sizeof(int));
 	assert(f != NULL);
 	assert((mode-1)*(mode-2)*(mode-3) == 0);
 	assert((mode != 3) || (DM != NULL));
-	for (int i = 0; i < x*y; i++)
+	for (i64 i = 0; i < (i64) x * y; i++)
 		w[i] = 0;
 
 	fprintf(f, "P%d\n", mode);
@@ -264,7 +264,7 @@ void spasm_save_pnm(const struct spasm_csr *A, FILE *f, int x, int y, int mode,
 	}
 
 	double max = 0;
-	for (int j = 0; j < x * y; j++)
+	for (i64 j = 0; j < (i64) x * y; j++)
 		max = spasm_max(max, w[j]);
 
 	int bgcolor[3][3] = {
@@ -289,13 +289,13 @@ void spasm_save_pnm(const struct spasm_csr *A, FILE *f, int x, int y, int mode,
 		c = DM->c;
 	}
 
-	int t = 0;
+	i64 t = 0;
 	double intensity;
 	int scc = 0;
 	int scc_left_edge = 0;
 	int scc_right_edge = 0;
 	int scc_bot_edge = 0;
-	for (int i = 0; i < y; i++) {
+	for (i64 i = 0; i < y; i++) {
 		for (int j = 0; j < x; j++) {
 			switch(mode) {
 			case 1:
-- 
2.43.0


From 4b52894d44b7cc892fa0394e619b34a35e8e3eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:55 +0000
Subject: [PATCH 28/29] fix: bitmap and dm converted out-of-range image sizes
 to integers

---
 tools/bitmap.c | 2 ++
 tools/dm.c     | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/tools/bitmap.c b/tools/bitmap.c
index 13cfd78..e0af1ac 100644
--- a/tools/bitmap.c
+++ b/tools/bitmap.c
@@ -55,6 +55,8 @@ int main(int argc, char **argv) {
 	
 	if (mpix > 0 && w < 0 && h < 0) {
 		double alpha = (n > 0 && m > 0) ? sqrt((mpix * 1e6) / (((double) n) * m)) : 0;
+		if (alpha > 1)
+			alpha = 1;           /* the image is not larger than the matrix */
 		w = alpha * m;
 		h = alpha * n;
 		fprintf(stderr, "[bitmap] targeting %.1f Mpixels ; w=%d, h=%d\n", mpix, w, h);
diff --git a/tools/dm.c b/tools/dm.c
index 043a132..3f443c3 100644
--- a/tools/dm.c
+++ b/tools/dm.c
@@ -99,6 +99,8 @@ int main(int argc, char **argv) {
     case 'i':
         ;
         double alpha = (n > 0 && m > 0) ? sqrt((mpix * 1e6) / (((double) n) * m)) : 0;
+        if (alpha > 1)
+            alpha = 1;           /* the image is not larger than the matrix */
         int w = alpha * m;
         int h = alpha * n;
         spasm_save_pnm(B, stdout, w, h, 3, DM);
-- 
2.43.0


From 4a1d10a8f53ee5434f86f1d7ceb7d6b4de0d6d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:37 +0000
Subject: [PATCH 29/29] fix: workspaces of more than 2^31 integers overflowed

3 * m and 3 * n were computed as int: with more than 7.1e8 columns (rows, for
the kernel) the product overflows, and the allocation fails.
---
 src/spasm_echelonize.c |  4 ++--
 src/spasm_kernel.c     |  4 ++--
 src/spasm_rref.c       |  4 ++--
 src/spasm_schur.c      | 12 ++++++------
 4 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/spasm_echelonize.c b/src/spasm_echelonize.c
index 375ff2c..0d446cf 100644
--- a/src/spasm_echelonize.c
+++ b/src/spasm_echelonize.c
@@ -74,8 +74,8 @@ static void echelonize_GPLU(const struct spasm_csr *A, const int *p, int n, cons
 
 	/* workspace for triangular solver */
 	spasm_ZZp *x = spasm_malloc(m * sizeof(*x));
-	int *xj = spasm_malloc(3 * m * sizeof(*xj));
-	for (int j = 0; j < 3*m; j++)
+	int *xj = spasm_malloc(3ll * m * sizeof(*xj));
+	for (i64 j = 0; j < 3ll * m; j++)
 		xj[j] = 0;
 
 	/* Main loop : compute L[i] and U[i] */
diff --git a/src/spasm_kernel.c b/src/spasm_kernel.c
index 8e31e9c..48154dd 100644
--- a/src/spasm_kernel.c
+++ b/src/spasm_kernel.c
@@ -42,8 +42,8 @@ struct spasm_csr * spasm_kernel(const struct spasm_lu *fact)
 	#pragma omp parallel
 	{
 		spasm_ZZp *x = spasm_malloc(m * sizeof(*x));
-		int *xj = spasm_malloc(3 * n * sizeof(int));
-		for (int j = 0; j < 3 * n; j++)
+		int *xj = spasm_malloc(3ll * n * sizeof(int));
+		for (i64 j = 0; j < 3ll * n; j++)
 			xj[j] = 0;
 		int tid = spasm_get_thread_num();
 
diff --git a/src/spasm_rref.c b/src/spasm_rref.c
index 79ba01b..aac7027 100644
--- a/src/spasm_rref.c
+++ b/src/spasm_rref.c
@@ -44,8 +44,8 @@ struct spasm_csr * spasm_rref(const struct spasm_lu *fact, int *Rqinv)
 	#pragma omp parallel
 	{
 		spasm_ZZp *x = spasm_malloc(m * sizeof(*x));
-		int *xj = spasm_malloc(3 * m * sizeof(int));
-		for (int j = 0; j < 3 * m; j++)
+		int *xj = spasm_malloc(3ll * m * sizeof(int));
+		for (i64 j = 0; j < 3ll * m; j++)
 			xj[j] = 0;
 		int tid = spasm_get_thread_num();
 		int *qinv_local = spasm_malloc(m * sizeof(int));
diff --git a/src/spasm_schur.c b/src/spasm_schur.c
index 193bf57..c8821c5 100644
--- a/src/spasm_schur.c
+++ b/src/spasm_schur.c
@@ -21,8 +21,8 @@ double spasm_schur_estimate_density(const struct spasm_csr *A, const int *p, int
 	{
 		/* per-thread scratch space */
 		spasm_ZZp *x = spasm_malloc(m * sizeof(*x));
-		int *xj = spasm_malloc(3 * m * sizeof(*xj));
-		for (int j = 0; j < 3 * m; j++)
+		int *xj = spasm_malloc(3ll * m * sizeof(*xj));
+		for (i64 j = 0; j < 3ll * m; j++)
 			xj[j] = 0;
 
 		#pragma omp for reduction(+:nnz) schedule(dynamic)
@@ -87,8 +87,8 @@ struct spasm_csr *spasm_schur(const struct spasm_csr *A, const int *p, int n, co
 	{
 		/* scratch space for the triangular solver */
 		spasm_ZZp *x = spasm_malloc(m * sizeof(*x));
-		int *xj = spasm_malloc(3 * m * sizeof(*xj));
-		for (int j = 0; j < 3 * m; j++)
+		int *xj = spasm_malloc(3ll * m * sizeof(*xj));
+		for (i64 j = 0; j < 3ll * m; j++)
 			xj[j] = 0;
 		int tid = spasm_get_thread_num();
 
@@ -284,8 +284,8 @@ void spasm_schur_dense(const struct spasm_csr *A, const int *p, int n, const int
 	{
 		/* per-thread scratch space */
 		spasm_ZZp *x = spasm_malloc(m * sizeof(*x));
-		int *xj = spasm_malloc(3 * m * sizeof(*xj));
-		for (int j = 0; j < 3 * m; j++)
+		int *xj = spasm_malloc(3ll * m * sizeof(*xj));
+		for (i64 j = 0; j < 3ll * m; j++)
 			xj[j] = 0;
 		int tid = spasm_get_thread_num();
 
-- 
2.43.0

