From f798808ba4818013262e4a6618d3ff2a2ed0623f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:04 +0000
Subject: [PATCH 01/83] fix: in operator with a variable on the left and an
 inactive list element

The inactive element was checked against the domain of the variable, which
failed the evaluation instead of yielding an inactive result.
---
 src/expression.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/expression.c b/src/expression.c
index 028c660..3060291 100644
--- a/src/expression.c
+++ b/src/expression.c
@@ -725,8 +725,10 @@ _ccs_expr_in_eval(
 		ccs_datum_t right;
 		CCS_VALIDATE(ccs_expression_list_eval_node(
 			data->nodes[1], context, values, i, &right));
-		if (right.type == CCS_DATA_TYPE_INACTIVE)
+		if (right.type == CCS_DATA_TYPE_INACTIVE) {
 			inactive = CCS_TRUE;
+			continue;
+		}
 		CHECK_PARAMETERS(data->nodes[0], right, htl);
 		ccs_bool_t equal;
 		_ccs_datum_test_equal_generic(&left, &right, &equal);
-- 
2.43.0


From 812e051f80c9b4a60a533e81cb361e87464cd2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:04 +0000
Subject: [PATCH 02/83] fix: compare floats numerically in expression equality

Comparing the representation made 0.0 == -0.0 false, while 0.0 <= -0.0,
0.0 >= -0.0, 0.0 == 0 and -0.0 == 0 are all true.
---
 src/expression.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/expression.c b/src/expression.c
index 3060291..7a2ae45 100644
--- a/src/expression.c
+++ b/src/expression.c
@@ -363,6 +363,10 @@ _ccs_datum_test_equal_generic(ccs_datum_t *a, ccs_datum_t *b, ccs_bool_t *equal)
 		case CCS_DATA_TYPE_NONE:
 			*equal = CCS_TRUE;
 			break;
+		case CCS_DATA_TYPE_FLOAT:
+			*equal = (a->value.f == b->value.f) ? CCS_TRUE :
+							      CCS_FALSE;
+			break;
 		default:
 			*equal = memcmp(&(a->value), &(b->value),
 					sizeof(ccs_value_t)) == 0 ?
-- 
2.43.0


From 21e6039db94e4af5c04936247de48cf26f8ab0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:04 +0000
Subject: [PATCH 03/83] fix: division and modulo of the smallest integer by -1

Both raised SIGFPE; the quotient is not representable and is reported as an
invalid value, the remainder is 0.
---
 src/expression.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/expression.c b/src/expression.c
index 7a2ae45..f87244c 100644
--- a/src/expression.c
+++ b/src/expression.c
@@ -887,6 +887,11 @@ _ccs_expr_divide_eval(
 			CCS_REFUTE(
 				right.value.i == 0,
 				CCS_RESULT_ERROR_INVALID_VALUE);
+			// the quotient is not representable
+			CCS_REFUTE(
+				left.value.i == INT64_MIN &&
+					right.value.i == -1,
+				CCS_RESULT_ERROR_INVALID_VALUE);
 			*result = ccs_int(left.value.i / right.value.i);
 			return CCS_RESULT_SUCCESS;
 		} else if (right.type == CCS_DATA_TYPE_FLOAT) {
@@ -938,7 +943,11 @@ _ccs_expr_modulo_eval(
 			CCS_REFUTE(
 				right.value.i == 0,
 				CCS_RESULT_ERROR_INVALID_VALUE);
-			*result = ccs_int(left.value.i % right.value.i);
+			// INT64_MIN % -1 traps
+			*result =
+				ccs_int(right.value.i == -1 ?
+						0 :
+						left.value.i % right.value.i);
 			return CCS_RESULT_SUCCESS;
 		} else if (right.type == CCS_DATA_TYPE_FLOAT) {
 			CCS_REFUTE(
-- 
2.43.0


From 9197461d2553b6360ada26fd9edcc0aeb4e8296f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:59 +0000
Subject: [PATCH 04/83] fix: union of intervals sharing a bound

When both operands have the same bound and only one of them includes it, the
union includes it; it was left out, so that the union (and the bounds of a
mixture distribution) missed a value of one of its operands.
---
 src/interval.c | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/interval.c b/src/interval.c
index cabc912..04f58eb 100644
--- a/src/interval.c
+++ b/src/interval.c
@@ -98,6 +98,24 @@ ccs_interval_intersect(
 	return CCS_RESULT_SUCCESS;
 }
 
+#define HULL_MIN(l1, li1, l2, li2, l, li)                                      \
+	{                                                                      \
+		if (l1 == l2) {                                                \
+			l  = l1;                                               \
+			li = li1 || li2 ? CCS_TRUE : CCS_FALSE;                \
+		} else                                                         \
+			MERGE_MIN(l1, li1, l2, li2, l, li)                     \
+	}
+
+#define HULL_MAX(l1, li1, l2, li2, l, li)                                      \
+	{                                                                      \
+		if (l1 == l2) {                                                \
+			l  = l1;                                               \
+			li = li1 || li2 ? CCS_TRUE : CCS_FALSE;                \
+		} else                                                         \
+			MERGE_MAX(l1, li1, l2, li2, l, li)                     \
+	}
+
 ccs_result_t
 ccs_interval_union(
 	ccs_interval_t *interval1,
@@ -112,21 +130,21 @@ ccs_interval_union(
 		CCS_RESULT_ERROR_INVALID_TYPE);
 	if (interval1->type == CCS_NUMERIC_TYPE_FLOAT) {
 		interval_res->type = CCS_NUMERIC_TYPE_FLOAT;
-		MERGE_MIN(
+		HULL_MIN(
 			interval1->lower.f, interval1->lower_included,
 			interval2->lower.f, interval2->lower_included,
 			interval_res->lower.f, interval_res->lower_included);
-		MERGE_MAX(
+		HULL_MAX(
 			interval1->upper.f, interval1->upper_included,
 			interval2->upper.f, interval2->upper_included,
 			interval_res->upper.f, interval_res->upper_included);
 	} else {
 		interval_res->type = CCS_NUMERIC_TYPE_INT;
-		MERGE_MIN(
+		HULL_MIN(
 			interval1->lower.i, interval1->lower_included,
 			interval2->lower.i, interval2->lower_included,
 			interval_res->lower.i, interval_res->lower_included);
-		MERGE_MAX(
+		HULL_MAX(
 			interval1->upper.i, interval1->upper_included,
 			interval2->upper.i, interval2->upper_included,
 			interval_res->upper.i, interval_res->upper_included);
-- 
2.43.0


From d5fe95fd1551bb87f49144aaf2b87837b1a77edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:59 +0000
Subject: [PATCH 05/83] fix: integer intervals ]l, l+1[ are empty

---
 src/interval.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/interval.c b/src/interval.c
index 04f58eb..110df1f 100644
--- a/src/interval.c
+++ b/src/interval.c
@@ -7,11 +7,17 @@ ccs_interval_empty(ccs_interval_t *interval, ccs_bool_t *empty_ret)
 	// Empty ranges
 	// [l,u] when l> u; ]l,u] when l>=u
 	// [l,u[ when l>=u; ]l,u[ when l>=u
+	// and for integers: ]l,u[ when u==l+1
 	if (interval->type == CCS_NUMERIC_TYPE_INT) {
 		if (interval->upper_included && interval->lower_included ?
 			    interval->lower.i > interval->upper.i :
 			    interval->lower.i >= interval->upper.i) {
 			*empty_ret = CCS_TRUE;
+		} else if (
+			!interval->lower_included &&
+			!interval->upper_included &&
+			interval->lower.i == interval->upper.i - 1) {
+			*empty_ret = CCS_TRUE;
 		} else
 			*empty_ret = CCS_FALSE;
 	} else {
-- 
2.43.0


From 0693fc6c1da69b1397a186fb206c28aa194631c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:59 +0000
Subject: [PATCH 06/83] fix: equality of integer intervals with an excluded
 extreme bound

Closing the bound ]INT64_MAX or INT64_MIN[ of an empty interval overflowed, and
made it equal to a non-empty interval starting (ending) at the other end of the
range.
---
 src/interval.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/interval.c b/src/interval.c
index 110df1f..62e5028 100644
--- a/src/interval.c
+++ b/src/interval.c
@@ -179,7 +179,15 @@ ccs_interval_equal(
 			 interval1->upper_included ==
 				 interval2->upper_included);
 	} else {
-		ccs_int_t l1, u1, l2, u2;
+		ccs_int_t  l1, u1, l2, u2;
+		ccs_bool_t empty1, empty2;
+		// closing the bounds of an empty interval could overflow
+		CCS_VALIDATE(ccs_interval_empty(interval1, &empty1));
+		CCS_VALIDATE(ccs_interval_empty(interval2, &empty2));
+		if (empty1 || empty2) {
+			*equal_res = (empty1 && empty2);
+			return CCS_RESULT_SUCCESS;
+		}
 		l1         = interval1->lower_included ? interval1->lower.i :
 							 interval1->lower.i + 1;
 		u1         = interval1->upper_included ? interval1->upper.i :
-- 
2.43.0


From f1a89d38c52528c39e9cd58b32e188877cfda050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:53 +0000
Subject: [PATCH 07/83] fix: uniform distributions sampling outside of their
 bounds or aborting

Rounding could produce the (excluded) upper bound or the value below the
lower one, and integer ranges larger than the range of the generator
aborted the process in gsl_rng_uniform_int.
---
 src/distribution_uniform.c | 85 ++++++++++++++++++++++++++++++++++----
 1 file changed, 77 insertions(+), 8 deletions(-)

diff --git a/src/distribution_uniform.c b/src/distribution_uniform.c
index 2b1f06c..1ca37ba 100644
--- a/src/distribution_uniform.c
+++ b/src/distribution_uniform.c
@@ -205,6 +205,66 @@ _ccs_distribution_uniform_get_bounds(
 	return CCS_RESULT_SUCCESS;
 }
 
+// Rounding can bring values outside of [lower, upper[.
+static inline ccs_float_t
+_ccs_distribution_uniform_clamp_float(
+	const _ccs_distribution_uniform_data_t *d,
+	ccs_float_t                             value)
+{
+	if (CCS_UNLIKELY(value >= d->upper.f)) {
+		if (d->quantize) {
+			value -= d->quantization.f;
+			if (value >= d->upper.f)
+				value = d->lower.f;
+		} else
+			value = nextafter(d->upper.f, d->lower.f);
+	}
+	if (CCS_UNLIKELY(value < d->lower.f))
+		value = d->lower.f;
+	return value;
+}
+
+static inline ccs_int_t
+_ccs_distribution_uniform_clamp_int(
+	const _ccs_distribution_uniform_data_t *d,
+	ccs_float_t                             value)
+{
+	if (CCS_UNLIKELY(value >= (ccs_float_t)d->upper.i))
+		return d->upper.i - 1;
+	if (CCS_UNLIKELY(value < (ccs_float_t)d->lower.i))
+		return d->lower.i;
+	ccs_int_t res = (ccs_int_t)value;
+	if (CCS_UNLIKELY(res >= d->upper.i))
+		return d->upper.i - 1;
+	if (CCS_UNLIKELY(res < d->lower.i))
+		return d->lower.i;
+	return res;
+}
+
+// gsl_rng_uniform_int only supports values up to the range of the generator.
+static inline ccs_int_t
+_ccs_distribution_uniform_int(gsl_rng *grng, ccs_int_t n)
+{
+	const unsigned long range = gsl_rng_max(grng) - gsl_rng_min(grng);
+	if (CCS_LIKELY((unsigned long)n <= range))
+		return gsl_rng_uniform_int(grng, n);
+	unsigned int bits = 0;
+	while (bits < 32 && (2ul << bits) <= range)
+		bits++;
+	uint64_t mask = n - 1;
+	for (unsigned int shift = 1; shift < 64; shift *= 2)
+		mask |= mask >> shift;
+	uint64_t value;
+	do {
+		value = 0;
+		for (unsigned int shift = 0; shift < 64; shift += bits)
+			value = (value << bits) |
+				gsl_rng_uniform_int(grng, 1ul << bits);
+		value &= mask;
+	} while (value >= (uint64_t)n);
+	return (ccs_int_t)value;
+}
+
 static ccs_result_t
 _ccs_distribution_uniform_strided_samples(
 	_ccs_distribution_data_t *data,
@@ -252,12 +312,17 @@ _ccs_distribution_uniform_strided_samples(
 		else
 			for (i = 0; i < num_values; i++)
 				values[i * stride].f += lower.f;
+		for (i = 0; i < num_values; i++)
+			values[i * stride].f =
+				_ccs_distribution_uniform_clamp_float(
+					d, values[i * stride].f);
 	} else {
 		if (scale_type == CCS_SCALE_TYPE_LOGARITHMIC) {
 			for (i = 0; i < num_values; i++) {
-				values[i * stride].i = floor(exp(gsl_ran_flat(
-					grng, internal_lower.f,
-					internal_upper.f)));
+				values[i * stride].i = _ccs_distribution_uniform_clamp_int(
+					d, floor(exp(gsl_ran_flat(
+						   grng, internal_lower.f,
+						   internal_upper.f))));
 			}
 			if (quantize)
 				for (i = 0; i < num_values; i++)
@@ -269,7 +334,7 @@ _ccs_distribution_uniform_strided_samples(
 						lower.i;
 		} else {
 			for (i = 0; i < num_values; i++) {
-				values[i * stride].i = gsl_rng_uniform_int(
+				values[i * stride].i = _ccs_distribution_uniform_int(
 					grng, internal_upper.i);
 			}
 			if (quantize)
@@ -329,12 +394,16 @@ _ccs_distribution_uniform_samples(
 		else
 			for (i = 0; i < num_values; i++)
 				values[i].f += lower.f;
+		for (i = 0; i < num_values; i++)
+			values[i].f = _ccs_distribution_uniform_clamp_float(
+				d, values[i].f);
 	} else {
 		if (scale_type == CCS_SCALE_TYPE_LOGARITHMIC) {
 			for (i = 0; i < num_values; i++) {
-				values[i].i = floor(exp(gsl_ran_flat(
-					grng, internal_lower.f,
-					internal_upper.f)));
+				values[i].i = _ccs_distribution_uniform_clamp_int(
+					d, floor(exp(gsl_ran_flat(
+						   grng, internal_lower.f,
+						   internal_upper.f))));
 			}
 			if (quantize)
 				for (i = 0; i < num_values; i++)
@@ -344,7 +413,7 @@ _ccs_distribution_uniform_samples(
 						      lower.i;
 		} else {
 			for (i = 0; i < num_values; i++) {
-				values[i].i = gsl_rng_uniform_int(
+				values[i].i = _ccs_distribution_uniform_int(
 					grng, internal_upper.i);
 			}
 			if (quantize)
-- 
2.43.0


From 4a9a801ae0cfdaf5815acef8b3b2c3beea55d3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:53 +0000
Subject: [PATCH 08/83] fix: normal distributions sampling outside of their
 bounds

The conversion to integers overflowed next to the extreme values, and
rounding could yield 0 in quantized logarithmic scale.
---
 src/distribution_normal.c | 47 +++++++++++++++++++++++++++++++--------
 1 file changed, 38 insertions(+), 9 deletions(-)

diff --git a/src/distribution_normal.c b/src/distribution_normal.c
index 9f6be69..3e1ee7c 100644
--- a/src/distribution_normal.c
+++ b/src/distribution_normal.c
@@ -276,10 +276,33 @@ _ccs_distribution_normal_samples_float(
 		for (i = 0; i < num_values; i++)
 			values[i] =
 				round(values[i] * rquantization) * quantization;
+		if (scale_type == CCS_SCALE_TYPE_LOGARITHMIC)
+			for (i = 0; i < num_values; i++)
+				if (CCS_UNLIKELY(values[i] < quantization))
+					values[i] = quantization;
 	}
 	return CCS_RESULT_SUCCESS;
 }
 
+// Convert to the closest representable integer inside the bounds.
+static inline ccs_int_t
+_ccs_distribution_normal_to_int(
+	const ccs_scale_type_t scale_type,
+	const ccs_int_t        quantization,
+	ccs_float_t            value)
+{
+	const ccs_int_t max = CCS_INT_MAX / quantization;
+	const ccs_int_t min = scale_type == CCS_SCALE_TYPE_LOGARITHMIC ?
+				      1 :
+				      CCS_INT_MIN / quantization;
+	value               = round(value);
+	if (CCS_UNLIKELY(value >= (ccs_float_t)max))
+		return max * quantization;
+	if (CCS_UNLIKELY(value <= (ccs_float_t)min))
+		return min * quantization;
+	return (ccs_int_t)value * quantization;
+}
+
 static inline ccs_result_t
 _ccs_distribution_normal_samples_int(
 	gsl_rng               *grng,
@@ -334,12 +357,13 @@ _ccs_distribution_normal_samples_int(
 	if (quantize) {
 		ccs_float_t rquantization = 1.0 / quantization;
 		for (i = 0; i < num_values; i++)
-			values[i].i =
-				(ccs_int_t)round(values[i].f * rquantization) *
-				quantization;
+			values[i].i = _ccs_distribution_normal_to_int(
+				scale_type, quantization,
+				values[i].f * rquantization);
 	} else
 		for (i = 0; i < num_values; i++)
-			values[i].i = round(values[i].f);
+			values[i].i = _ccs_distribution_normal_to_int(
+				scale_type, 1, values[i].f);
 	return CCS_RESULT_SUCCESS;
 }
 
@@ -413,6 +437,11 @@ _ccs_distribution_normal_strided_samples_float(
 			values[i * stride] =
 				round(values[i * stride] * rquantization) *
 				quantization;
+		if (scale_type == CCS_SCALE_TYPE_LOGARITHMIC)
+			for (i = 0; i < num_values; i++)
+				if (CCS_UNLIKELY(
+					    values[i * stride] < quantization))
+					values[i * stride] = quantization;
 	}
 	return CCS_RESULT_SUCCESS;
 }
@@ -476,13 +505,13 @@ _ccs_distribution_normal_strided_samples_int(
 	if (quantize) {
 		ccs_float_t rquantization = 1.0 / quantization;
 		for (i = 0; i < num_values; i++)
-			values[i * stride].i =
-				(ccs_int_t)round(
-					values[i * stride].f * rquantization) *
-				quantization;
+			values[i * stride].i = _ccs_distribution_normal_to_int(
+				scale_type, quantization,
+				values[i * stride].f * rquantization);
 	} else
 		for (i = 0; i < num_values; i++)
-			values[i * stride].i = round(values[i * stride].f);
+			values[i * stride].i = _ccs_distribution_normal_to_int(
+				scale_type, 1, values[i * stride].f);
 	return CCS_RESULT_SUCCESS;
 }
 
-- 
2.43.0


From 8ef35d7286024b90035007715f7c6d30dd9f6da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:04 +0000
Subject: [PATCH 09/83] fix: mixture distribution memory handling

The temporary bounds were sized by the number of distributions instead of
the dimension, leaked when weights were refused, and absent arrays left
uninitialized pointers in soa sampling.
---
 src/distribution_mixture.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/distribution_mixture.c b/src/distribution_mixture.c
index dc11674..ed6e7fe 100644
--- a/src/distribution_mixture.c
+++ b/src/distribution_mixture.c
@@ -236,14 +236,14 @@ ccs_create_mixture_distribution(
 	cur_mem = mem;
 
 	tmp_mem = (uintptr_t)calloc(
-		1, sizeof(ccs_interval_t) * num_distributions +
+		1, sizeof(ccs_interval_t) * dimension +
 			   sizeof(ccs_numeric_type_t) * dimension);
 	CCS_REFUTE_ERR_GOTO(
 		err, !tmp_mem, CCS_RESULT_ERROR_OUT_OF_MEMORY, memory);
 	bounds_tmp = (ccs_interval_t *)tmp_mem;
 	data_types_tmp =
 		(ccs_numeric_type_t
-			 *)(tmp_mem + sizeof(ccs_interval_t) * num_distributions);
+			 *)(tmp_mem + sizeof(ccs_interval_t) * dimension);
 
 	distrib = (ccs_distribution_t)cur_mem;
 	cur_mem += sizeof(struct _ccs_distribution_s);
@@ -313,7 +313,7 @@ ccs_create_mixture_distribution(
 	distrib_data->weights[num_distributions] = 1.0;
 	CCS_REFUTE_ERR_GOTO(
 		err, 1.0 < distrib_data->weights[num_distributions - 1],
-		CCS_RESULT_ERROR_INVALID_VALUE, memory);
+		CCS_RESULT_ERROR_INVALID_VALUE, tmpmemory);
 	for (i = 0; i < num_distributions; i++) {
 		CCS_VALIDATE_ERR_GOTO(
 			err, ccs_retain_object(distributions[i]), distrib);
@@ -435,8 +435,7 @@ _ccs_distribution_mixture_soa_samples(
 		ccs_int_t   index = _ccs_dichotomic_search(
                         d->num_distributions, d->weights, rnd);
 		for (size_t j = 0; j < dim; j++)
-			if (values[j])
-				p_values[j] = values[j] + i;
+			p_values[j] = values[j] ? values[j] + i : NULL;
 		CCS_VALIDATE(ccs_distribution_get_ops(d->distributions[index])
 				     ->soa_samples(
 					     d->distributions[index]->data, rng,
-- 
2.43.0


From 3a99e77d6ffd73f2632df1a829cdf81c9b852d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:06 +0000
Subject: [PATCH 10/83] fix: mixture weights refused because of rounding

---
 src/distribution_mixture.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/distribution_mixture.c b/src/distribution_mixture.c
index ed6e7fe..5be63b2 100644
--- a/src/distribution_mixture.c
+++ b/src/distribution_mixture.c
@@ -307,13 +307,14 @@ ccs_create_mixture_distribution(
 	}
 
 	distrib_data->weights[0] = 0.0;
-	for (i = 1; i <= num_distributions; i++)
+	for (i = 1; i <= num_distributions; i++) {
 		distrib_data->weights[i] = distrib_data->weights[i - 1] +
 					   weights[i - 1] * weights_sum_inverse;
+		// rounding can slightly overshoot
+		if (distrib_data->weights[i] > 1.0)
+			distrib_data->weights[i] = 1.0;
+	}
 	distrib_data->weights[num_distributions] = 1.0;
-	CCS_REFUTE_ERR_GOTO(
-		err, 1.0 < distrib_data->weights[num_distributions - 1],
-		CCS_RESULT_ERROR_INVALID_VALUE, tmpmemory);
 	for (i = 0; i < num_distributions; i++) {
 		CCS_VALIDATE_ERR_GOTO(
 			err, ccs_retain_object(distributions[i]), distrib);
-- 
2.43.0


From a436393cf16e39d5f170a907a814ddef9475cfcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:55 +0000
Subject: [PATCH 11/83] fix: fill the unused part of the array in categorical
 get_values

---
 src/parameter_categorical.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parameter_categorical.c b/src/parameter_categorical.c
index beefe62..70a2eac 100644
--- a/src/parameter_categorical.c
+++ b/src/parameter_categorical.c
@@ -405,7 +405,7 @@ _ccs_categorical_parameter_get_values(
 			CCS_RESULT_ERROR_INVALID_VALUE);
 		for (size_t i = 0; i < d->num_possible_values; i++)
 			possible_values[i] = d->possible_values[i].d;
-		for (size_t i = num_possible_values; i < d->num_possible_values;
+		for (size_t i = d->num_possible_values; i < num_possible_values;
 		     i++)
 			possible_values[i] = ccs_none;
 	}
-- 
2.43.0


From 288a23ad428d6e6495c3f0b33315600bd1a57997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:55 +0000
Subject: [PATCH 12/83] fix: leak when sampling a parameter is unsuccessful

---
 src/parameter_categorical.c | 6 +++---
 src/parameter_numerical.c   | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/parameter_categorical.c b/src/parameter_categorical.c
index 70a2eac..94552e4 100644
--- a/src/parameter_categorical.c
+++ b/src/parameter_categorical.c
@@ -178,9 +178,9 @@ _ccs_parameter_categorical_samples(
 		vs           = NULL;
 		size_t coeff = 2;
 		while (found < num_values) {
-			CCS_REFUTE(
-				coeff > 32,
-				CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL);
+			CCS_REFUTE_ERR_GOTO(
+				err, coeff > 32,
+				CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL, errmem);
 			size_t     buff_sz = (num_values - found) * coeff;
 			ccs_int_t *oldvs   = vs;
 			vs                 = (ccs_int_t *)realloc(
diff --git a/src/parameter_numerical.c b/src/parameter_numerical.c
index 645b518..bb0ba07 100644
--- a/src/parameter_numerical.c
+++ b/src/parameter_numerical.c
@@ -160,9 +160,9 @@ _ccs_parameter_numerical_samples(
 		vs           = NULL;
 		size_t coeff = 2;
 		while (found < num_values) {
-			CCS_REFUTE(
-				coeff > 32,
-				CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL);
+			CCS_REFUTE_ERR_GOTO(
+				err, coeff > 32,
+				CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL, errmem);
 			size_t         buff_sz = (num_values - found) * coeff;
 			ccs_numeric_t *oldvs   = vs;
 			vs                     = (ccs_numeric_t *)realloc(
-- 
2.43.0


From 127c37492d2aac09dcd599488a03bde6d80c8ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:56 +0000
Subject: [PATCH 13/83] fix: refuse multi dimensional distributions when
 sampling a parameter

The oversampling check overran the caller's single interval and result.
---
 src/parameter.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parameter.c b/src/parameter.c
index 55d8137..b5d43de 100644
--- a/src/parameter.c
+++ b/src/parameter.c
@@ -125,6 +125,9 @@ ccs_parameter_sample(
 	CCS_CHECK_OBJ(distribution, CCS_OBJECT_TYPE_DISTRIBUTION);
 	CCS_CHECK_OBJ(rng, CCS_OBJECT_TYPE_RNG);
 	CCS_CHECK_PTR(value_ret);
+	size_t dim;
+	CCS_VALIDATE(ccs_distribution_get_dimension(distribution, &dim));
+	CCS_REFUTE(dim != 1, CCS_RESULT_ERROR_INVALID_DISTRIBUTION);
 	_ccs_parameter_ops_t *ops = ccs_parameter_get_ops(parameter);
 	CCS_VALIDATE(
 		ops->samples(parameter->data, distribution, rng, 1, value_ret));
@@ -145,6 +148,9 @@ ccs_parameter_samples(
 	CCS_CHECK_ARY(num_values, values);
 	if (!num_values)
 		return CCS_RESULT_SUCCESS;
+	size_t dim;
+	CCS_VALIDATE(ccs_distribution_get_dimension(distribution, &dim));
+	CCS_REFUTE(dim != 1, CCS_RESULT_ERROR_INVALID_DISTRIBUTION);
 	_ccs_parameter_ops_t *ops = ccs_parameter_get_ops(parameter);
 	CCS_VALIDATE(ops->samples(
 		parameter->data, distribution, rng, num_values, values));
-- 
2.43.0


From fc470eaa2f0139becf256d58aa8b6eb39c78cf08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:03 +0000
Subject: [PATCH 14/83] fix: refuse NaN in numerical parameters and uniform
 distributions

---
 src/distribution_uniform.c | 6 +++---
 src/parameter_numerical.c  | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/distribution_uniform.c b/src/distribution_uniform.c
index 1ca37ba..d23bdb6 100644
--- a/src/distribution_uniform.c
+++ b/src/distribution_uniform.c
@@ -470,11 +470,11 @@ ccs_create_uniform_distribution(
 		CCS_RESULT_ERROR_INVALID_VALUE);
 	CCS_REFUTE(
 		data_type == CCS_NUMERIC_TYPE_FLOAT &&
-			(lower.f >= upper.f ||
+			(!(lower.f < upper.f) ||
 			 (scale_type == CCS_SCALE_TYPE_LOGARITHMIC &&
 			  lower.f <= 0.0) ||
-			 quantization.f < 0.0 ||
-			 quantization.f > upper.f - lower.f),
+			 !(quantization.f >= 0.0 &&
+			   quantization.f <= upper.f - lower.f)),
 		CCS_RESULT_ERROR_INVALID_VALUE);
 	uintptr_t mem = (uintptr_t)calloc(
 		1, sizeof(struct _ccs_distribution_s) +
diff --git a/src/parameter_numerical.c b/src/parameter_numerical.c
index bb0ba07..9646250 100644
--- a/src/parameter_numerical.c
+++ b/src/parameter_numerical.c
@@ -296,10 +296,10 @@ ccs_create_numerical_parameter(
 		CCS_RESULT_ERROR_INVALID_VALUE);
 	CCS_REFUTE(
 		data_type == CCS_NUMERIC_TYPE_FLOAT &&
-			(lower.f >= upper.f || quantization.f < 0.0 ||
-			 quantization.f > upper.f - lower.f ||
-			 default_value.f < lower.f ||
-			 default_value.f >= upper.f),
+			!(lower.f < upper.f && quantization.f >= 0.0 &&
+			  quantization.f <= upper.f - lower.f &&
+			  default_value.f >= lower.f &&
+			  default_value.f < upper.f),
 		CCS_RESULT_ERROR_INVALID_VALUE);
 	uintptr_t mem = (uintptr_t)calloc(
 		1, sizeof(struct _ccs_parameter_s) +
-- 
2.43.0


From 9c4fc893452bd1481a386b619e2000ed82d5c555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:53 +0000
Subject: [PATCH 15/83] fix: leak when sampling several configurations is
 unsuccessful

---
 src/configuration_space.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/configuration_space.c b/src/configuration_space.c
index 6392af3..623ad38 100644
--- a/src/configuration_space.c
+++ b/src/configuration_space.c
@@ -1101,8 +1101,11 @@ ccs_configuration_space_samples(
 	while (count < num_configurations &&
 	       counter < 100 * num_configurations) {
 		if (!config)
-			CCS_VALIDATE(ccs_create_configuration(
-				configuration_space, 0, NULL, &config));
+			CCS_VALIDATE_ERR_GOTO(
+				err,
+				ccs_create_configuration(
+					configuration_space, 0, NULL, &config),
+				errc);
 		CCS_VALIDATE_ERR_GOTO(
 			err, _sample(configuration_space, config, &found),
 			errc);
@@ -1112,12 +1115,17 @@ ccs_configuration_space_samples(
 			config                  = NULL;
 		}
 	}
-	CCS_REFUTE(
-		count < num_configurations,
-		CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL);
+	CCS_REFUTE_ERR_GOTO(
+		err, count < num_configurations,
+		CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL, errc);
 	return CCS_RESULT_SUCCESS;
 errc:
-	ccs_release_object(config);
+	if (config)
+		ccs_release_object(config);
+	for (size_t i = 0; i < count; i++) {
+		ccs_release_object(configurations[i]);
+		configurations[i] = NULL;
+	}
 	return err;
 }
 
-- 
2.43.0


From eb9ea8d0d06e3bc86b81ca673ab4b46cca9b784b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:02 +0000
Subject: [PATCH 16/83] fix: default configuration after a refused condition

---
 src/configuration_space.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/configuration_space.c b/src/configuration_space.c
index 623ad38..1c92394 100644
--- a/src/configuration_space.c
+++ b/src/configuration_space.c
@@ -866,6 +866,8 @@ ccs_configuration_space_get_default_configuration(
 	CCS_CHECK_PTR(configuration_ret);
 	ccs_result_t        err;
 	ccs_configuration_t config;
+	if (!configuration_space->data->graph_ok)
+		CCS_VALIDATE(_generate_constraints(configuration_space));
 	CCS_VALIDATE(ccs_create_configuration(
 		configuration_space, 0, NULL, &config));
 	UT_array *array = configuration_space->data->parameters;
-- 
2.43.0


From 7717997028648e2f5620fc5fc3e4f55da6e9b00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:17 +0000
Subject: [PATCH 17/83] fix: indexes truncated to 32 bits

---
 src/configuration_space.c | 8 ++++----
 src/context_internal.h    | 4 ++--
 src/objective_space.c     | 2 +-
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/configuration_space.c b/src/configuration_space.c
index 1c92394..67e8db5 100644
--- a/src/configuration_space.c
+++ b/src/configuration_space.c
@@ -705,7 +705,7 @@ ccs_configuration_space_get_parameter_distribution(
 	_ccs_parameter_wrapper_cs_t *wrapper =
 		(_ccs_parameter_wrapper_cs_t *)utarray_eltptr(
 			configuration_space->data->parameters,
-			(unsigned int)index);
+			index);
 	CCS_REFUTE(!wrapper, CCS_RESULT_ERROR_OUT_OF_BOUNDS);
 	*distribution_ret = wrapper->distribution->distribution;
 	*index_ret        = wrapper->distribution_index;
@@ -1327,7 +1327,7 @@ ccs_configuration_space_set_condition(
 	_ccs_parameter_wrapper_cs_t *wrapper =
 		(_ccs_parameter_wrapper_cs_t *)utarray_eltptr(
 			configuration_space->data->parameters,
-			(unsigned int)parameter_index);
+			parameter_index);
 	CCS_REFUTE(!wrapper, CCS_RESULT_ERROR_OUT_OF_BOUNDS);
 	CCS_REFUTE(wrapper->condition, CCS_RESULT_ERROR_INVALID_PARAMETER);
 	ccs_result_t err;
@@ -1355,7 +1355,7 @@ ccs_configuration_space_get_condition(
 	_ccs_parameter_wrapper_cs_t *wrapper =
 		(_ccs_parameter_wrapper_cs_t *)utarray_eltptr(
 			configuration_space->data->parameters,
-			(unsigned int)parameter_index);
+			parameter_index);
 	CCS_REFUTE(!wrapper, CCS_RESULT_ERROR_OUT_OF_BOUNDS);
 	*expression_ret = wrapper->condition;
 	return CCS_RESULT_SUCCESS;
@@ -1458,7 +1458,7 @@ ccs_configuration_space_get_forbidden_clause(
 	CCS_CHECK_PTR(expression_ret);
 	ccs_expression_t *p_expr = (ccs_expression_t *)utarray_eltptr(
 		configuration_space->data->forbidden_clauses,
-		(unsigned int)index);
+		index);
 	CCS_REFUTE(!p_expr, CCS_RESULT_ERROR_OUT_OF_BOUNDS);
 	*expression_ret = *p_expr;
 	return CCS_RESULT_SUCCESS;
diff --git a/src/context_internal.h b/src/context_internal.h
index 3fa6a0b..86940e9 100644
--- a/src/context_internal.h
+++ b/src/context_internal.h
@@ -77,7 +77,7 @@ _ccs_context_get_parameter(
 	CCS_CHECK_PTR(parameter_ret);
 	_ccs_parameter_wrapper_t *wrapper =
 		(_ccs_parameter_wrapper_t *)utarray_eltptr(
-			context->data->parameters, (unsigned int)index);
+			context->data->parameters, index);
 	CCS_REFUTE(!wrapper, CCS_RESULT_ERROR_OUT_OF_BOUNDS);
 	*parameter_ret = wrapper->parameter;
 	return CCS_RESULT_SUCCESS;
@@ -184,7 +184,7 @@ _ccs_context_validate_value(
 	CCS_CHECK_PTR(value_ret);
 	_ccs_parameter_wrapper_t *wrapper =
 		(_ccs_parameter_wrapper_t *)utarray_eltptr(
-			context->data->parameters, (unsigned int)index);
+			context->data->parameters, index);
 	CCS_REFUTE(!wrapper, CCS_RESULT_ERROR_OUT_OF_BOUNDS);
 	ccs_bool_t valid;
 	CCS_VALIDATE(ccs_parameter_validate_value(
diff --git a/src/objective_space.c b/src/objective_space.c
index 0355ea6..1839076 100644
--- a/src/objective_space.c
+++ b/src/objective_space.c
@@ -544,7 +544,7 @@ ccs_objective_space_get_objective(
 	CCS_CHECK_PTR(expression_ret);
 	CCS_CHECK_PTR(type_ret);
 	_ccs_objective_t *p_obj = (_ccs_objective_t *)utarray_eltptr(
-		objective_space->data->objectives, (unsigned int)index);
+		objective_space->data->objectives, index);
 	CCS_REFUTE(!p_obj, CCS_RESULT_ERROR_OUT_OF_BOUNDS);
 	*expression_ret = p_obj->expression;
 	*type_ret       = p_obj->type;
-- 
2.43.0


From 017f13ecb9d5a66755377d35f6ebb59bf6de0e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:28 +0000
Subject: [PATCH 18/83] fix: size check of the evaluation objective values
 array

---
 src/evaluation.c          | 2 +-
 src/features_evaluation.c | 2 +-
 src/tree_evaluation.c     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/evaluation.c b/src/evaluation.c
index acabf57..4201894 100644
--- a/src/evaluation.c
+++ b/src/evaluation.c
@@ -359,7 +359,7 @@ ccs_evaluation_get_objective_values(
 	CCS_VALIDATE(ccs_objective_space_get_objectives(
 		evaluation->data->objective_space, 0, NULL, NULL, &count));
 	if (values) {
-		CCS_REFUTE(count < num_values, CCS_RESULT_ERROR_INVALID_VALUE);
+		CCS_REFUTE(num_values < count, CCS_RESULT_ERROR_INVALID_VALUE);
 		for (size_t i = 0; i < count; i++) {
 			ccs_expression_t     expression;
 			ccs_objective_type_t type;
diff --git a/src/features_evaluation.c b/src/features_evaluation.c
index 7d2c103..e64b786 100644
--- a/src/features_evaluation.c
+++ b/src/features_evaluation.c
@@ -402,7 +402,7 @@ ccs_features_evaluation_get_objective_values(
 	CCS_VALIDATE(ccs_objective_space_get_objectives(
 		evaluation->data->objective_space, 0, NULL, NULL, &count));
 	if (values) {
-		CCS_REFUTE(count < num_values, CCS_RESULT_ERROR_INVALID_VALUE);
+		CCS_REFUTE(num_values < count, CCS_RESULT_ERROR_INVALID_VALUE);
 		for (size_t i = 0; i < count; i++) {
 			ccs_expression_t     expression;
 			ccs_objective_type_t type;
diff --git a/src/tree_evaluation.c b/src/tree_evaluation.c
index c78232f..614e32b 100644
--- a/src/tree_evaluation.c
+++ b/src/tree_evaluation.c
@@ -364,7 +364,7 @@ ccs_tree_evaluation_get_objective_values(
 	CCS_VALIDATE(ccs_objective_space_get_objectives(
 		evaluation->data->objective_space, 0, NULL, NULL, &count));
 	if (values) {
-		CCS_REFUTE(count < num_values, CCS_RESULT_ERROR_INVALID_VALUE);
+		CCS_REFUTE(num_values < count, CCS_RESULT_ERROR_INVALID_VALUE);
 		for (size_t i = 0; i < count; i++) {
 			ccs_expression_t     expression;
 			ccs_objective_type_t type;
-- 
2.43.0


From e0f27f18bebc25b075ab89fe8180245064babce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:28 +0000
Subject: [PATCH 19/83] fix: object type checked when checking features values

---
 src/features_space.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/features_space.c b/src/features_space.c
index 7bec62d..fa906d8 100644
--- a/src/features_space.c
+++ b/src/features_space.c
@@ -366,7 +366,7 @@ ccs_features_space_check_features_values(
 	ccs_datum_t         *values,
 	ccs_bool_t          *is_valid_ret)
 {
-	CCS_CHECK_OBJ(features_space, CCS_OBJECT_TYPE_CONFIGURATION_SPACE);
+	CCS_CHECK_OBJ(features_space, CCS_OBJECT_TYPE_FEATURES_SPACE);
 	CCS_CHECK_ARY(num_values, values);
 	CCS_VALIDATE(_check_features(
 		features_space, num_values, values, is_valid_ret));
-- 
2.43.0


From fe8b1d893f1ff481836e0c580d37dd852aa76f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:28 +0000
Subject: [PATCH 20/83] fix: evaluations with a NaN objective value are not
 comparable

---
 src/evaluation.c          | 5 ++++-
 src/features_evaluation.c | 5 ++++-
 src/tree_evaluation.c     | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/evaluation.c b/src/evaluation.c
index 4201894..1f99687 100644
--- a/src/evaluation.c
+++ b/src/evaluation.c
@@ -2,6 +2,7 @@
 #include "evaluation_internal.h"
 #include "configuration_internal.h"
 #include <string.h>
+#include <math.h>
 
 static inline _ccs_evaluation_ops_t *
 ccs_evaluation_get_ops(ccs_evaluation_t evaluation)
@@ -467,7 +468,9 @@ ccs_evaluation_compare(
 		// types.
 		if ((values[0].type != CCS_DATA_TYPE_INT &&
 		     values[0].type != CCS_DATA_TYPE_FLOAT) ||
-		    values[0].type != values[1].type) {
+		    values[0].type != values[1].type ||
+		    (values[0].type == CCS_DATA_TYPE_FLOAT &&
+		     (isnan(values[0].value.f) || isnan(values[1].value.f)))) {
 			*result_ret = CCS_COMPARISON_NOT_COMPARABLE;
 			return CCS_RESULT_SUCCESS;
 		}
diff --git a/src/features_evaluation.c b/src/features_evaluation.c
index e64b786..0fc7c09 100644
--- a/src/features_evaluation.c
+++ b/src/features_evaluation.c
@@ -3,6 +3,7 @@
 #include "configuration_internal.h"
 #include "features_internal.h"
 #include <string.h>
+#include <math.h>
 
 static inline _ccs_features_evaluation_ops_t *
 ccs_features_evaluation_get_ops(ccs_features_evaluation_t evaluation)
@@ -521,7 +522,9 @@ ccs_features_evaluation_compare(
 			other_evaluation->data->values, values + 1));
 		if ((values[0].type != CCS_DATA_TYPE_INT &&
 		     values[0].type != CCS_DATA_TYPE_FLOAT) ||
-		    values[0].type != values[1].type) {
+		    values[0].type != values[1].type ||
+		    (values[0].type == CCS_DATA_TYPE_FLOAT &&
+		     (isnan(values[0].value.f) || isnan(values[1].value.f)))) {
 			*result_ret = CCS_COMPARISON_NOT_COMPARABLE;
 			return CCS_RESULT_SUCCESS;
 		}
diff --git a/src/tree_evaluation.c b/src/tree_evaluation.c
index 614e32b..28f0955 100644
--- a/src/tree_evaluation.c
+++ b/src/tree_evaluation.c
@@ -2,6 +2,7 @@
 #include "tree_evaluation_internal.h"
 #include "tree_configuration_internal.h"
 #include <string.h>
+#include <math.h>
 
 static inline _ccs_tree_evaluation_ops_t *
 ccs_tree_evaluation_get_ops(ccs_tree_evaluation_t evaluation)
@@ -474,7 +475,9 @@ ccs_tree_evaluation_compare(
 		// types.
 		if ((values[0].type != CCS_DATA_TYPE_INT &&
 		     values[0].type != CCS_DATA_TYPE_FLOAT) ||
-		    values[0].type != values[1].type) {
+		    values[0].type != values[1].type ||
+		    (values[0].type == CCS_DATA_TYPE_FLOAT &&
+		     (isnan(values[0].value.f) || isnan(values[1].value.f)))) {
 			*result_ret = CCS_COMPARISON_NOT_COMPARABLE;
 			return CCS_RESULT_SUCCESS;
 		}
-- 
2.43.0


From b298a22fdd02fec627b097d0ff60500a0e35d1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:28 +0000
Subject: [PATCH 21/83] fix: null result pointer not refused when checking
 values

---
 src/configuration_space.c | 2 ++
 src/features_space.c      | 2 ++
 src/objective_space.c     | 1 +
 3 files changed, 5 insertions(+)

diff --git a/src/configuration_space.c b/src/configuration_space.c
index 67e8db5..0d8cc80 100644
--- a/src/configuration_space.c
+++ b/src/configuration_space.c
@@ -969,6 +969,7 @@ ccs_configuration_space_check_configuration(
 {
 	CCS_CHECK_OBJ(configuration_space, CCS_OBJECT_TYPE_CONFIGURATION_SPACE);
 	CCS_CHECK_OBJ(configuration, CCS_OBJECT_TYPE_CONFIGURATION);
+	CCS_CHECK_PTR(is_valid_ret);
 	CCS_REFUTE(
 		configuration->data->configuration_space != configuration_space,
 		CCS_RESULT_ERROR_INVALID_CONFIGURATION);
@@ -989,6 +990,7 @@ ccs_configuration_space_check_configuration_values(
 {
 	CCS_CHECK_OBJ(configuration_space, CCS_OBJECT_TYPE_CONFIGURATION_SPACE);
 	CCS_CHECK_ARY(num_values, values);
+	CCS_CHECK_PTR(is_valid_ret);
 	if (!configuration_space->data->graph_ok)
 		CCS_VALIDATE(_generate_constraints(configuration_space));
 	CCS_VALIDATE(_check_configuration(
diff --git a/src/features_space.c b/src/features_space.c
index fa906d8..a479d5e 100644
--- a/src/features_space.c
+++ b/src/features_space.c
@@ -350,6 +350,7 @@ ccs_features_space_check_features(
 {
 	CCS_CHECK_OBJ(features_space, CCS_OBJECT_TYPE_FEATURES_SPACE);
 	CCS_CHECK_OBJ(features, CCS_OBJECT_TYPE_FEATURES);
+	CCS_CHECK_PTR(is_valid_ret);
 	CCS_REFUTE(
 		features->data->features_space != features_space,
 		CCS_RESULT_ERROR_INVALID_FEATURES);
@@ -368,6 +369,7 @@ ccs_features_space_check_features_values(
 {
 	CCS_CHECK_OBJ(features_space, CCS_OBJECT_TYPE_FEATURES_SPACE);
 	CCS_CHECK_ARY(num_values, values);
+	CCS_CHECK_PTR(is_valid_ret);
 	CCS_VALIDATE(_check_features(
 		features_space, num_values, values, is_valid_ret));
 	return CCS_RESULT_SUCCESS;
diff --git a/src/objective_space.c b/src/objective_space.c
index 1839076..1a311ce 100644
--- a/src/objective_space.c
+++ b/src/objective_space.c
@@ -466,6 +466,7 @@ ccs_objective_space_check_evaluation_values(
 {
 	CCS_CHECK_OBJ(objective_space, CCS_OBJECT_TYPE_OBJECTIVE_SPACE);
 	CCS_CHECK_ARY(num_values, values);
+	CCS_CHECK_PTR(is_valid_ret);
 	CCS_VALIDATE(_check_evaluation(
 		objective_space, num_values, values, is_valid_ret));
 	return CCS_RESULT_SUCCESS;
-- 
2.43.0


From 27d28a1f8217a6d2ca670c257ddf39997925bedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:55 +0000
Subject: [PATCH 22/83] fix: reference leak when a configuration value does not
 validate

---
 src/configuration.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/configuration.c b/src/configuration.c
index d558a05..82663c0 100644
--- a/src/configuration.c
+++ b/src/configuration.c
@@ -130,10 +130,12 @@ ccs_create_configuration(
 						configuration_space, i,
 						values[i],
 						config->data->values + i),
-					errmem);
+					errcs);
 	}
 	*configuration_ret = config;
 	return CCS_RESULT_SUCCESS;
+errcs:
+	ccs_release_object(configuration_space);
 errmem:
 	free((void *)mem);
 	return err;
-- 
2.43.0


From a08d9c0671151564c25a2327fa00acd3df1d3d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:24 +0000
Subject: [PATCH 23/83] fix: partial update when a batch of binding values is
 refused

---
 src/binding_internal.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/binding_internal.h b/src/binding_internal.h
index f1ebd26..104d742 100644
--- a/src/binding_internal.h
+++ b/src/binding_internal.h
@@ -96,6 +96,14 @@ _ccs_binding_set_values(
 	size_t num = binding->data->num_values;
 	CCS_REFUTE(num_values != num, CCS_RESULT_ERROR_INVALID_VALUE);
 	if (values) {
+		// Nothing is stored unless all values are valid
+		for (size_t i = 0; i < num_values; i++) {
+			ccs_datum_t value = values[i];
+			if (value.flags & CCS_DATUM_FLAG_TRANSIENT)
+				CCS_VALIDATE(ccs_context_validate_value(
+					binding->data->context, i, value,
+					&value));
+		}
 		for (size_t i = 0; i < num_values; i++) {
 			ccs_datum_t value = values[i];
 			if (value.flags & CCS_DATUM_FLAG_TRANSIENT)
-- 
2.43.0


From b902ebee1141321e034d9c3380d6c606f02a8962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:37 +0000
Subject: [PATCH 24/83] fix: objectives evaluated past the values of an
 evaluation whose space was extended

---
 src/binding_internal.h    | 11 +++++++++++
 src/evaluation.c          | 12 ++++++++++++
 src/features_evaluation.c | 12 ++++++++++++
 src/tree_evaluation.c     | 12 ++++++++++++
 4 files changed, 47 insertions(+)

diff --git a/src/binding_internal.h b/src/binding_internal.h
index 104d742..60573d4 100644
--- a/src/binding_internal.h
+++ b/src/binding_internal.h
@@ -116,6 +116,17 @@ _ccs_binding_set_values(
 	return CCS_RESULT_SUCCESS;
 }
 
+// Parameters can be added to the context after the binding was created
+static inline ccs_result_t
+_ccs_binding_check_num_values(ccs_binding_t binding, ccs_result_t error)
+{
+	size_t num_parameters;
+	CCS_VALIDATE(ccs_context_get_num_parameters(
+		binding->data->context, &num_parameters));
+	CCS_REFUTE(binding->data->num_values != num_parameters, error);
+	return CCS_RESULT_SUCCESS;
+}
+
 static inline ccs_result_t
 _ccs_binding_get_value_by_name(
 	ccs_binding_t binding,
diff --git a/src/evaluation.c b/src/evaluation.c
index 1f99687..70f71bf 100644
--- a/src/evaluation.c
+++ b/src/evaluation.c
@@ -336,6 +336,9 @@ ccs_evaluation_get_objective_value(
 {
 	CCS_CHECK_OBJ(evaluation, CCS_OBJECT_TYPE_EVALUATION);
 	CCS_CHECK_PTR(value_ret);
+	CCS_VALIDATE(_ccs_binding_check_num_values(
+		(ccs_binding_t)evaluation,
+		CCS_RESULT_ERROR_INVALID_EVALUATION));
 	ccs_expression_t     expression;
 	ccs_objective_type_t type;
 	CCS_VALIDATE(ccs_objective_space_get_objective(
@@ -356,6 +359,9 @@ ccs_evaluation_get_objective_values(
 	CCS_CHECK_OBJ(evaluation, CCS_OBJECT_TYPE_EVALUATION);
 	CCS_CHECK_ARY(num_values, values);
 	CCS_REFUTE(!values && !num_values_ret, CCS_RESULT_ERROR_INVALID_VALUE);
+	CCS_VALIDATE(_ccs_binding_check_num_values(
+		(ccs_binding_t)evaluation,
+		CCS_RESULT_ERROR_INVALID_EVALUATION));
 	size_t count;
 	CCS_VALIDATE(ccs_objective_space_get_objectives(
 		evaluation->data->objective_space, 0, NULL, NULL, &count));
@@ -443,6 +449,12 @@ ccs_evaluation_compare(
 		evaluation->data->objective_space !=
 			other_evaluation->data->objective_space,
 		CCS_RESULT_ERROR_INVALID_OBJECT);
+	CCS_VALIDATE(_ccs_binding_check_num_values(
+		(ccs_binding_t)evaluation,
+		CCS_RESULT_ERROR_INVALID_EVALUATION));
+	CCS_VALIDATE(_ccs_binding_check_num_values(
+		(ccs_binding_t)other_evaluation,
+		CCS_RESULT_ERROR_INVALID_EVALUATION));
 	size_t count;
 	CCS_VALIDATE(ccs_objective_space_get_objectives(
 		evaluation->data->objective_space, 0, NULL, NULL, &count));
diff --git a/src/features_evaluation.c b/src/features_evaluation.c
index 0fc7c09..fbb2169 100644
--- a/src/features_evaluation.c
+++ b/src/features_evaluation.c
@@ -379,6 +379,9 @@ ccs_features_evaluation_get_objective_value(
 {
 	CCS_CHECK_OBJ(evaluation, CCS_OBJECT_TYPE_FEATURES_EVALUATION);
 	CCS_CHECK_PTR(value_ret);
+	CCS_VALIDATE(_ccs_binding_check_num_values(
+		(ccs_binding_t)evaluation,
+		CCS_RESULT_ERROR_INVALID_EVALUATION));
 	ccs_expression_t     expression;
 	ccs_objective_type_t type;
 	CCS_VALIDATE(ccs_objective_space_get_objective(
@@ -399,6 +402,9 @@ ccs_features_evaluation_get_objective_values(
 	CCS_CHECK_OBJ(evaluation, CCS_OBJECT_TYPE_FEATURES_EVALUATION);
 	CCS_CHECK_ARY(num_values, values);
 	CCS_REFUTE(!values && !num_values_ret, CCS_RESULT_ERROR_INVALID_VALUE);
+	CCS_VALIDATE(_ccs_binding_check_num_values(
+		(ccs_binding_t)evaluation,
+		CCS_RESULT_ERROR_INVALID_EVALUATION));
 	size_t count;
 	CCS_VALIDATE(ccs_objective_space_get_objectives(
 		evaluation->data->objective_space, 0, NULL, NULL, &count));
@@ -490,6 +496,12 @@ ccs_features_evaluation_compare(
 		evaluation->data->objective_space !=
 			other_evaluation->data->objective_space,
 		CCS_RESULT_ERROR_INVALID_OBJECT);
+	CCS_VALIDATE(_ccs_binding_check_num_values(
+		(ccs_binding_t)evaluation,
+		CCS_RESULT_ERROR_INVALID_EVALUATION));
+	CCS_VALIDATE(_ccs_binding_check_num_values(
+		(ccs_binding_t)other_evaluation,
+		CCS_RESULT_ERROR_INVALID_EVALUATION));
 	size_t count;
 	int    eql;
 	CCS_VALIDATE(ccs_objective_space_get_objectives(
diff --git a/src/tree_evaluation.c b/src/tree_evaluation.c
index 28f0955..076b5c6 100644
--- a/src/tree_evaluation.c
+++ b/src/tree_evaluation.c
@@ -341,6 +341,9 @@ ccs_tree_evaluation_get_objective_value(
 {
 	CCS_CHECK_OBJ(evaluation, CCS_OBJECT_TYPE_TREE_EVALUATION);
 	CCS_CHECK_PTR(value_ret);
+	CCS_VALIDATE(_ccs_binding_check_num_values(
+		(ccs_binding_t)evaluation,
+		CCS_RESULT_ERROR_INVALID_EVALUATION));
 	ccs_expression_t     expression;
 	ccs_objective_type_t type;
 	CCS_VALIDATE(ccs_objective_space_get_objective(
@@ -361,6 +364,9 @@ ccs_tree_evaluation_get_objective_values(
 	CCS_CHECK_OBJ(evaluation, CCS_OBJECT_TYPE_TREE_EVALUATION);
 	CCS_CHECK_ARY(num_values, values);
 	CCS_REFUTE(!values && !num_values_ret, CCS_RESULT_ERROR_INVALID_VALUE);
+	CCS_VALIDATE(_ccs_binding_check_num_values(
+		(ccs_binding_t)evaluation,
+		CCS_RESULT_ERROR_INVALID_EVALUATION));
 	size_t count;
 	CCS_VALIDATE(ccs_objective_space_get_objectives(
 		evaluation->data->objective_space, 0, NULL, NULL, &count));
@@ -450,6 +456,12 @@ ccs_tree_evaluation_compare(
 		evaluation->data->objective_space !=
 			other_evaluation->data->objective_space,
 		CCS_RESULT_ERROR_INVALID_OBJECT);
+	CCS_VALIDATE(_ccs_binding_check_num_values(
+		(ccs_binding_t)evaluation,
+		CCS_RESULT_ERROR_INVALID_EVALUATION));
+	CCS_VALIDATE(_ccs_binding_check_num_values(
+		(ccs_binding_t)other_evaluation,
+		CCS_RESULT_ERROR_INVALID_EVALUATION));
 	size_t count;
 	CCS_VALIDATE(ccs_objective_space_get_objectives(
 		evaluation->data->objective_space, 0, NULL, NULL, &count));
-- 
2.43.0


From 28a215c6acbc27115a09e8fd7d2841662dc8d58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:39 +0000
Subject: [PATCH 25/83] fix: comparison of bindings of different kinds sharing
 an objective space

---
 src/binding.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/binding.c b/src/binding.c
index 6c2f705..ea963ac 100644
--- a/src/binding.c
+++ b/src/binding.c
@@ -129,6 +129,11 @@ ccs_binding_cmp(ccs_binding_t binding, ccs_binding_t other_binding, int *cmp_ret
 		*cmp_ret = 0;
 		return CCS_RESULT_SUCCESS;
 	}
+	// Bindings of different kinds can share the same context
+	if (binding->obj.type != other_binding->obj.type) {
+		*cmp_ret = binding->obj.type < other_binding->obj.type ? -1 : 1;
+		return CCS_RESULT_SUCCESS;
+	}
 	_ccs_binding_ops_t *ops = ccs_binding_get_ops(binding);
 	CCS_VALIDATE(ops->cmp(binding->data, other_binding, cmp_ret));
 	return CCS_RESULT_SUCCESS;
-- 
2.43.0


From 3d948e37025e60fba9b04df3bdf7cd35c3206bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:40 +0000
Subject: [PATCH 26/83] fix: optimum lost when a told evaluation cannot be
 compared with it

---
 src/features_tuner_random.c | 6 ++++--
 src/tree_tuner_random.c     | 6 ++++--
 src/tuner_random.c          | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/features_tuner_random.c b/src/features_tuner_random.c
index ef3d602..979939e 100644
--- a/src/features_tuner_random.c
+++ b/src/features_tuner_random.c
@@ -222,9 +222,11 @@ _ccs_features_tuner_random_tell(
 					ccs_comparison_t cmp;
 					err = ccs_features_evaluation_compare(
 						evaluations[i], *eval, &cmp);
-					if (err)
+					if (err) {
 						discard = 1;
-					else
+						utarray_push_back(
+							d->optima, eval);
+					} else
 						switch (cmp) {
 						case CCS_COMPARISON_EQUIVALENT:
 						case CCS_COMPARISON_WORSE:
diff --git a/src/tree_tuner_random.c b/src/tree_tuner_random.c
index ed39c99..cf7fe03 100644
--- a/src/tree_tuner_random.c
+++ b/src/tree_tuner_random.c
@@ -214,9 +214,11 @@ _ccs_tree_tuner_random_tell(
 					ccs_comparison_t cmp;
 					err = ccs_tree_evaluation_compare(
 						evaluations[i], *eval, &cmp);
-					if (err)
+					if (err) {
 						discard = 1;
-					else
+						utarray_push_back(
+							d->optima, eval);
+					} else
 						switch (cmp) {
 						case CCS_COMPARISON_EQUIVALENT:
 						case CCS_COMPARISON_WORSE:
diff --git a/src/tuner_random.c b/src/tuner_random.c
index e9c072f..26aeab1 100644
--- a/src/tuner_random.c
+++ b/src/tuner_random.c
@@ -213,9 +213,11 @@ _ccs_tuner_random_tell(
 					ccs_comparison_t cmp;
 					err = ccs_evaluation_compare(
 						evaluations[i], *eval, &cmp);
-					if (err)
+					if (err) {
 						discard = 1;
-					else
+						utarray_push_back(
+							d->optima, eval);
+					} else
 						switch (cmp) {
 						case CCS_COMPARISON_EQUIVALENT:
 						case CCS_COMPARISON_WORSE:
-- 
2.43.0


From 38a02c4777ce7e92c61f7782b366a4aff7397eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:40 +0000
Subject: [PATCH 27/83] fix: evaluations partially recorded by a refused tell

---
 src/features_tuner_random.c | 6 ++++++
 src/tree_tuner_random.c     | 6 ++++++
 src/tuner_random.c          | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/src/features_tuner_random.c b/src/features_tuner_random.c
index 979939e..542891b 100644
--- a/src/features_tuner_random.c
+++ b/src/features_tuner_random.c
@@ -194,6 +194,12 @@ _ccs_features_tuner_random_tell(
 		(_ccs_random_features_tuner_data_t *)tuner->data;
 	UT_array    *history = d->history;
 	ccs_result_t err;
+	// Nothing is recorded if one of the evaluations is invalid
+	for (size_t i = 0; i < num_evaluations; i++) {
+		ccs_evaluation_result_t result;
+		CCS_VALIDATE(ccs_features_evaluation_get_result(
+			evaluations[i], &result));
+	}
 	for (size_t i = 0; i < num_evaluations; i++) {
 		ccs_evaluation_result_t result;
 		CCS_VALIDATE(ccs_features_evaluation_get_result(
diff --git a/src/tree_tuner_random.c b/src/tree_tuner_random.c
index cf7fe03..f7c4ad7 100644
--- a/src/tree_tuner_random.c
+++ b/src/tree_tuner_random.c
@@ -186,6 +186,12 @@ _ccs_tree_tuner_random_tell(
 		(_ccs_random_tree_tuner_data_t *)tuner->data;
 	UT_array    *history = d->history;
 	ccs_result_t err;
+	// Nothing is recorded if one of the evaluations is invalid
+	for (size_t i = 0; i < num_evaluations; i++) {
+		ccs_evaluation_result_t result;
+		CCS_VALIDATE(ccs_tree_evaluation_get_result(
+			evaluations[i], &result));
+	}
 	for (size_t i = 0; i < num_evaluations; i++) {
 		ccs_evaluation_result_t result;
 		CCS_VALIDATE(ccs_tree_evaluation_get_result(
diff --git a/src/tuner_random.c b/src/tuner_random.c
index 26aeab1..af243cd 100644
--- a/src/tuner_random.c
+++ b/src/tuner_random.c
@@ -185,6 +185,12 @@ _ccs_tuner_random_tell(
 	_ccs_random_tuner_data_t *d = (_ccs_random_tuner_data_t *)tuner->data;
 	UT_array                 *history = d->history;
 	ccs_result_t              err;
+	// Nothing is recorded if one of the evaluations is invalid
+	for (size_t i = 0; i < num_evaluations; i++) {
+		ccs_evaluation_result_t result;
+		CCS_VALIDATE(ccs_evaluation_get_result(
+			evaluations[i], &result));
+	}
 	for (size_t i = 0; i < num_evaluations; i++) {
 		ccs_evaluation_result_t result;
 		CCS_VALIDATE(
-- 
2.43.0


From d2166ec1aec38fd6eb4082596431865dbff88972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:57 +0000
Subject: [PATCH 28/83] fix: tree attached to itself or to one of its
 descendants

---
 src/tree.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tree.c b/src/tree.c
index 7c37190..cf7f1f8 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -271,6 +271,9 @@ ccs_tree_set_child(ccs_tree_t tree, size_t index, ccs_tree_t child)
 	CCS_REFUTE(
 		child_data->parent || child_data->index,
 		CCS_RESULT_ERROR_INVALID_TREE);
+	// A tree cannot be its own descendant
+	for (ccs_tree_t node = tree; node; node = node->data->parent)
+		CCS_REFUTE(node == child, CCS_RESULT_ERROR_INVALID_TREE);
 	CCS_VALIDATE(ccs_retain_object(child));
 
 	child_data->parent         = tree;
-- 
2.43.0


From e64228fcb998d249f657657f534e108c2abda042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:57 +0000
Subject: [PATCH 29/83] fix: refuse NaN and infinite tree weights and biases

---
 src/tree.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index cf7f1f8..4e0bd95 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -1,5 +1,6 @@
 #include "cconfigspace_internal.h"
 #include "tree_internal.h"
+#include <math.h>
 
 static ccs_result_t
 _ccs_tree_del(ccs_object_t o)
@@ -345,7 +346,9 @@ ccs_result_t
 ccs_tree_set_weight(ccs_tree_t tree, ccs_float_t weight)
 {
 	CCS_CHECK_OBJ(tree, CCS_OBJECT_TYPE_TREE);
-	CCS_REFUTE(weight < 0.0, CCS_RESULT_ERROR_INVALID_VALUE);
+	CCS_REFUTE(
+		!(weight >= 0.0) || isinf(weight),
+		CCS_RESULT_ERROR_INVALID_VALUE);
 	_ccs_tree_data_t *tree_data  = tree->data;
 	size_t            index      = tree_data->arity;
 	ccs_float_t       old_weight = tree_data->weights[index];
@@ -371,7 +374,8 @@ ccs_result_t
 ccs_tree_set_bias(ccs_tree_t tree, ccs_float_t bias)
 {
 	CCS_CHECK_OBJ(tree, CCS_OBJECT_TYPE_TREE);
-	CCS_REFUTE(bias < 0.0, CCS_RESULT_ERROR_INVALID_VALUE);
+	CCS_REFUTE(
+		!(bias >= 0.0) || isinf(bias), CCS_RESULT_ERROR_INVALID_VALUE);
 	_ccs_tree_data_t *tree_data = tree->data;
 	ccs_float_t       old_bias  = tree_data->bias;
 	ccs_result_t      err       = CCS_RESULT_SUCCESS;
-- 
2.43.0


From 70981bea71317274e48fc9c581893d1d06881c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:57 +0000
Subject: [PATCH 30/83] fix: overflow in the size of a tree of very large arity

---
 src/tree.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tree.c b/src/tree.c
index 4e0bd95..f5d2f06 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -145,7 +145,10 @@ ccs_create_tree(size_t arity, ccs_datum_t value, ccs_tree_t *tree_ret)
 	CCS_REFUTE(
 		value.type > CCS_DATA_TYPE_STRING,
 		CCS_RESULT_ERROR_INVALID_VALUE);
-	CCS_REFUTE(arity > CCS_INT_MAX - 1, CCS_RESULT_ERROR_INVALID_VALUE);
+	CCS_REFUTE(
+		arity > SIZE_MAX / (4 * sizeof(ccs_float_t)) ||
+			arity > CCS_INT_MAX - 1,
+		CCS_RESULT_ERROR_INVALID_VALUE);
 	size_t size_strs = 0;
 	if (value.type == CCS_DATA_TYPE_STRING) {
 		CCS_REFUTE(!value.value.s, CCS_RESULT_ERROR_INVALID_VALUE);
-- 
2.43.0


From b6815728f1733109c274f43c1ce654e25b4d278e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:06 +0000
Subject: [PATCH 31/83] fix: reference leak when a child given by a dynamic
 tree space is refused

---
 src/tree_space_dynamic.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tree_space_dynamic.c b/src/tree_space_dynamic.c
index b088829..8449ccc 100644
--- a/src/tree_space_dynamic.c
+++ b/src/tree_space_dynamic.c
@@ -156,8 +156,10 @@ _ccs_tree_space_tree_get_child(
 	CCS_VALIDATE(ccs_tree_get_child(parent, index, child));
 	if (!*child) {
 		CCS_VALIDATE(child_cb(tree_space, parent, index, child));
-		CCS_VALIDATE(ccs_tree_set_child(parent, index, *child));
-		CCS_VALIDATE(ccs_release_object(*child));
+		ccs_result_t err = ccs_tree_set_child(parent, index, *child);
+		if (*child)
+			ccs_release_object(*child);
+		CCS_VALIDATE(err);
 	}
 	return CCS_RESULT_SUCCESS;
 }
-- 
2.43.0


From f2c73dcb39aef9187652a5f3db113ffa303d97b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:22 +0000
Subject: [PATCH 32/83] fix: ccs_map_get_keys returned the values

---
 src/map.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/map.c b/src/map.c
index b10d5d0..91f21ae 100644
--- a/src/map.c
+++ b/src/map.c
@@ -294,7 +294,7 @@ ccs_map_get_keys(
 		_ccs_map_datum_t *current = NULL, *tmp;
 		size_t            i       = 0;
 		HASH_ITER(hh, map->data->map, current, tmp)
-		keys[i++] = current->value;
+		keys[i++] = current->key;
 		for (i = num_entries; i < num_keys; i++)
 			keys[i] = ccs_none;
 	}
-- 
2.43.0


From 7cc4cb9bdd1ecb02940c64f38238582e334a2f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:48 +0000
Subject: [PATCH 33/83] fix: map kept the old storage when a key was set to an
 equal value

The new value can be owned by the map when the old one was not.
---
 src/map.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/map.c b/src/map.c
index 91f21ae..3e6ebe9 100644
--- a/src/map.c
+++ b/src/map.c
@@ -206,9 +206,6 @@ ccs_map_set(ccs_map_t map, ccs_datum_t key, ccs_datum_t value)
 	_ccs_map_datum_t *old_entry = NULL;
 	_ccs_map_datum_t *entry     = NULL;
 	HASH_FIND(hh, d->map, &key, sizeof(ccs_datum_t), old_entry);
-	if (old_entry)
-		if (!_datum_cmp(&value, &old_entry->value))
-			return CCS_RESULT_SUCCESS;
 
 	CCS_VALIDATE_ERR_GOTO(res, _ccs_map_check_datum(key, &sz, &sz1), err);
 	CCS_VALIDATE_ERR_GOTO(
-- 
2.43.0


From f5ee0d029799c4679b1cd22b6fc6403870fee069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:49 +0000
Subject: [PATCH 34/83] fix: deserialized static tree spaces lost their random
 generator

---
 src/tree_space_deserialize.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/tree_space_deserialize.h b/src/tree_space_deserialize.h
index 69e02d3..771292f 100644
--- a/src/tree_space_deserialize.h
+++ b/src/tree_space_deserialize.h
@@ -49,6 +49,13 @@ _ccs_deserialize_bin_tree_space_static(
 		ccs_create_static_tree_space(
 			data.name, data.tree, tree_space_ret),
 		end);
+	CCS_VALIDATE_ERR_GOTO(
+		res, ccs_tree_space_set_rng(*tree_space_ret, data.rng),
+		tree_space);
+	goto end;
+tree_space:
+	ccs_release_object(*tree_space_ret);
+	*tree_space_ret = NULL;
 end:
 	if (data.rng)
 		ccs_release_object(data.rng);
-- 
2.43.0


From 60c4dbf5d3a4c91b32eac4d8917be789c9025b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:49 +0000
Subject: [PATCH 35/83] fix: dynamic tree space deserialization never read the
 user state

---
 src/tree_space_deserialize.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tree_space_deserialize.h b/src/tree_space_deserialize.h
index 771292f..2f3fc05 100644
--- a/src/tree_space_deserialize.h
+++ b/src/tree_space_deserialize.h
@@ -89,6 +89,10 @@ _ccs_deserialize_bin_tree_space_dynamic(
 		_ccs_deserialize_bin_ccs_tree_space_common_data(
 			&data.common_data, version, buffer_size, buffer, opts),
 		end);
+	CCS_VALIDATE_ERR_GOTO(
+		res,
+		_ccs_deserialize_bin_ccs_blob(&data.blob, buffer_size, buffer),
+		end);
 	CCS_VALIDATE_ERR_GOTO(
 		res,
 		ccs_create_dynamic_tree_space(
-- 
2.43.0


From 9bd7b33aa51ce691e28f0341514d1625ba62bc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:15 +0000
Subject: [PATCH 36/83] fix: serializing a NULL string crashed

---
 src/cconfigspace_internal.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/cconfigspace_internal.h b/src/cconfigspace_internal.h
index eb20271..b7ceac3 100644
--- a/src/cconfigspace_internal.h
+++ b/src/cconfigspace_internal.h
@@ -753,17 +753,19 @@ _ccs_deserialize_bin_size(size_t *sz, size_t *buffer_size, const char **buffer)
 static inline size_t
 _ccs_serialize_bin_size_string(const char *str)
 {
-	size_t sz = strlen(str) + 1;
+	/* a NULL string has size 0 */
+	size_t sz = str ? strlen(str) + 1 : 0;
 	return sz + _ccs_serialize_bin_size_size(sz);
 }
 
 static inline ccs_result_t
 _ccs_serialize_bin_string(const char *str, size_t *buffer_size, char **buffer)
 {
-	uint64_t sz = strlen(str) + 1;
+	uint64_t sz = str ? strlen(str) + 1 : 0;
 	CCS_VALIDATE(_ccs_serialize_bin_size(sz, buffer_size, buffer));
 	CCS_REFUTE(*buffer_size < sz, CCS_RESULT_ERROR_NOT_ENOUGH_DATA);
-	memcpy(*buffer, str, sz);
+	if (sz)
+		memcpy(*buffer, str, sz);
 	*buffer_size -= sz;
 	*buffer += sz;
 	return CCS_RESULT_SUCCESS;
@@ -778,7 +780,7 @@ _ccs_deserialize_bin_string(
 	size_t sz;
 	CCS_VALIDATE(_ccs_deserialize_bin_size(&sz, buffer_size, buffer));
 	CCS_REFUTE(*buffer_size < sz, CCS_RESULT_ERROR_NOT_ENOUGH_DATA);
-	*str = *buffer;
+	*str = sz ? *buffer : NULL;
 	*buffer_size -= sz;
 	*buffer += sz;
 	return CCS_RESULT_SUCCESS;
-- 
2.43.0


From 1a596a134959943b4b5181c52e46ceab7050231e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:15 +0000
Subject: [PATCH 37/83] fix: deserialized strings were not checked to be
 terminated

---
 src/cconfigspace_internal.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cconfigspace_internal.h b/src/cconfigspace_internal.h
index b7ceac3..6503520 100644
--- a/src/cconfigspace_internal.h
+++ b/src/cconfigspace_internal.h
@@ -780,6 +780,8 @@ _ccs_deserialize_bin_string(
 	size_t sz;
 	CCS_VALIDATE(_ccs_deserialize_bin_size(&sz, buffer_size, buffer));
 	CCS_REFUTE(*buffer_size < sz, CCS_RESULT_ERROR_NOT_ENOUGH_DATA);
+	CCS_REFUTE(
+		sz && (*buffer)[sz - 1] != '\0', CCS_RESULT_ERROR_INVALID_VALUE);
 	*str = sz ? *buffer : NULL;
 	*buffer_size -= sz;
 	*buffer += sz;
-- 
2.43.0


From bd4a82df7fd1c514e3eb41b2fb8fcb54cb434da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:41 +0000
Subject: [PATCH 38/83] fix: use after free when a nested object fails to
 deserialize

The error paths released the object but left the handle behind, and the
caller released it a second time.
---
 src/distribution_deserialize.h   | 1 +
 src/expression_deserialize.h     | 1 +
 src/features_tuner_deserialize.h | 1 +
 src/parameter_deserialize.h      | 1 +
 src/tree_space_deserialize.h     | 1 +
 src/tree_tuner_deserialize.h     | 1 +
 src/tuner_deserialize.h          | 1 +
 7 files changed, 7 insertions(+)

diff --git a/src/distribution_deserialize.h b/src/distribution_deserialize.h
index d476cf4..8d3529f 100644
--- a/src/distribution_deserialize.h
+++ b/src/distribution_deserialize.h
@@ -372,6 +372,7 @@ _ccs_deserialize_bin_distribution(
 	return CCS_RESULT_SUCCESS;
 err_dis:
 	ccs_release_object(*distribution_ret);
+	*distribution_ret = NULL;
 	return res;
 }
 
diff --git a/src/expression_deserialize.h b/src/expression_deserialize.h
index 15ec662..e423e4e 100644
--- a/src/expression_deserialize.h
+++ b/src/expression_deserialize.h
@@ -218,6 +218,7 @@ _ccs_deserialize_bin_expression(
 	return CCS_RESULT_SUCCESS;
 err_exp:
 	ccs_release_object(*expression_ret);
+	*expression_ret = NULL;
 	return res;
 }
 
diff --git a/src/features_tuner_deserialize.h b/src/features_tuner_deserialize.h
index 73a35e7..b98a86a 100644
--- a/src/features_tuner_deserialize.h
+++ b/src/features_tuner_deserialize.h
@@ -315,6 +315,7 @@ _ccs_deserialize_bin_features_tuner(
 	goto end;
 err_features_tuner:
 	ccs_release_object(*features_tuner_ret);
+	*features_tuner_ret = NULL;
 end:
 	ccs_release_object(new_opts.handle_map);
 	return res;
diff --git a/src/parameter_deserialize.h b/src/parameter_deserialize.h
index c702021..4d228ee 100644
--- a/src/parameter_deserialize.h
+++ b/src/parameter_deserialize.h
@@ -204,6 +204,7 @@ _ccs_deserialize_bin_parameter(
 	return CCS_RESULT_SUCCESS;
 err_parameter:
 	ccs_release_object(*parameter_ret);
+	*parameter_ret = NULL;
 	return res;
 }
 
diff --git a/src/tree_space_deserialize.h b/src/tree_space_deserialize.h
index 2f3fc05..5b637fc 100644
--- a/src/tree_space_deserialize.h
+++ b/src/tree_space_deserialize.h
@@ -165,6 +165,7 @@ _ccs_deserialize_bin_tree_space(
 	return CCS_RESULT_SUCCESS;
 err_tree_space:
 	ccs_release_object(*tree_space_ret);
+	*tree_space_ret = NULL;
 	return res;
 }
 
diff --git a/src/tree_tuner_deserialize.h b/src/tree_tuner_deserialize.h
index 5126d68..389900e 100644
--- a/src/tree_tuner_deserialize.h
+++ b/src/tree_tuner_deserialize.h
@@ -295,6 +295,7 @@ _ccs_deserialize_bin_tree_tuner(
 	goto end;
 err_tuner:
 	ccs_release_object(*tuner_ret);
+	*tuner_ret = NULL;
 end:
 	ccs_release_object(new_opts.handle_map);
 	return res;
diff --git a/src/tuner_deserialize.h b/src/tuner_deserialize.h
index 468a24b..9f9f99b 100644
--- a/src/tuner_deserialize.h
+++ b/src/tuner_deserialize.h
@@ -294,6 +294,7 @@ _ccs_deserialize_bin_tuner(
 	goto end;
 err_tuner:
 	ccs_release_object(*tuner_ret);
+	*tuner_ret = NULL;
 end:
 	ccs_release_object(new_opts.handle_map);
 	return res;
-- 
2.43.0


From b3b709c8431683b264967cd2ebade5077001f7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:43 +0000
Subject: [PATCH 39/83] fix: objects leaked when a deserialization fails

An object whose user data could not be read was leaked (and a handle to it
left in the output), and so were the history of a features tuner, a
configuration space whose generator is refused and the handle map of a
tuner of unknown type.
---
 src/cconfigspace.c                    | 27 ++++++++++++++++++++++++++-
 src/configuration_space_deserialize.h |  2 +-
 src/expression_deserialize.h          | 15 +++++++++------
 src/features_tuner_deserialize.h      | 21 ++++++++++++---------
 src/tree_tuner_deserialize.h          |  4 ++--
 src/tuner_deserialize.h               |  4 ++--
 6 files changed, 52 insertions(+), 21 deletions(-)

diff --git a/src/cconfigspace.c b/src/cconfigspace.c
index 948cd55..cc11ac9 100644
--- a/src/cconfigspace.c
+++ b/src/cconfigspace.c
@@ -584,7 +584,7 @@ _ccs_object_deserialize_options(
 }
 
 static inline ccs_result_t
-_ccs_object_deserialize_with_opts(
+_ccs_object_deserialize_any(
 	ccs_object_t                      *object_ret,
 	ccs_serialize_format_t             format,
 	uint32_t                           version,
@@ -708,6 +708,31 @@ _ccs_object_deserialize_with_opts(
 	return CCS_RESULT_SUCCESS;
 }
 
+static inline ccs_result_t
+_ccs_object_deserialize_with_opts(
+	ccs_object_t                      *object_ret,
+	ccs_serialize_format_t             format,
+	uint32_t                           version,
+	size_t                            *buffer_size,
+	const char                       **buffer,
+	_ccs_object_deserialize_options_t *opts)
+{
+	ccs_object_t object = NULL;
+	ccs_result_t res;
+	CCS_VALIDATE_ERR_GOTO(
+		res,
+		_ccs_object_deserialize_any(
+			&object, format, version, buffer_size, buffer, opts),
+		err_object);
+	*object_ret = object;
+	return CCS_RESULT_SUCCESS;
+err_object:
+	/* the object itself was fine but not what follows (user data) */
+	if (object)
+		ccs_release_object(object);
+	return res;
+}
+
 static inline ccs_result_t
 _ccs_object_deserialize(
 	ccs_object_t             *object_ret,
diff --git a/src/configuration_space_deserialize.h b/src/configuration_space_deserialize.h
index 96b5faf..e3d9156 100644
--- a/src/configuration_space_deserialize.h
+++ b/src/configuration_space_deserialize.h
@@ -152,7 +152,7 @@ _ccs_deserialize_bin_configuration_space(
 		res,
 		ccs_configuration_space_set_rng(
 			*configuration_space_ret, data.rng),
-		end);
+		err_configuration_space);
 	CCS_VALIDATE_ERR_GOTO(
 		res,
 		ccs_configuration_space_add_parameters(
diff --git a/src/expression_deserialize.h b/src/expression_deserialize.h
index e423e4e..e21f519 100644
--- a/src/expression_deserialize.h
+++ b/src/expression_deserialize.h
@@ -45,12 +45,15 @@ _ccs_deserialize_bin_ccs_expression_data(
 			data->num_nodes, sizeof(ccs_datum_t));
 		CCS_REFUTE(!data->nodes, CCS_RESULT_ERROR_OUT_OF_MEMORY);
 		for (size_t i = 0; i < data->num_nodes; i++) {
-			ccs_expression_t expr;
-			CCS_VALIDATE(_ccs_expression_deserialize(
-				&expr, CCS_SERIALIZE_FORMAT_BINARY, version,
-				buffer_size, buffer, opts));
-			data->nodes[i].type    = CCS_DATA_TYPE_OBJECT;
-			data->nodes[i].value.o = expr;
+			ccs_expression_t expr = NULL;
+			ccs_result_t     res  = _ccs_expression_deserialize(
+                                &expr, CCS_SERIALIZE_FORMAT_BINARY, version,
+                                buffer_size, buffer, opts);
+			if (expr) {
+				data->nodes[i].type    = CCS_DATA_TYPE_OBJECT;
+				data->nodes[i].value.o = expr;
+			}
+			CCS_VALIDATE(res);
 		}
 	}
 	return CCS_RESULT_SUCCESS;
diff --git a/src/features_tuner_deserialize.h b/src/features_tuner_deserialize.h
index b98a86a..680454f 100644
--- a/src/features_tuner_deserialize.h
+++ b/src/features_tuner_deserialize.h
@@ -125,7 +125,7 @@ _ccs_deserialize_bin_random_features_tuner(
 		res,
 		_ccs_deserialize_bin_ccs_random_features_tuner_data(
 			&data, version, buffer_size, buffer, opts),
-		end);
+		features_evaluations);
 	CCS_VALIDATE_ERR_GOTO(
 		res,
 		ccs_create_random_features_tuner(
@@ -145,8 +145,10 @@ features_tuner:
 	ccs_release_object(*features_tuner_ret);
 	*features_tuner_ret = NULL;
 features_evaluations:
-	for (size_t i = 0; i < data.size_history; i++)
-		ccs_release_object(data.history[i]);
+	if (data.history)
+		for (size_t i = 0; i < data.size_history; i++)
+			if (data.history[i])
+				ccs_release_object(data.history[i]);
 end:
 	if (data.common_data.configuration_space)
 		ccs_release_object(data.common_data.configuration_space);
@@ -205,7 +207,7 @@ _ccs_deserialize_bin_user_defined_features_tuner(
 		res,
 		_ccs_deserialize_bin_ccs_user_defined_features_tuner_data(
 			&data, version, buffer_size, buffer, opts),
-		end);
+		evaluations);
 	CCS_VALIDATE_ERR_GOTO(
 		res,
 		ccs_create_user_defined_features_tuner(
@@ -239,9 +241,10 @@ features_tuner:
 	ccs_release_object(*features_tuner_ret);
 	*features_tuner_ret = NULL;
 evaluations:
-	for (size_t i = 0; i < data.base_data.size_history; i++)
-		ccs_release_object(data.base_data.history[i]);
-end:
+	if (data.base_data.history)
+		for (size_t i = 0; i < data.base_data.size_history; i++)
+			if (data.base_data.history[i])
+				ccs_release_object(data.base_data.history[i]);
 	if (data.base_data.common_data.configuration_space)
 		ccs_release_object(
 			data.base_data.common_data.configuration_space);
@@ -299,8 +302,8 @@ _ccs_deserialize_bin_features_tuner(
 			end);
 		break;
 	default:
-		CCS_RAISE(
-			CCS_RESULT_ERROR_UNSUPPORTED_OPERATION,
+		CCS_RAISE_ERR_GOTO(
+			res, CCS_RESULT_ERROR_UNSUPPORTED_OPERATION, end,
 			"Unsuported features tuner type: %d", ttype);
 	}
 	if (opts->handle_map)
diff --git a/src/tree_tuner_deserialize.h b/src/tree_tuner_deserialize.h
index 389900e..a9e818e 100644
--- a/src/tree_tuner_deserialize.h
+++ b/src/tree_tuner_deserialize.h
@@ -279,8 +279,8 @@ _ccs_deserialize_bin_tree_tuner(
 			end);
 		break;
 	default:
-		CCS_RAISE(
-			CCS_RESULT_ERROR_INVALID_TYPE,
+		CCS_RAISE_ERR_GOTO(
+			res, CCS_RESULT_ERROR_INVALID_TYPE, end,
 			"Unsupported tuner type: %d", ttype);
 	}
 	if (opts->handle_map)
diff --git a/src/tuner_deserialize.h b/src/tuner_deserialize.h
index 9f9f99b..2df5f6b 100644
--- a/src/tuner_deserialize.h
+++ b/src/tuner_deserialize.h
@@ -278,8 +278,8 @@ _ccs_deserialize_bin_tuner(
 			end);
 		break;
 	default:
-		CCS_RAISE(
-			CCS_RESULT_ERROR_INVALID_TYPE,
+		CCS_RAISE_ERR_GOTO(
+			res, CCS_RESULT_ERROR_INVALID_TYPE, end,
 			"Unsupported tuner type: %d", ttype);
 	}
 	if (opts->handle_map)
-- 
2.43.0


From 08d4e210f38c1505156eaafca779b8a62099e6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:43 +0000
Subject: [PATCH 40/83] fix: spaces using an expression or a distribution twice
 could not be deserialized

---
 src/configuration_space_deserialize.h | 12 +++++++++---
 src/objective_space_deserialize.h     |  6 +++++-
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/configuration_space_deserialize.h b/src/configuration_space_deserialize.h
index e3d9156..7aae264 100644
--- a/src/configuration_space_deserialize.h
+++ b/src/configuration_space_deserialize.h
@@ -32,6 +32,12 @@ _ccs_deserialize_bin_ccs_configuration_space_data(
 	_ccs_object_deserialize_options_t    *opts)
 {
 	uintptr_t mem;
+	/* expressions and distributions can appear several times, and nothing
+	 * refers to them by handle */
+	_ccs_object_deserialize_options_t expr_opts    = *opts;
+	_ccs_object_deserialize_options_t distrib_opts = *opts;
+	expr_opts.map_values                           = CCS_FALSE;
+	distrib_opts.handle_map                        = NULL;
 
 	CCS_VALIDATE(
 		_ccs_deserialize_bin_string(&data->name, buffer_size, buffer));
@@ -85,7 +91,7 @@ _ccs_deserialize_bin_ccs_configuration_space_data(
 			data->cond_parameter_indices + i, buffer_size, buffer));
 		CCS_VALIDATE(_ccs_expression_deserialize(
 			data->conditions + i, CCS_SERIALIZE_FORMAT_BINARY,
-			version, buffer_size, buffer, opts));
+			version, buffer_size, buffer, &expr_opts));
 	}
 
 	size_t *indices;
@@ -93,7 +99,7 @@ _ccs_deserialize_bin_ccs_configuration_space_data(
 	for (size_t i = 0; i < data->num_distributions; i++) {
 		CCS_VALIDATE(_ccs_distribution_deserialize(
 			data->distributions + i, CCS_SERIALIZE_FORMAT_BINARY,
-			version, buffer_size, buffer, opts));
+			version, buffer_size, buffer, &distrib_opts));
 		CCS_VALIDATE(_ccs_deserialize_bin_size(
 			data->dimensions + i, buffer_size, buffer));
 		for (size_t j = 0; j < data->dimensions[i]; j++) {
@@ -107,7 +113,7 @@ _ccs_deserialize_bin_ccs_configuration_space_data(
 		CCS_VALIDATE(_ccs_expression_deserialize(
 			data->forbidden_clauses + i,
 			CCS_SERIALIZE_FORMAT_BINARY, version, buffer_size,
-			buffer, opts));
+			buffer, &expr_opts));
 	}
 
 	return CCS_RESULT_SUCCESS;
diff --git a/src/objective_space_deserialize.h b/src/objective_space_deserialize.h
index 3baec98..f329f96 100644
--- a/src/objective_space_deserialize.h
+++ b/src/objective_space_deserialize.h
@@ -22,6 +22,10 @@ _ccs_deserialize_bin_ccs_objective_space_data(
 	_ccs_object_deserialize_options_t *opts)
 {
 	uintptr_t mem;
+	/* expressions can appear several times, and nothing refers to them by
+	 * handle */
+	_ccs_object_deserialize_options_t expr_opts = *opts;
+	expr_opts.map_values                        = CCS_FALSE;
 
 	CCS_VALIDATE(
 		_ccs_deserialize_bin_string(&data->name, buffer_size, buffer));
@@ -52,7 +56,7 @@ _ccs_deserialize_bin_ccs_objective_space_data(
 	for (size_t i = 0; i < data->num_objectives; i++) {
 		CCS_VALIDATE(_ccs_expression_deserialize(
 			data->objectives + i, CCS_SERIALIZE_FORMAT_BINARY,
-			version, buffer_size, buffer, opts));
+			version, buffer_size, buffer, &expr_opts));
 		CCS_VALIDATE(_ccs_deserialize_bin_ccs_objective_type(
 			data->objective_types + i, buffer_size, buffer));
 	}
-- 
2.43.0


From 28f18ae35054018ec20709ec368b921462a7dc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:20 +0000
Subject: [PATCH 41/83] fix: categorical parameters could be deserialized with
 another default value

The possible values are told apart by representation (0 and 0.0, 0.0 and
-0.0 are different values), but the default was looked for with a numerical
comparison.
---
 src/parameter_deserialize.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/parameter_deserialize.h b/src/parameter_deserialize.h
index 4d228ee..e1af6bd 100644
--- a/src/parameter_deserialize.h
+++ b/src/parameter_deserialize.h
@@ -2,6 +2,7 @@
 #define _PARAMETER_DESERIALIZE_H
 #include "cconfigspace_internal.h"
 #include "parameter_internal.h"
+#include "datum_hash.h"
 
 static inline ccs_result_t
 _ccs_deserialize_bin_parameter_numerical(
@@ -78,11 +79,12 @@ _ccs_deserialize_bin_parameter_categorical(
 		end);
 	size_t default_value_index;
 	for (size_t i = 0; i < data.num_possible_values; i++)
-		if (!ccs_datum_cmp(
-			    data.common_data.default_value,
-			    data.possible_values[i])) {
+		if (!_datum_cmp(
+			    &data.common_data.default_value,
+			    data.possible_values + i)) {
 			found               = 1;
 			default_value_index = i;
+			break;
 		}
 	CCS_REFUTE_ERR_GOTO(res, !found, CCS_RESULT_ERROR_INVALID_VALUE, end);
 
-- 
2.43.0


From 5807c989caefda058261114aa28207ae84fae562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:41 +0000
Subject: [PATCH 42/83] fix: tuners told the same evaluation twice could not be
 deserialized

Also check that the optima are evaluations.
---
 src/cconfigspace_internal.h      | 21 +++++++++++++++++++++
 src/features_tuner_deserialize.h | 20 ++++++++++++++++++--
 src/tree_tuner_deserialize.h     | 20 ++++++++++++++++++--
 src/tuner_deserialize.h          | 20 ++++++++++++++++++--
 4 files changed, 75 insertions(+), 6 deletions(-)

diff --git a/src/cconfigspace_internal.h b/src/cconfigspace_internal.h
index 6503520..2621a81 100644
--- a/src/cconfigspace_internal.h
+++ b/src/cconfigspace_internal.h
@@ -1069,6 +1069,27 @@ _ccs_object_handle_check_add(
 	return CCS_RESULT_SUCCESS;
 }
 
+/* Find the object already deserialized under the handle found at the head of
+ * the buffer, if any. */
+static inline ccs_result_t
+_ccs_object_handle_peek(
+	ccs_map_t     map,
+	size_t       *buffer_size,
+	const char  **buffer,
+	ccs_object_t *obj_ret)
+{
+	size_t                 buff_size = *buffer_size;
+	const char            *buff      = *buffer;
+	_ccs_object_internal_t obj;
+	ccs_object_t           handle;
+	ccs_datum_t            d;
+	CCS_VALIDATE(_ccs_deserialize_bin_ccs_object_internal(
+		&obj, &buff_size, &buff, &handle));
+	CCS_VALIDATE(ccs_map_get(map, ccs_object(handle), &d));
+	*obj_ret = d.type == CCS_DATA_TYPE_OBJECT ? d.value.o : NULL;
+	return CCS_RESULT_SUCCESS;
+}
+
 struct _ccs_object_deserialize_options_s {
 	ccs_map_t                         handle_map;
 	ccs_bool_t                        map_values;
diff --git a/src/features_tuner_deserialize.h b/src/features_tuner_deserialize.h
index 680454f..13c8deb 100644
--- a/src/features_tuner_deserialize.h
+++ b/src/features_tuner_deserialize.h
@@ -68,10 +68,25 @@ _ccs_deserialize_bin_ccs_random_features_tuner_data(
 	mem += data->size_history * sizeof(ccs_features_evaluation_t);
 	data->optima = (ccs_features_evaluation_t *)mem;
 
-	for (size_t i = 0; i < data->size_history; i++)
+	for (size_t i = 0; i < data->size_history; i++) {
+		_ccs_object_deserialize_options_t new_opts = *opts;
+		ccs_object_t                      known;
+		CCS_VALIDATE(_ccs_object_handle_peek(
+			opts->handle_map, buffer_size, buffer, &known));
+		/* the same evaluation can have been told several times */
+		if (known) {
+			CCS_CHECK_OBJ(known, CCS_OBJECT_TYPE_FEATURES_EVALUATION);
+			new_opts.map_values = CCS_FALSE;
+		}
 		CCS_VALIDATE(_ccs_features_evaluation_deserialize(
 			data->history + i, CCS_SERIALIZE_FORMAT_BINARY, version,
-			buffer_size, buffer, opts));
+			buffer_size, buffer, &new_opts));
+		if (known) {
+			CCS_VALIDATE(ccs_retain_object(known));
+			ccs_release_object(data->history[i]);
+			data->history[i] = (ccs_features_evaluation_t)known;
+		}
+	}
 
 	for (size_t i = 0; i < data->size_optima; i++)
 		CCS_VALIDATE(_ccs_deserialize_bin_ccs_object(
@@ -83,6 +98,7 @@ _ccs_deserialize_bin_ccs_random_features_tuner_data(
 		CCS_REFUTE(
 			d.type != CCS_DATA_TYPE_OBJECT,
 			CCS_RESULT_ERROR_INVALID_HANDLE);
+		CCS_CHECK_OBJ(d.value.o, CCS_OBJECT_TYPE_FEATURES_EVALUATION);
 		data->optima[i] = (ccs_features_evaluation_t)(d.value.o);
 	}
 	return CCS_RESULT_SUCCESS;
diff --git a/src/tree_tuner_deserialize.h b/src/tree_tuner_deserialize.h
index a9e818e..c41e576 100644
--- a/src/tree_tuner_deserialize.h
+++ b/src/tree_tuner_deserialize.h
@@ -64,10 +64,25 @@ _ccs_deserialize_bin_ccs_random_tree_tuner_data(
 	mem += data->size_history * sizeof(ccs_tree_evaluation_t);
 	data->optima = (ccs_tree_evaluation_t *)mem;
 
-	for (size_t i = 0; i < data->size_history; i++)
+	for (size_t i = 0; i < data->size_history; i++) {
+		_ccs_object_deserialize_options_t new_opts = *opts;
+		ccs_object_t                      known;
+		CCS_VALIDATE(_ccs_object_handle_peek(
+			opts->handle_map, buffer_size, buffer, &known));
+		/* the same evaluation can have been told several times */
+		if (known) {
+			CCS_CHECK_OBJ(known, CCS_OBJECT_TYPE_TREE_EVALUATION);
+			new_opts.map_values = CCS_FALSE;
+		}
 		CCS_VALIDATE(_ccs_tree_evaluation_deserialize(
 			data->history + i, CCS_SERIALIZE_FORMAT_BINARY, version,
-			buffer_size, buffer, opts));
+			buffer_size, buffer, &new_opts));
+		if (known) {
+			CCS_VALIDATE(ccs_retain_object(known));
+			ccs_release_object(data->history[i]);
+			data->history[i] = (ccs_tree_evaluation_t)known;
+		}
+	}
 
 	for (size_t i = 0; i < data->size_optima; i++)
 		CCS_VALIDATE(_ccs_deserialize_bin_ccs_object(
@@ -79,6 +94,7 @@ _ccs_deserialize_bin_ccs_random_tree_tuner_data(
 		CCS_REFUTE(
 			d.type != CCS_DATA_TYPE_OBJECT,
 			CCS_RESULT_ERROR_INVALID_HANDLE);
+		CCS_CHECK_OBJ(d.value.o, CCS_OBJECT_TYPE_TREE_EVALUATION);
 		data->optima[i] = (ccs_tree_evaluation_t)(d.value.o);
 	}
 	return CCS_RESULT_SUCCESS;
diff --git a/src/tuner_deserialize.h b/src/tuner_deserialize.h
index 2df5f6b..a3511e0 100644
--- a/src/tuner_deserialize.h
+++ b/src/tuner_deserialize.h
@@ -63,10 +63,25 @@ _ccs_deserialize_bin_ccs_random_tuner_data(
 	mem += data->size_history * sizeof(ccs_evaluation_t);
 	data->optima = (ccs_evaluation_t *)mem;
 
-	for (size_t i = 0; i < data->size_history; i++)
+	for (size_t i = 0; i < data->size_history; i++) {
+		_ccs_object_deserialize_options_t new_opts = *opts;
+		ccs_object_t                      known;
+		CCS_VALIDATE(_ccs_object_handle_peek(
+			opts->handle_map, buffer_size, buffer, &known));
+		/* the same evaluation can have been told several times */
+		if (known) {
+			CCS_CHECK_OBJ(known, CCS_OBJECT_TYPE_EVALUATION);
+			new_opts.map_values = CCS_FALSE;
+		}
 		CCS_VALIDATE(_ccs_evaluation_deserialize(
 			data->history + i, CCS_SERIALIZE_FORMAT_BINARY, version,
-			buffer_size, buffer, opts));
+			buffer_size, buffer, &new_opts));
+		if (known) {
+			CCS_VALIDATE(ccs_retain_object(known));
+			ccs_release_object(data->history[i]);
+			data->history[i] = (ccs_evaluation_t)known;
+		}
+	}
 
 	for (size_t i = 0; i < data->size_optima; i++)
 		CCS_VALIDATE(_ccs_deserialize_bin_ccs_object(
@@ -78,6 +93,7 @@ _ccs_deserialize_bin_ccs_random_tuner_data(
 		CCS_REFUTE(
 			d.type != CCS_DATA_TYPE_OBJECT,
 			CCS_RESULT_ERROR_INVALID_HANDLE);
+		CCS_CHECK_OBJ(d.value.o, CCS_OBJECT_TYPE_EVALUATION);
 		data->optima[i] = (ccs_evaluation_t)(d.value.o);
 	}
 	return CCS_RESULT_SUCCESS;
-- 
2.43.0


From 6037f8a1366c556a365e9ccd6547cf1a9563467a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:20 +0000
Subject: [PATCH 43/83] fix: non blocking serialization used uninitialized
 memory

The start of the allocation was not recorded, so that a resumed operation
read and freed an uninitialized pointer, and a resumed operation returned an
uninitialized result.
---
 src/cconfigspace.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cconfigspace.c b/src/cconfigspace.c
index cc11ac9..cd7adca 100644
--- a/src/cconfigspace.c
+++ b/src/cconfigspace.c
@@ -392,7 +392,7 @@ _ccs_object_serialize_file_descriptor(
 	va_list                args)
 {
 	int                             fd;
-	ccs_result_t                    res;
+	ccs_result_t                    res    = CCS_RESULT_SUCCESS;
 	_ccs_object_serialize_options_t opts   = {NULL, NULL, NULL};
 	_ccs_file_descriptor_state_t    state  = {NULL, 0, NULL, 0, -1, 0};
 	_ccs_file_descriptor_state_t   *pstate = NULL;
@@ -424,6 +424,7 @@ _ccs_object_serialize_file_descriptor(
 			CCS_REFUTE(!mem, CCS_RESULT_ERROR_OUT_OF_MEMORY);
 			*(opts.ppfd_state) = pstate =
 				(_ccs_file_descriptor_state_t *)mem;
+			pstate->base = mem;
 			pstate->base_size =
 				sizeof(_ccs_file_descriptor_state_t) +
 				object_size;
-- 
2.43.0


From 3caf5025d7eddc40343f63087771be6acd7ef74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:20 +0000
Subject: [PATCH 44/83] fix: non blocking deserialization kept using the state
 it had moved

---
 src/cconfigspace.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cconfigspace.c b/src/cconfigspace.c
index cd7adca..9dfeb05 100644
--- a/src/cconfigspace.c
+++ b/src/cconfigspace.c
@@ -941,6 +941,10 @@ _ccs_object_deserialize_file_descriptor(
 		CCS_REFUTE_ERR_GOTO(
 			res, !new_buffer, CCS_RESULT_ERROR_OUT_OF_MEMORY,
 			err_fd_buffer);
+		/* the state is at the start of the buffer */
+		if (non_blocking)
+			*(opts.ppfd_state) = pstate =
+				(_ccs_file_descriptor_state_t *)new_buffer;
 		pstate->base = new_buffer;
 		/* seek to after the header */
 		offset       = header_size;
-- 
2.43.0


From 2815e34f4a2674b37ff61b1417a42d64c2dcfa3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:20 +0000
Subject: [PATCH 45/83] fix: truncated or corrupted file descriptor streams
 hung or overflowed

Deserializing from a file descriptor never ended when the other end was
closed early, and a header announcing less than its own size made the
remaining size wrap around.
---
 src/cconfigspace.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cconfigspace.c b/src/cconfigspace.c
index 9dfeb05..164ad1a 100644
--- a/src/cconfigspace.c
+++ b/src/cconfigspace.c
@@ -844,6 +844,8 @@ _ccs_object_deserialize_file_descriptor_read_loop(
 			if (errno == EAGAIN && non_blocking)
 				return CCS_RESULT_AGAIN;
 		} else {
+			/* end of file */
+			CCS_REFUTE(!count, CCS_RESULT_ERROR_NOT_ENOUGH_DATA);
 			pstate->buffer_size -= count;
 			pstate->buffer += count;
 		}
@@ -930,6 +932,12 @@ _ccs_object_deserialize_file_descriptor(
 				(const char **)&pstate->buffer, &object_size,
 				&pstate->version),
 			err_fd_buffer);
+		/* the size is that of the header and of the object */
+		CCS_REFUTE_ERR_GOTO(
+			res,
+			object_size <= header_size ||
+				object_size > SIZE_MAX - sizeof(*pstate),
+			CCS_RESULT_ERROR_INVALID_VALUE, err_fd_buffer);
 		/* reallocate buffer to account for whole size */
 		if (non_blocking)
 			pstate->base_size =
-- 
2.43.0


From 90305fc30b1f8dbb4ee707d8084e0502fb41c2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:17 +0000
Subject: [PATCH 46/83] fix: the size of serialized user data was not checked
 when deserializing

---
 src/cconfigspace_internal.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cconfigspace_internal.h b/src/cconfigspace_internal.h
index 2621a81..bb78e91 100644
--- a/src/cconfigspace_internal.h
+++ b/src/cconfigspace_internal.h
@@ -1203,6 +1203,9 @@ _ccs_object_deserialize_user_data(
 		size_t serialize_data_size;
 		CCS_VALIDATE(_ccs_deserialize_bin_size(
 			&serialize_data_size, buffer_size, buffer));
+		CCS_REFUTE(
+			*buffer_size < serialize_data_size,
+			CCS_RESULT_ERROR_NOT_ENOUGH_DATA);
 		if (serialize_data_size) {
 			if (opts->deserialize_callback)
 				CCS_VALIDATE(opts->deserialize_callback(
-- 
2.43.0


From 1df37c17968bbb0ad345a294a894f20280caec3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:17 +0000
Subject: [PATCH 47/83] fix: over long integers were shifted out of their type
 when deserializing

---
 src/cconfigspace_internal.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cconfigspace_internal.h b/src/cconfigspace_internal.h
index bb78e91..864437f 100644
--- a/src/cconfigspace_internal.h
+++ b/src/cconfigspace_internal.h
@@ -501,6 +501,9 @@ ccs_zigzag_decode_int64(uint64_t x)
 			CCS_REFUTE(                                            \
 				buff_size < 1,                                 \
 				CCS_RESULT_ERROR_NOT_ENOUGH_DATA);             \
+			CCS_REFUTE(                                            \
+				shift >= 8 * sizeof(MAPPED_TYPE),              \
+				CCS_RESULT_ERROR_INVALID_VALUE);               \
 			y = *buff;                                             \
 			v |= (y & 0x7f) << shift;                              \
 			buff_size -= 1;                                        \
-- 
2.43.0


From 05eee70af3381ab0cfbc3d0db460825c8379f7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:17 +0000
Subject: [PATCH 48/83] fix: element counts read from a stream overflowed
 allocation sizes

---
 src/binding_internal.h                | 2 +-
 src/cconfigspace_internal.h           | 9 +++++++++
 src/configuration_space_deserialize.h | 8 ++++----
 src/context_deserialize.h             | 2 +-
 src/distribution_deserialize.h        | 6 +++---
 src/expression_deserialize.h          | 2 +-
 src/features_tuner_deserialize.h      | 4 ++--
 src/map_deserialize.h                 | 2 +-
 src/objective_space_deserialize.h     | 4 ++--
 src/parameter_deserialize.h           | 2 +-
 src/tree_configuration_deserialize.h  | 2 +-
 src/tree_deserialize.h                | 2 +-
 src/tree_tuner_deserialize.h          | 4 ++--
 src/tuner_deserialize.h               | 4 ++--
 14 files changed, 31 insertions(+), 22 deletions(-)

diff --git a/src/binding_internal.h b/src/binding_internal.h
index 60573d4..1b4897e 100644
--- a/src/binding_internal.h
+++ b/src/binding_internal.h
@@ -285,7 +285,7 @@ _ccs_deserialize_bin_ccs_binding_data(
 	(void)version;
 	CCS_VALIDATE(_ccs_deserialize_bin_ccs_object(
 		(ccs_object_t *)&data->context, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->num_values, buffer_size, buffer));
 	if (data->num_values) {
 		data->values = (ccs_datum_t *)calloc(
diff --git a/src/cconfigspace_internal.h b/src/cconfigspace_internal.h
index 864437f..ee9c383 100644
--- a/src/cconfigspace_internal.h
+++ b/src/cconfigspace_internal.h
@@ -753,6 +753,15 @@ _ccs_deserialize_bin_size(size_t *sz, size_t *buffer_size, const char **buffer)
 	return CCS_RESULT_SUCCESS;
 }
 
+/* Number of elements that follow in the buffer, each takes at least a byte */
+static inline ccs_result_t
+_ccs_deserialize_bin_count(size_t *sz, size_t *buffer_size, const char **buffer)
+{
+	CCS_VALIDATE(_ccs_deserialize_bin_size(sz, buffer_size, buffer));
+	CCS_REFUTE(*buffer_size < *sz, CCS_RESULT_ERROR_NOT_ENOUGH_DATA);
+	return CCS_RESULT_SUCCESS;
+}
+
 static inline size_t
 _ccs_serialize_bin_size_string(const char *str)
 {
diff --git a/src/configuration_space_deserialize.h b/src/configuration_space_deserialize.h
index 7aae264..5f53af5 100644
--- a/src/configuration_space_deserialize.h
+++ b/src/configuration_space_deserialize.h
@@ -41,13 +41,13 @@ _ccs_deserialize_bin_ccs_configuration_space_data(
 
 	CCS_VALIDATE(
 		_ccs_deserialize_bin_string(&data->name, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->num_parameters, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->num_conditions, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->num_distributions, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->num_forbidden_clauses, buffer_size, buffer));
 	CCS_VALIDATE(_ccs_rng_deserialize(
 		&data->rng, CCS_SERIALIZE_FORMAT_BINARY, version, buffer_size,
diff --git a/src/context_deserialize.h b/src/context_deserialize.h
index e8fa1c8..39e001b 100644
--- a/src/context_deserialize.h
+++ b/src/context_deserialize.h
@@ -22,7 +22,7 @@ _ccs_deserialize_bin_ccs_context_data(
 	data->parameters     = NULL;
 	CCS_VALIDATE(
 		_ccs_deserialize_bin_string(&data->name, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->num_parameters, buffer_size, buffer));
 	if (data->num_parameters) {
 		data->parameters = (ccs_parameter_t *)calloc(
diff --git a/src/distribution_deserialize.h b/src/distribution_deserialize.h
index 8d3529f..a8d5493 100644
--- a/src/distribution_deserialize.h
+++ b/src/distribution_deserialize.h
@@ -130,7 +130,7 @@ _ccs_deserialize_bin_ccs_distribution_roulette_data(
 {
 	CCS_VALIDATE(_ccs_deserialize_bin_ccs_distribution_common_data(
 		&data->common_data, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->num_areas, buffer_size, buffer));
 	data->areas =
 		(ccs_float_t *)malloc(data->num_areas * sizeof(ccs_float_t));
@@ -198,7 +198,7 @@ _ccs_deserialize_bin_ccs_distribution_mixture_data(
 	new_opts.handle_map                        = NULL;
 	CCS_VALIDATE(_ccs_deserialize_bin_ccs_distribution_common_data(
 		&data->common_data, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->num_distributions, buffer_size, buffer));
 	data->distributions = (ccs_distribution_t *)calloc(
 		data->num_distributions, sizeof(ccs_distribution_t));
@@ -271,7 +271,7 @@ _ccs_deserialize_bin_ccs_distribution_multivariate_data(
 	new_opts.handle_map                        = NULL;
 	CCS_VALIDATE(_ccs_deserialize_bin_ccs_distribution_common_data(
 		&data->common_data, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->num_distributions, buffer_size, buffer));
 	data->distributions = (ccs_distribution_t *)calloc(
 		data->num_distributions, sizeof(ccs_distribution_t));
diff --git a/src/expression_deserialize.h b/src/expression_deserialize.h
index e21f519..cd44dd3 100644
--- a/src/expression_deserialize.h
+++ b/src/expression_deserialize.h
@@ -38,7 +38,7 @@ _ccs_deserialize_bin_ccs_expression_data(
 	data->nodes = NULL;
 	CCS_VALIDATE(_ccs_deserialize_bin_ccs_expression_type(
 		&data->type, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->num_nodes, buffer_size, buffer));
 	if (data->num_nodes) {
 		data->nodes = (ccs_datum_t *)calloc(
diff --git a/src/features_tuner_deserialize.h b/src/features_tuner_deserialize.h
index 13c8deb..50e2d3c 100644
--- a/src/features_tuner_deserialize.h
+++ b/src/features_tuner_deserialize.h
@@ -52,9 +52,9 @@ _ccs_deserialize_bin_ccs_random_features_tuner_data(
 
 	CCS_VALIDATE(_ccs_deserialize_bin_ccs_features_tuner_common_data(
 		&data->common_data, version, buffer_size, buffer, opts));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->size_history, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->size_optima, buffer_size, buffer));
 
 	if (!(data->size_history + data->size_optima))
diff --git a/src/map_deserialize.h b/src/map_deserialize.h
index 4f44632..908e404 100644
--- a/src/map_deserialize.h
+++ b/src/map_deserialize.h
@@ -21,7 +21,7 @@ _ccs_deserialize_bin_ccs_map_data(
 	size_t               *buffer_size,
 	const char          **buffer)
 {
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->num_pairs, buffer_size, buffer));
 	data->pairs = (_ccs_map_pair_t *)malloc(
 		data->num_pairs * sizeof(_ccs_map_pair_t));
diff --git a/src/objective_space_deserialize.h b/src/objective_space_deserialize.h
index f329f96..047e161 100644
--- a/src/objective_space_deserialize.h
+++ b/src/objective_space_deserialize.h
@@ -29,9 +29,9 @@ _ccs_deserialize_bin_ccs_objective_space_data(
 
 	CCS_VALIDATE(
 		_ccs_deserialize_bin_string(&data->name, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->num_parameters, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->num_objectives, buffer_size, buffer));
 
 	if (!(data->num_parameters + data->num_objectives))
diff --git a/src/parameter_deserialize.h b/src/parameter_deserialize.h
index e1af6bd..814a295 100644
--- a/src/parameter_deserialize.h
+++ b/src/parameter_deserialize.h
@@ -49,7 +49,7 @@ _ccs_deserialize_bin_ccs_parameter_categorical_data(
 {
 	CCS_VALIDATE(_ccs_deserialize_bin_ccs_parameter_common_data(
 		&data->common_data, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->num_possible_values, buffer_size, buffer));
 	data->possible_values = (ccs_datum_t *)malloc(
 		data->num_possible_values * sizeof(ccs_datum_t));
diff --git a/src/tree_configuration_deserialize.h b/src/tree_configuration_deserialize.h
index a46e280..38a4508 100644
--- a/src/tree_configuration_deserialize.h
+++ b/src/tree_configuration_deserialize.h
@@ -13,7 +13,7 @@ _ccs_deserialize_bin_tree_configuration_data(
 	(void)version;
 	CCS_VALIDATE(_ccs_deserialize_bin_ccs_object(
 		(ccs_object_t *)&data->tree_space, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->position_size, buffer_size, buffer));
 	if (data->position_size) {
 		data->position =
diff --git a/src/tree_deserialize.h b/src/tree_deserialize.h
index fbed9f0..542f1a9 100644
--- a/src/tree_deserialize.h
+++ b/src/tree_deserialize.h
@@ -32,7 +32,7 @@ _ccs_deserialize_bin_ccs_tree_data(
 	_ccs_object_deserialize_options_t new_opts = *opts;
 	new_opts.handle_map                        = NULL;
 	CCS_VALIDATE(
-		_ccs_deserialize_bin_size(&data->arity, buffer_size, buffer));
+		_ccs_deserialize_bin_count(&data->arity, buffer_size, buffer));
 	CCS_VALIDATE(_ccs_deserialize_bin_ccs_float(
 		&data->weight, buffer_size, buffer));
 	if (data->arity) {
diff --git a/src/tree_tuner_deserialize.h b/src/tree_tuner_deserialize.h
index c41e576..97cc31e 100644
--- a/src/tree_tuner_deserialize.h
+++ b/src/tree_tuner_deserialize.h
@@ -48,9 +48,9 @@ _ccs_deserialize_bin_ccs_random_tree_tuner_data(
 
 	CCS_VALIDATE(_ccs_deserialize_bin_size_ccs_tree_tuner_common_data(
 		&data->common_data, version, buffer_size, buffer, opts));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->size_history, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->size_optima, buffer_size, buffer));
 
 	if (!(data->size_history + data->size_optima))
diff --git a/src/tuner_deserialize.h b/src/tuner_deserialize.h
index a3511e0..e324aa5 100644
--- a/src/tuner_deserialize.h
+++ b/src/tuner_deserialize.h
@@ -47,9 +47,9 @@ _ccs_deserialize_bin_ccs_random_tuner_data(
 
 	CCS_VALIDATE(_ccs_deserialize_bin_size_ccs_tuner_common_data(
 		&data->common_data, version, buffer_size, buffer, opts));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->size_history, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->size_optima, buffer_size, buffer));
 
 	if (!(data->size_history + data->size_optima))
-- 
2.43.0


From 2bf32738a7ac51aae459f25df52464ced3ef00b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:17 +0000
Subject: [PATCH 49/83] fix: deserializing a literal or a variable with nodes
 crashed

---
 src/expression_deserialize.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/expression_deserialize.h b/src/expression_deserialize.h
index cd44dd3..eae0142 100644
--- a/src/expression_deserialize.h
+++ b/src/expression_deserialize.h
@@ -40,6 +40,9 @@ _ccs_deserialize_bin_ccs_expression_data(
 		&data->type, buffer_size, buffer));
 	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->num_nodes, buffer_size, buffer));
+	/* literals and variables do not have nodes */
+	CCS_REFUTE(
+		data->num_nodes && !opts, CCS_RESULT_ERROR_INVALID_VALUE);
 	if (data->num_nodes) {
 		data->nodes = (ccs_datum_t *)calloc(
 			data->num_nodes, sizeof(ccs_datum_t));
-- 
2.43.0


From a03f95187b4d6457231fdb39b98a4eab6081b7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:17 +0000
Subject: [PATCH 50/83] fix: dimensions read from a stream overflowed the
 distribution indices

---
 src/configuration_space_deserialize.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/configuration_space_deserialize.h b/src/configuration_space_deserialize.h
index 5f53af5..1e4c94e 100644
--- a/src/configuration_space_deserialize.h
+++ b/src/configuration_space_deserialize.h
@@ -94,7 +94,7 @@ _ccs_deserialize_bin_ccs_configuration_space_data(
 			version, buffer_size, buffer, &expr_opts));
 	}
 
-	size_t *indices;
+	size_t *indices, num_indices = 0;
 	indices = data->distrib_parameter_indices;
 	for (size_t i = 0; i < data->num_distributions; i++) {
 		CCS_VALIDATE(_ccs_distribution_deserialize(
@@ -102,6 +102,14 @@ _ccs_deserialize_bin_ccs_configuration_space_data(
 			version, buffer_size, buffer, &distrib_opts));
 		CCS_VALIDATE(_ccs_deserialize_bin_size(
 			data->dimensions + i, buffer_size, buffer));
+		size_t dimension;
+		CCS_VALIDATE(ccs_distribution_get_dimension(
+			data->distributions[i], &dimension));
+		CCS_REFUTE(
+			data->dimensions[i] != dimension ||
+				dimension > data->num_parameters - num_indices,
+			CCS_RESULT_ERROR_INVALID_VALUE);
+		num_indices += dimension;
 		for (size_t j = 0; j < data->dimensions[i]; j++) {
 			CCS_VALIDATE(_ccs_deserialize_bin_size(
 				indices, buffer_size, buffer));
-- 
2.43.0


From 183ea3ffe28734c1947b211b810e23e076f112d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:38 +0000
Subject: [PATCH 51/83] fix: deserializing a random generator without a type
 name crashed

---
 src/rng_deserialize.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rng_deserialize.h b/src/rng_deserialize.h
index dc73355..1ac887d 100644
--- a/src/rng_deserialize.h
+++ b/src/rng_deserialize.h
@@ -26,6 +26,7 @@ _ccs_deserialize_bin_rng(
 	ccs_bool_t  little_endian;
 	_ccs_blob_t b;
 	CCS_VALIDATE(_ccs_deserialize_bin_string(&name, buffer_size, buffer));
+	CCS_REFUTE(!name, CCS_RESULT_ERROR_INVALID_VALUE);
 	CCS_VALIDATE(_ccs_deserialize_bin_ccs_bool(
 		&little_endian, buffer_size, buffer));
 	CCS_VALIDATE(_ccs_deserialize_bin_ccs_blob(&b, buffer_size, buffer));
-- 
2.43.0


From c33fe455469e476688db41c18bebe680afa09560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:54 +0000
Subject: [PATCH 52/83] fix: a failed deserialization left its object in the
 handle map

---
 src/cconfigspace.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/cconfigspace.c b/src/cconfigspace.c
index 164ad1a..ea6b7ee 100644
--- a/src/cconfigspace.c
+++ b/src/cconfigspace.c
@@ -718,7 +718,9 @@ _ccs_object_deserialize_with_opts(
 	const char                       **buffer,
 	_ccs_object_deserialize_options_t *opts)
 {
-	ccs_object_t object = NULL;
+	ccs_object_t object    = NULL;
+	size_t       buff_size = *buffer_size;
+	const char  *buff      = *buffer;
 	ccs_result_t res;
 	CCS_VALIDATE_ERR_GOTO(
 		res,
@@ -729,8 +731,18 @@ _ccs_object_deserialize_with_opts(
 	return CCS_RESULT_SUCCESS;
 err_object:
 	/* the object itself was fine but not what follows (user data) */
-	if (object)
+	if (object) {
+		_ccs_object_internal_t obj;
+		ccs_object_t           handle;
+		if (opts->handle_map &&
+		    !_ccs_deserialize_bin_ccs_object_internal(
+			    &obj, &buff_size, &buff, &handle)) {
+			ccs_datum_t d = ccs_object(handle);
+			d.flags |= CCS_DATUM_FLAG_ID;
+			ccs_map_del(opts->handle_map, d);
+		}
 		ccs_release_object(object);
+	}
 	return res;
 }
 
-- 
2.43.0


From ad5edbb49077dd67ca5132ff14749aef7266729e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:35 +0000
Subject: [PATCH 53/83] fix: a null values array was accepted for a tree
 configuration

---
 src/tree_configuration.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tree_configuration.c b/src/tree_configuration.c
index 4b76e1a..25e8314 100644
--- a/src/tree_configuration.c
+++ b/src/tree_configuration.c
@@ -194,6 +194,7 @@ ccs_tree_configuration_get_values(
 	size_t                  *num_values_ret)
 {
 	CCS_CHECK_OBJ(configuration, CCS_OBJECT_TYPE_TREE_CONFIGURATION);
+	CCS_CHECK_ARY(num_values, values);
 	CCS_REFUTE(!values && !num_values_ret, CCS_RESULT_ERROR_INVALID_VALUE);
 	size_t num = configuration->data->position_size + 1;
 	if (values)
-- 
2.43.0


From 951c9c722acf9baae0a8c9e3dd8c419b109dc693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:35 +0000
Subject: [PATCH 54/83] fix: null output pointers of hash, generator type and
 result name functions were followed

---
 src/binding.c             | 1 +
 src/cconfigspace.c        | 1 +
 src/evaluation.c          | 1 +
 src/features_evaluation.c | 1 +
 src/rng.c                 | 1 +
 src/tree_evaluation.c     | 1 +
 6 files changed, 6 insertions(+)

diff --git a/src/binding.c b/src/binding.c
index ea963ac..d967518 100644
--- a/src/binding.c
+++ b/src/binding.c
@@ -114,6 +114,7 @@ ccs_result_t
 ccs_binding_hash(ccs_binding_t binding, ccs_hash_t *hash_ret)
 {
 	CCS_CHECK_BINDING(binding);
+	CCS_CHECK_PTR(hash_ret);
 	_ccs_binding_ops_t *ops = ccs_binding_get_ops(binding);
 	CCS_VALIDATE(ops->hash(binding->data, hash_ret));
 	return CCS_RESULT_SUCCESS;
diff --git a/src/cconfigspace.c b/src/cconfigspace.c
index ea6b7ee..4a99888 100644
--- a/src/cconfigspace.c
+++ b/src/cconfigspace.c
@@ -1047,6 +1047,7 @@ end:
 ccs_result_t
 ccs_get_result_name(ccs_result_t result, const char **name)
 {
+	CCS_CHECK_PTR(name);
 	switch (result) {
 		ETOCASE(CCS_RESULT_AGAIN);
 		ETOCASE(CCS_RESULT_SUCCESS);
diff --git a/src/evaluation.c b/src/evaluation.c
index 70f71bf..f918ac7 100644
--- a/src/evaluation.c
+++ b/src/evaluation.c
@@ -391,6 +391,7 @@ ccs_result_t
 ccs_evaluation_hash(ccs_evaluation_t evaluation, ccs_hash_t *hash_ret)
 {
 	CCS_CHECK_OBJ(evaluation, CCS_OBJECT_TYPE_EVALUATION);
+	CCS_CHECK_PTR(hash_ret);
 	_ccs_evaluation_ops_t *ops = ccs_evaluation_get_ops(evaluation);
 	CCS_VALIDATE(ops->hash(evaluation->data, hash_ret));
 	return CCS_RESULT_SUCCESS;
diff --git a/src/features_evaluation.c b/src/features_evaluation.c
index fbb2169..9a3ab03 100644
--- a/src/features_evaluation.c
+++ b/src/features_evaluation.c
@@ -450,6 +450,7 @@ ccs_features_evaluation_hash(
 	ccs_hash_t               *hash_ret)
 {
 	CCS_CHECK_OBJ(evaluation, CCS_OBJECT_TYPE_FEATURES_EVALUATION);
+	CCS_CHECK_PTR(hash_ret);
 	_ccs_features_evaluation_ops_t *ops =
 		ccs_features_evaluation_get_ops(evaluation);
 	CCS_VALIDATE(ops->hash(evaluation->data, hash_ret));
diff --git a/src/rng.c b/src/rng.c
index c710ee0..25e8f12 100644
--- a/src/rng.c
+++ b/src/rng.c
@@ -138,6 +138,7 @@ ccs_result_t
 ccs_rng_get_type(ccs_rng_t rng, const gsl_rng_type **rng_type_ret)
 {
 	CCS_CHECK_OBJ(rng, CCS_OBJECT_TYPE_RNG);
+	CCS_CHECK_PTR(rng_type_ret);
 	*rng_type_ret = rng->data->rng_type;
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/tree_evaluation.c b/src/tree_evaluation.c
index 076b5c6..10f5bd2 100644
--- a/src/tree_evaluation.c
+++ b/src/tree_evaluation.c
@@ -396,6 +396,7 @@ ccs_result_t
 ccs_tree_evaluation_hash(ccs_tree_evaluation_t evaluation, ccs_hash_t *hash_ret)
 {
 	CCS_CHECK_OBJ(evaluation, CCS_OBJECT_TYPE_TREE_EVALUATION);
+	CCS_CHECK_PTR(hash_ret);
 	_ccs_tree_evaluation_ops_t *ops =
 		ccs_tree_evaluation_get_ops(evaluation);
 	CCS_VALIDATE(ops->hash(evaluation->data, hash_ret));
-- 
2.43.0


From c144e17cec420103e51a275b287751e3df18ccd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:51 +0000
Subject: [PATCH 55/83] fix: python: expressions were printed without the
 parentheses their structure needs

---
 bindings/python/cconfigspace/expression.py | 25 ++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/bindings/python/cconfigspace/expression.py b/bindings/python/cconfigspace/expression.py
index 005b761..33c14c2 100644
--- a/bindings/python/cconfigspace/expression.py
+++ b/bindings/python/cconfigspace/expression.py
@@ -173,11 +173,20 @@ class Expression(Object):
     t = self.type
     symbol = ccs_expression_symbols[t]
     prec = ccs_expression_precedence[t]
-    nds = ["({})".format(n) if ccs_expression_precedence[n.type] < prec else n.__str__() for n in self.nodes]
+    nds = self.nodes
     if len(nds) == 1:
-      return "{}{}".format(symbol, nds[0])
+      return "{}{}".format(symbol, nds[0]._to_operand(prec))
     else:
-      return "{} {} {}".format(nds[0], symbol, nds[1])
+      # operators are left associative, a right operand of the same precedence
+      # needs parentheses
+      return "{} {} {}".format(nds[0]._to_operand(prec), symbol, nds[1]._to_operand(prec + 1))
+
+  @property
+  def _precedence(self):
+    return ccs_expression_precedence[self.type]
+
+  def _to_operand(self, prec):
+    return "({})".format(self) if self._precedence < prec else self.__str__()
 
 class ExpressionOr(Expression):
 
@@ -409,7 +418,15 @@ class ExpressionLiteral(Expression):
     Error.check(res)
     self._value = v.value
     return self._value
-  
+
+  @property
+  def _precedence(self):
+    t = self.type
+    # the sign of a number is parsed as an operator
+    if str(self).startswith("-"):
+      t = ExpressionType.NEGATIVE
+    return ccs_expression_precedence[t]
+
   def __str__(self):
     v = self.value
     if isinstance(v, str):
-- 
2.43.0


From 84b15d909b0c4ebcacb58bf7d673d405b2311b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:51 +0000
Subject: [PATCH 56/83] fix: python: Expression.parameters raised for
 expressions with variables

---
 bindings/python/cconfigspace/expression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/cconfigspace/expression.py b/bindings/python/cconfigspace/expression.py
index 33c14c2..b3690fb 100644
--- a/bindings/python/cconfigspace/expression.py
+++ b/bindings/python/cconfigspace/expression.py
@@ -141,7 +141,7 @@ class Expression(Object):
     if sz == 0:
       self._parameters = []
       return []
-    v = (ccs_parameter * sz.value)()
+    v = (ccs_parameter * sz)()
     res = ccs_expression_get_parameters(self.handle, sz, v, None)
     Error.check(res)
     self._parameters = [Parameter.from_handle(ccs_parameter(x)) for x in v]
-- 
2.43.0


From 79b21b5cfa94803a83f4d489c00a2287c6bad5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:51 +0000
Subject: [PATCH 57/83] fix: identifiers starting with none, true or false
 could not be parsed

---
 src/expression.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/expression.c b/src/expression.c
index f87244c..7fb4801 100644
--- a/src/expression.c
+++ b/src/expression.c
@@ -63,9 +63,9 @@ const int ccs_terminal_precedence[] = {
 };
 
 const char *ccs_terminal_regexp[] = {
-	"none",
-	"true",
-	"false",
+	"none\\b",
+	"true\\b",
+	"false\\b",
 	"\"([^\\0\\t\\n\\r\\f\"\\\\]|\\\\[0tnrf\"\\\\])+\"|'([^\\0\\t\\n\\r\\f'\\\\]|\\\\[0tnrf'\\\\])+'",
 	"[a-zA-Z_][a-zA-Z_0-9]*",
 	"-?[0-9]+",
-- 
2.43.0


From b63077bbd0bf86d4507b10961382f162e94dc719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:51 +0000
Subject: [PATCH 58/83] fix: python: Map.has_key raised and maps could not be
 made from a handle

---
 bindings/python/cconfigspace/map.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bindings/python/cconfigspace/map.py b/bindings/python/cconfigspace/map.py
index e0bb655..9411121 100644
--- a/bindings/python/cconfigspace/map.py
+++ b/bindings/python/cconfigspace/map.py
@@ -21,9 +21,14 @@ class Map(Object):
     else:
       super().__init__(handle = handle, retain = retain, auto_release = auto_release)
 
+  @classmethod
+  def from_handle(cls, handle, retain = True, auto_release = True):
+    return cls(handle = handle, retain = retain, auto_release = auto_release)
+
   def __len__(self):
     v = ct.c_size_t()
     res = ccs_map_get_keys(self.handle, 0, None, ct.byref(v))
+    Error.check(res)
     return v.value
 
   def __getitem__(self, key):
@@ -54,7 +59,7 @@ class Map(Object):
     b = ccs_bool()
     res = ccs_map_exist(self.handle, k, ct.byref(b))
     Error.check(res)
-    return False if b._value.i == ccs_false else True
+    return False if b.value == 0 else True
 
   def keys(self):
     sz = self.__len__()
-- 
2.43.0


From 34fe3a4a6d32b77031403a2dce7654ff0e15054d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:51 +0000
Subject: [PATCH 59/83] fix: python: hashing a binding and setting a value by
 name raised

---
 bindings/python/cconfigspace/binding.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bindings/python/cconfigspace/binding.py b/bindings/python/cconfigspace/binding.py
index 667efb0..d353e38 100644
--- a/bindings/python/cconfigspace/binding.py
+++ b/bindings/python/cconfigspace/binding.py
@@ -42,7 +42,7 @@ class Binding(Object):
     if isinstance(parameter, Parameter):
       res = ccs_binding_set_value_by_parameter(self.handle, parameter.handle, v)
     elif isinstance(parameter, str):
-      res = ccs_binding_set_value_by_name(self.handle, str.encode(parameter), ct.byref(v))
+      res = ccs_binding_set_value_by_name(self.handle, str.encode(parameter), v)
     else:
       res = ccs_binding_set_value(self.handle, parameter, v)
     Error.check(res)
@@ -124,7 +124,7 @@ class Binding(Object):
     v = ccs_hash()
     res = ccs_binding_hash(self.handle, ct.byref(v))
     Error.check(res)
-    return self.value
+    return v.value
 
   def __hash__(self):
     return self.hash
-- 
2.43.0


From ba22ba7073e54d5b9fa5608661f860ad6073e725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:51 +0000
Subject: [PATCH 60/83] fix: python: Context.validate_value raised for
 parameters and names

---
 bindings/python/cconfigspace/context.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bindings/python/cconfigspace/context.py b/bindings/python/cconfigspace/context.py
index 0dfd0b2..b7aa24c 100644
--- a/bindings/python/cconfigspace/context.py
+++ b/bindings/python/cconfigspace/context.py
@@ -67,9 +67,9 @@ class Context(Object):
 
   def validate_value(self, parameter, value):
     if isinstance(parameter, Parameter):
-      parameter = parameter_index(parameter)
+      parameter = self.parameter_index(parameter)
     elif isinstance(parameter, str):
-      parameter = parameter_index_by_name(parameter)
+      parameter = self.parameter_index_by_name(parameter)
     pv = Datum(value)
     v = DatumFix(pv)
     vo = Datum()
-- 
2.43.0


From b4512468e57451a18b04a5c97352e32108b4a337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:51 +0000
Subject: [PATCH 61/83] fix: python: features spaces were handed out as
 configuration spaces, checking a features evaluation raised

---
 bindings/python/cconfigspace/base.py                | 2 +-
 bindings/python/cconfigspace/features.py            | 2 +-
 bindings/python/cconfigspace/features_evaluation.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/bindings/python/cconfigspace/base.py b/bindings/python/cconfigspace/base.py
index 29a9c10..eebc738 100644
--- a/bindings/python/cconfigspace/base.py
+++ b/bindings/python/cconfigspace/base.py
@@ -771,7 +771,7 @@ setattr(Object, 'CLASS_MAP', {
   ObjectType.EXPRESSION: Expression,
   ObjectType.CONFIGURATION_SPACE: ConfigurationSpace,
   ObjectType.CONFIGURATION: Configuration,
-  ObjectType.FEATURES_SPACE: ConfigurationSpace,
+  ObjectType.FEATURES_SPACE: FeaturesSpace,
   ObjectType.FEATURES: Features,
   ObjectType.OBJECTIVE_SPACE: ObjectiveSpace,
   ObjectType.EVALUATION: Evaluation,
diff --git a/bindings/python/cconfigspace/features.py b/bindings/python/cconfigspace/features.py
index 0d951bd..e3a3639 100644
--- a/bindings/python/cconfigspace/features.py
+++ b/bindings/python/cconfigspace/features.py
@@ -40,7 +40,7 @@ class Features(Binding):
     v = ccs_features_space()
     res = ccs_features_get_features_space(self.handle, ct.byref(v))
     Error.check(res)
-    self._features_space = ConfigurationSpace.from_handle(v)
+    self._features_space = FeaturesSpace.from_handle(v)
     return self._features_space
 
   def check(self):
diff --git a/bindings/python/cconfigspace/features_evaluation.py b/bindings/python/cconfigspace/features_evaluation.py
index 0ac43dd..af5cefa 100644
--- a/bindings/python/cconfigspace/features_evaluation.py
+++ b/bindings/python/cconfigspace/features_evaluation.py
@@ -115,6 +115,6 @@ class FeaturesEvaluation(Binding):
 
   def check(self):
     valid = ccs_bool()
-    res = res = ccs_features_evaluation(self.handle, ct.byref(valid))
+    res = ccs_features_evaluation_check(self.handle, ct.byref(valid))
     Error.check(res)
     return False if valid.value == 0 else True
-- 
2.43.0


From 110bafb5f54a6d7abfc209c675e2eced0033bfd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:51 +0000
Subject: [PATCH 62/83] fix: python: state of user defined tuners and tree
 spaces could not be restored

---
 bindings/python/cconfigspace/base.py           | 2 +-
 bindings/python/cconfigspace/features_tuner.py | 6 +++---
 bindings/python/cconfigspace/tree_space.py     | 4 ++--
 bindings/python/cconfigspace/tree_tuner.py     | 6 +++---
 bindings/python/cconfigspace/tuner.py          | 6 +++---
 5 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/bindings/python/cconfigspace/base.py b/bindings/python/cconfigspace/base.py
index eebc738..aa8e011 100644
--- a/bindings/python/cconfigspace/base.py
+++ b/bindings/python/cconfigspace/base.py
@@ -578,7 +578,7 @@ class Object:
       options = [DeserializeOption.HANDLE_MAP, handle_map.handle] + options
     if vector:
       options = [DeserializeOption.VECTOR, ct.byref(vector)] + options
-    if data:
+    if data is not None:
       options = [DeserializeOption.DATA, ct.py_object(data)] + options
     if callback:
       cb_wrapper = _get_deserialize_callback_wrapper(callback)
diff --git a/bindings/python/cconfigspace/features_tuner.py b/bindings/python/cconfigspace/features_tuner.py
index 73fe211..2fd7dd8 100644
--- a/bindings/python/cconfigspace/features_tuner.py
+++ b/bindings/python/cconfigspace/features_tuner.py
@@ -310,15 +310,15 @@ def _wrap_user_defined_features_tuner_callbacks(delete, ask, tell, get_optima, g
         if p_h.value is None:
           history = []
         else:
-          history = [FeaturesEvaluation.from_handle(ccs_features_evaluation(p_h[i])) for i in range(size_history)]
+          history = [FeaturesEvaluation.from_handle(ccs_features_evaluation(p_history[i])) for i in range(size_history)]
         if p_o.value is None:
           optima = []
         else:
-          optima = [FeaturesEvaluation.from_handle(ccs_features_evaluation(p_o[i])) for i in range(num_optima)]
+          optima = [FeaturesEvaluation.from_handle(ccs_features_evaluation(p_optima[i])) for i in range(num_optima)]
         if p_s.value is None:
           state = None
         else:
-          state = ct.cast(p_s, POINTER(c_byte * state_size))
+          state = ct.cast(p_s, ct.POINTER(ct.c_byte * state_size))
         deserialize(FeaturesTuner.from_handle(tun), history, optima, state)
         return Result.SUCCESS
       except Exception as e:
diff --git a/bindings/python/cconfigspace/tree_space.py b/bindings/python/cconfigspace/tree_space.py
index b91fa8c..95b58b6 100644
--- a/bindings/python/cconfigspace/tree_space.py
+++ b/bindings/python/cconfigspace/tree_space.py
@@ -204,7 +204,7 @@ def _wrap_user_defined_callbacks(delete, get_child, serialize, deserialize):
         if p_s.value is None:
           state = None
         else:
-          state = ct.cast(p_s, POINTER(c_byte * state_size))
+          state = ct.cast(p_s, ct.POINTER(ct.c_byte * state_size))
         deserialize(TreeSpace.from_handle(ts), state)
         return Result.SUCCESS
       except Exception as e:
@@ -287,7 +287,7 @@ class DynamicTreeSpace(TreeSpace):
       self._tree_space_data = ct.cast(v, ct.py_object).value
     else:
       self._tree_space_data = None
-    return self._tuner_data
+    return self._tree_space_data
 
 TreeSpace.Dynamic = DynamicTreeSpace
 
diff --git a/bindings/python/cconfigspace/tree_tuner.py b/bindings/python/cconfigspace/tree_tuner.py
index 9561b0d..50bef1b 100644
--- a/bindings/python/cconfigspace/tree_tuner.py
+++ b/bindings/python/cconfigspace/tree_tuner.py
@@ -294,15 +294,15 @@ def _wrap_user_defined_tree_tuner_callbacks(delete, ask, tell, get_optima, get_h
         if p_h.value is None:
           history = []
         else:
-          history = [TreeEvaluation.from_handle(ccs_tree_evaluation(p_h[i])) for i in range(size_history)]
+          history = [TreeEvaluation.from_handle(ccs_tree_evaluation(p_history[i])) for i in range(size_history)]
         if p_o.value is None:
           optima = []
         else:
-          optima = [TreeEvaluation.from_handle(ccs_tree_evaluation(p_o[i])) for i in range(num_optima)]
+          optima = [TreeEvaluation.from_handle(ccs_tree_evaluation(p_optima[i])) for i in range(num_optima)]
         if p_s.value is None:
           state = None
         else:
-          state = ct.cast(p_s, POINTER(c_byte * state_size))
+          state = ct.cast(p_s, ct.POINTER(ct.c_byte * state_size))
         deserialize(TreeTuner.from_handle(tun), history, optima, state)
         return Result.SUCCESS
       except Exception as e:
diff --git a/bindings/python/cconfigspace/tuner.py b/bindings/python/cconfigspace/tuner.py
index d15b0c0..000e057 100644
--- a/bindings/python/cconfigspace/tuner.py
+++ b/bindings/python/cconfigspace/tuner.py
@@ -294,15 +294,15 @@ def _wrap_user_defined_tuner_callbacks(delete, ask, tell, get_optima, get_histor
         if p_h.value is None:
           history = []
         else:
-          history = [Evaluation.from_handle(ccs_evaluation(p_h[i])) for i in range(size_history)]
+          history = [Evaluation.from_handle(ccs_evaluation(p_history[i])) for i in range(size_history)]
         if p_o.value is None:
           optima = []
         else:
-          optima = [Evaluation.from_handle(ccs_evaluation(p_o[i])) for i in range(num_optima)]
+          optima = [Evaluation.from_handle(ccs_evaluation(p_optima[i])) for i in range(num_optima)]
         if p_s.value is None:
           state = None
         else:
-          state = ct.cast(p_s, POINTER(c_byte * state_size))
+          state = ct.cast(p_s, ct.POINTER(ct.c_byte * state_size))
         deserialize(Tuner.from_handle(tun), history, optima, state)
         return Result.SUCCESS
       except Exception as e:
-- 
2.43.0


From b95e039dd756bc19177f5c0fe6b16b4cd213ae39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:51 +0000
Subject: [PATCH 63/83] fix: python: ObjectiveSpace.get_objective raised

---
 bindings/python/cconfigspace/objective_space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/cconfigspace/objective_space.py b/bindings/python/cconfigspace/objective_space.py
index 048aed5..6430470 100644
--- a/bindings/python/cconfigspace/objective_space.py
+++ b/bindings/python/cconfigspace/objective_space.py
@@ -75,7 +75,7 @@ class ObjectiveSpace(Context):
 
   def get_objective(self, index):
     v = ccs_expression()
-    t = ObjectiveType()
+    t = ObjectiveType(0)
     res = ccs_objective_space_get_objective(self.handle, index, ct.byref(v), ct.byref(t))
     Error.check(res)
     return (Expression.from_handle(v), t.value)
-- 
2.43.0


From 4bea47888582b56e8787d0e11ebb1e02c2d8f192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:08 +0000
Subject: [PATCH 64/83] fix: python: strings were printed with escape sequences
 the grammar does not have

---
 bindings/python/cconfigspace/expression.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bindings/python/cconfigspace/expression.py b/bindings/python/cconfigspace/expression.py
index b3690fb..3d552e8 100644
--- a/bindings/python/cconfigspace/expression.py
+++ b/bindings/python/cconfigspace/expression.py
@@ -396,6 +396,8 @@ class ExpressionLiteral(Expression):
   none_symbol = ccs_terminal_symbols[TerminalType.NONE]
   true_aymbol = ccs_terminal_symbols[TerminalType.TRUE]
   false_symbol = ccs_terminal_symbols[TerminalType.FALSE]
+  # the escape sequences of the grammar
+  _escapes = str.maketrans({"\\": "\\\\", "'": "\\'", "\t": "\\t", "\n": "\\n", "\r": "\\r", "\f": "\\f"})
 
   def __init__(self, handle = None, retain = False, auto_release = True,
                value = None):
@@ -430,7 +432,7 @@ class ExpressionLiteral(Expression):
   def __str__(self):
     v = self.value
     if isinstance(v, str):
-      return repr(v)
+      return "'{}'".format(v.translate(ExpressionLiteral._escapes))
     elif v is None:
       return ExpressionLiteral.none_symbol
     elif v is True:
-- 
2.43.0


From 95ed7e1bc63f761f60fcc1176fb40f8f44985980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:06 +0000
Subject: [PATCH 65/83] fix: python: parameters handed over in a temporary list
 were released before they were added

---
 bindings/python/cconfigspace/configuration_space.py | 4 ++--
 bindings/python/cconfigspace/features_space.py      | 4 ++--
 bindings/python/cconfigspace/objective_space.py     | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/bindings/python/cconfigspace/configuration_space.py b/bindings/python/cconfigspace/configuration_space.py
index ff3d8e5..c0e72a1 100644
--- a/bindings/python/cconfigspace/configuration_space.py
+++ b/bindings/python/cconfigspace/configuration_space.py
@@ -71,8 +71,8 @@ class ConfigurationSpace(Context):
       distribs = (ccs_distribution * count)(*[x.handle.value if x else x for x in distributions])
     else:
       distribs = None
-    parameters = (ccs_parameter * count)(*[x.handle.value for x in parameters])
-    res = ccs_configuration_space_add_parameters(self.handle, count, parameters, distribs)
+    params = (ccs_parameter * count)(*[x.handle.value for x in parameters])
+    res = ccs_configuration_space_add_parameters(self.handle, count, params, distribs)
     Error.check(res)
 
   def set_distribution(self, distribution, parameters):
diff --git a/bindings/python/cconfigspace/features_space.py b/bindings/python/cconfigspace/features_space.py
index feccf74..ee6d8a6 100644
--- a/bindings/python/cconfigspace/features_space.py
+++ b/bindings/python/cconfigspace/features_space.py
@@ -32,8 +32,8 @@ class FeaturesSpace(Context):
     count = len(parameters)
     if count == 0:
       return None
-    parameters = (ccs_parameter * count)(*[x.handle.value for x in parameters])
-    res = ccs_features_space_add_parameters(self.handle, count, parameters)
+    params = (ccs_parameter * count)(*[x.handle.value for x in parameters])
+    res = ccs_features_space_add_parameters(self.handle, count, params)
     Error.check(res)
 
   def check(self, features):
diff --git a/bindings/python/cconfigspace/objective_space.py b/bindings/python/cconfigspace/objective_space.py
index 6430470..1cfc3b5 100644
--- a/bindings/python/cconfigspace/objective_space.py
+++ b/bindings/python/cconfigspace/objective_space.py
@@ -45,8 +45,8 @@ class ObjectiveSpace(Context):
     count = len(parameters)
     if count == 0:
       return None
-    parameters = (ccs_parameter * count)(*[x.handle.value for x in parameters])
-    res = ccs_objective_space_add_parameters(self.handle, count, parameters)
+    params = (ccs_parameter * count)(*[x.handle.value for x in parameters])
+    res = ccs_objective_space_add_parameters(self.handle, count, params)
     Error.check(res)
 
   def add_objective(self, expression, t = ObjectiveType.MINIMIZE):
-- 
2.43.0


From 09d8dd1b1f990f39c9144c8d0505304159ae34b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:51 +0000
Subject: [PATCH 66/83] fix: python: errors with an empty message could not be
 reported

---
 bindings/python/cconfigspace/error_stack.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/bindings/python/cconfigspace/error_stack.py b/bindings/python/cconfigspace/error_stack.py
index e7a08ee..2bb5dd9 100644
--- a/bindings/python/cconfigspace/error_stack.py
+++ b/bindings/python/cconfigspace/error_stack.py
@@ -19,30 +19,30 @@ class ErrorStack(Object):
   def __init__(self, handle = None, retain = False, auto_release = True,
                error = None, message = None):
     if handle is None:
-      if message:
+      if message is not None:
         message = str.encode(message.replace("%", "%%"))
       msg = ct.c_char_p(message)
       handle = ccs_error_stack()
       res = ccs_create_error_stack(ct.byref(handle), error, msg)
       Error.check(res)
       super().__init__(handle = handle, retain = False)
-      if message:
+      if message is not None:
         _register_string(handle, msg)
     else:
       super().__init__(handle = handle, retain = retain, auto_release = auto_release)
 
   def push(self, file, line, func):
-    if file:
+    if file is not None:
       file = str.encode(file)
-    if func:
+    if func is not None:
       func = str.encode(func)
     fil = ct.c_char_p(file)
     fun = ct.c_char_p(func)
     res = ccs_error_stack_push(self.handle, fil, line, fun);
     Error.check(res)
-    if file:
+    if file is not None:
       _register_string(self.handle, fil)
-    if func:
+    if func is not None:
       _register_string(self.handle, fun)
 
   @property
-- 
2.43.0


From 1ea1fb4070876f2afefe9a67d6cb6d72c7443569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:16 +0000
Subject: [PATCH 67/83] fix: python: an empty handle map was not filled by
 deserialization

---
 bindings/python/cconfigspace/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/cconfigspace/base.py b/bindings/python/cconfigspace/base.py
index aa8e011..97a6927 100644
--- a/bindings/python/cconfigspace/base.py
+++ b/bindings/python/cconfigspace/base.py
@@ -574,7 +574,7 @@ class Object:
       raise Error(Result(Result.ERROR_INVALID_VALUE))
     o = ccs_object(0)
     options = [DeserializeOption.END]
-    if handle_map:
+    if handle_map is not None:
       options = [DeserializeOption.HANDLE_MAP, handle_map.handle] + options
     if vector:
       options = [DeserializeOption.VECTOR, ct.byref(vector)] + options
-- 
2.43.0


From 4fbcf4ce156923c5415a7669ffcf550915cb9998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:53 +0000
Subject: [PATCH 68/83] fix: python: bounds and oversampling of multivariate
 distributions overran their buffers

---
 bindings/python/cconfigspace/distribution.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/bindings/python/cconfigspace/distribution.py b/bindings/python/cconfigspace/distribution.py
index ede4747..cf3cde3 100644
--- a/bindings/python/cconfigspace/distribution.py
+++ b/bindings/python/cconfigspace/distribution.py
@@ -79,17 +79,23 @@ class Distribution(Object):
   def bounds(self):
     if hasattr(self, "_bounds"):
       return self._bounds
-    v = Interval()
-    res = ccs_distribution_get_bounds(self.handle, ct.byref(v))
+    dim = self.dimension
+    v = (Interval*dim)()
+    res = ccs_distribution_get_bounds(self.handle, v)
     Error.check(res)
-    self._bounds = v
-    return v
+    self._bounds = v[0] if dim == 1 else list(v)
+    return self._bounds
 
   def is_oversampling(self, interval):
-    v = ccs_bool()
-    res = ccs_distribution_check_oversampling(self.handle, ct.byref(interval), ct.byref(v))
+    dim = self.dimension
+    intervals = [interval] if dim == 1 else interval
+    if len(intervals) != dim:
+      raise Error(Result(Result.ERROR_INVALID_VALUE))
+    v = (ccs_bool*dim)()
+    res = ccs_distribution_check_oversampling(self.handle, (Interval*dim)(*intervals), v)
     Error.check(res)
-    return False if v.value == ccs_false else True
+    overs = [False if x == ccs_false else True for x in v]
+    return overs[0] if dim == 1 else overs
 
   def sample(self, rng):
     dim = self.dimension
-- 
2.43.0


From 771f9d6a670dcde90eccc9d82c4c06ce3c610cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:15 +0000
Subject: [PATCH 69/83] fix: python: drawing several samples of a multivariate
 distribution raised

---
 bindings/python/cconfigspace/distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/cconfigspace/distribution.py b/bindings/python/cconfigspace/distribution.py
index cf3cde3..8376316 100644
--- a/bindings/python/cconfigspace/distribution.py
+++ b/bindings/python/cconfigspace/distribution.py
@@ -130,7 +130,7 @@ class Distribution(Object):
       return list(v)
     else:
       v = (Numeric*dim*count)()
-      res = ccs_distribution_samples(self.handle, rng.handle, count, v)
+      res = ccs_distribution_samples(self.handle, rng.handle, count, ct.cast(v, ct.POINTER(Numeric)))
       Error.check(res)
       return [ [v[j][i].i if self.data_types[i] == NumericType.INT else v[j][i].f for i in range(dim) ] for j in range(count) ]
 
-- 
2.43.0


From 5c046548cd51e2b671c2e11d317197c7cd208210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:02 +0000
Subject: [PATCH 70/83] fix: a failed allocation while an array grows left the
 array claiming the room it did not get

---
 src/utarray.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/utarray.h b/src/utarray.h
index 1fe8bc1..6f4737e 100644
--- a/src/utarray.h
+++ b/src/utarray.h
@@ -92,12 +92,16 @@ typedef struct {
 #define utarray_reserve(a,by) do {                                            \
   if (((a)->i+(by)) > (a)->n) {                                               \
     char *utarray_tmp;                                                        \
-    while (((a)->i+(by)) > (a)->n) { (a)->n = ((a)->n ? (2*(a)->n) : 8); }    \
-    utarray_tmp=(char*)realloc((a)->d, (a)->n*(a)->icd.sz);                   \
+    unsigned utarray_n = (a)->n;                                              \
+    while (((a)->i+(by)) > utarray_n) {                                       \
+      utarray_n = (utarray_n ? (2*utarray_n) : 8);                            \
+    }                                                                         \
+    utarray_tmp=(char*)realloc((a)->d, utarray_n*(a)->icd.sz);                \
     if (utarray_tmp == NULL) {                                                \
       utarray_oom();                                                          \
     }                                                                         \
     (a)->d=utarray_tmp;                                                       \
+    (a)->n=utarray_n;                                                         \
   }                                                                           \
 } while(0)
 
-- 
2.43.0


From 359b06b6521dcab31d3ee408eb72b717b1497cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:56 +0000
Subject: [PATCH 71/83] fix: running out of memory while adding a parameter
 left the space half changed

---
 src/configuration_space.c | 19 ++++++++++++-------
 src/features_space.c      | 12 ++++++++----
 src/objective_space.c     | 12 ++++++++----
 3 files changed, 28 insertions(+), 15 deletions(-)

diff --git a/src/configuration_space.c b/src/configuration_space.c
index 0d8cc80..8f517bc 100644
--- a/src/configuration_space.c
+++ b/src/configuration_space.c
@@ -423,7 +423,7 @@ ccs_configuration_space_get_rng(
 #define uthash_nonfatal_oom(elt)                                               \
 	{                                                                      \
 		CCS_RAISE_ERR_GOTO(                                            \
-			err, CCS_RESULT_ERROR_OUT_OF_MEMORY, errorutarray,     \
+			err, CCS_RESULT_ERROR_OUT_OF_MEMORY, errorhash,        \
 			"Out of memory to allocate hash");                     \
 	}
 ccs_result_t
@@ -461,6 +461,8 @@ ccs_configuration_space_add_parameter(
 	_ccs_distribution_wrapper_t *distrib_wrapper;
 	uintptr_t                    pmem;
 	parameter_wrapper.parameter = parameter;
+	parameter_wrapper.parents   = NULL;
+	parameter_wrapper.children  = NULL;
 	CCS_VALIDATE(ccs_retain_object(parameter));
 
 	if (distribution) {
@@ -507,13 +509,11 @@ ccs_configuration_space_add_parameter(
 	parameter_wrapper.distribution_index  = 0;
 	parameter_wrapper.distribution        = distrib_wrapper;
 	parameter_wrapper.condition           = NULL;
-	parameter_wrapper.parents             = NULL;
-	parameter_wrapper.children            = NULL;
 	utarray_new(parameter_wrapper.parents, &_size_t_icd);
 	utarray_new(parameter_wrapper.children, &_size_t_icd);
 
-	utarray_push_back(parameters, &parameter_wrapper);
-	utarray_push_back(configuration_space->data->sorted_indexes, &index);
+	utarray_reserve(parameters, 1);
+	utarray_reserve(configuration_space->data->sorted_indexes, 1);
 
 	HASH_ADD_KEYPTR(
 		hh_name, configuration_space->data->name_hash,
@@ -521,12 +521,17 @@ ccs_configuration_space_add_parameter(
 	HASH_ADD(
 		hh_handle, configuration_space->data->handle_hash, parameter,
 		sizeof(ccs_parameter_t), parameter_hash);
+	utarray_push_back(parameters, &parameter_wrapper);
+	utarray_push_back(configuration_space->data->sorted_indexes, &index);
 	DL_APPEND(
 		configuration_space->data->distribution_list, distrib_wrapper);
 
 	return CCS_RESULT_SUCCESS;
-errorutarray:
-	utarray_pop_back(parameters);
+errorhash:
+	if (parameter_hash->hh_name.tbl)
+		HASH_DELETE(
+			hh_name, configuration_space->data->name_hash,
+			parameter_hash);
 errordistrib_wrapper:
 	if (parameter_hash)
 		free(parameter_hash);
diff --git a/src/features_space.c b/src/features_space.c
index a479d5e..8934f74 100644
--- a/src/features_space.c
+++ b/src/features_space.c
@@ -144,7 +144,7 @@ ccs_features_space_get_name(
 #define uthash_nonfatal_oom(elt)                                               \
 	{                                                                      \
 		CCS_RAISE_ERR_GOTO(                                            \
-			err, CCS_RESULT_ERROR_OUT_OF_MEMORY, errorutarray,     \
+			err, CCS_RESULT_ERROR_OUT_OF_MEMORY, errorhash,        \
 			"Not enough memory to allocate hash");                 \
 	}
 ccs_result_t
@@ -182,7 +182,7 @@ ccs_features_space_add_parameter(
 	parameter_hash->name      = name;
 	parameter_hash->index     = utarray_len(parameters);
 
-	utarray_push_back(parameters, &parameter_wrapper);
+	utarray_reserve(parameters, 1);
 
 	HASH_ADD_KEYPTR(
 		hh_name, features_space->data->name_hash, parameter_hash->name,
@@ -190,10 +190,14 @@ ccs_features_space_add_parameter(
 	HASH_ADD(
 		hh_handle, features_space->data->handle_hash, parameter,
 		sizeof(ccs_parameter_t), parameter_hash);
+	utarray_push_back(parameters, &parameter_wrapper);
 
 	return CCS_RESULT_SUCCESS;
-errorutarray:
-	utarray_pop_back(parameters);
+errorhash:
+	if (parameter_hash->hh_name.tbl)
+		HASH_DELETE(
+			hh_name, features_space->data->name_hash,
+			parameter_hash);
 errormem:
 	free(parameter_hash);
 errorparameter:
diff --git a/src/objective_space.c b/src/objective_space.c
index 1a311ce..c89f2f3 100644
--- a/src/objective_space.c
+++ b/src/objective_space.c
@@ -271,7 +271,7 @@ ccs_objective_space_get_name(
 #define uthash_nonfatal_oom(elt)                                               \
 	{                                                                      \
 		CCS_RAISE_ERR_GOTO(                                            \
-			err, CCS_RESULT_ERROR_OUT_OF_MEMORY, errorutarray,     \
+			err, CCS_RESULT_ERROR_OUT_OF_MEMORY, errorhash,        \
 			"Not enough memory to allocate hash");                 \
 	}
 ccs_result_t
@@ -310,7 +310,7 @@ ccs_objective_space_add_parameter(
 	parameter_hash->name      = name;
 	parameter_hash->index     = utarray_len(parameters);
 
-	utarray_push_back(parameters, &parameter_wrapper);
+	utarray_reserve(parameters, 1);
 
 	HASH_ADD_KEYPTR(
 		hh_name, objective_space->data->name_hash, parameter_hash->name,
@@ -318,10 +318,14 @@ ccs_objective_space_add_parameter(
 	HASH_ADD(
 		hh_handle, objective_space->data->handle_hash, parameter,
 		sizeof(ccs_parameter_t), parameter_hash);
+	utarray_push_back(parameters, &parameter_wrapper);
 
 	return CCS_RESULT_SUCCESS;
-errorutarray:
-	utarray_pop_back(parameters);
+errorhash:
+	if (parameter_hash->hh_name.tbl)
+		HASH_DELETE(
+			hh_name, objective_space->data->name_hash,
+			parameter_hash);
 errormem:
 	free(parameter_hash);
 errorparameter:
-- 
2.43.0


From 89626314ffd657e72504af3a77f4c840bfc2f3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:56 +0000
Subject: [PATCH 72/83] fix: running out of memory while setting a distribution
 leaked the new distributions

---
 src/configuration_space.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/configuration_space.c b/src/configuration_space.c
index 8f517bc..87d2045 100644
--- a/src/configuration_space.c
+++ b/src/configuration_space.c
@@ -645,7 +645,7 @@ ccs_configuration_space_set_distribution(
 		dmem = (uintptr_t)malloc(
 			sizeof(_ccs_distribution_wrapper_t) + sizeof(size_t));
 		CCS_REFUTE_ERR_GOTO(
-			err, !dmem, CCS_RESULT_ERROR_OUT_OF_MEMORY, memory);
+			err, !dmem, CCS_RESULT_ERROR_OUT_OF_MEMORY, dwrappers);
 		dwrapper = (_ccs_distribution_wrapper_t *)dmem;
 		dwrapper->parameter_indexes =
 			(size_t *)(dmem + sizeof(_ccs_distribution_wrapper_t));
-- 
2.43.0


From b312a73d546bada3e9b048d137a4b74e0a311157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:56 +0000
Subject: [PATCH 73/83] fix: running out of memory while adding a clause or an
 objective leaked the expression

---
 src/configuration_space.c | 1 +
 src/objective_space.c     | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/configuration_space.c b/src/configuration_space.c
index 87d2045..66edd45 100644
--- a/src/configuration_space.c
+++ b/src/configuration_space.c
@@ -1431,6 +1431,7 @@ ccs_configuration_space_add_forbidden_clause(
 		CCS_RAISE_ERR_GOTO(
 			err, CCS_RESULT_ERROR_INVALID_CONFIGURATION, end,
 			"Default configuration is invalid");
+	utarray_reserve(configuration_space->data->forbidden_clauses, 1);
 	CCS_VALIDATE_ERR_GOTO(err, ccs_retain_object(expression), end);
 	utarray_push_back(
 		configuration_space->data->forbidden_clauses, &expression);
diff --git a/src/objective_space.c b/src/objective_space.c
index c89f2f3..b1a5a20 100644
--- a/src/objective_space.c
+++ b/src/objective_space.c
@@ -505,6 +505,7 @@ ccs_objective_space_add_objective(
 	CCS_CHECK_OBJ(objective_space, CCS_OBJECT_TYPE_OBJECTIVE_SPACE);
 	CCS_VALIDATE(ccs_expression_check_context(
 		expression, (ccs_context_t)objective_space));
+	utarray_reserve(objective_space->data->objectives, 1);
 	CCS_VALIDATE(ccs_retain_object(expression));
 	_ccs_objective_t objective;
 	objective.expression = expression;
@@ -526,6 +527,7 @@ ccs_objective_space_add_objectives(
 	for (size_t i = 0; i < num_objectives; i++) {
 		CCS_VALIDATE(ccs_expression_check_context(
 			expressions[i], (ccs_context_t)objective_space));
+		utarray_reserve(objective_space->data->objectives, 1);
 		CCS_VALIDATE(ccs_retain_object(expressions[i]));
 		_ccs_objective_t objective;
 		objective.expression = expressions[i];
-- 
2.43.0


From 534a38f743e15ee064d2549f90e2ad987f8d7bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:27 +0000
Subject: [PATCH 74/83] fix: running out of memory while telling or reading
 back a random tuner corrupted its records

---
 src/features_tuner_deserialize.h |  2 ++
 src/features_tuner_random.c      | 15 ++++++---------
 src/tree_tuner_deserialize.h     |  2 ++
 src/tree_tuner_random.c          | 15 ++++++---------
 src/tuner_deserialize.h          |  2 ++
 src/tuner_random.c               | 15 ++++++---------
 6 files changed, 24 insertions(+), 27 deletions(-)

diff --git a/src/features_tuner_deserialize.h b/src/features_tuner_deserialize.h
index 50e2d3c..f750538 100644
--- a/src/features_tuner_deserialize.h
+++ b/src/features_tuner_deserialize.h
@@ -152,6 +152,8 @@ _ccs_deserialize_bin_random_features_tuner(
 		features_evaluations);
 	odata = (_ccs_random_features_tuner_data_clone_t
 			 *)((*features_tuner_ret)->data);
+	utarray_reserve(odata->history, data.size_history);
+	utarray_reserve(odata->optima, data.size_optima);
 	for (size_t i = 0; i < data.size_history; i++)
 		utarray_push_back(odata->history, data.history + i);
 	for (size_t i = 0; i < data.size_optima; i++)
diff --git a/src/features_tuner_random.c b/src/features_tuner_random.c
index 542891b..fabde69 100644
--- a/src/features_tuner_random.c
+++ b/src/features_tuner_random.c
@@ -179,7 +179,6 @@ _ccs_features_tuner_random_ask(
 #undef utarray_oom
 #define utarray_oom()                                                          \
 	{                                                                      \
-		ccs_release_object(evaluations[i]);                            \
 		CCS_RAISE(                                                     \
 			CCS_RESULT_ERROR_OUT_OF_MEMORY,                        \
 			"Not enough memory to allocate new array");            \
@@ -200,6 +199,12 @@ _ccs_features_tuner_random_tell(
 		CCS_VALIDATE(ccs_features_evaluation_get_result(
 			evaluations[i], &result));
 	}
+	// Nor if there is not enough room to record them all
+	utarray_clear(d->old_optima);
+	utarray_reserve(history, num_evaluations);
+	utarray_reserve(d->optima, num_evaluations);
+	utarray_reserve(
+		d->old_optima, utarray_len(d->optima) + num_evaluations);
 	for (size_t i = 0; i < num_evaluations; i++) {
 		ccs_evaluation_result_t result;
 		CCS_VALIDATE(ccs_features_evaluation_get_result(
@@ -214,14 +219,6 @@ _ccs_features_tuner_random_tell(
 			d->optima     = tmp;
 			utarray_clear(d->optima);
 			ccs_features_evaluation_t *eval = NULL;
-#undef utarray_oom
-#define utarray_oom()                                                          \
-	{                                                                      \
-		d->optima = d->old_optima;                                     \
-		CCS_RAISE(                                                     \
-			CCS_RESULT_ERROR_OUT_OF_MEMORY,                        \
-			"Not enough memory to allocate new array");            \
-	}
 			while ((eval = (ccs_features_evaluation_t *)
 					utarray_next(d->old_optima, eval))) {
 				if (!discard) {
diff --git a/src/tree_tuner_deserialize.h b/src/tree_tuner_deserialize.h
index 97cc31e..7a7c98e 100644
--- a/src/tree_tuner_deserialize.h
+++ b/src/tree_tuner_deserialize.h
@@ -141,6 +141,8 @@ _ccs_deserialize_bin_random_tree_tuner(
 			data.common_data.objective_space, tuner_ret),
 		evaluations);
 	odata = (_ccs_random_tree_tuner_data_clone_t *)((*tuner_ret)->data);
+	utarray_reserve(odata->history, data.size_history);
+	utarray_reserve(odata->optima, data.size_optima);
 	for (size_t i = 0; i < data.size_history; i++)
 		utarray_push_back(odata->history, data.history + i);
 	for (size_t i = 0; i < data.size_optima; i++)
diff --git a/src/tree_tuner_random.c b/src/tree_tuner_random.c
index f7c4ad7..276f0f2 100644
--- a/src/tree_tuner_random.c
+++ b/src/tree_tuner_random.c
@@ -171,7 +171,6 @@ _ccs_tree_tuner_random_ask(
 #undef utarray_oom
 #define utarray_oom()                                                          \
 	{                                                                      \
-		ccs_release_object(evaluations[i]);                            \
 		CCS_RAISE(                                                     \
 			CCS_RESULT_ERROR_OUT_OF_MEMORY,                        \
 			"Out of memory to allocate array");                    \
@@ -192,6 +191,12 @@ _ccs_tree_tuner_random_tell(
 		CCS_VALIDATE(ccs_tree_evaluation_get_result(
 			evaluations[i], &result));
 	}
+	// Nor if there is not enough room to record them all
+	utarray_clear(d->old_optima);
+	utarray_reserve(history, num_evaluations);
+	utarray_reserve(d->optima, num_evaluations);
+	utarray_reserve(
+		d->old_optima, utarray_len(d->optima) + num_evaluations);
 	for (size_t i = 0; i < num_evaluations; i++) {
 		ccs_evaluation_result_t result;
 		CCS_VALIDATE(ccs_tree_evaluation_get_result(
@@ -206,14 +211,6 @@ _ccs_tree_tuner_random_tell(
 			d->optima     = tmp;
 			utarray_clear(d->optima);
 			ccs_tree_evaluation_t *eval = NULL;
-#undef utarray_oom
-#define utarray_oom()                                                          \
-	{                                                                      \
-		d->optima = d->old_optima;                                     \
-		CCS_RAISE(                                                     \
-			CCS_RESULT_ERROR_OUT_OF_MEMORY,                        \
-			"Out of memory to allocate array");                    \
-	}
 			while ((eval = (ccs_tree_evaluation_t *)utarray_next(
 					d->old_optima, eval))) {
 				if (!discard) {
diff --git a/src/tuner_deserialize.h b/src/tuner_deserialize.h
index e324aa5..18d670d 100644
--- a/src/tuner_deserialize.h
+++ b/src/tuner_deserialize.h
@@ -140,6 +140,8 @@ _ccs_deserialize_bin_random_tuner(
 			data.common_data.objective_space, tuner_ret),
 		evaluations);
 	odata = (_ccs_random_tuner_data_clone_t *)((*tuner_ret)->data);
+	utarray_reserve(odata->history, data.size_history);
+	utarray_reserve(odata->optima, data.size_optima);
 	for (size_t i = 0; i < data.size_history; i++)
 		utarray_push_back(odata->history, data.history + i);
 	for (size_t i = 0; i < data.size_optima; i++)
diff --git a/src/tuner_random.c b/src/tuner_random.c
index af243cd..d8d4ca6 100644
--- a/src/tuner_random.c
+++ b/src/tuner_random.c
@@ -171,7 +171,6 @@ _ccs_tuner_random_ask(
 #undef utarray_oom
 #define utarray_oom()                                                          \
 	{                                                                      \
-		ccs_release_object(evaluations[i]);                            \
 		CCS_RAISE(                                                     \
 			CCS_RESULT_ERROR_OUT_OF_MEMORY,                        \
 			"Out of memory to allocate array");                    \
@@ -191,6 +190,12 @@ _ccs_tuner_random_tell(
 		CCS_VALIDATE(ccs_evaluation_get_result(
 			evaluations[i], &result));
 	}
+	// Nor if there is not enough room to record them all
+	utarray_clear(d->old_optima);
+	utarray_reserve(history, num_evaluations);
+	utarray_reserve(d->optima, num_evaluations);
+	utarray_reserve(
+		d->old_optima, utarray_len(d->optima) + num_evaluations);
 	for (size_t i = 0; i < num_evaluations; i++) {
 		ccs_evaluation_result_t result;
 		CCS_VALIDATE(
@@ -205,14 +210,6 @@ _ccs_tuner_random_tell(
 			d->optima     = tmp;
 			utarray_clear(d->optima);
 			ccs_evaluation_t *eval = NULL;
-#undef utarray_oom
-#define utarray_oom()                                                          \
-	{                                                                      \
-		d->optima = d->old_optima;                                     \
-		CCS_RAISE(                                                     \
-			CCS_RESULT_ERROR_OUT_OF_MEMORY,                        \
-			"Out of memory to allocate array");                    \
-	}
 			while ((eval = (ccs_evaluation_t *)utarray_next(
 					d->old_optima, eval))) {
 				if (!discard) {
-- 
2.43.0


From 52b3b1317bffe459b9d546a92067eb1a24b062bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:27 +0000
Subject: [PATCH 75/83] fix: leak when sampling several tree configurations
 fails

---
 src/tree_space.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/tree_space.c b/src/tree_space.c
index c835e1b..8ce6070 100644
--- a/src/tree_space.c
+++ b/src/tree_space.c
@@ -150,6 +150,8 @@ _ccs_tree_space_samples(
 	ccs_rng_t    rng = data->rng;
 	ccs_result_t err = CCS_RESULT_SUCCESS;
 	UT_array    *arr = NULL;
+	for (size_t i = 0; i < num_configurations; i++)
+		configurations[i] = NULL;
 	utarray_new(arr, &_size_t_icd);
 	for (size_t i = 0; i < num_configurations; i++) {
 		size_t     index;
@@ -181,6 +183,12 @@ _ccs_tree_space_samples(
 		utarray_clear(arr);
 	}
 err_arr:
+	if (err < CCS_RESULT_SUCCESS)
+		for (size_t i = 0; i < num_configurations; i++)
+			if (configurations[i]) {
+				ccs_release_object(configurations[i]);
+				configurations[i] = NULL;
+			}
 	if (arr)
 		utarray_free(arr);
 	return err;
-- 
2.43.0


From fb6f17d4c619a7e79439f258a0fc85772c444353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:28 +0000
Subject: [PATCH 76/83] fix: running out of memory while a string parameter
 stored a string leaked it

---
 src/parameter_string.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parameter_string.c b/src/parameter_string.c
index e45990b..2363ea5 100644
--- a/src/parameter_string.c
+++ b/src/parameter_string.c
@@ -117,6 +117,7 @@ _ccs_parameter_string_serialize(
 #undef uthash_nonfatal_oom
 #define uthash_nonfatal_oom(elt)                                               \
 	{                                                                      \
+		free(elt);                                                     \
 		CCS_RAISE(                                                     \
 			CCS_RESULT_ERROR_OUT_OF_MEMORY,                        \
 			"Not enough memory to allocate array");                \
-- 
2.43.0


From 3d86b1da013908a736bbc904882a6f888b20aab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:28 +0000
Subject: [PATCH 77/83] fix: running out of memory while replacing a value of a
 map lost the old one

---
 src/map.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/map.c b/src/map.c
index 3e6ebe9..4e6c260 100644
--- a/src/map.c
+++ b/src/map.c
@@ -220,9 +220,9 @@ ccs_map_set(ccs_map_t map, ccs_datum_t key, ccs_datum_t value)
 	_ccs_map_set_string(&entry->key, sz1, &mem);
 	_ccs_map_set_string(&entry->value, sz2, &mem);
 
+	HASH_ADD(hh, d->map, key, sizeof(ccs_datum_t), entry);
 	if (old_entry)
 		_ccs_map_remove(d, old_entry);
-	HASH_ADD(hh, d->map, key, sizeof(ccs_datum_t), entry);
 	return CCS_RESULT_SUCCESS;
 err_mem:
 	free(entry);
-- 
2.43.0


From 91b657f25af169babede26b0b659b71dd56f980f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:28 +0000
Subject: [PATCH 78/83] fix: running out of memory while attaching a destroy
 callback ended the process

---
 src/cconfigspace.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/cconfigspace.c b/src/cconfigspace.c
index 4a99888..850649a 100644
--- a/src/cconfigspace.c
+++ b/src/cconfigspace.c
@@ -94,6 +94,14 @@ ccs_object_get_refcount(ccs_object_t object, int32_t *refcount_ret)
 static const UT_icd _object_callback_icd = {
 	sizeof(_ccs_object_callback_t), NULL, NULL, NULL};
 
+#undef utarray_oom
+#define utarray_oom()                                                          \
+	{                                                                      \
+		CCS_RAISE(                                                     \
+			CCS_RESULT_ERROR_OUT_OF_MEMORY,                        \
+			"Out of memory to allocate array");                    \
+	}
+
 ccs_result_t
 ccs_object_set_destroy_callback(
 	ccs_object_t                  object,
@@ -110,6 +118,9 @@ ccs_object_set_destroy_callback(
 	return CCS_RESULT_SUCCESS;
 }
 
+#undef utarray_oom
+#define utarray_oom() exit(-1)
+
 ccs_result_t
 ccs_object_set_user_data(ccs_object_t object, void *user_data)
 {
-- 
2.43.0


From 69f9f0c0466eb48db82c62c7c4571e9e56c9e937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:07 +0000
Subject: [PATCH 79/83] fix: roulette areas and mixture weights whose sum
 overflows were accepted

---
 src/distribution_internal.h | 2 +-
 src/distribution_mixture.c  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/distribution_internal.h b/src/distribution_internal.h
index a4a4c52..3a8ee95 100644
--- a/src/distribution_internal.h
+++ b/src/distribution_internal.h
@@ -116,7 +116,7 @@ _ccs_distribution_roulette_validate_areas(
 	CCS_REFUTE(sum_areas == 0.0, CCS_RESULT_ERROR_INVALID_VALUE);
 	ccs_float_t sum_areas_inverse = 1.0 / sum_areas;
 	CCS_REFUTE(
-		isnan(sum_areas_inverse) || !isfinite(sum_areas_inverse),
+		!isfinite(sum_areas) || !isfinite(sum_areas_inverse),
 		CCS_RESULT_ERROR_INVALID_VALUE);
 	*sum_areas_inverse_ret = sum_areas_inverse;
 	return CCS_RESULT_SUCCESS;
diff --git a/src/distribution_mixture.c b/src/distribution_mixture.c
index 5be63b2..d84a7a3 100644
--- a/src/distribution_mixture.c
+++ b/src/distribution_mixture.c
@@ -214,7 +214,7 @@ ccs_create_mixture_distribution(
 	CCS_REFUTE(weights_sum == 0.0, CCS_RESULT_ERROR_INVALID_VALUE);
 	ccs_float_t weights_sum_inverse = 1.0 / weights_sum;
 	CCS_REFUTE(
-		isnan(weights_sum_inverse) || !isfinite(weights_sum_inverse),
+		!isfinite(weights_sum) || !isfinite(weights_sum_inverse),
 		CCS_RESULT_ERROR_INVALID_VALUE);
 
 	uintptr_t                         mem;
-- 
2.43.0


From a09a24c224823376cc39dced75f8a58ce1c841cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:06 +0000
Subject: [PATCH 80/83] fix: integer ranges wider than CCS_INT_MAX were refused

---
 src/distribution_uniform.c | 35 ++++++++++++++++++++---------------
 src/parameter_numerical.c  |  3 ++-
 2 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/src/distribution_uniform.c b/src/distribution_uniform.c
index d23bdb6..f0a0de9 100644
--- a/src/distribution_uniform.c
+++ b/src/distribution_uniform.c
@@ -242,11 +242,11 @@ _ccs_distribution_uniform_clamp_int(
 }
 
 // gsl_rng_uniform_int only supports values up to the range of the generator.
-static inline ccs_int_t
-_ccs_distribution_uniform_int(gsl_rng *grng, ccs_int_t n)
+static inline uint64_t
+_ccs_distribution_uniform_int(gsl_rng *grng, uint64_t n)
 {
 	const unsigned long range = gsl_rng_max(grng) - gsl_rng_min(grng);
-	if (CCS_LIKELY((unsigned long)n <= range))
+	if (CCS_LIKELY(n <= range))
 		return gsl_rng_uniform_int(grng, n);
 	unsigned int bits = 0;
 	while (bits < 32 && (2ul << bits) <= range)
@@ -261,8 +261,8 @@ _ccs_distribution_uniform_int(gsl_rng *grng, ccs_int_t n)
 			value = (value << bits) |
 				gsl_rng_uniform_int(grng, 1ul << bits);
 		value &= mask;
-	} while (value >= (uint64_t)n);
-	return (ccs_int_t)value;
+	} while (value >= n);
+	return value;
 }
 
 static ccs_result_t
@@ -340,12 +340,14 @@ _ccs_distribution_uniform_strided_samples(
 			if (quantize)
 				for (i = 0; i < num_values; i++)
 					values[i * stride].i =
-						values[i * stride].i *
+						(uint64_t)values[i * stride].i *
 							quantization.i +
 						lower.i;
 			else
 				for (i = 0; i < num_values; i++)
-					values[i * stride].i += lower.i;
+					values[i * stride].i =
+						(uint64_t)values[i * stride].i +
+						lower.i;
 		}
 	}
 	return CCS_RESULT_SUCCESS;
@@ -418,12 +420,13 @@ _ccs_distribution_uniform_samples(
 			}
 			if (quantize)
 				for (i = 0; i < num_values; i++)
-					values[i].i =
-						values[i].i * quantization.i +
-						lower.i;
+					values[i].i = (uint64_t)values[i].i *
+							      quantization.i +
+						      lower.i;
 			else
 				for (i = 0; i < num_values; i++)
-					values[i].i += lower.i;
+					values[i].i = (uint64_t)values[i].i +
+						      lower.i;
 		}
 	}
 	return CCS_RESULT_SUCCESS;
@@ -466,7 +469,8 @@ ccs_create_uniform_distribution(
 			 (scale_type == CCS_SCALE_TYPE_LOGARITHMIC &&
 			  lower.i <= 0) ||
 			 quantization.i < 0 ||
-			 quantization.i > upper.i - lower.i),
+			 (uint64_t)quantization.i >
+				 (uint64_t)upper.i - (uint64_t)lower.i),
 		CCS_RESULT_ERROR_INVALID_VALUE);
 	CCS_REFUTE(
 		data_type == CCS_NUMERIC_TYPE_FLOAT &&
@@ -520,10 +524,11 @@ ccs_create_uniform_distribution(
 			distrib_data->internal_upper.f = log(upper.i);
 		} else {
 			distrib_data->internal_lower.i = 0;
-			distrib_data->internal_upper.i = upper.i - lower.i;
+			// this can exceed CCS_INT_MAX
+			uint64_t range = (uint64_t)upper.i - (uint64_t)lower.i;
 			if (quantization.i != 0)
-				distrib_data->internal_upper.i /=
-					quantization.i;
+				range /= (uint64_t)quantization.i;
+			distrib_data->internal_upper.i = (ccs_int_t)range;
 		}
 	}
 	distrib->data     = (_ccs_distribution_data_t *)distrib_data;
diff --git a/src/parameter_numerical.c b/src/parameter_numerical.c
index 9646250..a548b1e 100644
--- a/src/parameter_numerical.c
+++ b/src/parameter_numerical.c
@@ -290,7 +290,8 @@ ccs_create_numerical_parameter(
 	CCS_REFUTE(
 		data_type == CCS_NUMERIC_TYPE_INT &&
 			(lower.i >= upper.i || quantization.i < 0 ||
-			 quantization.i > upper.i - lower.i ||
+			 (uint64_t)quantization.i >
+				 (uint64_t)upper.i - (uint64_t)lower.i ||
 			 default_value.i < lower.i ||
 			 default_value.i >= upper.i),
 		CCS_RESULT_ERROR_INVALID_VALUE);
-- 
2.43.0


From 683685167f91c6ea7ec33c75fca4d89aa040c7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:46 +0000
Subject: [PATCH 81/83] fix: ranges of Kokkos variables lost their closed upper
 bound or went beyond it

---
 connectors/kokkos/ccs-kokkos-connector.cpp | 41 +++++++++++++---------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/connectors/kokkos/ccs-kokkos-connector.cpp b/connectors/kokkos/ccs-kokkos-connector.cpp
index e0135a2..42c2255 100644
--- a/connectors/kokkos/ccs-kokkos-connector.cpp
+++ b/connectors/kokkos/ccs-kokkos-connector.cpp
@@ -3,6 +3,7 @@
 #include <string>
 #include <iostream>
 #include <cassert>
+#include <cmath>
 #include <map>
 #include <set>
 #include <stack>
@@ -40,8 +41,6 @@
 static int64_t ccs_time = 0;
 #endif
 
-static constexpr const double epsilon = 1E-24;
-
 using namespace Kokkos::Tools::Experimental;
 
 // initialize the stack to true, so it should never be empty.
@@ -273,17 +272,25 @@ variable_info_to_parameter(const char *name, VariableInfo *info)
 			  assert(0.0 <= step);
 			  if (info->candidates.range.openLower) {
 				  if (step == 0.0)
-					  lower = lower + epsilon;
+					  lower = std::nextafter(
+						  lower, CCS_INFINITY);
 				  else
 					  lower = lower + step;
 			  }
-			  if (!info->candidates.range.openUpper) {
-				  if (step == 0.0)
-					  upper = upper + epsilon;
-				  else // this is dubious/would require
-				       // verification
-					  upper = upper + step;
-			  }
+			  // the upper bound of a parameter is excluded
+			  if (step != 0.0) {
+				  ccs_float_t n = (upper - lower) / step;
+				  if (info->candidates.range.openUpper)
+					  n = std::ceil(n);
+				  else
+					  n = std::floor(n) + 1.0;
+				  upper = lower + n * step;
+				  // do not lose the last value to rounding
+				  if (upper - lower < n * step)
+					  upper = std::nextafter(
+						  upper, CCS_INFINITY);
+			  } else if (!info->candidates.range.openUpper)
+				  upper = std::nextafter(upper, CCS_INFINITY);
 			  CCS_CHECK(ccs_create_numerical_parameter(
 				  name, CCS_NUMERIC_TYPE_FLOAT, lower, upper,
 				  step, lower, &ret));
@@ -312,12 +319,14 @@ variable_info_to_parameter(const char *name, VariableInfo *info)
 				  else
 					  lower = lower + step;
 			  }
-			  if (!info->candidates.range.openUpper) {
-				  if (step == 0)
-					  upper = upper + epsilon;
-				  else // this is dubious/would require
-				       // verification
-					  upper = upper + step;
+			  // the upper bound of a parameter is excluded
+			  if (!info->candidates.range.openUpper)
+				  upper = upper + 1;
+			  if (step != 0) {
+				  ccs_int_t n = (upper - lower) / step;
+				  if ((upper - lower) % step)
+					  n++;
+				  upper = lower + n * step;
 			  }
 			  CCS_CHECK(ccs_create_numerical_parameter(
 				  name, CCS_NUMERIC_TYPE_INT, lower, upper,
-- 
2.43.0


From fe873dc13348d96628051e372c44ca0355358819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:47 +0000
Subject: [PATCH 82/83] fix: finalizing the Kokkos connector forgot the
 contexts still open

---
 connectors/kokkos/ccs-kokkos-connector.cpp | 25 ++++++++++++++--------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/connectors/kokkos/ccs-kokkos-connector.cpp b/connectors/kokkos/ccs-kokkos-connector.cpp
index 42c2255..7b774dd 100644
--- a/connectors/kokkos/ccs-kokkos-connector.cpp
+++ b/connectors/kokkos/ccs-kokkos-connector.cpp
@@ -129,6 +129,15 @@ static std::map<size_t, ccs_parameter_t> features;
 static std::map<size_t, ccs_parameter_t> parameters;
 static std::map<std::set<size_t>, std::tuple<ccs_features_tuner_t, bool> >
 	tuners;
+static std::map<
+	size_t,
+	std::tuple<
+		struct timespec,
+		ccs_features_tuner_t,
+		ccs_features_t,
+		ccs_configuration_t,
+		bool> >
+	contexts;
 
 extern "C" void
 kokkosp_parse_args(int argc, char **argv)
@@ -177,6 +186,13 @@ kokkosp_finalize_library()
   clock_gettime(CLOCK_MONOTONIC, &prof_start);
 #endif
 
+  for (auto const &x : contexts) {
+	  CCS_CHECK(ccs_release_object(std::get<2>(x.second)));
+	  CCS_CHECK(ccs_release_object(std::get<3>(x.second)));
+  }
+  contexts.clear();
+  while (!convergence_stack.empty())
+	  convergence_stack.pop();
   for (auto const &x : features)
 	  CCS_CHECK(ccs_release_object(x.second));
   features.clear();
@@ -465,15 +481,6 @@ extract_value(
   }
 }
 
-static std::map<
-	size_t,
-	std::tuple<
-		struct timespec,
-		ccs_features_tuner_t,
-		ccs_features_t,
-		ccs_configuration_t,
-		bool> >
-	   contexts;
 static int regionCounter = 0;
 
 extern "C" void
-- 
2.43.0


From 831587257929e483c1be752409c7704fdfcbd759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:09 +0000
Subject: [PATCH 83/83] fix: the default distribution of a Python parameter
 kept an extra reference

ccs_parameter_get_default_distribution gives the caller a reference; the
wrapper took a second one, so the distribution was never destroyed.
---
 bindings/python/cconfigspace/parameter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/cconfigspace/parameter.py b/bindings/python/cconfigspace/parameter.py
index 00790a1..1b25a89 100644
--- a/bindings/python/cconfigspace/parameter.py
+++ b/bindings/python/cconfigspace/parameter.py
@@ -85,7 +85,7 @@ class Parameter(Object):
     v = ccs_distribution()
     res = ccs_parameter_get_default_distribution(self.handle, ct.byref(v))
     Error.check(res)
-    self._default_distribution = Distribution.from_handle(v)
+    self._default_distribution = Distribution.from_handle(v, retain = False)
     return self._default_distribution
 
   def check_value(self, value):
-- 
2.43.0

