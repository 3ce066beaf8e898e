From 018019bb2d8bfd7f8294067eaa5cd18eec880f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:26 +0000
Subject: [PATCH 01/64] fix: report open integer intervals between consecutive
 integers as empty

---
 src/interval.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/interval.c b/src/interval.c
index cabc912..da81248 100644
--- a/src/interval.c
+++ b/src/interval.c
@@ -7,11 +7,17 @@ ccs_interval_empty(ccs_interval_t *interval, ccs_bool_t *empty_ret)
 	// Empty ranges
 	// [l,u] when l> u; ]l,u] when l>=u
 	// [l,u[ when l>=u; ]l,u[ when l>=u
+	// ]l,l+1[ contains no integer either
 	if (interval->type == CCS_NUMERIC_TYPE_INT) {
 		if (interval->upper_included && interval->lower_included ?
 			    interval->lower.i > interval->upper.i :
 			    interval->lower.i >= interval->upper.i) {
 			*empty_ret = CCS_TRUE;
+		} else if (
+			!interval->upper_included &&
+			!interval->lower_included &&
+			interval->lower.i == interval->upper.i - 1) {
+			*empty_ret = CCS_TRUE;
 		} else
 			*empty_ret = CCS_FALSE;
 	} else {
-- 
2.43.0


From 7ed6a05fd2ace6a3739aaaa032040426077f412d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:26 +0000
Subject: [PATCH 02/64] fix: include shared bounds in interval unions when
 either interval includes them

---
 src/interval.c | 38 ++++++++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/src/interval.c b/src/interval.c
index da81248..21b9405 100644
--- a/src/interval.c
+++ b/src/interval.c
@@ -68,6 +68,36 @@ ccs_interval_empty(ccs_interval_t *interval, ccs_bool_t *empty_ret)
 		}                                                              \
 	}
 
+/* Union counterparts: on equal bounds the bound is included if it is included
+ * in either of the intervals. */
+#define HULL_MAX(l1, li1, l2, li2, l, li)                                      \
+	{                                                                      \
+		if (l1 > l2) {                                                 \
+			l  = l1;                                               \
+			li = li1;                                              \
+		} else if (l2 > l1 || !(li1)) {                                \
+			l  = l2;                                               \
+			li = li2;                                              \
+		} else {                                                       \
+			l  = l1;                                               \
+			li = li1;                                              \
+		}                                                              \
+	}
+
+#define HULL_MIN(l1, li1, l2, li2, l, li)                                      \
+	{                                                                      \
+		if (l1 < l2) {                                                 \
+			l  = l1;                                               \
+			li = li1;                                              \
+		} else if (l2 < l1 || !(li1)) {                                \
+			l  = l2;                                               \
+			li = li2;                                              \
+		} else {                                                       \
+			l  = l1;                                               \
+			li = li1;                                              \
+		}                                                              \
+	}
+
 ccs_result_t
 ccs_interval_intersect(
 	ccs_interval_t *interval1,
@@ -118,21 +148,21 @@ ccs_interval_union(
 		CCS_RESULT_ERROR_INVALID_TYPE);
 	if (interval1->type == CCS_NUMERIC_TYPE_FLOAT) {
 		interval_res->type = CCS_NUMERIC_TYPE_FLOAT;
-		MERGE_MIN(
+		HULL_MIN(
 			interval1->lower.f, interval1->lower_included,
 			interval2->lower.f, interval2->lower_included,
 			interval_res->lower.f, interval_res->lower_included);
-		MERGE_MAX(
+		HULL_MAX(
 			interval1->upper.f, interval1->upper_included,
 			interval2->upper.f, interval2->upper_included,
 			interval_res->upper.f, interval_res->upper_included);
 	} else {
 		interval_res->type = CCS_NUMERIC_TYPE_INT;
-		MERGE_MIN(
+		HULL_MIN(
 			interval1->lower.i, interval1->lower_included,
 			interval2->lower.i, interval2->lower_included,
 			interval_res->lower.i, interval_res->lower_included);
-		MERGE_MAX(
+		HULL_MAX(
 			interval1->upper.i, interval1->upper_included,
 			interval2->upper.i, interval2->upper_included,
 			interval_res->upper.i, interval_res->upper_included);
-- 
2.43.0


From 405ceb161687a3c241c0e6479e4ca3cfb7ce343f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:15 +0000
Subject: [PATCH 03/64] fix: release the sampling buffer when a parameter
 cannot be sampled

---
 src/parameter_categorical.c | 6 +++---
 src/parameter_numerical.c   | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/parameter_categorical.c b/src/parameter_categorical.c
index beefe62..e79f1de 100644
--- a/src/parameter_categorical.c
+++ b/src/parameter_categorical.c
@@ -178,9 +178,9 @@ _ccs_parameter_categorical_samples(
 		vs           = NULL;
 		size_t coeff = 2;
 		while (found < num_values) {
-			CCS_REFUTE(
-				coeff > 32,
-				CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL);
+			CCS_REFUTE_ERR_GOTO(
+				err, coeff > 32,
+				CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL, errmem);
 			size_t     buff_sz = (num_values - found) * coeff;
 			ccs_int_t *oldvs   = vs;
 			vs                 = (ccs_int_t *)realloc(
diff --git a/src/parameter_numerical.c b/src/parameter_numerical.c
index 645b518..bb0ba07 100644
--- a/src/parameter_numerical.c
+++ b/src/parameter_numerical.c
@@ -160,9 +160,9 @@ _ccs_parameter_numerical_samples(
 		vs           = NULL;
 		size_t coeff = 2;
 		while (found < num_values) {
-			CCS_REFUTE(
-				coeff > 32,
-				CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL);
+			CCS_REFUTE_ERR_GOTO(
+				err, coeff > 32,
+				CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL, errmem);
 			size_t         buff_sz = (num_values - found) * coeff;
 			ccs_numeric_t *oldvs   = vs;
 			vs                     = (ccs_numeric_t *)realloc(
-- 
2.43.0


From 2d58ccdef89742aa26cb17269b85ceebfb7d15f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:17 +0000
Subject: [PATCH 04/64] fix: return the keys, not the values, from
 ccs_map_get_keys

---
 src/map.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/map.c b/src/map.c
index b10d5d0..91f21ae 100644
--- a/src/map.c
+++ b/src/map.c
@@ -294,7 +294,7 @@ ccs_map_get_keys(
 		_ccs_map_datum_t *current = NULL, *tmp;
 		size_t            i       = 0;
 		HASH_ITER(hh, map->data->map, current, tmp)
-		keys[i++] = current->value;
+		keys[i++] = current->key;
 		for (i = num_entries; i < num_keys; i++)
 			keys[i] = ccs_none;
 	}
-- 
2.43.0


From ea24e9d1e5253a536482786bf9c834b365818f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:24 +0000
Subject: [PATCH 05/64] fix: refuse the integer division whose quotient is not
 representable

---
 src/expression.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/expression.c b/src/expression.c
index 028c660..17bab4a 100644
--- a/src/expression.c
+++ b/src/expression.c
@@ -879,7 +879,9 @@ _ccs_expr_divide_eval(
 	if (left.type == CCS_DATA_TYPE_INT) {
 		if (right.type == CCS_DATA_TYPE_INT) {
 			CCS_REFUTE(
-				right.value.i == 0,
+				right.value.i == 0 ||
+					(left.value.i == CCS_INT_MIN &&
+					 right.value.i == -1),
 				CCS_RESULT_ERROR_INVALID_VALUE);
 			*result = ccs_int(left.value.i / right.value.i);
 			return CCS_RESULT_SUCCESS;
-- 
2.43.0


From 37939f2f18c2cdb19bbf9dcb52426296ed756415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:24 +0000
Subject: [PATCH 06/64] fix: do not trap on the smallest integer modulo -1

---
 src/expression.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/expression.c b/src/expression.c
index 17bab4a..a40bc8b 100644
--- a/src/expression.c
+++ b/src/expression.c
@@ -934,7 +934,11 @@ _ccs_expr_modulo_eval(
 			CCS_REFUTE(
 				right.value.i == 0,
 				CCS_RESULT_ERROR_INVALID_VALUE);
-			*result = ccs_int(left.value.i % right.value.i);
+			// INT_MIN % -1 traps on some architectures
+			*result = ccs_int(
+				right.value.i == -1 ?
+					0 :
+					left.value.i % right.value.i);
 			return CCS_RESULT_SUCCESS;
 		} else if (right.type == CCS_DATA_TYPE_FLOAT) {
 			CCS_REFUTE(
-- 
2.43.0


From ee08f087f9af6641357c664e87d297a9270df8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:24 +0000
Subject: [PATCH 07/64] fix: compare floats by value in expression equality

---
 src/expression.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/expression.c b/src/expression.c
index a40bc8b..aace15c 100644
--- a/src/expression.c
+++ b/src/expression.c
@@ -363,6 +363,10 @@ _ccs_datum_test_equal_generic(ccs_datum_t *a, ccs_datum_t *b, ccs_bool_t *equal)
 		case CCS_DATA_TYPE_NONE:
 			*equal = CCS_TRUE;
 			break;
+		case CCS_DATA_TYPE_FLOAT:
+			*equal = (a->value.f == b->value.f) ? CCS_TRUE :
+							      CCS_FALSE;
+			break;
 		default:
 			*equal = memcmp(&(a->value), &(b->value),
 					sizeof(ccs_value_t)) == 0 ?
-- 
2.43.0


From 0345d392add85afedad66837facd3a3f59c111a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:24 +0000
Subject: [PATCH 08/64] fix: evaluate membership in lists with inactive items

---
 src/expression.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/expression.c b/src/expression.c
index aace15c..ebb050b 100644
--- a/src/expression.c
+++ b/src/expression.c
@@ -729,8 +729,10 @@ _ccs_expr_in_eval(
 		ccs_datum_t right;
 		CCS_VALIDATE(ccs_expression_list_eval_node(
 			data->nodes[1], context, values, i, &right));
-		if (right.type == CCS_DATA_TYPE_INACTIVE)
+		if (right.type == CCS_DATA_TYPE_INACTIVE) {
 			inactive = CCS_TRUE;
+			continue;
+		}
 		CHECK_PARAMETERS(data->nodes[0], right, htl);
 		ccs_bool_t equal;
 		_ccs_datum_test_equal_generic(&left, &right, &equal);
-- 
2.43.0


From 29aaa9db9616e6cc41484a065378fb9ddd183dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:26 +0000
Subject: [PATCH 09/64] fix: refuse arrays too small for the objective values
 of an evaluation

---
 src/evaluation.c          | 2 +-
 src/features_evaluation.c | 2 +-
 src/tree_evaluation.c     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/evaluation.c b/src/evaluation.c
index acabf57..4201894 100644
--- a/src/evaluation.c
+++ b/src/evaluation.c
@@ -359,7 +359,7 @@ ccs_evaluation_get_objective_values(
 	CCS_VALIDATE(ccs_objective_space_get_objectives(
 		evaluation->data->objective_space, 0, NULL, NULL, &count));
 	if (values) {
-		CCS_REFUTE(count < num_values, CCS_RESULT_ERROR_INVALID_VALUE);
+		CCS_REFUTE(num_values < count, CCS_RESULT_ERROR_INVALID_VALUE);
 		for (size_t i = 0; i < count; i++) {
 			ccs_expression_t     expression;
 			ccs_objective_type_t type;
diff --git a/src/features_evaluation.c b/src/features_evaluation.c
index 7d2c103..e64b786 100644
--- a/src/features_evaluation.c
+++ b/src/features_evaluation.c
@@ -402,7 +402,7 @@ ccs_features_evaluation_get_objective_values(
 	CCS_VALIDATE(ccs_objective_space_get_objectives(
 		evaluation->data->objective_space, 0, NULL, NULL, &count));
 	if (values) {
-		CCS_REFUTE(count < num_values, CCS_RESULT_ERROR_INVALID_VALUE);
+		CCS_REFUTE(num_values < count, CCS_RESULT_ERROR_INVALID_VALUE);
 		for (size_t i = 0; i < count; i++) {
 			ccs_expression_t     expression;
 			ccs_objective_type_t type;
diff --git a/src/tree_evaluation.c b/src/tree_evaluation.c
index c78232f..614e32b 100644
--- a/src/tree_evaluation.c
+++ b/src/tree_evaluation.c
@@ -364,7 +364,7 @@ ccs_tree_evaluation_get_objective_values(
 	CCS_VALIDATE(ccs_objective_space_get_objectives(
 		evaluation->data->objective_space, 0, NULL, NULL, &count));
 	if (values) {
-		CCS_REFUTE(count < num_values, CCS_RESULT_ERROR_INVALID_VALUE);
+		CCS_REFUTE(num_values < count, CCS_RESULT_ERROR_INVALID_VALUE);
 		for (size_t i = 0; i < count; i++) {
 			ccs_expression_t     expression;
 			ccs_objective_type_t type;
-- 
2.43.0


From 659a06c7f7e592d26b8c520a2bacf0b9dbdf8684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:37 +0000
Subject: [PATCH 10/64] fix: accept features spaces in
 ccs_features_space_check_features_values

---
 src/features_space.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/features_space.c b/src/features_space.c
index 7bec62d..fa906d8 100644
--- a/src/features_space.c
+++ b/src/features_space.c
@@ -366,7 +366,7 @@ ccs_features_space_check_features_values(
 	ccs_datum_t         *values,
 	ccs_bool_t          *is_valid_ret)
 {
-	CCS_CHECK_OBJ(features_space, CCS_OBJECT_TYPE_CONFIGURATION_SPACE);
+	CCS_CHECK_OBJ(features_space, CCS_OBJECT_TYPE_FEATURES_SPACE);
 	CCS_CHECK_ARY(num_values, values);
 	CCS_VALIDATE(_check_features(
 		features_space, num_values, values, is_valid_ret));
-- 
2.43.0


From 9cb2f8d84c66de58173d77122ad0e0d02e6d450a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:44 +0000
Subject: [PATCH 11/64] fix: do not truncate positions before checking them

---
 src/configuration_space.c | 10 +++++-----
 src/context_internal.h    |  4 ++--
 src/objective_space.c     |  2 +-
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/configuration_space.c b/src/configuration_space.c
index 6392af3..729cf21 100644
--- a/src/configuration_space.c
+++ b/src/configuration_space.c
@@ -705,7 +705,7 @@ ccs_configuration_space_get_parameter_distribution(
 	_ccs_parameter_wrapper_cs_t *wrapper =
 		(_ccs_parameter_wrapper_cs_t *)utarray_eltptr(
 			configuration_space->data->parameters,
-			(unsigned int)index);
+			index);
 	CCS_REFUTE(!wrapper, CCS_RESULT_ERROR_OUT_OF_BOUNDS);
 	*distribution_ret = wrapper->distribution->distribution;
 	*index_ret        = wrapper->distribution_index;
@@ -1234,7 +1234,7 @@ _recompute_graph(ccs_configuration_space_t configuration_space)
 	ccs_result_t err = CCS_RESULT_SUCCESS;
 	for (size_t index = 0; index < utarray_len(array); index++) {
 		wrapper = (_ccs_parameter_wrapper_cs_t *)utarray_eltptr(
-			array, (unsigned int)index);
+			array, index);
 		if (!wrapper->condition)
 			continue;
 		size_t count;
@@ -1317,7 +1317,7 @@ ccs_configuration_space_set_condition(
 	_ccs_parameter_wrapper_cs_t *wrapper =
 		(_ccs_parameter_wrapper_cs_t *)utarray_eltptr(
 			configuration_space->data->parameters,
-			(unsigned int)parameter_index);
+			parameter_index);
 	CCS_REFUTE(!wrapper, CCS_RESULT_ERROR_OUT_OF_BOUNDS);
 	CCS_REFUTE(wrapper->condition, CCS_RESULT_ERROR_INVALID_PARAMETER);
 	ccs_result_t err;
@@ -1345,7 +1345,7 @@ ccs_configuration_space_get_condition(
 	_ccs_parameter_wrapper_cs_t *wrapper =
 		(_ccs_parameter_wrapper_cs_t *)utarray_eltptr(
 			configuration_space->data->parameters,
-			(unsigned int)parameter_index);
+			parameter_index);
 	CCS_REFUTE(!wrapper, CCS_RESULT_ERROR_OUT_OF_BOUNDS);
 	*expression_ret = wrapper->condition;
 	return CCS_RESULT_SUCCESS;
@@ -1448,7 +1448,7 @@ ccs_configuration_space_get_forbidden_clause(
 	CCS_CHECK_PTR(expression_ret);
 	ccs_expression_t *p_expr = (ccs_expression_t *)utarray_eltptr(
 		configuration_space->data->forbidden_clauses,
-		(unsigned int)index);
+		index);
 	CCS_REFUTE(!p_expr, CCS_RESULT_ERROR_OUT_OF_BOUNDS);
 	*expression_ret = *p_expr;
 	return CCS_RESULT_SUCCESS;
diff --git a/src/context_internal.h b/src/context_internal.h
index 3fa6a0b..86940e9 100644
--- a/src/context_internal.h
+++ b/src/context_internal.h
@@ -77,7 +77,7 @@ _ccs_context_get_parameter(
 	CCS_CHECK_PTR(parameter_ret);
 	_ccs_parameter_wrapper_t *wrapper =
 		(_ccs_parameter_wrapper_t *)utarray_eltptr(
-			context->data->parameters, (unsigned int)index);
+			context->data->parameters, index);
 	CCS_REFUTE(!wrapper, CCS_RESULT_ERROR_OUT_OF_BOUNDS);
 	*parameter_ret = wrapper->parameter;
 	return CCS_RESULT_SUCCESS;
@@ -184,7 +184,7 @@ _ccs_context_validate_value(
 	CCS_CHECK_PTR(value_ret);
 	_ccs_parameter_wrapper_t *wrapper =
 		(_ccs_parameter_wrapper_t *)utarray_eltptr(
-			context->data->parameters, (unsigned int)index);
+			context->data->parameters, index);
 	CCS_REFUTE(!wrapper, CCS_RESULT_ERROR_OUT_OF_BOUNDS);
 	ccs_bool_t valid;
 	CCS_VALIDATE(ccs_parameter_validate_value(
diff --git a/src/objective_space.c b/src/objective_space.c
index 0355ea6..1839076 100644
--- a/src/objective_space.c
+++ b/src/objective_space.c
@@ -544,7 +544,7 @@ ccs_objective_space_get_objective(
 	CCS_CHECK_PTR(expression_ret);
 	CCS_CHECK_PTR(type_ret);
 	_ccs_objective_t *p_obj = (_ccs_objective_t *)utarray_eltptr(
-		objective_space->data->objectives, (unsigned int)index);
+		objective_space->data->objectives, index);
 	CCS_REFUTE(!p_obj, CCS_RESULT_ERROR_OUT_OF_BOUNDS);
 	*expression_ret = p_obj->expression;
 	*type_ret       = p_obj->type;
-- 
2.43.0


From f52c7c3264d2228f69047784c046ac692a2beb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:17 +0000
Subject: [PATCH 12/64] fix: release the configuration space when a
 configuration value is refused

---
 src/configuration.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/configuration.c b/src/configuration.c
index d558a05..82663c0 100644
--- a/src/configuration.c
+++ b/src/configuration.c
@@ -130,10 +130,12 @@ ccs_create_configuration(
 						configuration_space, i,
 						values[i],
 						config->data->values + i),
-					errmem);
+					errcs);
 	}
 	*configuration_ret = config;
 	return CCS_RESULT_SUCCESS;
+errcs:
+	ccs_release_object(configuration_space);
 errmem:
 	free((void *)mem);
 	return err;
-- 
2.43.0


From a3e847c728c932e318bb3ce6549e727a3e269fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:15 +0000
Subject: [PATCH 13/64] fix: keep the optima of random tuners when an
 evaluation cannot be compared

---
 src/features_tuner_random.c | 6 ++++--
 src/tree_tuner_random.c     | 6 ++++--
 src/tuner_random.c          | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/features_tuner_random.c b/src/features_tuner_random.c
index ef3d602..979939e 100644
--- a/src/features_tuner_random.c
+++ b/src/features_tuner_random.c
@@ -222,9 +222,11 @@ _ccs_features_tuner_random_tell(
 					ccs_comparison_t cmp;
 					err = ccs_features_evaluation_compare(
 						evaluations[i], *eval, &cmp);
-					if (err)
+					if (err) {
 						discard = 1;
-					else
+						utarray_push_back(
+							d->optima, eval);
+					} else
 						switch (cmp) {
 						case CCS_COMPARISON_EQUIVALENT:
 						case CCS_COMPARISON_WORSE:
diff --git a/src/tree_tuner_random.c b/src/tree_tuner_random.c
index ed39c99..cf7fe03 100644
--- a/src/tree_tuner_random.c
+++ b/src/tree_tuner_random.c
@@ -214,9 +214,11 @@ _ccs_tree_tuner_random_tell(
 					ccs_comparison_t cmp;
 					err = ccs_tree_evaluation_compare(
 						evaluations[i], *eval, &cmp);
-					if (err)
+					if (err) {
 						discard = 1;
-					else
+						utarray_push_back(
+							d->optima, eval);
+					} else
 						switch (cmp) {
 						case CCS_COMPARISON_EQUIVALENT:
 						case CCS_COMPARISON_WORSE:
diff --git a/src/tuner_random.c b/src/tuner_random.c
index e9c072f..26aeab1 100644
--- a/src/tuner_random.c
+++ b/src/tuner_random.c
@@ -213,9 +213,11 @@ _ccs_tuner_random_tell(
 					ccs_comparison_t cmp;
 					err = ccs_evaluation_compare(
 						evaluations[i], *eval, &cmp);
-					if (err)
+					if (err) {
 						discard = 1;
-					else
+						utarray_push_back(
+							d->optima, eval);
+					} else
 						switch (cmp) {
 						case CCS_COMPARISON_EQUIVALENT:
 						case CCS_COMPARISON_WORSE:
-- 
2.43.0


From 5b1fc21917c4913699e404c33edc2ebfb929313c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:50 +0000
Subject: [PATCH 14/64] fix: set extra possible values to none instead of
 leaving them unset

---
 src/parameter_categorical.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parameter_categorical.c b/src/parameter_categorical.c
index e79f1de..94552e4 100644
--- a/src/parameter_categorical.c
+++ b/src/parameter_categorical.c
@@ -405,7 +405,7 @@ _ccs_categorical_parameter_get_values(
 			CCS_RESULT_ERROR_INVALID_VALUE);
 		for (size_t i = 0; i < d->num_possible_values; i++)
 			possible_values[i] = d->possible_values[i].d;
-		for (size_t i = num_possible_values; i < d->num_possible_values;
+		for (size_t i = d->num_possible_values; i < num_possible_values;
 		     i++)
 			possible_values[i] = ccs_none;
 	}
-- 
2.43.0


From 595f1147091232d67d107db460393bba6ce3f45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:50 +0000
Subject: [PATCH 15/64] fix: set the extra entries of a tree configuration
 position to 0

---
 src/tree_configuration.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tree_configuration.c b/src/tree_configuration.c
index 4b76e1a..c009a21 100644
--- a/src/tree_configuration.c
+++ b/src/tree_configuration.c
@@ -180,6 +180,8 @@ ccs_tree_configuration_get_position(
 			position_size < size, CCS_RESULT_ERROR_INVALID_VALUE);
 		memcpy(position, configuration->data->position,
 		       size * sizeof(size_t));
+		for (size_t i = size; i < position_size; i++)
+			position[i] = 0;
 	}
 	if (position_size_ret)
 		*position_size_ret = size;
-- 
2.43.0


From dbfacec30a065cd953fb0daf5b7e102594c4e7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:50 +0000
Subject: [PATCH 16/64] fix: refuse a missing array of tree configuration
 values

---
 src/tree_configuration.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tree_configuration.c b/src/tree_configuration.c
index c009a21..9baa40d 100644
--- a/src/tree_configuration.c
+++ b/src/tree_configuration.c
@@ -196,6 +196,7 @@ ccs_tree_configuration_get_values(
 	size_t                  *num_values_ret)
 {
 	CCS_CHECK_OBJ(configuration, CCS_OBJECT_TYPE_TREE_CONFIGURATION);
+	CCS_CHECK_ARY(num_values, values);
 	CCS_REFUTE(!values && !num_values_ret, CCS_RESULT_ERROR_INVALID_VALUE);
 	size_t num = configuration->data->position_size + 1;
 	if (values)
-- 
2.43.0


From d4570500795b03e6041d7e0e6ec759f4d672f497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:28 +0000
Subject: [PATCH 17/64] fix: refuse to attach a tree below itself

---
 src/tree.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tree.c b/src/tree.c
index 7c37190..687f0e3 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -271,6 +271,8 @@ ccs_tree_set_child(ccs_tree_t tree, size_t index, ccs_tree_t child)
 	CCS_REFUTE(
 		child_data->parent || child_data->index,
 		CCS_RESULT_ERROR_INVALID_TREE);
+	for (ccs_tree_t node = tree; node; node = node->data->parent)
+		CCS_REFUTE(node == child, CCS_RESULT_ERROR_INVALID_TREE);
 	CCS_VALIDATE(ccs_retain_object(child));
 
 	child_data->parent         = tree;
-- 
2.43.0


From 17333d41b46226b4ed23c2bb3197a5c567c4983f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:47 +0000
Subject: [PATCH 18/64] fix: refuse tree arities whose storage size overflows

---
 src/tree.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tree.c b/src/tree.c
index 687f0e3..7db9b6f 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -144,7 +144,10 @@ ccs_create_tree(size_t arity, ccs_datum_t value, ccs_tree_t *tree_ret)
 	CCS_REFUTE(
 		value.type > CCS_DATA_TYPE_STRING,
 		CCS_RESULT_ERROR_INVALID_VALUE);
-	CCS_REFUTE(arity > CCS_INT_MAX - 1, CCS_RESULT_ERROR_INVALID_VALUE);
+	/* sizes computed from the arity must not overflow */
+	CCS_REFUTE(
+		arity > CCS_INT_MAX / (4 * sizeof(ccs_float_t)),
+		CCS_RESULT_ERROR_INVALID_VALUE);
 	size_t size_strs = 0;
 	if (value.type == CCS_DATA_TYPE_STRING) {
 		CCS_REFUTE(!value.value.s, CCS_RESULT_ERROR_INVALID_VALUE);
-- 
2.43.0


From 864f88ff7cd0dcbec343075c38cadf74b39e0309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:09 +0000
Subject: [PATCH 19/64] fix: size the temporary bounds of a mixture by its
 dimension

---
 src/distribution_mixture.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/distribution_mixture.c b/src/distribution_mixture.c
index dc11674..d7c4062 100644
--- a/src/distribution_mixture.c
+++ b/src/distribution_mixture.c
@@ -236,14 +236,14 @@ ccs_create_mixture_distribution(
 	cur_mem = mem;
 
 	tmp_mem = (uintptr_t)calloc(
-		1, sizeof(ccs_interval_t) * num_distributions +
+		1, sizeof(ccs_interval_t) * dimension +
 			   sizeof(ccs_numeric_type_t) * dimension);
 	CCS_REFUTE_ERR_GOTO(
 		err, !tmp_mem, CCS_RESULT_ERROR_OUT_OF_MEMORY, memory);
 	bounds_tmp = (ccs_interval_t *)tmp_mem;
 	data_types_tmp =
 		(ccs_numeric_type_t
-			 *)(tmp_mem + sizeof(ccs_interval_t) * num_distributions);
+			 *)(tmp_mem + sizeof(ccs_interval_t) * dimension);
 
 	distrib = (ccs_distribution_t)cur_mem;
 	cur_mem += sizeof(struct _ccs_distribution_s);
-- 
2.43.0


From 7ab1ad6b5a717c9d0ac058a81669df81935c7735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:09 +0000
Subject: [PATCH 20/64] fix: free the temporary memory of a refused mixture

---
 src/distribution_mixture.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distribution_mixture.c b/src/distribution_mixture.c
index d7c4062..8d6c89d 100644
--- a/src/distribution_mixture.c
+++ b/src/distribution_mixture.c
@@ -313,7 +313,7 @@ ccs_create_mixture_distribution(
 	distrib_data->weights[num_distributions] = 1.0;
 	CCS_REFUTE_ERR_GOTO(
 		err, 1.0 < distrib_data->weights[num_distributions - 1],
-		CCS_RESULT_ERROR_INVALID_VALUE, memory);
+		CCS_RESULT_ERROR_INVALID_VALUE, tmpmemory);
 	for (i = 0; i < num_distributions; i++) {
 		CCS_VALIDATE_ERR_GOTO(
 			err, ccs_retain_object(distributions[i]), distrib);
-- 
2.43.0


From d17326b73f2630ae6af2c804402ae1625084dc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:09 +0000
Subject: [PATCH 21/64] fix: skip missing columns when sampling a mixture

---
 src/distribution_mixture.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/distribution_mixture.c b/src/distribution_mixture.c
index 8d6c89d..ed6e7fe 100644
--- a/src/distribution_mixture.c
+++ b/src/distribution_mixture.c
@@ -435,8 +435,7 @@ _ccs_distribution_mixture_soa_samples(
 		ccs_int_t   index = _ccs_dichotomic_search(
                         d->num_distributions, d->weights, rnd);
 		for (size_t j = 0; j < dim; j++)
-			if (values[j])
-				p_values[j] = values[j] + i;
+			p_values[j] = values[j] ? values[j] + i : NULL;
 		CCS_VALIDATE(ccs_distribution_get_ops(d->distributions[index])
 				     ->soa_samples(
 					     d->distributions[index]->data, rng,
-- 
2.43.0


From 0c6a451a571b7dccd08f5e184098bced1c69cb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:27 +0000
Subject: [PATCH 22/64] fix: sample integer ranges wider than the range of the
 generator

---
 src/distribution_uniform.c | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/distribution_uniform.c b/src/distribution_uniform.c
index 2b1f06c..569659c 100644
--- a/src/distribution_uniform.c
+++ b/src/distribution_uniform.c
@@ -205,6 +205,24 @@ _ccs_distribution_uniform_get_bounds(
 	return CCS_RESULT_SUCCESS;
 }
 
+/* The number of values can exceed the range of the generator, in which case
+ * gsl_rng_uniform_int refuses to draw. */
+static inline ccs_int_t
+_ccs_distribution_uniform_int(gsl_rng *grng, ccs_int_t num)
+{
+	const unsigned long max   = gsl_rng_max(grng) - gsl_rng_min(grng);
+	const ccs_int_t     range = max > CCS_INT_MAX ? CCS_INT_MAX :
+							(ccs_int_t)max;
+	if (num <= range)
+		return (ccs_int_t)gsl_rng_uniform_int(grng, num);
+	ccs_int_t high, low;
+	do {
+		high = _ccs_distribution_uniform_int(grng, num / range + 1);
+		low  = (ccs_int_t)gsl_rng_uniform_int(grng, range);
+	} while (high == num / range && low >= num % range);
+	return high * range + low;
+}
+
 static ccs_result_t
 _ccs_distribution_uniform_strided_samples(
 	_ccs_distribution_data_t *data,
@@ -269,8 +287,9 @@ _ccs_distribution_uniform_strided_samples(
 						lower.i;
 		} else {
 			for (i = 0; i < num_values; i++) {
-				values[i * stride].i = gsl_rng_uniform_int(
-					grng, internal_upper.i);
+				values[i * stride].i =
+					_ccs_distribution_uniform_int(
+						grng, internal_upper.i);
 			}
 			if (quantize)
 				for (i = 0; i < num_values; i++)
@@ -344,7 +363,7 @@ _ccs_distribution_uniform_samples(
 						      lower.i;
 		} else {
 			for (i = 0; i < num_values; i++) {
-				values[i].i = gsl_rng_uniform_int(
+				values[i].i = _ccs_distribution_uniform_int(
 					grng, internal_upper.i);
 			}
 			if (quantize)
-- 
2.43.0


From 28ad89b1cb67fa0b4bc6c2d8e725d01242e26236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:45 +0000
Subject: [PATCH 23/64] fix: keep uniform samples inside the interval when
 rounding brings them out

---
 src/distribution_uniform.c | 53 +++++++++++++++++++++++++++++++++-----
 1 file changed, 47 insertions(+), 6 deletions(-)

diff --git a/src/distribution_uniform.c b/src/distribution_uniform.c
index 569659c..29d34de 100644
--- a/src/distribution_uniform.c
+++ b/src/distribution_uniform.c
@@ -223,6 +223,33 @@ _ccs_distribution_uniform_int(gsl_rng *grng, ccs_int_t num)
 	return high * range + low;
 }
 
+/* Rounding can bring a computed value out of the interval. */
+static inline ccs_float_t
+_ccs_distribution_uniform_clamp_float(
+	ccs_float_t value,
+	ccs_float_t lower,
+	ccs_float_t upper)
+{
+	if (!(value >= lower))
+		return lower;
+	if (!(value < upper))
+		return nextafter(upper, lower);
+	return value;
+}
+
+static inline ccs_int_t
+_ccs_distribution_uniform_clamp_int(
+	ccs_float_t value,
+	ccs_int_t   lower,
+	ccs_int_t   upper)
+{
+	if (!(value >= (ccs_float_t)lower))
+		return lower;
+	if (!(value < (ccs_float_t)upper) || (ccs_int_t)value >= upper)
+		return upper - 1;
+	return (ccs_int_t)value < lower ? lower : (ccs_int_t)value;
+}
+
 static ccs_result_t
 _ccs_distribution_uniform_strided_samples(
 	_ccs_distribution_data_t *data,
@@ -238,6 +265,7 @@ _ccs_distribution_uniform_strided_samples(
 	const ccs_scale_type_t   scale_type     = d->scale_type;
 	const ccs_numeric_t      quantization   = d->quantization;
 	const ccs_numeric_t      lower          = d->lower;
+	const ccs_numeric_t      upper          = d->upper;
 	const ccs_numeric_t      internal_lower = d->internal_lower;
 	const ccs_numeric_t      internal_upper = d->internal_upper;
 	const int                quantize       = d->quantize;
@@ -270,12 +298,18 @@ _ccs_distribution_uniform_strided_samples(
 		else
 			for (i = 0; i < num_values; i++)
 				values[i * stride].f += lower.f;
+		for (i = 0; i < num_values; i++)
+			values[i * stride].f = _ccs_distribution_uniform_clamp_float(
+				values[i * stride].f, lower.f, upper.f);
 	} else {
 		if (scale_type == CCS_SCALE_TYPE_LOGARITHMIC) {
 			for (i = 0; i < num_values; i++) {
-				values[i * stride].i = floor(exp(gsl_ran_flat(
-					grng, internal_lower.f,
-					internal_upper.f)));
+				values[i * stride].i =
+					_ccs_distribution_uniform_clamp_int(
+						floor(exp(gsl_ran_flat(
+							grng, internal_lower.f,
+							internal_upper.f))),
+						lower.i, upper.i);
 			}
 			if (quantize)
 				for (i = 0; i < num_values; i++)
@@ -319,6 +353,7 @@ _ccs_distribution_uniform_samples(
 	const ccs_scale_type_t   scale_type     = d->scale_type;
 	const ccs_numeric_t      quantization   = d->quantization;
 	const ccs_numeric_t      lower          = d->lower;
+	const ccs_numeric_t      upper          = d->upper;
 	const ccs_numeric_t      internal_lower = d->internal_lower;
 	const ccs_numeric_t      internal_upper = d->internal_upper;
 	const int                quantize       = d->quantize;
@@ -348,12 +383,18 @@ _ccs_distribution_uniform_samples(
 		else
 			for (i = 0; i < num_values; i++)
 				values[i].f += lower.f;
+		for (i = 0; i < num_values; i++)
+			values[i].f = _ccs_distribution_uniform_clamp_float(
+				values[i].f, lower.f, upper.f);
 	} else {
 		if (scale_type == CCS_SCALE_TYPE_LOGARITHMIC) {
 			for (i = 0; i < num_values; i++) {
-				values[i].i = floor(exp(gsl_ran_flat(
-					grng, internal_lower.f,
-					internal_upper.f)));
+				values[i].i =
+					_ccs_distribution_uniform_clamp_int(
+						floor(exp(gsl_ran_flat(
+							grng, internal_lower.f,
+							internal_upper.f))),
+						lower.i, upper.i);
 			}
 			if (quantize)
 				for (i = 0; i < num_values; i++)
-- 
2.43.0


From 78412b9e55d0c62f2fa91898086ae162581159a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:56 +0000
Subject: [PATCH 24/64] fix: release the pending configuration when sampling
 gives up

---
 src/configuration_space.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/configuration_space.c b/src/configuration_space.c
index 729cf21..7d96a1e 100644
--- a/src/configuration_space.c
+++ b/src/configuration_space.c
@@ -1112,12 +1112,13 @@ ccs_configuration_space_samples(
 			config                  = NULL;
 		}
 	}
-	CCS_REFUTE(
-		count < num_configurations,
-		CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL);
+	CCS_REFUTE_ERR_GOTO(
+		err, count < num_configurations,
+		CCS_RESULT_ERROR_SAMPLING_UNSUCCESSFUL, errc);
 	return CCS_RESULT_SUCCESS;
 errc:
-	ccs_release_object(config);
+	if (config)
+		ccs_release_object(config);
 	return err;
 }
 
-- 
2.43.0


From e118300cf16a849180d5e1c5eefbafad671a52cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:56 +0000
Subject: [PATCH 25/64] fix: compute default configurations from the accepted
 conditions only

---
 src/configuration_space.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/configuration_space.c b/src/configuration_space.c
index 7d96a1e..a307f0c 100644
--- a/src/configuration_space.c
+++ b/src/configuration_space.c
@@ -866,6 +866,8 @@ ccs_configuration_space_get_default_configuration(
 	CCS_CHECK_PTR(configuration_ret);
 	ccs_result_t        err;
 	ccs_configuration_t config;
+	if (!configuration_space->data->graph_ok)
+		CCS_VALIDATE(_generate_constraints(configuration_space));
 	CCS_VALIDATE(ccs_create_configuration(
 		configuration_space, 0, NULL, &config));
 	UT_array *array = configuration_space->data->parameters;
-- 
2.43.0


From 4897dcace82b693e3d0ec36568e52489aa248d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:06 +0000
Subject: [PATCH 26/64] fix: release the object when its serialized user data
 is truncated or refused

The size of the serialized user data was not checked against the remaining
buffer, and a failure at that point leaked the object.
---
 src/cconfigspace_internal.h           | 33 ++++++++++++++++++++-------
 src/configuration_deserialize.h       |  2 +-
 src/configuration_space_deserialize.h |  2 +-
 src/distribution_deserialize.h        |  2 +-
 src/evaluation_deserialize.h          |  2 +-
 src/expression_deserialize.h          |  2 +-
 src/features_deserialize.h            |  2 +-
 src/features_evaluation_deserialize.h |  2 +-
 src/features_space_deserialize.h      |  2 +-
 src/features_tuner_deserialize.h      |  2 +-
 src/map_deserialize.h                 |  2 +-
 src/objective_space_deserialize.h     |  2 +-
 src/parameter_deserialize.h           |  2 +-
 src/rng_deserialize.h                 |  2 +-
 src/tree_configuration_deserialize.h  |  2 +-
 src/tree_deserialize.h                |  2 +-
 src/tree_evaluation_deserialize.h     |  2 +-
 src/tree_space_deserialize.h          |  2 +-
 src/tree_tuner_deserialize.h          |  2 +-
 src/tuner_deserialize.h               |  2 +-
 20 files changed, 44 insertions(+), 27 deletions(-)

diff --git a/src/cconfigspace_internal.h b/src/cconfigspace_internal.h
index eb20271..6b60f08 100644
--- a/src/cconfigspace_internal.h
+++ b/src/cconfigspace_internal.h
@@ -1163,9 +1163,11 @@ _ccs_object_serialize_user_data(
 	return CCS_RESULT_SUCCESS;
 }
 
+/* On failure the object is released and reset, so that callers are left with
+ * nothing to clean up. */
 static inline ccs_result_t
 _ccs_object_deserialize_user_data(
-	ccs_object_t                       object,
+	ccs_object_t                      *object_ret,
 	ccs_serialize_format_t             format,
 	uint32_t                           version,
 	size_t                            *buffer_size,
@@ -1173,27 +1175,42 @@ _ccs_object_deserialize_user_data(
 	_ccs_object_deserialize_options_t *opts)
 {
 	(void)version;
+	ccs_result_t res;
 	switch (format) {
 	case CCS_SERIALIZE_FORMAT_BINARY: {
 		size_t serialize_data_size;
-		CCS_VALIDATE(_ccs_deserialize_bin_size(
-			&serialize_data_size, buffer_size, buffer));
+		CCS_VALIDATE_ERR_GOTO(
+			res,
+			_ccs_deserialize_bin_size(
+				&serialize_data_size, buffer_size, buffer),
+			err_object);
+		CCS_REFUTE_ERR_GOTO(
+			res, *buffer_size < serialize_data_size,
+			CCS_RESULT_ERROR_NOT_ENOUGH_DATA, err_object);
 		if (serialize_data_size) {
 			if (opts->deserialize_callback)
-				CCS_VALIDATE(opts->deserialize_callback(
-					object, serialize_data_size, *buffer,
-					opts->deserialize_user_data));
+				CCS_VALIDATE_ERR_GOTO(
+					res,
+					opts->deserialize_callback(
+						*object_ret,
+						serialize_data_size, *buffer,
+						opts->deserialize_user_data),
+					err_object);
 			*buffer_size -= serialize_data_size;
 			*buffer += serialize_data_size;
 		}
 		break;
 	}
 	default:
-		CCS_RAISE(
-			CCS_RESULT_ERROR_INVALID_VALUE,
+		CCS_RAISE_ERR_GOTO(
+			res, CCS_RESULT_ERROR_INVALID_VALUE, err_object,
 			"Unsupported serialization format: %d", format);
 	}
 	return CCS_RESULT_SUCCESS;
+err_object:
+	ccs_release_object(*object_ret);
+	*object_ret = NULL;
+	return res;
 }
 
 #endif //_CONFIGSPACE_INTERNAL_H
diff --git a/src/configuration_deserialize.h b/src/configuration_deserialize.h
index 719535f..b8f17d9 100644
--- a/src/configuration_deserialize.h
+++ b/src/configuration_deserialize.h
@@ -84,7 +84,7 @@ _ccs_configuration_deserialize(
 			"Unsupported serialization format: %d", format);
 	}
 	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*configuration_ret, format, version, buffer_size,
+		(ccs_object_t *)configuration_ret, format, version, buffer_size,
 		buffer, opts));
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/configuration_space_deserialize.h b/src/configuration_space_deserialize.h
index 96b5faf..a611e0c 100644
--- a/src/configuration_space_deserialize.h
+++ b/src/configuration_space_deserialize.h
@@ -242,7 +242,7 @@ _ccs_configuration_space_deserialize(
 			"Unsupported serialization format: %d", format);
 	}
 	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*configuration_space_ret, format, version,
+		(ccs_object_t *)configuration_space_ret, format, version,
 		buffer_size, buffer, opts));
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/distribution_deserialize.h b/src/distribution_deserialize.h
index d476cf4..9ca9c5a 100644
--- a/src/distribution_deserialize.h
+++ b/src/distribution_deserialize.h
@@ -395,7 +395,7 @@ _ccs_distribution_deserialize(
 			"Unsupported serialization format: %d", format);
 	}
 	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*distribution_ret, format, version, buffer_size,
+		(ccs_object_t *)distribution_ret, format, version, buffer_size,
 		buffer, opts));
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/evaluation_deserialize.h b/src/evaluation_deserialize.h
index 6f07e79..12fef11 100644
--- a/src/evaluation_deserialize.h
+++ b/src/evaluation_deserialize.h
@@ -115,7 +115,7 @@ _ccs_evaluation_deserialize(
 			"Unsupported serialization format: %d", format);
 	}
 	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*evaluation_ret, format, version, buffer_size,
+		(ccs_object_t *)evaluation_ret, format, version, buffer_size,
 		buffer, opts));
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/expression_deserialize.h b/src/expression_deserialize.h
index 15ec662..94f30df 100644
--- a/src/expression_deserialize.h
+++ b/src/expression_deserialize.h
@@ -241,7 +241,7 @@ _ccs_expression_deserialize(
 			"Unsupported serialization format: %d", format);
 	}
 	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*expression_ret, format, version, buffer_size,
+		(ccs_object_t *)expression_ret, format, version, buffer_size,
 		buffer, opts));
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/features_deserialize.h b/src/features_deserialize.h
index 5066f06..719fb93 100644
--- a/src/features_deserialize.h
+++ b/src/features_deserialize.h
@@ -83,7 +83,7 @@ _ccs_features_deserialize(
 			"Unsupported serialization format: %d", format);
 	}
 	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*features_ret, format, version, buffer_size,
+		(ccs_object_t *)features_ret, format, version, buffer_size,
 		buffer, opts));
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/features_evaluation_deserialize.h b/src/features_evaluation_deserialize.h
index be5f097..6fbc51d 100644
--- a/src/features_evaluation_deserialize.h
+++ b/src/features_evaluation_deserialize.h
@@ -125,7 +125,7 @@ _ccs_features_evaluation_deserialize(
 			"Unsupported serialization format: %d", format);
 	}
 	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*features_evaluation_ret, format, version,
+		(ccs_object_t *)features_evaluation_ret, format, version,
 		buffer_size, buffer, opts));
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/features_space_deserialize.h b/src/features_space_deserialize.h
index 4cdcd1f..12dea4c 100644
--- a/src/features_space_deserialize.h
+++ b/src/features_space_deserialize.h
@@ -79,7 +79,7 @@ _ccs_features_space_deserialize(
 			"Unsupported serialization format: %d", format);
 	}
 	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*features_space_ret, format, version, buffer_size,
+		(ccs_object_t *)features_space_ret, format, version, buffer_size,
 		buffer, opts));
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/features_tuner_deserialize.h b/src/features_tuner_deserialize.h
index 73a35e7..b6d0ebc 100644
--- a/src/features_tuner_deserialize.h
+++ b/src/features_tuner_deserialize.h
@@ -341,7 +341,7 @@ _ccs_features_tuner_deserialize(
 			"Unsupported serialization format: %d", format);
 	}
 	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*features_tuner_ret, format, version, buffer_size,
+		(ccs_object_t *)features_tuner_ret, format, version, buffer_size,
 		buffer, opts));
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/map_deserialize.h b/src/map_deserialize.h
index 4f44632..cef3833 100644
--- a/src/map_deserialize.h
+++ b/src/map_deserialize.h
@@ -102,7 +102,7 @@ _ccs_map_deserialize(
 			"Unsupported serialization format: %d", format);
 	}
 	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*map_ret, format, version, buffer_size, buffer,
+		(ccs_object_t *)map_ret, format, version, buffer_size, buffer,
 		opts));
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/objective_space_deserialize.h b/src/objective_space_deserialize.h
index 3baec98..336b408 100644
--- a/src/objective_space_deserialize.h
+++ b/src/objective_space_deserialize.h
@@ -150,7 +150,7 @@ _ccs_objective_space_deserialize(
 			"Unsupported serialization format: %d", format);
 	}
 	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*objective_space_ret, format, version,
+		(ccs_object_t *)objective_space_ret, format, version,
 		buffer_size, buffer, opts));
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/parameter_deserialize.h b/src/parameter_deserialize.h
index c702021..7bac99b 100644
--- a/src/parameter_deserialize.h
+++ b/src/parameter_deserialize.h
@@ -227,7 +227,7 @@ _ccs_parameter_deserialize(
 			"Unsupported serialization format: %d", format);
 	}
 	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*parameter_ret, format, version, buffer_size,
+		(ccs_object_t *)parameter_ret, format, version, buffer_size,
 		buffer, opts));
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/rng_deserialize.h b/src/rng_deserialize.h
index dc73355..8ecd41d 100644
--- a/src/rng_deserialize.h
+++ b/src/rng_deserialize.h
@@ -81,7 +81,7 @@ _ccs_rng_deserialize(
 			"Unsupported serialization format: %d", format);
 	}
 	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*rng_ret, format, version, buffer_size, buffer,
+		(ccs_object_t *)rng_ret, format, version, buffer_size, buffer,
 		opts));
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/tree_configuration_deserialize.h b/src/tree_configuration_deserialize.h
index a46e280..39d4f9f 100644
--- a/src/tree_configuration_deserialize.h
+++ b/src/tree_configuration_deserialize.h
@@ -107,7 +107,7 @@ _ccs_tree_configuration_deserialize(
 			"Unsupported serialization format: %d", format);
 	}
 	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*configuration_ret, format, version, buffer_size,
+		(ccs_object_t *)configuration_ret, format, version, buffer_size,
 		buffer, opts));
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/tree_deserialize.h b/src/tree_deserialize.h
index fbed9f0..e175824 100644
--- a/src/tree_deserialize.h
+++ b/src/tree_deserialize.h
@@ -135,7 +135,7 @@ _ccs_tree_deserialize(
 			"Unsupported serialization format: %d", format);
 	}
 	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*tree_ret, format, version, buffer_size, buffer,
+		(ccs_object_t *)tree_ret, format, version, buffer_size, buffer,
 		opts));
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/tree_evaluation_deserialize.h b/src/tree_evaluation_deserialize.h
index e8a4da8..b391abb 100644
--- a/src/tree_evaluation_deserialize.h
+++ b/src/tree_evaluation_deserialize.h
@@ -115,7 +115,7 @@ _ccs_tree_evaluation_deserialize(
 			"Unsupported serialization format: %d", format);
 	}
 	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*evaluation_ret, format, version, buffer_size,
+		(ccs_object_t *)evaluation_ret, format, version, buffer_size,
 		buffer, opts));
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/tree_space_deserialize.h b/src/tree_space_deserialize.h
index 69e02d3..cb9d7dc 100644
--- a/src/tree_space_deserialize.h
+++ b/src/tree_space_deserialize.h
@@ -177,7 +177,7 @@ _ccs_tree_space_deserialize(
 			"Unsupported serialization format: %d", format);
 	}
 	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*tree_space_ret, format, version, buffer_size,
+		(ccs_object_t *)tree_space_ret, format, version, buffer_size,
 		buffer, opts));
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/tree_tuner_deserialize.h b/src/tree_tuner_deserialize.h
index 5126d68..a9cd16b 100644
--- a/src/tree_tuner_deserialize.h
+++ b/src/tree_tuner_deserialize.h
@@ -320,7 +320,7 @@ _ccs_tree_tuner_deserialize(
 			"Unsupported serialization format: %d", format);
 	}
 	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*tuner_ret, format, version, buffer_size, buffer,
+		(ccs_object_t *)tuner_ret, format, version, buffer_size, buffer,
 		opts));
 	return CCS_RESULT_SUCCESS;
 }
diff --git a/src/tuner_deserialize.h b/src/tuner_deserialize.h
index 468a24b..534759d 100644
--- a/src/tuner_deserialize.h
+++ b/src/tuner_deserialize.h
@@ -319,7 +319,7 @@ _ccs_tuner_deserialize(
 			"Unsupported serialization format: %d", format);
 	}
 	CCS_VALIDATE(_ccs_object_deserialize_user_data(
-		(ccs_object_t)*tuner_ret, format, version, buffer_size, buffer,
+		(ccs_object_t *)tuner_ret, format, version, buffer_size, buffer,
 		opts));
 	return CCS_RESULT_SUCCESS;
 }
-- 
2.43.0


From a89738621992dbf18848d826ab576c923b80c68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:06 +0000
Subject: [PATCH 27/64] fix: do not release twice an object whose handle is a
 duplicate

The deserializers released the object but left the pointer to it in place,
and the enclosing object released it again.
---
 src/distribution_deserialize.h   | 1 +
 src/expression_deserialize.h     | 1 +
 src/features_tuner_deserialize.h | 1 +
 src/parameter_deserialize.h      | 1 +
 src/tree_space_deserialize.h     | 1 +
 src/tree_tuner_deserialize.h     | 1 +
 src/tuner_deserialize.h          | 1 +
 7 files changed, 7 insertions(+)

diff --git a/src/distribution_deserialize.h b/src/distribution_deserialize.h
index 9ca9c5a..a449233 100644
--- a/src/distribution_deserialize.h
+++ b/src/distribution_deserialize.h
@@ -372,6 +372,7 @@ _ccs_deserialize_bin_distribution(
 	return CCS_RESULT_SUCCESS;
 err_dis:
 	ccs_release_object(*distribution_ret);
+	*distribution_ret = NULL;
 	return res;
 }
 
diff --git a/src/expression_deserialize.h b/src/expression_deserialize.h
index 94f30df..2ecefa1 100644
--- a/src/expression_deserialize.h
+++ b/src/expression_deserialize.h
@@ -218,6 +218,7 @@ _ccs_deserialize_bin_expression(
 	return CCS_RESULT_SUCCESS;
 err_exp:
 	ccs_release_object(*expression_ret);
+	*expression_ret = NULL;
 	return res;
 }
 
diff --git a/src/features_tuner_deserialize.h b/src/features_tuner_deserialize.h
index b6d0ebc..113d9ed 100644
--- a/src/features_tuner_deserialize.h
+++ b/src/features_tuner_deserialize.h
@@ -315,6 +315,7 @@ _ccs_deserialize_bin_features_tuner(
 	goto end;
 err_features_tuner:
 	ccs_release_object(*features_tuner_ret);
+	*features_tuner_ret = NULL;
 end:
 	ccs_release_object(new_opts.handle_map);
 	return res;
diff --git a/src/parameter_deserialize.h b/src/parameter_deserialize.h
index 7bac99b..b8199cf 100644
--- a/src/parameter_deserialize.h
+++ b/src/parameter_deserialize.h
@@ -204,6 +204,7 @@ _ccs_deserialize_bin_parameter(
 	return CCS_RESULT_SUCCESS;
 err_parameter:
 	ccs_release_object(*parameter_ret);
+	*parameter_ret = NULL;
 	return res;
 }
 
diff --git a/src/tree_space_deserialize.h b/src/tree_space_deserialize.h
index cb9d7dc..3c6afd8 100644
--- a/src/tree_space_deserialize.h
+++ b/src/tree_space_deserialize.h
@@ -154,6 +154,7 @@ _ccs_deserialize_bin_tree_space(
 	return CCS_RESULT_SUCCESS;
 err_tree_space:
 	ccs_release_object(*tree_space_ret);
+	*tree_space_ret = NULL;
 	return res;
 }
 
diff --git a/src/tree_tuner_deserialize.h b/src/tree_tuner_deserialize.h
index a9cd16b..fa17ac9 100644
--- a/src/tree_tuner_deserialize.h
+++ b/src/tree_tuner_deserialize.h
@@ -295,6 +295,7 @@ _ccs_deserialize_bin_tree_tuner(
 	goto end;
 err_tuner:
 	ccs_release_object(*tuner_ret);
+	*tuner_ret = NULL;
 end:
 	ccs_release_object(new_opts.handle_map);
 	return res;
diff --git a/src/tuner_deserialize.h b/src/tuner_deserialize.h
index 534759d..7345251 100644
--- a/src/tuner_deserialize.h
+++ b/src/tuner_deserialize.h
@@ -294,6 +294,7 @@ _ccs_deserialize_bin_tuner(
 	goto end;
 err_tuner:
 	ccs_release_object(*tuner_ret);
+	*tuner_ret = NULL;
 end:
 	ccs_release_object(new_opts.handle_map);
 	return res;
-- 
2.43.0


From 1a989151b92de53587ea11e62974670fa507e356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:34 +0000
Subject: [PATCH 28/64] fix: refuse serialized item counts larger than the
 remaining data

The sizes of the arrays allocated from these counts could overflow.
---
 src/binding_internal.h                |  2 +-
 src/cconfigspace_internal.h           | 12 ++++++++++++
 src/configuration_space_deserialize.h |  8 ++++----
 src/context_deserialize.h             |  2 +-
 src/distribution_deserialize.h        |  6 +++---
 src/expression_deserialize.h          |  2 +-
 src/features_tuner_deserialize.h      |  4 ++--
 src/map_deserialize.h                 |  2 +-
 src/objective_space_deserialize.h     |  4 ++--
 src/parameter_deserialize.h           |  2 +-
 src/tree_configuration_deserialize.h  |  2 +-
 src/tree_deserialize.h                |  2 +-
 src/tree_tuner_deserialize.h          |  4 ++--
 src/tuner_deserialize.h               |  4 ++--
 14 files changed, 34 insertions(+), 22 deletions(-)

diff --git a/src/binding_internal.h b/src/binding_internal.h
index f1ebd26..a258914 100644
--- a/src/binding_internal.h
+++ b/src/binding_internal.h
@@ -266,7 +266,7 @@ _ccs_deserialize_bin_ccs_binding_data(
 	(void)version;
 	CCS_VALIDATE(_ccs_deserialize_bin_ccs_object(
 		(ccs_object_t *)&data->context, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->num_values, buffer_size, buffer));
 	if (data->num_values) {
 		data->values = (ccs_datum_t *)calloc(
diff --git a/src/cconfigspace_internal.h b/src/cconfigspace_internal.h
index 6b60f08..7775b4d 100644
--- a/src/cconfigspace_internal.h
+++ b/src/cconfigspace_internal.h
@@ -750,6 +750,18 @@ _ccs_deserialize_bin_size(size_t *sz, size_t *buffer_size, const char **buffer)
 	return CCS_RESULT_SUCCESS;
 }
 
+/* a number of items yet to be read, each of them taking at least a byte */
+static inline ccs_result_t
+_ccs_deserialize_bin_count(
+	size_t      *count,
+	size_t      *buffer_size,
+	const char **buffer)
+{
+	CCS_VALIDATE(_ccs_deserialize_bin_size(count, buffer_size, buffer));
+	CCS_REFUTE(*count > *buffer_size, CCS_RESULT_ERROR_NOT_ENOUGH_DATA);
+	return CCS_RESULT_SUCCESS;
+}
+
 static inline size_t
 _ccs_serialize_bin_size_string(const char *str)
 {
diff --git a/src/configuration_space_deserialize.h b/src/configuration_space_deserialize.h
index a611e0c..0f7c314 100644
--- a/src/configuration_space_deserialize.h
+++ b/src/configuration_space_deserialize.h
@@ -35,13 +35,13 @@ _ccs_deserialize_bin_ccs_configuration_space_data(
 
 	CCS_VALIDATE(
 		_ccs_deserialize_bin_string(&data->name, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->num_parameters, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->num_conditions, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->num_distributions, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->num_forbidden_clauses, buffer_size, buffer));
 	CCS_VALIDATE(_ccs_rng_deserialize(
 		&data->rng, CCS_SERIALIZE_FORMAT_BINARY, version, buffer_size,
diff --git a/src/context_deserialize.h b/src/context_deserialize.h
index e8fa1c8..39e001b 100644
--- a/src/context_deserialize.h
+++ b/src/context_deserialize.h
@@ -22,7 +22,7 @@ _ccs_deserialize_bin_ccs_context_data(
 	data->parameters     = NULL;
 	CCS_VALIDATE(
 		_ccs_deserialize_bin_string(&data->name, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->num_parameters, buffer_size, buffer));
 	if (data->num_parameters) {
 		data->parameters = (ccs_parameter_t *)calloc(
diff --git a/src/distribution_deserialize.h b/src/distribution_deserialize.h
index a449233..8375da0 100644
--- a/src/distribution_deserialize.h
+++ b/src/distribution_deserialize.h
@@ -130,7 +130,7 @@ _ccs_deserialize_bin_ccs_distribution_roulette_data(
 {
 	CCS_VALIDATE(_ccs_deserialize_bin_ccs_distribution_common_data(
 		&data->common_data, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->num_areas, buffer_size, buffer));
 	data->areas =
 		(ccs_float_t *)malloc(data->num_areas * sizeof(ccs_float_t));
@@ -198,7 +198,7 @@ _ccs_deserialize_bin_ccs_distribution_mixture_data(
 	new_opts.handle_map                        = NULL;
 	CCS_VALIDATE(_ccs_deserialize_bin_ccs_distribution_common_data(
 		&data->common_data, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->num_distributions, buffer_size, buffer));
 	data->distributions = (ccs_distribution_t *)calloc(
 		data->num_distributions, sizeof(ccs_distribution_t));
@@ -271,7 +271,7 @@ _ccs_deserialize_bin_ccs_distribution_multivariate_data(
 	new_opts.handle_map                        = NULL;
 	CCS_VALIDATE(_ccs_deserialize_bin_ccs_distribution_common_data(
 		&data->common_data, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->num_distributions, buffer_size, buffer));
 	data->distributions = (ccs_distribution_t *)calloc(
 		data->num_distributions, sizeof(ccs_distribution_t));
diff --git a/src/expression_deserialize.h b/src/expression_deserialize.h
index 2ecefa1..a1e9c72 100644
--- a/src/expression_deserialize.h
+++ b/src/expression_deserialize.h
@@ -38,7 +38,7 @@ _ccs_deserialize_bin_ccs_expression_data(
 	data->nodes = NULL;
 	CCS_VALIDATE(_ccs_deserialize_bin_ccs_expression_type(
 		&data->type, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->num_nodes, buffer_size, buffer));
 	if (data->num_nodes) {
 		data->nodes = (ccs_datum_t *)calloc(
diff --git a/src/features_tuner_deserialize.h b/src/features_tuner_deserialize.h
index 113d9ed..becf262 100644
--- a/src/features_tuner_deserialize.h
+++ b/src/features_tuner_deserialize.h
@@ -52,9 +52,9 @@ _ccs_deserialize_bin_ccs_random_features_tuner_data(
 
 	CCS_VALIDATE(_ccs_deserialize_bin_ccs_features_tuner_common_data(
 		&data->common_data, version, buffer_size, buffer, opts));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->size_history, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->size_optima, buffer_size, buffer));
 
 	if (!(data->size_history + data->size_optima))
diff --git a/src/map_deserialize.h b/src/map_deserialize.h
index cef3833..a11c19b 100644
--- a/src/map_deserialize.h
+++ b/src/map_deserialize.h
@@ -21,7 +21,7 @@ _ccs_deserialize_bin_ccs_map_data(
 	size_t               *buffer_size,
 	const char          **buffer)
 {
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->num_pairs, buffer_size, buffer));
 	data->pairs = (_ccs_map_pair_t *)malloc(
 		data->num_pairs * sizeof(_ccs_map_pair_t));
diff --git a/src/objective_space_deserialize.h b/src/objective_space_deserialize.h
index 336b408..8405d8a 100644
--- a/src/objective_space_deserialize.h
+++ b/src/objective_space_deserialize.h
@@ -25,9 +25,9 @@ _ccs_deserialize_bin_ccs_objective_space_data(
 
 	CCS_VALIDATE(
 		_ccs_deserialize_bin_string(&data->name, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->num_parameters, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->num_objectives, buffer_size, buffer));
 
 	if (!(data->num_parameters + data->num_objectives))
diff --git a/src/parameter_deserialize.h b/src/parameter_deserialize.h
index b8199cf..a812cbb 100644
--- a/src/parameter_deserialize.h
+++ b/src/parameter_deserialize.h
@@ -48,7 +48,7 @@ _ccs_deserialize_bin_ccs_parameter_categorical_data(
 {
 	CCS_VALIDATE(_ccs_deserialize_bin_ccs_parameter_common_data(
 		&data->common_data, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->num_possible_values, buffer_size, buffer));
 	data->possible_values = (ccs_datum_t *)malloc(
 		data->num_possible_values * sizeof(ccs_datum_t));
diff --git a/src/tree_configuration_deserialize.h b/src/tree_configuration_deserialize.h
index 39d4f9f..a48c7f2 100644
--- a/src/tree_configuration_deserialize.h
+++ b/src/tree_configuration_deserialize.h
@@ -13,7 +13,7 @@ _ccs_deserialize_bin_tree_configuration_data(
 	(void)version;
 	CCS_VALIDATE(_ccs_deserialize_bin_ccs_object(
 		(ccs_object_t *)&data->tree_space, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->position_size, buffer_size, buffer));
 	if (data->position_size) {
 		data->position =
diff --git a/src/tree_deserialize.h b/src/tree_deserialize.h
index e175824..c74858d 100644
--- a/src/tree_deserialize.h
+++ b/src/tree_deserialize.h
@@ -32,7 +32,7 @@ _ccs_deserialize_bin_ccs_tree_data(
 	_ccs_object_deserialize_options_t new_opts = *opts;
 	new_opts.handle_map                        = NULL;
 	CCS_VALIDATE(
-		_ccs_deserialize_bin_size(&data->arity, buffer_size, buffer));
+		_ccs_deserialize_bin_count(&data->arity, buffer_size, buffer));
 	CCS_VALIDATE(_ccs_deserialize_bin_ccs_float(
 		&data->weight, buffer_size, buffer));
 	if (data->arity) {
diff --git a/src/tree_tuner_deserialize.h b/src/tree_tuner_deserialize.h
index fa17ac9..82c1ffa 100644
--- a/src/tree_tuner_deserialize.h
+++ b/src/tree_tuner_deserialize.h
@@ -48,9 +48,9 @@ _ccs_deserialize_bin_ccs_random_tree_tuner_data(
 
 	CCS_VALIDATE(_ccs_deserialize_bin_size_ccs_tree_tuner_common_data(
 		&data->common_data, version, buffer_size, buffer, opts));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->size_history, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->size_optima, buffer_size, buffer));
 
 	if (!(data->size_history + data->size_optima))
diff --git a/src/tuner_deserialize.h b/src/tuner_deserialize.h
index 7345251..7884e22 100644
--- a/src/tuner_deserialize.h
+++ b/src/tuner_deserialize.h
@@ -47,9 +47,9 @@ _ccs_deserialize_bin_ccs_random_tuner_data(
 
 	CCS_VALIDATE(_ccs_deserialize_bin_size_ccs_tuner_common_data(
 		&data->common_data, version, buffer_size, buffer, opts));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->size_history, buffer_size, buffer));
-	CCS_VALIDATE(_ccs_deserialize_bin_size(
+	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->size_optima, buffer_size, buffer));
 
 	if (!(data->size_history + data->size_optima))
-- 
2.43.0


From 1d5a5e85bfa6b55464bb567180be1b20cc5b68a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:34 +0000
Subject: [PATCH 29/64] fix: check the dimensions of serialized distributions

They size the reads and writes of the parameter indices.
---
 src/configuration_space_deserialize.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/configuration_space_deserialize.h b/src/configuration_space_deserialize.h
index 0f7c314..79217cf 100644
--- a/src/configuration_space_deserialize.h
+++ b/src/configuration_space_deserialize.h
@@ -89,13 +89,23 @@ _ccs_deserialize_bin_ccs_configuration_space_data(
 	}
 
 	size_t *indices;
-	indices = data->distrib_parameter_indices;
+	size_t  num_indices;
+	indices     = data->distrib_parameter_indices;
+	num_indices = data->num_parameters;
 	for (size_t i = 0; i < data->num_distributions; i++) {
+		size_t dimension;
 		CCS_VALIDATE(_ccs_distribution_deserialize(
 			data->distributions + i, CCS_SERIALIZE_FORMAT_BINARY,
 			version, buffer_size, buffer, opts));
 		CCS_VALIDATE(_ccs_deserialize_bin_size(
 			data->dimensions + i, buffer_size, buffer));
+		CCS_VALIDATE(ccs_distribution_get_dimension(
+			data->distributions[i], &dimension));
+		CCS_REFUTE(
+			data->dimensions[i] != dimension ||
+				dimension > num_indices,
+			CCS_RESULT_ERROR_INVALID_DISTRIBUTION);
+		num_indices -= dimension;
 		for (size_t j = 0; j < data->dimensions[i]; j++) {
 			CCS_VALIDATE(_ccs_deserialize_bin_size(
 				indices, buffer_size, buffer));
-- 
2.43.0


From c11b351434d4bba2e934ac02ddebfb6388b5c540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:34 +0000
Subject: [PATCH 30/64] fix: release the configuration space when its generator
 is refused

---
 src/configuration_space_deserialize.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/configuration_space_deserialize.h b/src/configuration_space_deserialize.h
index 79217cf..52692a4 100644
--- a/src/configuration_space_deserialize.h
+++ b/src/configuration_space_deserialize.h
@@ -162,7 +162,7 @@ _ccs_deserialize_bin_configuration_space(
 		res,
 		ccs_configuration_space_set_rng(
 			*configuration_space_ret, data.rng),
-		end);
+		err_configuration_space);
 	CCS_VALIDATE_ERR_GOTO(
 		res,
 		ccs_configuration_space_add_parameters(
-- 
2.43.0


From 0b647241cb018c59fab17c8179dc49d723d43d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:34 +0000
Subject: [PATCH 31/64] fix: refuse serialized strings that are not terminated

---
 src/cconfigspace_internal.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cconfigspace_internal.h b/src/cconfigspace_internal.h
index 7775b4d..7a24823 100644
--- a/src/cconfigspace_internal.h
+++ b/src/cconfigspace_internal.h
@@ -790,6 +790,9 @@ _ccs_deserialize_bin_string(
 	size_t sz;
 	CCS_VALIDATE(_ccs_deserialize_bin_size(&sz, buffer_size, buffer));
 	CCS_REFUTE(*buffer_size < sz, CCS_RESULT_ERROR_NOT_ENOUGH_DATA);
+	CCS_REFUTE(
+		!sz || (*buffer)[sz - 1] != '\0',
+		CCS_RESULT_ERROR_INVALID_VALUE);
 	*str = *buffer;
 	*buffer_size -= sz;
 	*buffer += sz;
-- 
2.43.0


From 01dacf2537d8d4caca858c8cb33a05904f10697a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:34 +0000
Subject: [PATCH 32/64] fix: refuse serialized integers wider than their type

The shift by more than the width of the type is undefined.
---
 src/cconfigspace_internal.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cconfigspace_internal.h b/src/cconfigspace_internal.h
index 7a24823..5b05e60 100644
--- a/src/cconfigspace_internal.h
+++ b/src/cconfigspace_internal.h
@@ -501,6 +501,9 @@ ccs_zigzag_decode_int64(uint64_t x)
 			CCS_REFUTE(                                            \
 				buff_size < 1,                                 \
 				CCS_RESULT_ERROR_NOT_ENOUGH_DATA);             \
+			CCS_REFUTE(                                            \
+				shift >= 8 * sizeof(MAPPED_TYPE),              \
+				CCS_RESULT_ERROR_INVALID_VALUE);               \
 			y = *buff;                                             \
 			v |= (y & 0x7f) << shift;                              \
 			buff_size -= 1;                                        \
-- 
2.43.0


From faa0663c3339ba2a19b9930e08594b2146150985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:34 +0000
Subject: [PATCH 33/64] fix: refuse serialized literals and variables that have
 nodes

---
 src/expression_deserialize.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/expression_deserialize.h b/src/expression_deserialize.h
index a1e9c72..40b8c4c 100644
--- a/src/expression_deserialize.h
+++ b/src/expression_deserialize.h
@@ -40,6 +40,10 @@ _ccs_deserialize_bin_ccs_expression_data(
 		&data->type, buffer_size, buffer));
 	CCS_VALIDATE(_ccs_deserialize_bin_count(
 		&data->num_nodes, buffer_size, buffer));
+	/* literals and variables have no nodes */
+	CCS_REFUTE(
+		data->num_nodes && !opts,
+		CCS_RESULT_ERROR_INVALID_EXPRESSION);
 	if (data->num_nodes) {
 		data->nodes = (ccs_datum_t *)calloc(
 			data->num_nodes, sizeof(ccs_datum_t));
-- 
2.43.0


From 2a5bd98e9f7df3df5209ff2885a84815ec5f6be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:32 +0000
Subject: [PATCH 34/64] fix: release the handle map when the tuner type is
 unknown

---
 src/features_tuner_deserialize.h | 4 ++--
 src/tree_tuner_deserialize.h     | 4 ++--
 src/tuner_deserialize.h          | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/features_tuner_deserialize.h b/src/features_tuner_deserialize.h
index becf262..e5df483 100644
--- a/src/features_tuner_deserialize.h
+++ b/src/features_tuner_deserialize.h
@@ -299,8 +299,8 @@ _ccs_deserialize_bin_features_tuner(
 			end);
 		break;
 	default:
-		CCS_RAISE(
-			CCS_RESULT_ERROR_UNSUPPORTED_OPERATION,
+		CCS_RAISE_ERR_GOTO(
+			res, CCS_RESULT_ERROR_UNSUPPORTED_OPERATION, end,
 			"Unsuported features tuner type: %d", ttype);
 	}
 	if (opts->handle_map)
diff --git a/src/tree_tuner_deserialize.h b/src/tree_tuner_deserialize.h
index 82c1ffa..683ab47 100644
--- a/src/tree_tuner_deserialize.h
+++ b/src/tree_tuner_deserialize.h
@@ -279,8 +279,8 @@ _ccs_deserialize_bin_tree_tuner(
 			end);
 		break;
 	default:
-		CCS_RAISE(
-			CCS_RESULT_ERROR_INVALID_TYPE,
+		CCS_RAISE_ERR_GOTO(
+			res, CCS_RESULT_ERROR_INVALID_TYPE, end,
 			"Unsupported tuner type: %d", ttype);
 	}
 	if (opts->handle_map)
diff --git a/src/tuner_deserialize.h b/src/tuner_deserialize.h
index 7884e22..1d1839a 100644
--- a/src/tuner_deserialize.h
+++ b/src/tuner_deserialize.h
@@ -278,8 +278,8 @@ _ccs_deserialize_bin_tuner(
 			end);
 		break;
 	default:
-		CCS_RAISE(
-			CCS_RESULT_ERROR_INVALID_TYPE,
+		CCS_RAISE_ERR_GOTO(
+			res, CCS_RESULT_ERROR_INVALID_TYPE, end,
 			"Unsupported tuner type: %d", ttype);
 	}
 	if (opts->handle_map)
-- 
2.43.0


From 93efebc3a401b7867e2aef6c5af3b455bf80dbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:32 +0000
Subject: [PATCH 35/64] fix: release the evaluations read before a features
 tuner is refused

---
 src/features_tuner_deserialize.h | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/features_tuner_deserialize.h b/src/features_tuner_deserialize.h
index e5df483..679a469 100644
--- a/src/features_tuner_deserialize.h
+++ b/src/features_tuner_deserialize.h
@@ -125,7 +125,7 @@ _ccs_deserialize_bin_random_features_tuner(
 		res,
 		_ccs_deserialize_bin_ccs_random_features_tuner_data(
 			&data, version, buffer_size, buffer, opts),
-		end);
+		features_evaluations);
 	CCS_VALIDATE_ERR_GOTO(
 		res,
 		ccs_create_random_features_tuner(
@@ -145,8 +145,10 @@ features_tuner:
 	ccs_release_object(*features_tuner_ret);
 	*features_tuner_ret = NULL;
 features_evaluations:
-	for (size_t i = 0; i < data.size_history; i++)
-		ccs_release_object(data.history[i]);
+	if (data.history)
+		for (size_t i = 0; i < data.size_history; i++)
+			if (data.history[i])
+				ccs_release_object(data.history[i]);
 end:
 	if (data.common_data.configuration_space)
 		ccs_release_object(data.common_data.configuration_space);
@@ -205,7 +207,7 @@ _ccs_deserialize_bin_user_defined_features_tuner(
 		res,
 		_ccs_deserialize_bin_ccs_user_defined_features_tuner_data(
 			&data, version, buffer_size, buffer, opts),
-		end);
+		evaluations);
 	CCS_VALIDATE_ERR_GOTO(
 		res,
 		ccs_create_user_defined_features_tuner(
@@ -239,9 +241,10 @@ features_tuner:
 	ccs_release_object(*features_tuner_ret);
 	*features_tuner_ret = NULL;
 evaluations:
-	for (size_t i = 0; i < data.base_data.size_history; i++)
-		ccs_release_object(data.base_data.history[i]);
-end:
+	if (data.base_data.history)
+		for (size_t i = 0; i < data.base_data.size_history; i++)
+			if (data.base_data.history[i])
+				ccs_release_object(data.base_data.history[i]);
 	if (data.base_data.common_data.configuration_space)
 		ccs_release_object(
 			data.base_data.common_data.configuration_space);
-- 
2.43.0


From aaee2188b5c5411df2d124c884c5d85c5c8e0f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:32 +0000
Subject: [PATCH 36/64] fix: release evaluations once when a tuner cannot be
 rebuilt

---
 src/features_tuner_deserialize.h | 2 ++
 src/tree_tuner_deserialize.h     | 2 ++
 src/tuner_deserialize.h          | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/src/features_tuner_deserialize.h b/src/features_tuner_deserialize.h
index 679a469..304d795 100644
--- a/src/features_tuner_deserialize.h
+++ b/src/features_tuner_deserialize.h
@@ -142,6 +142,8 @@ _ccs_deserialize_bin_random_features_tuner(
 		utarray_push_back(odata->optima, data.optima + i);
 	goto end;
 features_tuner:
+	utarray_clear(odata->history);
+	utarray_clear(odata->optima);
 	ccs_release_object(*features_tuner_ret);
 	*features_tuner_ret = NULL;
 features_evaluations:
diff --git a/src/tree_tuner_deserialize.h b/src/tree_tuner_deserialize.h
index 683ab47..a9bfd1c 100644
--- a/src/tree_tuner_deserialize.h
+++ b/src/tree_tuner_deserialize.h
@@ -131,6 +131,8 @@ _ccs_deserialize_bin_random_tree_tuner(
 		utarray_push_back(odata->optima, data.optima + i);
 	goto end;
 tuner:
+	utarray_clear(odata->history);
+	utarray_clear(odata->optima);
 	ccs_release_object(*tuner_ret);
 	*tuner_ret = NULL;
 evaluations:
diff --git a/src/tuner_deserialize.h b/src/tuner_deserialize.h
index 1d1839a..806bf4f 100644
--- a/src/tuner_deserialize.h
+++ b/src/tuner_deserialize.h
@@ -130,6 +130,8 @@ _ccs_deserialize_bin_random_tuner(
 		utarray_push_back(odata->optima, data.optima + i);
 	goto end;
 tuner:
+	utarray_clear(odata->history);
+	utarray_clear(odata->optima);
 	ccs_release_object(*tuner_ret);
 	*tuner_ret = NULL;
 evaluations:
-- 
2.43.0


From 732bee4d8ba6d88b799e9a4911c521d059b58f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:32 +0000
Subject: [PATCH 37/64] fix: check that the serialized optima of tuners are
 evaluations

---
 src/features_tuner_deserialize.h | 1 +
 src/tree_tuner_deserialize.h     | 1 +
 src/tuner_deserialize.h          | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/features_tuner_deserialize.h b/src/features_tuner_deserialize.h
index 304d795..fd86a01 100644
--- a/src/features_tuner_deserialize.h
+++ b/src/features_tuner_deserialize.h
@@ -83,6 +83,7 @@ _ccs_deserialize_bin_ccs_random_features_tuner_data(
 		CCS_REFUTE(
 			d.type != CCS_DATA_TYPE_OBJECT,
 			CCS_RESULT_ERROR_INVALID_HANDLE);
+		CCS_CHECK_OBJ(d.value.o, CCS_OBJECT_TYPE_FEATURES_EVALUATION);
 		data->optima[i] = (ccs_features_evaluation_t)(d.value.o);
 	}
 	return CCS_RESULT_SUCCESS;
diff --git a/src/tree_tuner_deserialize.h b/src/tree_tuner_deserialize.h
index a9bfd1c..d3ea125 100644
--- a/src/tree_tuner_deserialize.h
+++ b/src/tree_tuner_deserialize.h
@@ -79,6 +79,7 @@ _ccs_deserialize_bin_ccs_random_tree_tuner_data(
 		CCS_REFUTE(
 			d.type != CCS_DATA_TYPE_OBJECT,
 			CCS_RESULT_ERROR_INVALID_HANDLE);
+		CCS_CHECK_OBJ(d.value.o, CCS_OBJECT_TYPE_TREE_EVALUATION);
 		data->optima[i] = (ccs_tree_evaluation_t)(d.value.o);
 	}
 	return CCS_RESULT_SUCCESS;
diff --git a/src/tuner_deserialize.h b/src/tuner_deserialize.h
index 806bf4f..a98d0c2 100644
--- a/src/tuner_deserialize.h
+++ b/src/tuner_deserialize.h
@@ -78,6 +78,7 @@ _ccs_deserialize_bin_ccs_random_tuner_data(
 		CCS_REFUTE(
 			d.type != CCS_DATA_TYPE_OBJECT,
 			CCS_RESULT_ERROR_INVALID_HANDLE);
+		CCS_CHECK_OBJ(d.value.o, CCS_OBJECT_TYPE_EVALUATION);
 		data->optima[i] = (ccs_evaluation_t)(d.value.o);
 	}
 	return CCS_RESULT_SUCCESS;
-- 
2.43.0


From 7dac889bd401de04759f32736d72077a8f62b5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:32 +0000
Subject: [PATCH 38/64] fix: restore the generator of static tree spaces

---
 src/tree_space_deserialize.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/tree_space_deserialize.h b/src/tree_space_deserialize.h
index 3c6afd8..9b20b89 100644
--- a/src/tree_space_deserialize.h
+++ b/src/tree_space_deserialize.h
@@ -49,6 +49,13 @@ _ccs_deserialize_bin_tree_space_static(
 		ccs_create_static_tree_space(
 			data.name, data.tree, tree_space_ret),
 		end);
+	CCS_VALIDATE_ERR_GOTO(
+		res, ccs_tree_space_set_rng(*tree_space_ret, data.rng),
+		tree_space);
+	goto end;
+tree_space:
+	ccs_release_object(*tree_space_ret);
+	*tree_space_ret = NULL;
 end:
 	if (data.rng)
 		ccs_release_object(data.rng);
-- 
2.43.0


From f98e4fe58504e0a462fc45e7fd7044d3e970f9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:32 +0000
Subject: [PATCH 39/64] fix: read the serialized state of dynamic tree spaces

It was written but skipped, and taken for the size of the user data.
---
 src/tree_space_deserialize.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tree_space_deserialize.h b/src/tree_space_deserialize.h
index 9b20b89..9048aa1 100644
--- a/src/tree_space_deserialize.h
+++ b/src/tree_space_deserialize.h
@@ -89,6 +89,10 @@ _ccs_deserialize_bin_tree_space_dynamic(
 		_ccs_deserialize_bin_ccs_tree_space_common_data(
 			&data.common_data, version, buffer_size, buffer, opts),
 		end);
+	CCS_VALIDATE_ERR_GOTO(
+		res,
+		_ccs_deserialize_bin_ccs_blob(&data.blob, buffer_size, buffer),
+		end);
 	CCS_VALIDATE_ERR_GOTO(
 		res,
 		ccs_create_dynamic_tree_space(
-- 
2.43.0


From 8fbc508f4d19afaaa2373c7e19e5867444554a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:32 +0000
Subject: [PATCH 40/64] fix: keep the state of non-blocking serialization
 between calls

Its buffer was not recorded, so it was neither recognized nor freed, and the
result of a resumed call was not set.
---
 src/cconfigspace.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cconfigspace.c b/src/cconfigspace.c
index 948cd55..83bf2b1 100644
--- a/src/cconfigspace.c
+++ b/src/cconfigspace.c
@@ -392,7 +392,7 @@ _ccs_object_serialize_file_descriptor(
 	va_list                args)
 {
 	int                             fd;
-	ccs_result_t                    res;
+	ccs_result_t                    res    = CCS_RESULT_SUCCESS;
 	_ccs_object_serialize_options_t opts   = {NULL, NULL, NULL};
 	_ccs_file_descriptor_state_t    state  = {NULL, 0, NULL, 0, -1, 0};
 	_ccs_file_descriptor_state_t   *pstate = NULL;
@@ -424,6 +424,7 @@ _ccs_object_serialize_file_descriptor(
 			CCS_REFUTE(!mem, CCS_RESULT_ERROR_OUT_OF_MEMORY);
 			*(opts.ppfd_state) = pstate =
 				(_ccs_file_descriptor_state_t *)mem;
+			pstate->base      = mem;
 			pstate->base_size =
 				sizeof(_ccs_file_descriptor_state_t) +
 				object_size;
-- 
2.43.0


From e1da9faae594a7e420d3a86996c0f5eb5b6d2ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:32 +0000
Subject: [PATCH 41/64] fix: report the end of file when deserializing from a
 descriptor

---
 src/cconfigspace.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cconfigspace.c b/src/cconfigspace.c
index 83bf2b1..c5a35aa 100644
--- a/src/cconfigspace.c
+++ b/src/cconfigspace.c
@@ -819,6 +819,8 @@ _ccs_object_deserialize_file_descriptor_read_loop(
 			if (errno == EAGAIN && non_blocking)
 				return CCS_RESULT_AGAIN;
 		} else {
+			/* end of file */
+			CCS_REFUTE(!count, CCS_RESULT_ERROR_NOT_ENOUGH_DATA);
 			pstate->buffer_size -= count;
 			pstate->buffer += count;
 		}
-- 
2.43.0


From 6123d1db70ca6fa6c871aa9342ad7d1c2314a8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:32 +0000
Subject: [PATCH 42/64] fix: check the object size read from a descriptor

A size smaller than the header made the read overflow the buffer.
---
 src/cconfigspace.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/cconfigspace.c b/src/cconfigspace.c
index c5a35aa..b0083da 100644
--- a/src/cconfigspace.c
+++ b/src/cconfigspace.c
@@ -907,6 +907,13 @@ _ccs_object_deserialize_file_descriptor(
 				(const char **)&pstate->buffer, &object_size,
 				&pstate->version),
 			err_fd_buffer);
+		CCS_REFUTE_ERR_GOTO(
+			res,
+			object_size < header_size ||
+				object_size >
+					SIZE_MAX -
+						sizeof(_ccs_file_descriptor_state_t),
+			CCS_RESULT_ERROR_INVALID_VALUE, err_fd_buffer);
 		/* reallocate buffer to account for whole size */
 		if (non_blocking)
 			pstate->base_size =
-- 
2.43.0


From a98cd254bf3b7d08e2009bf9d6c1d623b0895942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:32 +0000
Subject: [PATCH 43/64] fix: follow the state of non-blocking deserialization
 when it moves

---
 src/cconfigspace.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cconfigspace.c b/src/cconfigspace.c
index b0083da..890e519 100644
--- a/src/cconfigspace.c
+++ b/src/cconfigspace.c
@@ -925,6 +925,10 @@ _ccs_object_deserialize_file_descriptor(
 		CCS_REFUTE_ERR_GOTO(
 			res, !new_buffer, CCS_RESULT_ERROR_OUT_OF_MEMORY,
 			err_fd_buffer);
+		/* a non blocking state is part of the buffer and moves along */
+		if (non_blocking)
+			*(opts.ppfd_state) = pstate =
+				(_ccs_file_descriptor_state_t *)new_buffer;
 		pstate->base = new_buffer;
 		/* seek to after the header */
 		offset       = header_size;
-- 
2.43.0


From 640200842a11760e748d99a4798f24b913244b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:15 +0000
Subject: [PATCH 44/64] fix: do not take the vector of a tree tuner for that of
 its tree space

---
 src/tree_tuner_deserialize.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tree_tuner_deserialize.h b/src/tree_tuner_deserialize.h
index d3ea125..b8ed3f7 100644
--- a/src/tree_tuner_deserialize.h
+++ b/src/tree_tuner_deserialize.h
@@ -168,8 +168,12 @@ _ccs_deserialize_bin_ccs_user_defined_tree_tuner_data(
 	const char                              **buffer,
 	_ccs_object_deserialize_options_t        *opts)
 {
+	/* the vector is that of the tuner, not of its tree space */
+	_ccs_object_deserialize_options_t new_opts = *opts;
+	new_opts.vector                            = NULL;
+	new_opts.data                              = NULL;
 	CCS_VALIDATE(_ccs_deserialize_bin_ccs_random_tree_tuner_data(
-		&data->base_data, version, buffer_size, buffer, opts));
+		&data->base_data, version, buffer_size, buffer, &new_opts));
 	CCS_VALIDATE(_ccs_deserialize_bin_ccs_blob(
 		&data->blob, buffer_size, buffer));
 	return CCS_RESULT_SUCCESS;
-- 
2.43.0


From 9120e87c3c194afc7c6880333ddf398085203b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:25 +0000
Subject: [PATCH 45/64] fix: do not grow an array whose memory could not be
 extended

---
 src/utarray.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/utarray.h b/src/utarray.h
index 1fe8bc1..347f9e3 100644
--- a/src/utarray.h
+++ b/src/utarray.h
@@ -92,12 +92,14 @@ typedef struct {
 #define utarray_reserve(a,by) do {                                            \
   if (((a)->i+(by)) > (a)->n) {                                               \
     char *utarray_tmp;                                                        \
-    while (((a)->i+(by)) > (a)->n) { (a)->n = ((a)->n ? (2*(a)->n) : 8); }    \
-    utarray_tmp=(char*)realloc((a)->d, (a)->n*(a)->icd.sz);                   \
+    unsigned utarray_n = (a)->n;                                              \
+    while (((a)->i+(by)) > utarray_n) { utarray_n = (utarray_n ? (2*utarray_n) : 8); } \
+    utarray_tmp=(char*)realloc((a)->d, utarray_n*(a)->icd.sz);                \
     if (utarray_tmp == NULL) {                                                \
       utarray_oom();                                                          \
     }                                                                         \
     (a)->d=utarray_tmp;                                                       \
+    (a)->n=utarray_n;                                                         \
   }                                                                           \
 } while(0)
 
-- 
2.43.0


From 664220062543ea7a6a6f6109f2be0ce00f36482d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:25 +0000
Subject: [PATCH 46/64] fix: undo the addition of a parameter to a space that
 runs out of memory

---
 src/configuration_space.c | 15 +++++++++++++--
 src/features_space.c      |  5 +++++
 src/objective_space.c     |  5 +++++
 3 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/configuration_space.c b/src/configuration_space.c
index a307f0c..27d6dc0 100644
--- a/src/configuration_space.c
+++ b/src/configuration_space.c
@@ -461,6 +461,8 @@ ccs_configuration_space_add_parameter(
 	_ccs_distribution_wrapper_t *distrib_wrapper;
 	uintptr_t                    pmem;
 	parameter_wrapper.parameter = parameter;
+	parameter_wrapper.parents   = NULL;
+	parameter_wrapper.children  = NULL;
 	CCS_VALIDATE(ccs_retain_object(parameter));
 
 	if (distribution) {
@@ -507,11 +509,11 @@ ccs_configuration_space_add_parameter(
 	parameter_wrapper.distribution_index  = 0;
 	parameter_wrapper.distribution        = distrib_wrapper;
 	parameter_wrapper.condition           = NULL;
-	parameter_wrapper.parents             = NULL;
-	parameter_wrapper.children            = NULL;
 	utarray_new(parameter_wrapper.parents, &_size_t_icd);
 	utarray_new(parameter_wrapper.children, &_size_t_icd);
 
+	utarray_reserve(parameters, 1);
+	utarray_reserve(configuration_space->data->sorted_indexes, 1);
 	utarray_push_back(parameters, &parameter_wrapper);
 	utarray_push_back(configuration_space->data->sorted_indexes, &index);
 
@@ -527,6 +529,15 @@ ccs_configuration_space_add_parameter(
 	return CCS_RESULT_SUCCESS;
 errorutarray:
 	utarray_pop_back(parameters);
+	utarray_pop_back(configuration_space->data->sorted_indexes);
+	_ccs_parameter_index_hash_t *name_elem;
+	HASH_FIND(
+		hh_name, configuration_space->data->name_hash, name, sz_name,
+		name_elem);
+	if (name_elem)
+		HASH_DELETE(
+			hh_name, configuration_space->data->name_hash,
+			name_elem);
 errordistrib_wrapper:
 	if (parameter_hash)
 		free(parameter_hash);
diff --git a/src/features_space.c b/src/features_space.c
index fa906d8..548ac6a 100644
--- a/src/features_space.c
+++ b/src/features_space.c
@@ -194,6 +194,11 @@ ccs_features_space_add_parameter(
 	return CCS_RESULT_SUCCESS;
 errorutarray:
 	utarray_pop_back(parameters);
+	_ccs_parameter_index_hash_t *name_elem;
+	HASH_FIND(
+		hh_name, features_space->data->name_hash, name, sz_name, name_elem);
+	if (name_elem)
+		HASH_DELETE(hh_name, features_space->data->name_hash, name_elem);
 errormem:
 	free(parameter_hash);
 errorparameter:
diff --git a/src/objective_space.c b/src/objective_space.c
index 1839076..1bd2a0c 100644
--- a/src/objective_space.c
+++ b/src/objective_space.c
@@ -322,6 +322,11 @@ ccs_objective_space_add_parameter(
 	return CCS_RESULT_SUCCESS;
 errorutarray:
 	utarray_pop_back(parameters);
+	_ccs_parameter_index_hash_t *name_elem;
+	HASH_FIND(
+		hh_name, objective_space->data->name_hash, name, sz_name, name_elem);
+	if (name_elem)
+		HASH_DELETE(hh_name, objective_space->data->name_hash, name_elem);
 errormem:
 	free(parameter_hash);
 errorparameter:
-- 
2.43.0


From cb822d936e52096e4accbabaeee23ff009782472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:25 +0000
Subject: [PATCH 47/64] fix: do not keep a reference to an objective that could
 not be stored

---
 src/objective_space.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/objective_space.c b/src/objective_space.c
index 1bd2a0c..6407561 100644
--- a/src/objective_space.c
+++ b/src/objective_space.c
@@ -505,6 +505,7 @@ ccs_objective_space_add_objective(
 	CCS_CHECK_OBJ(objective_space, CCS_OBJECT_TYPE_OBJECTIVE_SPACE);
 	CCS_VALIDATE(ccs_expression_check_context(
 		expression, (ccs_context_t)objective_space));
+	utarray_reserve(objective_space->data->objectives, 1);
 	CCS_VALIDATE(ccs_retain_object(expression));
 	_ccs_objective_t objective;
 	objective.expression = expression;
@@ -526,6 +527,7 @@ ccs_objective_space_add_objectives(
 	for (size_t i = 0; i < num_objectives; i++) {
 		CCS_VALIDATE(ccs_expression_check_context(
 			expressions[i], (ccs_context_t)objective_space));
+		utarray_reserve(objective_space->data->objectives, 1);
 		CCS_VALIDATE(ccs_retain_object(expressions[i]));
 		_ccs_objective_t objective;
 		objective.expression = expressions[i];
-- 
2.43.0


From f2786a6fa8cf798e405a21373229c59935974f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:25 +0000
Subject: [PATCH 48/64] fix: release the distributions being set when memory
 runs out

---
 src/configuration_space.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/configuration_space.c b/src/configuration_space.c
index 27d6dc0..7dab5d9 100644
--- a/src/configuration_space.c
+++ b/src/configuration_space.c
@@ -651,7 +651,7 @@ ccs_configuration_space_set_distribution(
 		dmem = (uintptr_t)malloc(
 			sizeof(_ccs_distribution_wrapper_t) + sizeof(size_t));
 		CCS_REFUTE_ERR_GOTO(
-			err, !dmem, CCS_RESULT_ERROR_OUT_OF_MEMORY, memory);
+			err, !dmem, CCS_RESULT_ERROR_OUT_OF_MEMORY, dwrappers);
 		dwrapper = (_ccs_distribution_wrapper_t *)dmem;
 		dwrapper->parameter_indexes =
 			(size_t *)(dmem + sizeof(_ccs_distribution_wrapper_t));
-- 
2.43.0


From be6506e7bfd4ea0f67ca1f1cef0a45d606c2d410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:38 +0000
Subject: [PATCH 49/64] fix: do not keep a reference to a forbidden clause that
 could not be stored

---
 src/configuration_space.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/configuration_space.c b/src/configuration_space.c
index 7dab5d9..039b2f7 100644
--- a/src/configuration_space.c
+++ b/src/configuration_space.c
@@ -1428,6 +1428,7 @@ ccs_configuration_space_add_forbidden_clause(
 		CCS_RAISE_ERR_GOTO(
 			err, CCS_RESULT_ERROR_INVALID_CONFIGURATION, end,
 			"Default configuration is invalid");
+	utarray_reserve(configuration_space->data->forbidden_clauses, 1);
 	CCS_VALIDATE_ERR_GOTO(err, ccs_retain_object(expression), end);
 	utarray_push_back(
 		configuration_space->data->forbidden_clauses, &expression);
-- 
2.43.0


From fa651eb8afb96943b91b436eef6fe1c6f002b21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:19 +0000
Subject: [PATCH 50/64] fix: release the copy of a string that could not be
 stored by its parameter

---
 src/parameter_string.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parameter_string.c b/src/parameter_string.c
index e45990b..2363ea5 100644
--- a/src/parameter_string.c
+++ b/src/parameter_string.c
@@ -117,6 +117,7 @@ _ccs_parameter_string_serialize(
 #undef uthash_nonfatal_oom
 #define uthash_nonfatal_oom(elt)                                               \
 	{                                                                      \
+		free(elt);                                                     \
 		CCS_RAISE(                                                     \
 			CCS_RESULT_ERROR_OUT_OF_MEMORY,                        \
 			"Not enough memory to allocate array");                \
-- 
2.43.0


From 4b41857a21d5adb3a467812084fb14bc0e3a389d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:43 +0000
Subject: [PATCH 51/64] fix: keep the entry of a map whose replacement runs out
 of memory

---
 src/map.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/map.c b/src/map.c
index 91f21ae..8f4a30d 100644
--- a/src/map.c
+++ b/src/map.c
@@ -223,9 +223,9 @@ ccs_map_set(ccs_map_t map, ccs_datum_t key, ccs_datum_t value)
 	_ccs_map_set_string(&entry->key, sz1, &mem);
 	_ccs_map_set_string(&entry->value, sz2, &mem);
 
+	HASH_ADD(hh, d->map, key, sizeof(ccs_datum_t), entry);
 	if (old_entry)
 		_ccs_map_remove(d, old_entry);
-	HASH_ADD(hh, d->map, key, sizeof(ccs_datum_t), entry);
 	return CCS_RESULT_SUCCESS;
 err_mem:
 	free(entry);
-- 
2.43.0


From 43a3a6161eb14baaee871c601c12b4345b910fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:43 +0000
Subject: [PATCH 52/64] fix: do not keep a map key that belongs to the replaced
 entry

---
 src/map.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/map.c b/src/map.c
index 8f4a30d..4d40ee4 100644
--- a/src/map.c
+++ b/src/map.c
@@ -206,9 +206,18 @@ ccs_map_set(ccs_map_t map, ccs_datum_t key, ccs_datum_t value)
 	_ccs_map_datum_t *old_entry = NULL;
 	_ccs_map_datum_t *entry     = NULL;
 	HASH_FIND(hh, d->map, &key, sizeof(ccs_datum_t), old_entry);
-	if (old_entry)
+	if (old_entry) {
 		if (!_datum_cmp(&value, &old_entry->value))
 			return CCS_RESULT_SUCCESS;
+		/* the key may be the copy owned by the entry to replace */
+		if (key.type == CCS_DATA_TYPE_STRING &&
+		    key.value.s == old_entry->key.value.s)
+			key.flags |= CCS_DATUM_FLAG_TRANSIENT;
+		if (value.type == CCS_DATA_TYPE_STRING &&
+		    old_entry->key.type == CCS_DATA_TYPE_STRING &&
+		    value.value.s == old_entry->key.value.s)
+			value.flags |= CCS_DATUM_FLAG_TRANSIENT;
+	}
 
 	CCS_VALIDATE_ERR_GOTO(res, _ccs_map_check_datum(key, &sz, &sz1), err);
 	CCS_VALIDATE_ERR_GOTO(
-- 
2.43.0


From 5395c99bf243a4a96f473da73524f999bb455106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:44 +0000
Subject: [PATCH 53/64] fix: report that a destruction callback could not be
 stored instead of exiting

---
 src/cconfigspace.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/cconfigspace.c b/src/cconfigspace.c
index 890e519..e6d969f 100644
--- a/src/cconfigspace.c
+++ b/src/cconfigspace.c
@@ -94,6 +94,13 @@ ccs_object_get_refcount(ccs_object_t object, int32_t *refcount_ret)
 static const UT_icd _object_callback_icd = {
 	sizeof(_ccs_object_callback_t), NULL, NULL, NULL};
 
+#undef utarray_oom
+#define utarray_oom()                                                          \
+	{                                                                      \
+		CCS_RAISE(                                                     \
+			CCS_RESULT_ERROR_OUT_OF_MEMORY,                        \
+			"Out of memory to allocate array");                    \
+	}
 ccs_result_t
 ccs_object_set_destroy_callback(
 	ccs_object_t                  object,
@@ -109,6 +116,8 @@ ccs_object_set_destroy_callback(
 	utarray_push_back(obj->callbacks, &cb);
 	return CCS_RESULT_SUCCESS;
 }
+#undef utarray_oom
+#define utarray_oom() exit(-1)
 
 ccs_result_t
 ccs_object_set_user_data(ccs_object_t object, void *user_data)
-- 
2.43.0


From 0a2f8f5606da10e80e06f3bef104ea723fc440bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:13 +0000
Subject: [PATCH 54/64] fix: refuse objects that are not bindings

---
 src/binding.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/binding.c b/src/binding.c
index 6c2f705..08912fb 100644
--- a/src/binding.c
+++ b/src/binding.c
@@ -3,7 +3,14 @@
 
 #define CCS_CHECK_BINDING(b)                                                   \
 	CCS_REFUTE_MSG(                                                        \
-		CCS_UNLIKELY(!(b) || !(b)->data),                              \
+		CCS_UNLIKELY(                                                  \
+			!(b) || !(b)->data ||                                  \
+			((b)->obj.type != CCS_OBJECT_TYPE_CONFIGURATION &&     \
+			 (b)->obj.type != CCS_OBJECT_TYPE_FEATURES &&          \
+			 (b)->obj.type != CCS_OBJECT_TYPE_EVALUATION &&        \
+			 (b)->obj.type !=                                      \
+				 CCS_OBJECT_TYPE_FEATURES_EVALUATION &&        \
+			 (b)->obj.type != CCS_OBJECT_TYPE_TREE_EVALUATION)),   \
 		CCS_RESULT_ERROR_INVALID_OBJECT,                               \
 		"Invalid CCS binding '%s' == %p supplied", #b, b)
 
-- 
2.43.0


From 178fac566e82f808b5f9e02d6c9cd9f549eb5669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:13 +0000
Subject: [PATCH 55/64] fix: refuse objects that are not contexts

---
 src/context.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/context.c b/src/context.c
index 4c8db37..a941973 100644
--- a/src/context.c
+++ b/src/context.c
@@ -3,7 +3,12 @@
 
 #define CCS_CHECK_CONTEXT(c)                                                   \
 	CCS_REFUTE_MSG(                                                        \
-		CCS_UNLIKELY(!(c) || !(c)->data),                              \
+		CCS_UNLIKELY(                                                  \
+			!(c) || !(c)->data ||                                  \
+			((c)->obj.type !=                                      \
+				 CCS_OBJECT_TYPE_CONFIGURATION_SPACE &&        \
+			 (c)->obj.type != CCS_OBJECT_TYPE_FEATURES_SPACE &&    \
+			 (c)->obj.type != CCS_OBJECT_TYPE_OBJECTIVE_SPACE)),   \
 		CCS_RESULT_ERROR_INVALID_OBJECT,                               \
 		"Invalid CCS context '%s' == %p supplied", #c, c)
 
-- 
2.43.0


From eabffe3b3d441175cbf83c9e80010f33ca59ff92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:13 +0000
Subject: [PATCH 56/64] fix: refuse to check values without a place for the
 result

---
 src/configuration_space.c | 1 +
 src/features_space.c      | 1 +
 src/objective_space.c     | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/configuration_space.c b/src/configuration_space.c
index 039b2f7..7e8f708 100644
--- a/src/configuration_space.c
+++ b/src/configuration_space.c
@@ -932,6 +932,7 @@ _check_configuration(
 	ccs_datum_t              *values,
 	ccs_bool_t               *is_valid_ret)
 {
+	CCS_CHECK_PTR(is_valid_ret);
 	UT_array *indexes = configuration_space->data->sorted_indexes;
 	UT_array *array   = configuration_space->data->parameters;
 	CCS_REFUTE(
diff --git a/src/features_space.c b/src/features_space.c
index 548ac6a..40c281b 100644
--- a/src/features_space.c
+++ b/src/features_space.c
@@ -330,6 +330,7 @@ _check_features(
 	ccs_datum_t         *values,
 	ccs_bool_t          *is_valid_ret)
 {
+	CCS_CHECK_PTR(is_valid_ret);
 	UT_array *array          = features_space->data->parameters;
 	size_t    num_parameters = utarray_len(array);
 	CCS_REFUTE(
diff --git a/src/objective_space.c b/src/objective_space.c
index 6407561..a51abcd 100644
--- a/src/objective_space.c
+++ b/src/objective_space.c
@@ -445,6 +445,7 @@ _check_evaluation(
 	ccs_datum_t          *values,
 	ccs_bool_t           *is_valid_ret)
 {
+	CCS_CHECK_PTR(is_valid_ret);
 	UT_array *array          = objective_space->data->parameters;
 	size_t    num_parameters = utarray_len(array);
 	CCS_REFUTE(
-- 
2.43.0


From 68c1720ac9696098c803ee75da42ed6c901c6de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:13 +0000
Subject: [PATCH 57/64] fix: refuse to hash an evaluation without a place for
 the result

---
 src/evaluation.c          | 1 +
 src/features_evaluation.c | 1 +
 src/tree_evaluation.c     | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/evaluation.c b/src/evaluation.c
index 4201894..5872f58 100644
--- a/src/evaluation.c
+++ b/src/evaluation.c
@@ -126,6 +126,7 @@ _ccs_evaluation_serialize(
 static ccs_result_t
 _ccs_evaluation_hash(_ccs_evaluation_data_t *data, ccs_hash_t *hash_ret)
 {
+	CCS_CHECK_PTR(hash_ret);
 	ccs_hash_t h, ht;
 	CCS_VALIDATE(_ccs_binding_hash((_ccs_binding_data_t *)data, &h));
 	CCS_VALIDATE(ccs_configuration_hash(data->configuration, &ht));
diff --git a/src/features_evaluation.c b/src/features_evaluation.c
index e64b786..e297cde 100644
--- a/src/features_evaluation.c
+++ b/src/features_evaluation.c
@@ -138,6 +138,7 @@ _ccs_features_evaluation_hash(
 	_ccs_features_evaluation_data_t *data,
 	ccs_hash_t                      *hash_ret)
 {
+	CCS_CHECK_PTR(hash_ret);
 	ccs_hash_t h, ht;
 	CCS_VALIDATE(_ccs_binding_hash((_ccs_binding_data_t *)data, &h));
 	CCS_VALIDATE(ccs_configuration_hash(data->configuration, &ht));
diff --git a/src/tree_evaluation.c b/src/tree_evaluation.c
index 614e32b..991c670 100644
--- a/src/tree_evaluation.c
+++ b/src/tree_evaluation.c
@@ -129,6 +129,7 @@ _ccs_tree_evaluation_hash(
 	_ccs_tree_evaluation_data_t *data,
 	ccs_hash_t                  *hash_ret)
 {
+	CCS_CHECK_PTR(hash_ret);
 	ccs_hash_t h, ht;
 	CCS_VALIDATE(_ccs_binding_hash((_ccs_binding_data_t *)data, &h));
 	CCS_VALIDATE(ccs_tree_configuration_hash(data->configuration, &ht));
-- 
2.43.0


From 698e4975ac56d0ecdaa5771d2aab437b3273b1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:13 +0000
Subject: [PATCH 58/64] fix: refuse to name a result without a place for the
 name

---
 src/cconfigspace.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cconfigspace.c b/src/cconfigspace.c
index e6d969f..0c5f5d1 100644
--- a/src/cconfigspace.c
+++ b/src/cconfigspace.c
@@ -1020,6 +1020,7 @@ end:
 ccs_result_t
 ccs_get_result_name(ccs_result_t result, const char **name)
 {
+	CCS_CHECK_PTR(name);
 	switch (result) {
 		ETOCASE(CCS_RESULT_AGAIN);
 		ETOCASE(CCS_RESULT_SUCCESS);
-- 
2.43.0


From 98b4976851f004d4d893d603c874c96553f44f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:13 +0000
Subject: [PATCH 59/64] fix: refuse to get the type of a generator without a
 place for it

---
 src/rng.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rng.c b/src/rng.c
index c710ee0..25e8f12 100644
--- a/src/rng.c
+++ b/src/rng.c
@@ -138,6 +138,7 @@ ccs_result_t
 ccs_rng_get_type(ccs_rng_t rng, const gsl_rng_type **rng_type_ret)
 {
 	CCS_CHECK_OBJ(rng, CCS_OBJECT_TYPE_RNG);
+	CCS_CHECK_PTR(rng_type_ret);
 	*rng_type_ret = rng->data->rng_type;
 	return CCS_RESULT_SUCCESS;
 }
-- 
2.43.0


From 799a218ea05fdeb56944cf55a9ef8438a5dee65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:34 +0000
Subject: [PATCH 60/64] fix: leave a tuner as it was when a report runs out of
 memory

---
 src/features_tuner_random.c | 14 ++++----------
 src/tree_tuner_random.c     | 14 ++++----------
 src/tuner_random.c          | 14 ++++----------
 3 files changed, 12 insertions(+), 30 deletions(-)

diff --git a/src/features_tuner_random.c b/src/features_tuner_random.c
index 979939e..956e3d5 100644
--- a/src/features_tuner_random.c
+++ b/src/features_tuner_random.c
@@ -179,7 +179,6 @@ _ccs_features_tuner_random_ask(
 #undef utarray_oom
 #define utarray_oom()                                                          \
 	{                                                                      \
-		ccs_release_object(evaluations[i]);                            \
 		CCS_RAISE(                                                     \
 			CCS_RESULT_ERROR_OUT_OF_MEMORY,                        \
 			"Not enough memory to allocate new array");            \
@@ -201,21 +200,16 @@ _ccs_features_tuner_random_tell(
 		if (result == CCS_RESULT_SUCCESS) {
 			int       discard = 0;
 			UT_array *tmp;
+			utarray_reserve(history, 1);
+			utarray_clear(d->old_optima);
+			utarray_reserve(
+				d->old_optima, utarray_len(d->optima) + 1);
 			ccs_retain_object(evaluations[i]);
 			utarray_push_back(history, evaluations + i);
 			tmp           = d->old_optima;
 			d->old_optima = d->optima;
 			d->optima     = tmp;
-			utarray_clear(d->optima);
 			ccs_features_evaluation_t *eval = NULL;
-#undef utarray_oom
-#define utarray_oom()                                                          \
-	{                                                                      \
-		d->optima = d->old_optima;                                     \
-		CCS_RAISE(                                                     \
-			CCS_RESULT_ERROR_OUT_OF_MEMORY,                        \
-			"Not enough memory to allocate new array");            \
-	}
 			while ((eval = (ccs_features_evaluation_t *)
 					utarray_next(d->old_optima, eval))) {
 				if (!discard) {
diff --git a/src/tree_tuner_random.c b/src/tree_tuner_random.c
index cf7fe03..1cf2eda 100644
--- a/src/tree_tuner_random.c
+++ b/src/tree_tuner_random.c
@@ -171,7 +171,6 @@ _ccs_tree_tuner_random_ask(
 #undef utarray_oom
 #define utarray_oom()                                                          \
 	{                                                                      \
-		ccs_release_object(evaluations[i]);                            \
 		CCS_RAISE(                                                     \
 			CCS_RESULT_ERROR_OUT_OF_MEMORY,                        \
 			"Out of memory to allocate array");                    \
@@ -193,21 +192,16 @@ _ccs_tree_tuner_random_tell(
 		if (!result) {
 			int       discard = 0;
 			UT_array *tmp;
+			utarray_reserve(history, 1);
+			utarray_clear(d->old_optima);
+			utarray_reserve(
+				d->old_optima, utarray_len(d->optima) + 1);
 			ccs_retain_object(evaluations[i]);
 			utarray_push_back(history, evaluations + i);
 			tmp           = d->old_optima;
 			d->old_optima = d->optima;
 			d->optima     = tmp;
-			utarray_clear(d->optima);
 			ccs_tree_evaluation_t *eval = NULL;
-#undef utarray_oom
-#define utarray_oom()                                                          \
-	{                                                                      \
-		d->optima = d->old_optima;                                     \
-		CCS_RAISE(                                                     \
-			CCS_RESULT_ERROR_OUT_OF_MEMORY,                        \
-			"Out of memory to allocate array");                    \
-	}
 			while ((eval = (ccs_tree_evaluation_t *)utarray_next(
 					d->old_optima, eval))) {
 				if (!discard) {
diff --git a/src/tuner_random.c b/src/tuner_random.c
index 26aeab1..6e91357 100644
--- a/src/tuner_random.c
+++ b/src/tuner_random.c
@@ -171,7 +171,6 @@ _ccs_tuner_random_ask(
 #undef utarray_oom
 #define utarray_oom()                                                          \
 	{                                                                      \
-		ccs_release_object(evaluations[i]);                            \
 		CCS_RAISE(                                                     \
 			CCS_RESULT_ERROR_OUT_OF_MEMORY,                        \
 			"Out of memory to allocate array");                    \
@@ -192,21 +191,16 @@ _ccs_tuner_random_tell(
 		if (!result) {
 			int       discard = 0;
 			UT_array *tmp;
+			utarray_reserve(history, 1);
+			utarray_clear(d->old_optima);
+			utarray_reserve(
+				d->old_optima, utarray_len(d->optima) + 1);
 			ccs_retain_object(evaluations[i]);
 			utarray_push_back(history, evaluations + i);
 			tmp           = d->old_optima;
 			d->old_optima = d->optima;
 			d->optima     = tmp;
-			utarray_clear(d->optima);
 			ccs_evaluation_t *eval = NULL;
-#undef utarray_oom
-#define utarray_oom()                                                          \
-	{                                                                      \
-		d->optima = d->old_optima;                                     \
-		CCS_RAISE(                                                     \
-			CCS_RESULT_ERROR_OUT_OF_MEMORY,                        \
-			"Out of memory to allocate array");                    \
-	}
 			while ((eval = (ccs_evaluation_t *)utarray_next(
 					d->old_optima, eval))) {
 				if (!discard) {
-- 
2.43.0


From 61c085dce5b1dac09cf78da6cd2e35c5d6025034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:34 +0000
Subject: [PATCH 61/64] fix: do not leave the error of a comparison that was
 ignored

---
 src/features_tuner_random.c | 6 ++++++
 src/tree_tuner_random.c     | 6 ++++++
 src/tuner_random.c          | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/src/features_tuner_random.c b/src/features_tuner_random.c
index 956e3d5..342fa9d 100644
--- a/src/features_tuner_random.c
+++ b/src/features_tuner_random.c
@@ -214,8 +214,14 @@ _ccs_features_tuner_random_tell(
 					utarray_next(d->old_optima, eval))) {
 				if (!discard) {
 					ccs_comparison_t cmp;
+					ccs_error_stack_t earlier =
+						ccs_get_thread_error();
 					err = ccs_features_evaluation_compare(
 						evaluations[i], *eval, &cmp);
+					if (err)
+						ccs_clear_thread_error();
+					if (earlier)
+						ccs_set_thread_error(earlier);
 					if (err) {
 						discard = 1;
 						utarray_push_back(
diff --git a/src/tree_tuner_random.c b/src/tree_tuner_random.c
index 1cf2eda..92b2f1f 100644
--- a/src/tree_tuner_random.c
+++ b/src/tree_tuner_random.c
@@ -206,8 +206,14 @@ _ccs_tree_tuner_random_tell(
 					d->old_optima, eval))) {
 				if (!discard) {
 					ccs_comparison_t cmp;
+					ccs_error_stack_t earlier =
+						ccs_get_thread_error();
 					err = ccs_tree_evaluation_compare(
 						evaluations[i], *eval, &cmp);
+					if (err)
+						ccs_clear_thread_error();
+					if (earlier)
+						ccs_set_thread_error(earlier);
 					if (err) {
 						discard = 1;
 						utarray_push_back(
diff --git a/src/tuner_random.c b/src/tuner_random.c
index 6e91357..358c278 100644
--- a/src/tuner_random.c
+++ b/src/tuner_random.c
@@ -205,8 +205,14 @@ _ccs_tuner_random_tell(
 					d->old_optima, eval))) {
 				if (!discard) {
 					ccs_comparison_t cmp;
+					ccs_error_stack_t earlier =
+						ccs_get_thread_error();
 					err = ccs_evaluation_compare(
 						evaluations[i], *eval, &cmp);
+					if (err)
+						ccs_clear_thread_error();
+					if (earlier)
+						ccs_set_thread_error(earlier);
 					if (err) {
 						discard = 1;
 						utarray_push_back(
-- 
2.43.0


From 1b2ee60741ea1f3f30ca8e6531a2f6541b8c3a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:54 +0000
Subject: [PATCH 62/64] fix: refuse objectives of unknown types

---
 src/objective_space.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/objective_space.c b/src/objective_space.c
index a51abcd..0c2fe17 100644
--- a/src/objective_space.c
+++ b/src/objective_space.c
@@ -504,6 +504,10 @@ ccs_objective_space_add_objective(
 	ccs_objective_type_t  type)
 {
 	CCS_CHECK_OBJ(objective_space, CCS_OBJECT_TYPE_OBJECTIVE_SPACE);
+	CCS_REFUTE(
+		type != CCS_OBJECTIVE_TYPE_MINIMIZE &&
+			type != CCS_OBJECTIVE_TYPE_MAXIMIZE,
+		CCS_RESULT_ERROR_INVALID_TYPE);
 	CCS_VALIDATE(ccs_expression_check_context(
 		expression, (ccs_context_t)objective_space));
 	utarray_reserve(objective_space->data->objectives, 1);
-- 
2.43.0


From 9c6d3836701c862b1e825a6720838db904147afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:19 +0000
Subject: [PATCH 63/64] fix: refuse to create an error without a place for it

---
 src/error_stack.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/error_stack.c b/src/error_stack.c
index baded2d..1b5673d 100644
--- a/src/error_stack.c
+++ b/src/error_stack.c
@@ -123,6 +123,8 @@ ccs_create_error_stack(
 {
 	ccs_result_t err;
 	va_list      args;
+	if (CCS_UNLIKELY(!error_stack_ret))
+		return CCS_RESULT_ERROR_INVALID_VALUE;
 	va_start(args, msg);
 	err = _ccs_create_error_stack(error_stack_ret, error_code, msg, args);
 	va_end(args);
-- 
2.43.0


From 4d727b885e0bd74ab4932c30dd49061610a748a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:59 +0000
Subject: [PATCH 64/64] fix: serialize values that are missing strings

---
 src/cconfigspace_internal.h | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/cconfigspace_internal.h b/src/cconfigspace_internal.h
index 5b05e60..ad2cd6a 100644
--- a/src/cconfigspace_internal.h
+++ b/src/cconfigspace_internal.h
@@ -768,24 +768,26 @@ _ccs_deserialize_bin_count(
 static inline size_t
 _ccs_serialize_bin_size_string(const char *str)
 {
-	size_t sz = strlen(str) + 1;
+	/* a missing string is distinguished from an empty one */
+	size_t sz = str ? strlen(str) + 1 : 0;
 	return sz + _ccs_serialize_bin_size_size(sz);
 }
 
 static inline ccs_result_t
 _ccs_serialize_bin_string(const char *str, size_t *buffer_size, char **buffer)
 {
-	uint64_t sz = strlen(str) + 1;
+	uint64_t sz = str ? strlen(str) + 1 : 0;
 	CCS_VALIDATE(_ccs_serialize_bin_size(sz, buffer_size, buffer));
 	CCS_REFUTE(*buffer_size < sz, CCS_RESULT_ERROR_NOT_ENOUGH_DATA);
-	memcpy(*buffer, str, sz);
+	if (str)
+		memcpy(*buffer, str, sz);
 	*buffer_size -= sz;
 	*buffer += sz;
 	return CCS_RESULT_SUCCESS;
 }
 
 static inline ccs_result_t
-_ccs_deserialize_bin_string(
+_ccs_deserialize_bin_nullable_string(
 	const char **str,
 	size_t      *buffer_size,
 	const char **buffer)
@@ -794,14 +796,26 @@ _ccs_deserialize_bin_string(
 	CCS_VALIDATE(_ccs_deserialize_bin_size(&sz, buffer_size, buffer));
 	CCS_REFUTE(*buffer_size < sz, CCS_RESULT_ERROR_NOT_ENOUGH_DATA);
 	CCS_REFUTE(
-		!sz || (*buffer)[sz - 1] != '\0',
+		sz && (*buffer)[sz - 1] != '\0',
 		CCS_RESULT_ERROR_INVALID_VALUE);
-	*str = *buffer;
+	*str = sz ? *buffer : NULL;
 	*buffer_size -= sz;
 	*buffer += sz;
 	return CCS_RESULT_SUCCESS;
 }
 
+static inline ccs_result_t
+_ccs_deserialize_bin_string(
+	const char **str,
+	size_t      *buffer_size,
+	const char **buffer)
+{
+	CCS_VALIDATE(_ccs_deserialize_bin_nullable_string(
+		str, buffer_size, buffer));
+	CCS_REFUTE(!*str, CCS_RESULT_ERROR_INVALID_VALUE);
+	return CCS_RESULT_SUCCESS;
+}
+
 struct _ccs_blob_s {
 	size_t      sz;
 	const void *blob;
@@ -1013,8 +1027,8 @@ _ccs_deserialize_bin_ccs_datum(
 	} break;
 	case CCS_DATA_TYPE_STRING: {
 		const char *s;
-		CCS_VALIDATE(
-			_ccs_deserialize_bin_string(&s, buffer_size, buffer));
+		CCS_VALIDATE(_ccs_deserialize_bin_nullable_string(
+			&s, buffer_size, buffer));
 		*datum = ccs_string(s);
 		datum->flags |= CCS_DATUM_FLAG_TRANSIENT;
 	} break;
-- 
2.43.0

