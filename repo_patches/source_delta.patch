From 7b28739a01effdef9598c1a10d0382ca451c295b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:19 +0000
Subject: [PATCH 01/14] fix: count the threshold field in the size of the
 offline 2D stream

---
 src/sz_compress_cp_preserve_2d.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sz_compress_cp_preserve_2d.cpp b/src/sz_compress_cp_preserve_2d.cpp
index 94100d3..c61308b 100644
--- a/src/sz_compress_cp_preserve_2d.cpp
+++ b/src/sz_compress_cp_preserve_2d.cpp
@@ -243,7 +243,7 @@ sz_compress_cp_preserve_2d_offline(const T * U, const T * V, size_t r1, size_t r
 	printf("eb_size = %ld, u_size = %ld, v_size = %ld\n", compressed_eb_size, compressed_u_size, compressed_v_size);
 	free(eb_u);
 	free(eb_v);
-	compressed_size = sizeof(int) + sizeof(size_t) + compressed_eb_size + sizeof(size_t) + compressed_u_size + sizeof(size_t) + compressed_v_size;
+	compressed_size = sizeof(int) + sizeof(double) + sizeof(size_t) + compressed_eb_size + sizeof(size_t) + compressed_u_size + sizeof(size_t) + compressed_v_size;
 	unsigned char * compressed = (unsigned char *) malloc(compressed_size);
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
-- 
2.43.0


From 54336c975f3a460a93a7349b5afbc88dc1a0deb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:19 +0000
Subject: [PATCH 02/14] fix: skip verbatim values by their element size when
 decompressing

---
 src/sz_decompress_3d.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sz_decompress_3d.cpp b/src/sz_decompress_3d.cpp
index 6710b38..c9093f3 100644
--- a/src/sz_decompress_3d.cpp
+++ b/src/sz_decompress_3d.cpp
@@ -62,7 +62,7 @@ sz_decompress_2d(const unsigned char * compressed, size_t r1, size_t r2){
 	size_t unpredictable_count = 0;
 	read_variable_from_src(compressed_pos, unpredictable_count);
 	const T * unpredictable_data = (const T *) compressed_pos;
-	compressed_pos += unpredictable_count * sizeof(float);
+	compressed_pos += unpredictable_count * sizeof(T);
 	unsigned char * indicator = convertByteArray2IntArray_fast_1b_sz(size.num_blocks, compressed_pos, (size.num_blocks - 1)/8 + 1);
 	float * reg_params = NULL;
 	if(reg_count) reg_params = decode_regression_coefficients_2d(compressed_pos, reg_count, size.block_size, precision);
@@ -271,7 +271,7 @@ sz_decompress_3d(const unsigned char * compressed, size_t r1, size_t r2, size_t
 	size_t unpredictable_count = 0;
 	read_variable_from_src(compressed_pos, unpredictable_count);
 	const T * unpredictable_data = (const T *) compressed_pos;
-	compressed_pos += unpredictable_count * sizeof(float);
+	compressed_pos += unpredictable_count * sizeof(T);
 	unsigned char * indicator = convertByteArray2IntArray_fast_1b_sz(size.num_blocks, compressed_pos, (size.num_blocks - 1)/8 + 1);
 	float * reg_params = NULL;
 	if(reg_count) reg_params = decode_regression_coefficients(compressed_pos, reg_count, size.block_size, precision);
-- 
2.43.0


From e1b365d0a082785092af581a3f41c5306d62d7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:19 +0000
Subject: [PATCH 03/14] fix: keep the sign cursor in step over zeros in
 unstructured decompression

---
 src/sz_decompress_cp_preserve_3d.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sz_decompress_cp_preserve_3d.cpp b/src/sz_decompress_cp_preserve_3d.cpp
index 617b92f..428d017 100644
--- a/src/sz_decompress_cp_preserve_3d.cpp
+++ b/src/sz_decompress_cp_preserve_3d.cpp
@@ -186,7 +186,8 @@ sz_decompress_cp_preserve_3d_unstructured(const unsigned char * compressed, int
 		else{
 			for(int p=0; p<3; p++){
 				if(data[3*i + p] < -99) data[3*i + p] = 0;
-				else data[3*i + p] = *(sign_pos ++) ? exp2(data[3*i + p]) : -exp2(data[3*i + p]);
+				else data[3*i + p] = *sign_pos ? exp2(data[3*i + p]) : -exp2(data[3*i + p]);
+				sign_pos ++;
 			}
 		}
 	}
-- 
2.43.0


From 2986efd4eae1eb7951e6c4ee0f987d9bacf15294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:19 +0000
Subject: [PATCH 04/14] fix: room for every value to be stored verbatim in the
 block compressors

---
 src/sz_compress_3d.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sz_compress_3d.cpp b/src/sz_compress_3d.cpp
index 941ee10..d960e59 100644
--- a/src/sz_compress_3d.cpp
+++ b/src/sz_compress_3d.cpp
@@ -86,7 +86,7 @@ sz_compress_2d(const T * data, size_t r1, size_t r2, double precision, size_t& c
 	meanInfo<T> mean_info;// = optimize_quant_invl_2d(data, r1, r2, precision, capacity);
 	int intv_radius = (capacity >> 1);
 	int * type = (int *) malloc(size.num_elements * sizeof(int));
-	T * unpredictable_data = (T *) malloc((0.05*size.num_elements) * sizeof(T));
+	T * unpredictable_data = (T *) malloc(size.num_elements * sizeof(T));
 	unsigned char * indicator = (unsigned char *) malloc(size.num_blocks * sizeof(unsigned char));
 	T * unpredictable_data_pos = unpredictable_data;
 	int * reg_params_type = (int *) malloc(RegCoeffNum2d * size.num_blocks * sizeof(int));
@@ -401,7 +401,7 @@ sz_compress_3d(const T * data, size_t r1, size_t r2, size_t r3, double precision
 	meanInfo<T> mean_info = optimize_quant_invl_3d(data, r1, r2, r3, precision, capacity);
 	int intv_radius = (capacity >> 1);
 	int * type = (int *) malloc(size.num_elements * sizeof(int));
-	T * unpredictable_data = (T *) malloc((0.05*size.num_elements) * sizeof(T));
+	T * unpredictable_data = (T *) malloc(size.num_elements * sizeof(T));
 	unsigned char * indicator = (unsigned char *) malloc(size.num_blocks * sizeof(unsigned char));
 	T * unpredictable_data_pos = unpredictable_data;
 	int * reg_params_type = (int *) malloc(RegCoeffNum3d * size.num_blocks * sizeof(int));
@@ -533,7 +533,7 @@ sz_compress_3d_with_eb(const T * data, const double * precisions, size_t r1, siz
 	meanInfo<T> mean_info;
 	int intv_radius = (capacity >> 1);
 	int * type = (int *) malloc(size.num_elements * sizeof(int));
-	T * unpredictable_data = (T *) malloc((0.05*size.num_elements) * sizeof(T));
+	T * unpredictable_data = (T *) malloc(size.num_elements * sizeof(T));
 	unsigned char * indicator = (unsigned char *) malloc(size.num_blocks * sizeof(unsigned char));
 	T * unpredictable_data_pos = unpredictable_data;
 	int * reg_params_type = (int *) malloc(RegCoeffNum3d * size.num_blocks * sizeof(int));
-- 
2.43.0


From 99e4a998024bba14b9daa93f2dd466c012622224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:19 +0000
Subject: [PATCH 05/14] fix: quantize error bounds of index 0 to zero, as they
 are decoded

---
 include/sz_cp_preserve_utils.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/sz_cp_preserve_utils.hpp b/include/sz_cp_preserve_utils.hpp
index 094d65f..ef33e67 100644
--- a/include/sz_cp_preserve_utils.hpp
+++ b/include/sz_cp_preserve_utils.hpp
@@ -17,7 +17,8 @@ inline int eb_exponential_quantize(double& eb, const int base, const double log_
 		return 0;
 	}
 	int id = log2(eb / threshold)/log_of_base;
-	eb = pow(base, id) * threshold;
+	// index 0 is decoded as a zero bound
+	eb = id ? pow(base, id) * threshold : 0;
 	return id;
 }
 
-- 
2.43.0


From 0f2405cef87954f06572dd269312a516b6d34341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:41 +0000
Subject: [PATCH 06/14] fix: release the error-bound buffers of the offline and
 bilinear codecs

---
 src/sz_compress_cp_preserve_2d.cpp          | 2 ++
 src/sz_compress_cp_preserve_2d_bilinear.cpp | 2 +-
 src/sz_decompress_cp_preserve_2d.cpp        | 2 ++
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sz_compress_cp_preserve_2d.cpp b/src/sz_compress_cp_preserve_2d.cpp
index c61308b..efdb4db 100644
--- a/src/sz_compress_cp_preserve_2d.cpp
+++ b/src/sz_compress_cp_preserve_2d.cpp
@@ -235,6 +235,7 @@ sz_compress_cp_preserve_2d_offline(const T * U, const T * V, size_t r1, size_t r
 	unsigned char * compressed_eb = (unsigned char *) malloc(2*num_elements*sizeof(int));
 	unsigned char * compressed_eb_pos = compressed_eb; 
 	Huffman_encode_tree_and_data(2*1024, eb_quant_index, 2*num_elements, compressed_eb_pos);
+	free(eb_quant_index);
 	size_t compressed_eb_size = compressed_eb_pos - compressed_eb;
 	size_t compressed_u_size = 0;
 	size_t compressed_v_size = 0;
@@ -337,6 +338,7 @@ sz_compress_cp_preserve_2d_offline_log(const T * U, const T * V, size_t r1, size
 	unsigned char * compressed_eb = (unsigned char *) malloc(num_elements*sizeof(int));
 	unsigned char * compressed_eb_pos = compressed_eb; 
 	Huffman_encode_tree_and_data(2*1024, eb_quant_index, num_elements, compressed_eb_pos);
+	free(eb_quant_index);
 	size_t compressed_eb_size = compressed_eb_pos - compressed_eb;
 	size_t compressed_u_size = 0;
 	size_t compressed_v_size = 0;
diff --git a/src/sz_compress_cp_preserve_2d_bilinear.cpp b/src/sz_compress_cp_preserve_2d_bilinear.cpp
index 370e3a7..51254d2 100644
--- a/src/sz_compress_cp_preserve_2d_bilinear.cpp
+++ b/src/sz_compress_cp_preserve_2d_bilinear.cpp
@@ -1046,7 +1046,7 @@ sz_compress_cp_preserve_2d_bilinear_online_log(const T * U, const T * V, size_t
 	}
     // printf("#Failed verification = %d\n", failed_verification);
 	// writefile("eb_2d.dat", eb, num_elements);
-	// free(eb);
+	free(eb);
 	free(log_U);
 	free(log_V);
 	free(decompressed_U);
diff --git a/src/sz_decompress_cp_preserve_2d.cpp b/src/sz_decompress_cp_preserve_2d.cpp
index 775ced3..e156c81 100644
--- a/src/sz_decompress_cp_preserve_2d.cpp
+++ b/src/sz_decompress_cp_preserve_2d.cpp
@@ -40,6 +40,7 @@ sz_decompress_cp_preserve_2d_offline(const unsigned char * compressed, size_t r1
 		// else eb[i] = type[num_elements + i] * 1e-2;
 	}
 	V = sz_decompress_2d_with_eb<T>(compressed_pos, eb, r1, r2);
+	free(type);
 	free(eb);
 }
 
@@ -95,6 +96,7 @@ sz_decompress_cp_preserve_2d_offline_log(const unsigned char * compressed, size_
 	}
 	free(sign_map_u);
 	free(sign_map_v);
+	free(type);
 	free(eb);
 }
 
-- 
2.43.0


From 8a5625ae46a6be6da23f41f3d33d7705da15c854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:38 +0000
Subject: [PATCH 07/14] fix: allocate output buffers that hold the largest
 possible stream

The buffers were 2*num_elements*sizeof(T) (or 1.2 times the input), which
small grids and hard to predict data exceed: verbatim values, Huffman trees and
codes were then written past their end.
---
 include/sz_compression_utils.hpp            | 11 +++++++++++
 src/sz_compress_3d.cpp                      | 16 ++++++++--------
 src/sz_compress_cp_preserve_2d.cpp          | 14 +++++++-------
 src/sz_compress_cp_preserve_2d_bilinear.cpp |  2 +-
 src/sz_compress_cp_preserve_3d.cpp          |  8 ++++----
 src/sz_huffman.cpp                          |  2 +-
 6 files changed, 32 insertions(+), 21 deletions(-)

diff --git a/include/sz_compression_utils.hpp b/include/sz_compression_utils.hpp
index a335c15..0b7e9c4 100644
--- a/include/sz_compression_utils.hpp
+++ b/include/sz_compression_utils.hpp
@@ -120,4 +120,15 @@ build_Huffman_tree(const int * type, size_t num_elements, size_t state_num);
 void
 Huffman_encode_tree_and_data(size_t state_num, const int * type, size_t num_elements, unsigned char*& compressed_pos);
 
+// enough room for the fields of fixed size in front of a compressed stream
+const size_t MaxHeaderSize = 128;
+
+// upper bound of what Huffman_encode_tree_and_data writes: three sizes, at most 13 bytes per node of the tree,
+// at most 4 bytes per code, and the whole word that encode() stores for the last code
+inline size_t
+Huffman_max_size(size_t state_num, size_t num_elements){
+	size_t leaf_count = (num_elements < state_num) ? num_elements : state_num;
+	return 3*sizeof(size_t) + 1 + 2*leaf_count*(3*sizeof(unsigned int) + 1) + num_elements*sizeof(int) + 2*sizeof(unsigned long);
+}
+
 #endif
diff --git a/src/sz_compress_3d.cpp b/src/sz_compress_3d.cpp
index d960e59..89b8242 100644
--- a/src/sz_compress_3d.cpp
+++ b/src/sz_compress_3d.cpp
@@ -95,8 +95,8 @@ sz_compress_2d(const T * data, size_t r1, size_t r2, double precision, size_t& c
 	size_t reg_count = prediction_and_quantization_2d_with_border_prediction(data, size, mean_info, precision, capacity, intv_radius, indicator, type, reg_params_type, reg_unpredictable_data_pos, unpredictable_data_pos);
 	size_t unpredictable_count = unpredictable_data_pos - unpredictable_data;
 	unsigned char * compressed = NULL;
-	// TODO: change to a better estimated size
-	size_t est_size = size.num_elements*sizeof(T)*1.2;
+	size_t reg_coeff_count = RegCoeffNum2d*reg_count;
+	size_t est_size = MaxHeaderSize + unpredictable_count*sizeof(T) + size.num_blocks + reg_coeff_count*sizeof(float) + Huffman_max_size(2*RegCoeffCapacity, reg_coeff_count) + Huffman_max_size(2*capacity, size.num_elements);
 	compressed = (unsigned char *) malloc(est_size);
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, size.block_size);
@@ -212,8 +212,8 @@ sz_compress_2d_with_eb(const T * data, const double * precisions, size_t r1, siz
 	size_t reg_count = prediction_and_quantization_2d_with_border_prediction_with_eb(data, precisions, size, mean_info, capacity, intv_radius, indicator, type, reg_params_type, reg_unpredictable_data_pos, unpredictable_data_pos);
 	size_t unpredictable_count = unpredictable_data_pos - unpredictable_data;
 	unsigned char * compressed = NULL;
-	// TODO: change to a better estimated size
-	size_t est_size = size.num_elements*sizeof(T)*1.2;
+	size_t reg_coeff_count = RegCoeffNum2d*reg_count;
+	size_t est_size = MaxHeaderSize + unpredictable_count*sizeof(T) + size.num_blocks + reg_coeff_count*sizeof(float) + Huffman_max_size(2*RegCoeffCapacity, reg_coeff_count) + Huffman_max_size(2*capacity, size.num_elements);
 	compressed = (unsigned char *) malloc(est_size);
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, size.block_size);
@@ -411,8 +411,8 @@ sz_compress_3d(const T * data, size_t r1, size_t r2, size_t r3, double precision
 			: prediction_and_quantization_3d_with_border_prediction(data, size, mean_info, precision, capacity, intv_radius, indicator, type, reg_params_type, reg_unpredictable_data_pos, unpredictable_data_pos);
 	size_t unpredictable_count = unpredictable_data_pos - unpredictable_data;
 	unsigned char * compressed = NULL;
-	// TODO: change to a better estimated size
-	size_t est_size = size.num_elements*sizeof(T)*1.2;
+	size_t reg_coeff_count = RegCoeffNum3d*reg_count;
+	size_t est_size = MaxHeaderSize + unpredictable_count*sizeof(T) + size.num_blocks + reg_coeff_count*sizeof(float) + Huffman_max_size(2*RegCoeffCapacity, reg_coeff_count) + Huffman_max_size(2*capacity, size.num_elements);
 	compressed = (unsigned char *) malloc(est_size);
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, size.block_size);
@@ -542,8 +542,8 @@ sz_compress_3d_with_eb(const T * data, const double * precisions, size_t r1, siz
 	size_t reg_count = prediction_and_quantization_3d_with_border_prediction_with_eb(data, precisions, size, mean_info, capacity, intv_radius, indicator, type, reg_params_type, reg_unpredictable_data_pos, unpredictable_data_pos);
 	size_t unpredictable_count = unpredictable_data_pos - unpredictable_data;
 	unsigned char * compressed = NULL;
-	// TODO: change to a better estimated size
-	size_t est_size = size.num_elements*sizeof(T)*1.2;
+	size_t reg_coeff_count = RegCoeffNum3d*reg_count;
+	size_t est_size = MaxHeaderSize + unpredictable_count*sizeof(T) + size.num_blocks + reg_coeff_count*sizeof(float) + Huffman_max_size(2*RegCoeffCapacity, reg_coeff_count) + Huffman_max_size(2*capacity, size.num_elements);
 	compressed = (unsigned char *) malloc(est_size);
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, size.block_size);
diff --git a/src/sz_compress_cp_preserve_2d.cpp b/src/sz_compress_cp_preserve_2d.cpp
index efdb4db..bde1325 100644
--- a/src/sz_compress_cp_preserve_2d.cpp
+++ b/src/sz_compress_cp_preserve_2d.cpp
@@ -232,7 +232,7 @@ sz_compress_cp_preserve_2d_offline(const T * U, const T * V, size_t r1, size_t r
 	}
 	free(eb);
 	printf("quantize eb done\n");
-	unsigned char * compressed_eb = (unsigned char *) malloc(2*num_elements*sizeof(int));
+	unsigned char * compressed_eb = (unsigned char *) malloc(Huffman_max_size(2*1024, 2*num_elements));
 	unsigned char * compressed_eb_pos = compressed_eb; 
 	Huffman_encode_tree_and_data(2*1024, eb_quant_index, 2*num_elements, compressed_eb_pos);
 	free(eb_quant_index);
@@ -335,7 +335,7 @@ sz_compress_cp_preserve_2d_offline_log(const T * U, const T * V, size_t r1, size
 		// *(eb_quant_index_pos ++) = eb_linear_quantize(eb[i], 5e-3);
 	}
 	// printf("quantize eb done\n");
-	unsigned char * compressed_eb = (unsigned char *) malloc(num_elements*sizeof(int));
+	unsigned char * compressed_eb = (unsigned char *) malloc(Huffman_max_size(2*1024, num_elements));
 	unsigned char * compressed_eb_pos = compressed_eb; 
 	Huffman_encode_tree_and_data(2*1024, eb_quant_index, num_elements, compressed_eb_pos);
 	free(eb_quant_index);
@@ -698,7 +698,7 @@ sz_compress_cp_preserve_2d_online(const T * U, const T * V, size_t r1, size_t r2
 	free(decompressed_U);
 	free(decompressed_V);
 	printf("offsets eb_q, data_q, unpred: %ld %ld %ld\n", eb_quant_index_pos - eb_quant_index, data_quant_index_pos - data_quant_index, unpred_data.size());
-	unsigned char * compressed = (unsigned char *) malloc(2*num_elements*sizeof(T));
+	unsigned char * compressed = (unsigned char *) malloc(MaxHeaderSize + 2*num_elements*sizeof(T) + Huffman_max_size(2*1024, 2*num_elements) + Huffman_max_size(2*capacity, 2*num_elements));
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
 	write_variable_to_dst(compressed_pos, threshold);
@@ -963,7 +963,7 @@ sz_compress_cp_preserve_2d_online_log(const T * U, const T * V, size_t r1, size_
 	free(decompressed_U);
 	free(decompressed_V);
 	// printf("offsets eb_q, data_q, unpred: %ld %ld %ld\n", eb_quant_index_pos - eb_quant_index, data_quant_index_pos - data_quant_index, unpred_data.size());
-	unsigned char * compressed = (unsigned char *) malloc(2*num_elements*sizeof(T));
+	unsigned char * compressed = (unsigned char *) malloc(MaxHeaderSize + 2*sign_map_size + 2*num_elements*sizeof(T) + Huffman_max_size(2*1024, num_elements) + Huffman_max_size(2*capacity, 2*num_elements));
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
 	write_variable_to_dst(compressed_pos, intv_radius);
@@ -1226,7 +1226,7 @@ sz_compress_cp_preserve_2d_online_abs(const T * U, const T * V, size_t r1, size_
 	free(decompressed_U);
 	free(decompressed_V);
 	printf("offsets eb_q, data_q, unpred: %ld %ld %ld\n", eb_quant_index_pos - eb_quant_index, data_quant_index_pos - data_quant_index, unpred_data.size());
-	unsigned char * compressed = (unsigned char *) malloc(2*num_elements*sizeof(T));
+	unsigned char * compressed = (unsigned char *) malloc(MaxHeaderSize + 2*num_elements*sizeof(T) + Huffman_max_size(2*1024, 2*num_elements) + Huffman_max_size(2*capacity, 2*num_elements));
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
 	write_variable_to_dst(compressed_pos, threshold);
@@ -1514,7 +1514,7 @@ sz_compress_cp_preserve_2d_online_abs_relax_FN(const T * U, const T * V, size_t
 	free(decompressed_U);
 	free(decompressed_V);
 	printf("offsets eb_q, data_q, unpred: %ld %ld %ld\n", eb_quant_index_pos - eb_quant_index, data_quant_index_pos - data_quant_index, unpred_data.size());
-	unsigned char * compressed = (unsigned char *) malloc(2*num_elements*sizeof(T));
+	unsigned char * compressed = (unsigned char *) malloc(MaxHeaderSize + 2*num_elements*sizeof(T) + Huffman_max_size(2*1024, 2*num_elements) + Huffman_max_size(2*capacity, 2*num_elements));
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
 	write_variable_to_dst(compressed_pos, threshold);
@@ -1797,7 +1797,7 @@ sz3_compress_cp_preserve_2d_online_abs(const T * U, const T * V, size_t r1, size
 	free(decompressed_U);
 	free(decompressed_V);
 	printf("offsets eb_q, data_q: %ld %ld\n", eb_quant_index_pos - eb_quant_index, quant_index);
-	unsigned char * compressed = (unsigned char *) malloc(2*num_elements*sizeof(T));
+	unsigned char * compressed = (unsigned char *) malloc(MaxHeaderSize + 2*num_elements*sizeof(T) + Huffman_max_size(2*1024, num_elements) + Huffman_max_size(2*capacity, 2*num_elements));
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
 	write_variable_to_dst(compressed_pos, threshold);
diff --git a/src/sz_compress_cp_preserve_2d_bilinear.cpp b/src/sz_compress_cp_preserve_2d_bilinear.cpp
index 51254d2..ae25fc8 100644
--- a/src/sz_compress_cp_preserve_2d_bilinear.cpp
+++ b/src/sz_compress_cp_preserve_2d_bilinear.cpp
@@ -1052,7 +1052,7 @@ sz_compress_cp_preserve_2d_bilinear_online_log(const T * U, const T * V, size_t
 	free(decompressed_U);
 	free(decompressed_V);
 	// printf("offsets eb_q, data_q, unpred: %ld %ld %ld\n", eb_quant_index_pos - eb_quant_index, data_quant_index_pos - data_quant_index, unpred_data.size());
-	unsigned char * compressed = (unsigned char *) malloc(3*num_elements*sizeof(T));
+	unsigned char * compressed = (unsigned char *) malloc(MaxHeaderSize + 2*sign_map_size + 2*num_elements*sizeof(T) + Huffman_max_size(2*1024, num_elements) + Huffman_max_size(2*capacity, 2*num_elements));
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
 	write_variable_to_dst(compressed_pos, intv_radius);
diff --git a/src/sz_compress_cp_preserve_3d.cpp b/src/sz_compress_cp_preserve_3d.cpp
index 58ce2dd..fcf67f0 100644
--- a/src/sz_compress_cp_preserve_3d.cpp
+++ b/src/sz_compress_cp_preserve_3d.cpp
@@ -546,7 +546,7 @@ sz_compress_cp_preserve_3d_offline_log(const T * U, const T * V, const T * W, si
 	free(decompressed_V);
 	free(decompressed_W);
 	// printf("offset eb_q, data_q, unpred: %ld %ld %ld\n", eb_quant_index_pos - eb_quant_index, data_quant_index_pos - data_quant_index, eb_zero_data.size());
-	unsigned char * compressed = (unsigned char *) malloc(3*num_elements*sizeof(T));
+	unsigned char * compressed = (unsigned char *) malloc(MaxHeaderSize + 3*sign_map_size + 3*num_elements*sizeof(T) + Huffman_max_size(2*256, num_elements) + Huffman_max_size(2*capacity, 3*num_elements));
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
 	write_variable_to_dst(compressed_pos, intv_radius);
@@ -933,7 +933,7 @@ sz_compress_cp_preserve_3d_online_log(const T * U, const T * V, const T * W, siz
 	free(decompressed_V);
 	free(decompressed_W);
 	printf("offset eb_q, data_q, unpred: %ld %ld %ld\n", eb_quant_index_pos - eb_quant_index, data_quant_index_pos - data_quant_index, eb_zero_data.size());
-	unsigned char * compressed = (unsigned char *) malloc(3*num_elements*sizeof(T));
+	unsigned char * compressed = (unsigned char *) malloc(MaxHeaderSize + 3*sign_map_size + 3*num_elements*sizeof(T) + Huffman_max_size(2*256, num_elements) + Huffman_max_size(2*capacity, 3*num_elements));
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
 	write_variable_to_dst(compressed_pos, intv_radius);
@@ -1115,7 +1115,7 @@ sz_compress_cp_preserve_3d_unstructured(int n, const T * points, const T * data,
 	free(dec_data);
 	free(log_data);
 	// printf("offset eb_q, data_q, unpred: %ld %ld %ld\n", eb_quant_index_pos - eb_quant_index, data_quant_index_pos - data_quant_index, eb_zero_data.size());
-	unsigned char * compressed = (unsigned char *) malloc(3*n*sizeof(T));
+	unsigned char * compressed = (unsigned char *) malloc(MaxHeaderSize + sign_map_size + 3*n*sizeof(T) + Huffman_max_size(2*256, n) + Huffman_max_size(2*capacity, 3*n));
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
 	write_variable_to_dst(compressed_pos, intv_radius);
@@ -1452,7 +1452,7 @@ sz_compress_cp_preserve_3d_online_abs(const T * U, const T * V, const T * W, siz
 	free(decompressed_V);
 	free(decompressed_W);
 	printf("offsets eb_q, data_q, unpred: %ld %ld %ld\n", eb_quant_index_pos - eb_quant_index, data_quant_index_pos - data_quant_index, unpred_data.size());
-	unsigned char * compressed = (unsigned char *) malloc(3*num_elements*sizeof(T));
+	unsigned char * compressed = (unsigned char *) malloc(MaxHeaderSize + 3*num_elements*sizeof(T) + Huffman_max_size(2*1024, num_elements) + Huffman_max_size(2*capacity, 3*num_elements));
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
 	write_variable_to_dst(compressed_pos, threshold);
diff --git a/src/sz_huffman.cpp b/src/sz_huffman.cpp
index b828687..ee67db4 100644
--- a/src/sz_huffman.cpp
+++ b/src/sz_huffman.cpp
@@ -660,7 +660,7 @@ void encode_withTree(HuffmanTree* huffmanTree, const int *s, size_t length, unsi
 	nodeCount = nodeCount*2-1;
 	unsigned int treeByteSize = convert_HuffTree_to_bytes_anyStates(huffmanTree,nodeCount, &treeBytes);
 
-	*out = (unsigned char*)malloc(length*sizeof(int)+treeByteSize);
+	*out = (unsigned char*)malloc(8+treeByteSize+length*sizeof(int)+2*sizeof(unsigned long));
 	intToBytes_bigEndian(buffer, nodeCount);
 	memcpy(*out, buffer, 4);
 	intToBytes_bigEndian(buffer, huffmanTree->stateNum/2); //real number of intervals
-- 
2.43.0


From 803994b9d23e1c839419ad2e16236ddba2db6978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:36 +0000
Subject: [PATCH 08/14] fix: check the bound of each reconstruction in the
 relaxed 2D codec

Unlike its siblings it kept values without comparing them with the original;
the quantizer works in single precision and could exceed the bound.
---
 src/sz_compress_cp_preserve_2d.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sz_compress_cp_preserve_2d.cpp b/src/sz_compress_cp_preserve_2d.cpp
index bde1325..6ad4555 100644
--- a/src/sz_compress_cp_preserve_2d.cpp
+++ b/src/sz_compress_cp_preserve_2d.cpp
@@ -1449,6 +1449,11 @@ sz_compress_cp_preserve_2d_online_abs_relax_FN(const T * U, const T * V, size_t
 						int quant_index = (int)(quant_diff/2) + intv_radius;
 						data_quant_index_pos[k] = quant_index;
 						decompressed[k] = pred + 2 * (quant_index - intv_radius) * abs_eb; 
+						// check original data
+						if(fabs(decompressed[k] - cur_data) >= abs_eb){
+							unpred_flag = true;
+							break;
+						}
 					}
 					else{
 						unpred_flag = true;
-- 
2.43.0


From 22214f4a3c16ebd2370ddf568bbf737982de5f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:30 +0000
Subject: [PATCH 09/14] fix: compare the quantisation quotient before the cast
 to int in the sz3 quantizer

---
 include/sz3_utils.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/sz3_utils.hpp b/include/sz3_utils.hpp
index e06288a..5ade75f 100644
--- a/include/sz3_utils.hpp
+++ b/include/sz3_utils.hpp
@@ -12,8 +12,9 @@ public:
     int quantize(T data, T pred, T_eb eb) {
         if(eb == 0) return 0;
         T diff = data - pred;
-        int quant_index = (int) (fabs(diff) / eb) + 1;
-        if (quant_index < this->radius * 2) {
+        // compare before the cast: the quotient may exceed the range of int
+        if (fabs(diff) / eb < this->radius * 2 - 1) {
+            int quant_index = (int) (fabs(diff) / eb) + 1;
             quant_index >>= 1;
             int half_index = quant_index;
             quant_index <<= 1;
@@ -45,8 +46,9 @@ public:
         //     std::cout << data << " " << pred << " " << eb << std::endl;
         // }
         T diff = data - pred;
-        int quant_index = (int) (fabs(diff) / eb) + 1;
-        if (quant_index < this->radius * 2) {
+        // compare before the cast: the quotient may exceed the range of int
+        if (fabs(diff) / eb < this->radius * 2 - 1) {
+            int quant_index = (int) (fabs(diff) / eb) + 1;
             quant_index >>= 1;
             int half_index = quant_index;
             quant_index <<= 1;
@@ -81,8 +83,9 @@ public:
             return 0;
         }
         T diff = ori - pred;
-        int quant_index = (int) (fabs(diff) / eb) + 1;
-        if (quant_index < this->radius * 2) {
+        // compare before the cast: the quotient may exceed the range of int
+        if (fabs(diff) / eb < this->radius * 2 - 1) {
+            int quant_index = (int) (fabs(diff) / eb) + 1;
             quant_index >>= 1;
             int half_index = quant_index;
             quant_index <<= 1;
-- 
2.43.0


From fc876458fa531026f7cca4b5d26361eba768ccee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:47 +0000
Subject: [PATCH 10/14] fix: store verbatim a vertex whose bound index is the
 escape marker (3D log codecs)

---
 src/sz_compress_cp_preserve_3d.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sz_compress_cp_preserve_3d.cpp b/src/sz_compress_cp_preserve_3d.cpp
index fcf67f0..9fba63b 100644
--- a/src/sz_compress_cp_preserve_3d.cpp
+++ b/src/sz_compress_cp_preserve_3d.cpp
@@ -467,7 +467,7 @@ sz_compress_cp_preserve_3d_offline_log(const T * U, const T * V, const T * W, si
 					T decompressed[3];
 					double abs_eb = log2(1 + required_eb);
 					*eb_quant_index_pos = eb_exponential_quantize(abs_eb, base, log_of_base, threshold);
-					if(*eb_quant_index_pos > 0){
+					if(*eb_quant_index_pos > 0 && *eb_quant_index_pos != eb_quant_index_max){
 						// compress vector fields
 						T * log_data_pos[3] = {cur_log_U_pos, cur_log_V_pos, cur_log_W_pos};
 						T * data_pos[3] = {cur_U_pos, cur_V_pos, cur_W_pos};
@@ -842,7 +842,7 @@ sz_compress_cp_preserve_3d_online_log(const T * U, const T * V, const T * W, siz
 					T decompressed[3];
 					double abs_eb = log2(1 + required_eb);
 					*eb_quant_index_pos = eb_exponential_quantize(abs_eb, base, log_of_base, threshold);
-					if(*eb_quant_index_pos > 0){
+					if(*eb_quant_index_pos > 0 && *eb_quant_index_pos != eb_quant_index_max){
 						// compress vector fields
 						T * log_data_pos[3] = {cur_log_U_pos, cur_log_V_pos, cur_log_W_pos};
 						T * data_pos[3] = {cur_U_pos, cur_V_pos, cur_W_pos};
@@ -1057,7 +1057,7 @@ sz_compress_cp_preserve_3d_unstructured(int n, const T * points, const T * data,
 			double abs_eb = log2(1 + required_eb);
 			*eb_quant_index_pos = eb_exponential_quantize(abs_eb, base, log_of_base, threshold);
 			T decompressed[3];
-			if(*eb_quant_index_pos > 0){
+			if(*eb_quant_index_pos > 0 && *eb_quant_index_pos != eb_quant_index_max){
 				// compress vector fields
 				for(int p=0; p<3; p++){
 					T * cur_log_data_pos = log_data_pos + p;
-- 
2.43.0


From 8ff59a8b2c665f7a5787e396b959b4311414185e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:24 +0000
Subject: [PATCH 11/14] fix: encode an empty array to nothing instead of
 dereferencing a missing Huffman tree

---
 src/sz_compression_utils.cpp   | 2 ++
 src/sz_decompression_utils.cpp | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/sz_compression_utils.cpp b/src/sz_compression_utils.cpp
index 2fd36e5..47e84bc 100644
--- a/src/sz_compression_utils.cpp
+++ b/src/sz_compression_utils.cpp
@@ -60,6 +60,8 @@ build_Huffman_tree(size_t state_num, const int * type, size_t num_elements){
 
 void
 Huffman_encode_tree_and_data(size_t state_num, const int * type, size_t num_elements, unsigned char*& compressed_pos){
+	// there is no tree for an empty array
+	if(num_elements == 0) return;
 	HuffmanTree * huffman = build_Huffman_tree(state_num, type, num_elements);
 	size_t node_count = 0;
 	size_t i = 0;
diff --git a/src/sz_decompression_utils.cpp b/src/sz_decompression_utils.cpp
index 5637828..bd7be1c 100644
--- a/src/sz_decompression_utils.cpp
+++ b/src/sz_decompression_utils.cpp
@@ -91,6 +91,7 @@ convertByteArray2IntArray_fast_1b_sz(size_t intArrayLength, const unsigned char*
 // TODO: change compress_pos to const
 int *
 Huffman_decode_tree_and_data(size_t state_num, size_t num_elements, const unsigned char *& compressed_pos){
+	if(num_elements == 0) return NULL;
 	HuffmanTree* huffman = createHuffmanTree(state_num);
 	size_t node_count = 0;
 	read_variable_from_src(compressed_pos, node_count);
-- 
2.43.0


From 9822c819ce6827a52951bb7786673080b3bb295d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:24 +0000
Subject: [PATCH 12/14] fix: threshold for zeros of an all-zero field (pwr)

---
 src/sz_compress_pwr.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sz_compress_pwr.cpp b/src/sz_compress_pwr.cpp
index 4365e11..d2fd670 100644
--- a/src/sz_compress_pwr.cpp
+++ b/src/sz_compress_pwr.cpp
@@ -21,7 +21,8 @@ sz_compress_2d_pwr(const T * data, size_t r1, size_t r2, double precision, size_
 		max_data = MAX(max_data, data[i]);
 	}
 	T max_abs_log_data = 0;
-    if(min_data == 0) max_abs_log_data = fabs(log2(fabs(max_data)));
+    if(min_data == 0 && max_data == 0) max_abs_log_data = 0;
+    else if(min_data == 0) max_abs_log_data = fabs(log2(fabs(max_data)));
     else if(max_data == 0) max_abs_log_data = fabs(log2(fabs(min_data)));
     else max_abs_log_data = fabs(log2(fabs(min_data))) > fabs(log2(fabs(max_data))) ? fabs(log2(fabs(min_data))) : fabs(log2(fabs(max_data)));
     T min_log_data = max_abs_log_data;
-- 
2.43.0


From 4c4baf995d5075e713a392b93971ed92fb743e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:48 +0000
Subject: [PATCH 13/14] fix: tighten, never widen, the bound on logarithms by
 their rounding (pwr_with_eb)

---
 src/sz_compress_pwr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sz_compress_pwr.cpp b/src/sz_compress_pwr.cpp
index d2fd670..b476c72 100644
--- a/src/sz_compress_pwr.cpp
+++ b/src/sz_compress_pwr.cpp
@@ -93,7 +93,7 @@ sz_compress_2d_pwr_with_eb(const T * data, const double * ebs, double **final_lo
 			log_data[i] = data[i];
 		if(log_data[i] > 0){
 			log_data[i] = log2(log_data[i]);
-			log_ebs[i] = log2(1.0 + ebs[i]) - log_data[i] * std::numeric_limits<T>::epsilon();
+			log_ebs[i] = log2(1.0 + ebs[i]) - fabs(log_data[i]) * std::numeric_limits<T>::epsilon();
 			log_ebs[i] = MAX(log_ebs[i], 0);
 			threshold = MIN(threshold, log_data[i] - 1.0001 * log_ebs[i]);
 		}
-- 
2.43.0


From 75a530b948435d3a1a11bb5dfc6b0956e47b85b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:48 +0000
Subject: [PATCH 14/14] fix: keep zeros and the smallest value apart by more
 than the bound and rounding (pwr)

---
 src/sz_compress_pwr.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/sz_compress_pwr.cpp b/src/sz_compress_pwr.cpp
index b476c72..49d1354 100644
--- a/src/sz_compress_pwr.cpp
+++ b/src/sz_compress_pwr.cpp
@@ -41,16 +41,19 @@ sz_compress_2d_pwr(const T * data, size_t r1, size_t r2, double precision, size_
 	}
 	if(fabs(min_log_data) > max_abs_log_data) max_abs_log_data = fabs(min_log_data);
 	double log_precision = log2(1.0 + precision) - max_abs_log_data * std::numeric_limits<T>::epsilon();
+	if(log_precision < 0) log_precision = 0;
+	// keeps zeros apart from the smallest value, also after rounding
+	double zero_margin = MAX(log_precision, 1e-3);
 	for(size_t i=0; i<num_elements; i++){
 		if(data[i] == 0){
-			log_data[i] = min_log_data - 2.0001*log_precision;
+			log_data[i] = min_log_data - 3*zero_margin;
 		}
 	}
 	size_t log_compressed_size = 0;
 	unsigned char * log_compressed = sz_compress_2d(log_data, r1, r2, log_precision, log_compressed_size, BSIZE, block_independant);
     free(log_data);
 	size_t sign_size = (num_elements-1)/8 + 1;
-	T threshold = min_log_data - 1.0001*log_precision;
+	T threshold = min_log_data - 1.5*zero_margin;
 	compressed_size = sizeof(T) + sign_size + log_compressed_size;
     unsigned char * final_compressed = (unsigned char *) malloc(compressed_size);
     unsigned char * final_compressed_pos = final_compressed;
@@ -95,7 +98,8 @@ sz_compress_2d_pwr_with_eb(const T * data, const double * ebs, double **final_lo
 			log_data[i] = log2(log_data[i]);
 			log_ebs[i] = log2(1.0 + ebs[i]) - fabs(log_data[i]) * std::numeric_limits<T>::epsilon();
 			log_ebs[i] = MAX(log_ebs[i], 0);
-			threshold = MIN(threshold, log_data[i] - 1.0001 * log_ebs[i]);
+			// keeps zeros apart from the smallest value, also after rounding
+			threshold = MIN(threshold, log_data[i] - 1.5 * MAX(log_ebs[i], 1e-3));
 		}
 	}
 	for(size_t i=0; i<num_elements; i++){
-- 
2.43.0

