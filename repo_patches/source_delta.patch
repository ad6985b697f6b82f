From 8434f3a3a3ef3ba61aa0c5fa34c6cd545f85ae5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:51 +0000
Subject: [PATCH 01/55] fix: hyper_mat_copy returned NULL for every image
 (inverted NULL check)

---
 modules/core/src/c_src/hypermat.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index ad50eed..ca93da3 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -393,7 +393,7 @@ void writehdr(const char* img_path, int samples, int lines, int bands, int data_
  **/
 hyper_mat hyper_mat_copy(hyper_mat mat)
 {
-	if(mat!=NULL)
+	if(mat==NULL)
 		return NULL;
 
 	int samples   = mat->samples;
-- 
2.43.0


From bd49926564f4f3cda17c7fca74b1347a9f4f9296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:51 +0000
Subject: [PATCH 02/55] fix: create_simple_mat zeroes the data of every channel

---
 modules/core/src/c_src/simplemat.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index 869b43b..a801ec5 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -45,7 +45,7 @@ simple_mat create_simple_mat_with_data(int rows, int cols, int data_type, int ch
 	{
 		uintptr_t address = (uintptr_t)mat + sizeof(SIMPLE_MAT);
 		BYTE_ALIGNMENT(address, ALLOC_BYTE_ALIGNMENT);
-		memset((void*)address, 0, rows * cols * elem_size);
+		memset((void*)address, 0, rows * cols * elem_size * channels);
 		mat -> data = (void*)address;
 	}
 	else
-- 
2.43.0


From 5c0b90dfa7755eeea8f05d1594b46bd432269bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:51 +0000
Subject: [PATCH 03/55] fix: delete_simple_mat freed an interior pointer or
 leaked user data depending on the header address

---
 modules/core/src/c_src/simplemat.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index a801ec5..29879fe 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -29,13 +29,14 @@ simple_mat create_simple_mat_with_data(int rows, int cols, int data_type, int ch
 
 	simple_mat mat;
 
-	int memneeded = sizeof(SIMPLE_MAT);
+	// room for the aligned data position, so that user data never lies there
+	int memneeded = sizeof(SIMPLE_MAT) + ALLOC_BYTE_ALIGNMENT;
 	int elem_size = get_elemsize(data_type);
 
 	if (data == NULL)
 	{
 		int data_size = rows * cols * elem_size * channels; 
-		memneeded += data_size + ALLOC_BYTE_ALIGNMENT;
+		memneeded += data_size;
 	}
 
 	mat = (simple_mat)malloc(sizeof(char) * memneeded);
@@ -494,7 +495,11 @@ void delete_simple_mat(simple_mat mat)
 	if(mat == NULL)
 		return;
 
-	if((uintptr_t)mat + ALLOC_BYTE_ALIGNMENT >= (uintptr_t)mat->data)
+	// data allocated together with the header starts right behind it, aligned
+	uintptr_t address = (uintptr_t)mat + sizeof(SIMPLE_MAT);
+	BYTE_ALIGNMENT(address, ALLOC_BYTE_ALIGNMENT);
+
+	if(address == (uintptr_t)mat->data)
 	{
 		free(mat);
 		mat = NULL;	
-- 
2.43.0


From 5b3825900d092966178a1eebcc6ca5431e3f124c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:51 +0000
Subject: [PATCH 04/55] fix: delete_S_2D leaked the data made by
 create_2D_struct

---
 modules/core/src/c_src/struct_2D.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/modules/core/src/c_src/struct_2D.c b/modules/core/src/c_src/struct_2D.c
index 416b0f6..04f1a4f 100644
--- a/modules/core/src/c_src/struct_2D.c
+++ b/modules/core/src/c_src/struct_2D.c
@@ -15,13 +15,20 @@ S_2D create_2D_struct(int width, int height)
 {
 	hypercv_assert(width>=1 && height>=1, "2D struct's width or height must bigger than 0");
 	
-	unsigned char * data = (unsigned char*)malloc(width * height * sizeof(unsigned char));
+	// one allocation for header and data, so that delete_S_2D releases both
+	S_2D s = (S_2D)malloc(sizeof(STRUCT_2D) + width * height * sizeof(unsigned char));
+	hypercv_assert(s != NULL ,"fail to build 2d_struct");
+
+	unsigned char * data = (unsigned char*)(s + 1);
 	
 	for(int i=0; i<width*height; i++)
 		data[i] = 1;
-	
-	return create_2D_struct_with_data(width, height, data);
-	
+
+	s->data = data;
+	s->width = width;
+	s->height = height;
+
+	return s;
 }
 
 /**
-- 
2.43.0


From 27b69a082d6d339cee5627c6fe905b74beda48fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:42 +0000
Subject: [PATCH 05/55] fix: simple_mat_2_hyper_mat copied only the first
 samples*lines bytes of the plane, to a byte offset

---
 modules/process/src/c_src/imageprocess.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modules/process/src/c_src/imageprocess.c b/modules/process/src/c_src/imageprocess.c
index 5aa544a..6b9d7c6 100644
--- a/modules/process/src/c_src/imageprocess.c
+++ b/modules/process/src/c_src/imageprocess.c
@@ -535,10 +535,11 @@ void simple_mat_2_hyper_mat(hyper_mat dst_mat, simple_mat src_mat, int band)
 	hypercv_assert(band<=bands&&band>0,"band<bands");
 	hypercv_assert(cmpstr(dst_mat -> interleave,"bsq") == 1, "input hyper mat's interleave must be bsq");
 
-	char* dst = (char*)dst_mat->data + samples*lines*(band-1);
+	int elemsize = get_elemsize(dst_mat->data_type);
+	char* dst = (char*)dst_mat->data + samples*lines*(band-1)*elemsize;
 	char* src = (char*)src_mat->data;
 
-	memcpy(dst,src,samples*lines);
+	memcpy(dst,src,samples*lines*elemsize);
 }
 
 /**
-- 
2.43.0


From 9a7b90c9d9f94a155a0f4dfbc5790e15746299d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:51 +0000
Subject: [PATCH 06/55] fix: hyper_mat_float2char turned values above 127 into
 -128

---
 modules/process/src/c_src/datatypechange.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/datatypechange.c b/modules/process/src/c_src/datatypechange.c
index d345fd9..ab02190 100644
--- a/modules/process/src/c_src/datatypechange.c
+++ b/modules/process/src/c_src/datatypechange.c
@@ -174,7 +174,7 @@ hyper_mat hyper_mat_float2char(hyper_mat f_mat)
 		tmp = HYPERCV_ROUND(fdata[i]);
 
 		if(tmp>127)
-			data[i] = 128;
+			data[i] = 127;
 		else if(tmp<-127)
 			data[i] = -127;
 		else
-- 
2.43.0


From 3d537cd46aade5d3c0326a999e190245305cc35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:51 +0000
Subject: [PATCH 07/55] fix: hyper_mat_float2short wrapped around instead of
 saturating

---
 modules/process/src/c_src/datatypechange.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/datatypechange.c b/modules/process/src/c_src/datatypechange.c
index ab02190..2a12b8c 100644
--- a/modules/process/src/c_src/datatypechange.c
+++ b/modules/process/src/c_src/datatypechange.c
@@ -208,7 +208,16 @@ hyper_mat hyper_mat_float2short(hyper_mat f_mat)
 	int datasize = samples*lines*bands;
 
 	for(int i=0;i<datasize;i++)
-		data[i] =(short)HYPERCV_ROUND(fdata[i]);
+	{
+		tmp = HYPERCV_ROUND(fdata[i]);
+
+		if(tmp>32767)
+			data[i] = 32767;
+		else if(tmp<-32768)
+			data[i] = -32768;
+		else
+			data[i] = tmp;
+	}
 		
 	if(f_mat->wavelength != NULL)
 		memcpy(dst->wavelength, f_mat->wavelength,bands*sizeof(float));
-- 
2.43.0


From 01e712e365e34e228832ed2f33bbb1c4ef748208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:51 +0000
Subject: [PATCH 08/55] fix: hyper_mat_float2ushort wrapped around above 65535

---
 modules/process/src/c_src/datatypechange.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/datatypechange.c b/modules/process/src/c_src/datatypechange.c
index 2a12b8c..af94b59 100644
--- a/modules/process/src/c_src/datatypechange.c
+++ b/modules/process/src/c_src/datatypechange.c
@@ -246,7 +246,9 @@ hyper_mat hyper_mat_float2ushort(hyper_mat f_mat)
 	for(int i=0;i<datasize;i++)
 	{
 		tmp = HYPERCV_ROUND(fdata[i]);
-		if(tmp<0)
+		if(tmp>65535)
+			data[i] = 65535;
+		else if(tmp<0)
 			data[i] =0;
 		else
 			data[i] = tmp;
-- 
2.43.0


From 7827e7a641c6d5af93a145ee3177264427c6477a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:51 +0000
Subject: [PATCH 09/55] fix: simple_mat_float2uchar wrapped negative values
 around

---
 modules/process/src/c_src/datatypechange.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modules/process/src/c_src/datatypechange.c b/modules/process/src/c_src/datatypechange.c
index af94b59..9fa1807 100644
--- a/modules/process/src/c_src/datatypechange.c
+++ b/modules/process/src/c_src/datatypechange.c
@@ -390,8 +390,9 @@ simple_mat simple_mat_float2uchar(simple_mat src)
 	   */
 	for(int i=0;i<rows*cols*cn;i++)
 	{
-		dst_data[i] = HYPERCV_ROUND(src_data[i])<=255?HYPERCV_ROUND(src_data[i]):255;
-		dst_data[i] = dst_data[i]>=0?dst_data[i]:0;
+		int tmp = HYPERCV_ROUND(src_data[i]);
+		tmp = tmp<=255?tmp:255;
+		dst_data[i] = tmp>=0?tmp:0;
 	}
 	return dst;
 }
-- 
2.43.0


From edba37eaef630d3c2ef995e915dc40f758c45320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:08 +0000
Subject: [PATCH 10/55] fix: hypercv_factorial(10) was 11!

---
 modules/process/src/c_src/mathprocess.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/mathprocess.c b/modules/process/src/c_src/mathprocess.c
index 412c8ff..103a851 100644
--- a/modules/process/src/c_src/mathprocess.c
+++ b/modules/process/src/c_src/mathprocess.c
@@ -6,7 +6,7 @@
  ************************************************************************/
 #include "precomp.h"
 
-static long int hypercv_factorial_tab[11]={1 , 1 , 2 , 6 , 24 , 120 , 720 , 5040 , 40320 , 362880 , 39916800};
+static long int hypercv_factorial_tab[11]={1 , 1 , 2 , 6 , 24 , 120 , 720 , 5040 , 40320 , 362880 , 3628800};
 /**
  * @brief      calculate the mean value . .
  * @param[in]  t          vector t
-- 
2.43.0


From 011ed64886ad573ba6ff9fd8615ee350bab09971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:08 +0000
Subject: [PATCH 11/55] fix: sm_rgb2gray used 0.578 instead of 0.587 as the
 weight of green, white became 252

---
 modules/process/src/c_src/colortransform.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/colortransform.c b/modules/process/src/c_src/colortransform.c
index 0ed2819..5b5b139 100644
--- a/modules/process/src/c_src/colortransform.c
+++ b/modules/process/src/c_src/colortransform.c
@@ -124,7 +124,7 @@ simple_mat sm_rgb2gray(simple_mat rgb_image, int method)
 			}
 			else if (method == 2)
 			{
-				tmp = rgb_data[i*cols*3+j*3]*0.299+rgb_data[i*cols*3+j*3+1]*0.578+rgb_data[i*cols*3+j*3+2]*0.114;
+				tmp = rgb_data[i*cols*3+j*3]*0.299+rgb_data[i*cols*3+j*3+1]*0.587+rgb_data[i*cols*3+j*3+2]*0.114;
 				gray_data[i*cols+j] = (int)tmp;
 			}
 			else
-- 
2.43.0


From 944a9623ab49aed7814c83aff4d6dafa06b7f245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:08 +0000
Subject: [PATCH 12/55] fix: relative_radiometric_correction addressed the
 coefficient table with the wrong row length

---
 .../src/c_src/RadiometricCalibration.c        | 140 +++++++++---------
 1 file changed, 70 insertions(+), 70 deletions(-)

diff --git a/modules/process/src/c_src/RadiometricCalibration.c b/modules/process/src/c_src/RadiometricCalibration.c
index f544fd0..a822015 100644
--- a/modules/process/src/c_src/RadiometricCalibration.c
+++ b/modules/process/src/c_src/RadiometricCalibration.c
@@ -1,70 +1,70 @@
-#include "precomp.h"
-
-/**
-* @brief      hyper_mat relative correction.
-* @param[in]  bip_mat      hyper mat.
-* @param[in]  coefficient  correction coefficient.
-* @retval     hyper_mat    hyper image mat.
-**/
-hyper_mat relative_radiometric_correction(hyper_mat bip_mat, float* coefficient)
-{
-	int samples = bip_mat->samples;
-	int lines = bip_mat->lines;
-	int bands = bip_mat->bands;
-
-	unsigned short * bipdata = (unsigned short*)bip_mat->data;
-
-	hyper_mat res = create_hyper_mat(samples,lines,bands,4,bip_mat->interleave);
-	
-	float* res_data = (float*)res->data;
-
-	for (int i = 0; i < lines; i++)
-	{
-		for (int j = 0; j < samples; j++)
-		{
-			for (int k = 0; k < bands; k++)
-			{
-				res_data[i*samples*bands + j*bands + k] = bipdata[i*samples*bands + j*bands + k] * coefficient[k*bands + j];
-			}
-		}
-	}
-	return res;
-}
-
-/**
-* @brief      hyper_mat absolute correction.
-* @param[in]  bip_mat      hyper mat.
-* @param[in]  coefficient  correction coefficient.
-* @retval     hyper_mat    hyper image mat.
-**/
-hyper_mat absolute_radiometric_correction(hyper_mat bip_mat, float* coefficient)
-{
-	int samples = bip_mat->samples;
-	int lines = bip_mat->lines;
-	int bands = bip_mat->bands;
-
-	float* bipdata = (float*)bip_mat->data;
-
-	hyper_mat res = create_hyper_mat(samples, lines, bands, 4, bip_mat->interleave);
-
-	float* res_data = (float*)res->data;
-
-	for (int i = 0; i < lines; i++)
-	{
-		for (int j = 0; j < samples; j++)
-		{
-			for (int k = 0; k < bands; k++)
-			{
-				res_data[i*samples*bands + j*bands + k] = bipdata[i*samples*bands + j*bands + k] * coefficient[k];
-			}
-		}
-	}
-	return res;
-}
-
-
-
-
-
-
-
+#include "precomp.h"
+
+/**
+* @brief      hyper_mat relative correction.
+* @param[in]  bip_mat      hyper mat.
+* @param[in]  coefficient  correction coefficient.
+* @retval     hyper_mat    hyper image mat.
+**/
+hyper_mat relative_radiometric_correction(hyper_mat bip_mat, float* coefficient)
+{
+	int samples = bip_mat->samples;
+	int lines = bip_mat->lines;
+	int bands = bip_mat->bands;
+
+	unsigned short * bipdata = (unsigned short*)bip_mat->data;
+
+	hyper_mat res = create_hyper_mat(samples,lines,bands,4,bip_mat->interleave);
+	
+	float* res_data = (float*)res->data;
+
+	for (int i = 0; i < lines; i++)
+	{
+		for (int j = 0; j < samples; j++)
+		{
+			for (int k = 0; k < bands; k++)
+			{
+				res_data[i*samples*bands + j*bands + k] = bipdata[i*samples*bands + j*bands + k] * coefficient[k*samples + j];
+			}
+		}
+	}
+	return res;
+}
+
+/**
+* @brief      hyper_mat absolute correction.
+* @param[in]  bip_mat      hyper mat.
+* @param[in]  coefficient  correction coefficient.
+* @retval     hyper_mat    hyper image mat.
+**/
+hyper_mat absolute_radiometric_correction(hyper_mat bip_mat, float* coefficient)
+{
+	int samples = bip_mat->samples;
+	int lines = bip_mat->lines;
+	int bands = bip_mat->bands;
+
+	float* bipdata = (float*)bip_mat->data;
+
+	hyper_mat res = create_hyper_mat(samples, lines, bands, 4, bip_mat->interleave);
+
+	float* res_data = (float*)res->data;
+
+	for (int i = 0; i < lines; i++)
+	{
+		for (int j = 0; j < samples; j++)
+		{
+			for (int k = 0; k < bands; k++)
+			{
+				res_data[i*samples*bands + j*bands + k] = bipdata[i*samples*bands + j*bands + k] * coefficient[k];
+			}
+		}
+	}
+	return res;
+}
+
+
+
+
+
+
+
-- 
2.43.0


From ab502e2742166235abec696ad73f1133377dcce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:08 +0000
Subject: [PATCH 13/55] fix: otsuThreshold read three channels of
 single-channel images, beyond the data

---
 modules/process/src/c_src/threshold.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/threshold.c b/modules/process/src/c_src/threshold.c
index 5323e6f..6363025 100644
--- a/modules/process/src/c_src/threshold.c
+++ b/modules/process/src/c_src/threshold.c
@@ -32,7 +32,9 @@ int otsuThreshold(simple_mat img)
 	{//计算直方图
 		for(int j=0;j<width;j++)
 		{
-			double temp =data[i*step + j * 3] * 0.114 + data[i*step + j * 3+1] * 0.587 + data[i*step + j * 3+2] * 0.299;
+			double temp = data[i*step + j * channels];
+			if(channels == 3)
+				temp =data[i*step + j * 3] * 0.114 + data[i*step + j * 3+1] * 0.587 + data[i*step + j * 3+2] * 0.299;
 			temp = temp<0? 0:temp;
 			temp = temp>255? 255:temp;
 			Histogram[(int)temp]++;
-- 
2.43.0


From 1c0eb6467677f22233d783ac5db02a0c79ff6ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:11 +0000
Subject: [PATCH 14/55] fix: simple_mat_grayscale_statistics compared the size
 of a pointer with 256 and always exited

---
 modules/core/src/c_src/simplemat.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index 29879fe..53fc810 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -377,7 +377,7 @@ void simple_mat_grayscale_statistics(simple_mat mat, int* gray_statist)
 {
 	hypercv_assert(mat                  != NULL, "input mat cannot be NULL");
 	hypercv_assert(mat-> data_type      == 1,    "only use in unsigned char image");
-	hypercv_assert(sizeof(gray_statist) == 256,  "gray array error");
+	hypercv_assert(gray_statist         != NULL, "gray array error");
 
 	int rows     = mat->rows;
 	int cols     = mat->cols;
-- 
2.43.0


From 483ae3abf981c278139ddf1308699aad4d353a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:11 +0000
Subject: [PATCH 15/55] fix: the grey-level statistics of colour images leaked
 the grey copy

---
 modules/core/src/c_src/simplemat.c | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index 53fc810..442e4b7 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -397,6 +397,9 @@ void simple_mat_grayscale_statistics(simple_mat mat, int* gray_statist)
 
 	for(int i=0; i<rows*cols; i++)
 		gray_statist[data[i]]++;
+
+	if(tmp != mat)
+		delete_simple_mat(tmp);
 }
 
 
@@ -440,6 +443,9 @@ float simple_mat_contrast_ratio(simple_mat mat)
 	}
 
 	res = res/(4*(cols-2)*(rows-2)+3*2*(rows-2)+3*2*(cols-2)+2*4);
+
+	if(tmp != mat)
+		delete_simple_mat(tmp);
 	return res;
 }
 
@@ -456,16 +462,6 @@ float simple_mat_entropy(simple_mat mat)
 
 	int rows = mat->rows;
 	int cols = mat->cols;
-	int channels = mat->channels;
-
-	simple_mat tmp ;
-
-	if(channels != 1)
-		tmp = sm_rgb2gray(mat,0);
-	else 
-		tmp = mat;
-
-	unsigned char* data = (unsigned char*)tmp->data;
 
 	float res =0.0;
 
-- 
2.43.0


From de8d3e1ad134a4a7978219a7dc7fccd247c1fd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:11 +0000
Subject: [PATCH 16/55] fix: simple_mat_mean and simple_mat_variance read short
 and int data as unsigned

---
 modules/core/src/c_src/simplemat.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index 442e4b7..a7b1b92 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -293,6 +293,12 @@ float simple_mat_mean(simple_mat mat)
 				break;
 			}
 		case 2:
+			{
+				short* data = (short*) mat->data;
+				for(int i=0; i<rows*cols; i++)
+					res += data[i];
+				break;
+			}
 		case 12:
 			{
 				unsigned short* data = (unsigned short*) mat->data;
@@ -302,7 +308,7 @@ float simple_mat_mean(simple_mat mat)
 			}
 		case 3:
 			{
-				unsigned int* data = (unsigned int*) mat->data;
+				int* data = (int*) mat->data;
 				for(int i=0; i<rows*cols; i++)
 					res += data[i];
 				break;
@@ -343,6 +349,12 @@ float simple_mat_variance(simple_mat mat)
 				break;
 			}
 		case 2:
+			{
+				short* data = (short*)mat->data;
+				for(int i=0;i<rows*cols;i++)
+					res += pow(mean-data[i],2);
+				break;
+			}
 		case 12:
 			{
 				unsigned short* data = (unsigned short*)mat->data;
@@ -352,7 +364,7 @@ float simple_mat_variance(simple_mat mat)
 			}
 		case 3:
 			{
-				unsigned int* data = (unsigned int*)mat->data;
+				int* data = (int*)mat->data;
 				for(int i=0; i<rows*cols; i++)
 					res += pow(mean-data[i], 2);
 				break;
-- 
2.43.0


From 24c4a341ec72c1be0f506e35a991117cc036ea1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:48 +0000
Subject: [PATCH 17/55] fix: spectral_angle_mapper truncated every product to
 an integer (abs of a float)

---
 modules/process/src/c_src/spectralprocess.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/spectralprocess.c b/modules/process/src/c_src/spectralprocess.c
index 4eaf7f7..832216f 100644
--- a/modules/process/src/c_src/spectralprocess.c
+++ b/modules/process/src/c_src/spectralprocess.c
@@ -93,7 +93,7 @@ float spectral_angle_mapper(float * x, float * y, int length)
 
 	for (int i = 0; i<length; i++)
 	{
-		XY += abs(x[i] * y[i]);
+		XY += fabs(x[i] * y[i]);
 		X += (x[i])*(x[i]);
 		Y += (y[i])*(y[i]);
 	}
-- 
2.43.0


From 6cb0c52f80ee216a7d0c569f9cf54482bce918a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:48 +0000
Subject: [PATCH 18/55] fix: HisEqualization accumulated already scaled counts
 and left level 0 unscaled

---
 modules/algorithm/src/HisEqualization.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/modules/algorithm/src/HisEqualization.c b/modules/algorithm/src/HisEqualization.c
index 5b45383..0cd7441 100644
--- a/modules/algorithm/src/HisEqualization.c
+++ b/modules/algorithm/src/HisEqualization.c
@@ -26,10 +26,11 @@ void HisEqualization( simple_mat src_mat,simple_mat dst_mat)
 	for(int i=0; i<rows*cols; i++)
 		hist[data[i]]+=1;
 	
-	for(int i=1; i<256; i++)
+	int sum = 0;
+	for(int i=0; i<256; i++)
 	{
-		hist[i] += hist[i-1];
-		hist[i] = hist[i]*255/(rows*cols);
+		sum += hist[i];
+		hist[i] = (long long)sum*255/(rows*cols);
 	}
 	
 	for(int i=0; i<rows*cols; i++)
-- 
2.43.0


From 70ecdb2a522e460f17f3ce8e46e20a03e1c6430c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:48 +0000
Subject: [PATCH 19/55] fix: hypercv_normalize_float rounded and clamped float
 results to 0..255

---
 modules/algorithm/src/normalize.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/modules/algorithm/src/normalize.c b/modules/algorithm/src/normalize.c
index d025d63..25475c9 100644
--- a/modules/algorithm/src/normalize.c
+++ b/modules/algorithm/src/normalize.c
@@ -100,7 +100,7 @@ void hypercv_normalize_float(simple_mat src, simple_mat dst, float alpha, float
 		for (int i =0;i< rows*cols;i++ )
 			L1_norm += src_data[i]>=0?src_data[i]:(-src_data[i]);
 		for(int i=0;i<rows*cols;i++)
-			dst_data[i] =saturate_cast_float2uchar(src_data[i]*alpha/L1_norm);
+			dst_data[i] = src_data[i]*alpha/L1_norm;
 	}
 	if(norm_type == NORM_L2)
 	{
@@ -108,7 +108,7 @@ void hypercv_normalize_float(simple_mat src, simple_mat dst, float alpha, float
 		for (int i =0;i< rows*cols;i++ )
 			L2_norm += src_data[i]*src_data[i];
 		for(int i=0;i<rows*cols;i++)
-			dst_data[i] = saturate_cast_float2uchar(src_data[i]*alpha/sqrt(L2_norm));
+			dst_data[i] = src_data[i]*alpha/sqrt(L2_norm);
 	}
 
 	if(norm_type == NORM_INF)
@@ -117,7 +117,7 @@ void hypercv_normalize_float(simple_mat src, simple_mat dst, float alpha, float
 		for (int i =0;i< rows*cols;i++ )
 			INF_norm = src_data[i]>INF_norm?src_data[i]:INF_norm;
 		for(int i=0;i<rows*cols;i++)
-			dst_data[i] = saturate_cast_float2uchar(src_data[i]*alpha/INF_norm);
+			dst_data[i] = src_data[i]*alpha/INF_norm;
 	}
 	if(norm_type == NORM_MINMAX)
 	{
@@ -131,7 +131,7 @@ void hypercv_normalize_float(simple_mat src, simple_mat dst, float alpha, float
 		float a = alpha>beta?beta:alpha;
 
 		for(int i=0;i<rows*cols;i++)
-			dst_data[i] = saturate_cast_float2uchar((src_data[i]-minsrc)*(b-a)/(maxsrc-minsrc)+a);
+			dst_data[i] = (src_data[i]-minsrc)*(b-a)/(maxsrc-minsrc)+a;
 	}
 }
 
-- 
2.43.0


From 411f704c81f947f1b1a61239f0e2d24dc5da5da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:48 +0000
Subject: [PATCH 20/55] fix: hypercv_normalize_float ignored negative values in
 the maximum norm and values beyond 1000000

---
 modules/algorithm/src/normalize.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/algorithm/src/normalize.c b/modules/algorithm/src/normalize.c
index 25475c9..4fefc79 100644
--- a/modules/algorithm/src/normalize.c
+++ b/modules/algorithm/src/normalize.c
@@ -115,13 +115,13 @@ void hypercv_normalize_float(simple_mat src, simple_mat dst, float alpha, float
 	{
 		float INF_norm = 0;
 		for (int i =0;i< rows*cols;i++ )
-			INF_norm = src_data[i]>INF_norm?src_data[i]:INF_norm;
+			INF_norm = fabs(src_data[i])>INF_norm?fabs(src_data[i]):INF_norm;
 		for(int i=0;i<rows*cols;i++)
 			dst_data[i] = src_data[i]*alpha/INF_norm;
 	}
 	if(norm_type == NORM_MINMAX)
 	{
-		float maxsrc=-1000000,minsrc=1000000;
+		float maxsrc=src_data[0],minsrc=src_data[0];
 		for(int i=0;i<rows*cols;i++)
 		{
 			maxsrc = maxsrc>src_data[i]?maxsrc:src_data[i];
-- 
2.43.0


From e4652f9771ef5e7cb32d0b620d10dc85e78baf8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:48 +0000
Subject: [PATCH 21/55] fix: hypercv_magnitude read the imaginary part at the
 wrong index

---
 modules/algorithm/src/dft.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/algorithm/src/dft.c b/modules/algorithm/src/dft.c
index 4348a79..3ce9c41 100644
--- a/modules/algorithm/src/dft.c
+++ b/modules/algorithm/src/dft.c
@@ -244,7 +244,7 @@ void hypercv_magnitude(simple_mat re_mat, simple_mat im_mat, simple_mat dst_mat)
 	{
 		for(int j=0;j<cols;j++)
 		{
-			dst_data[i*cols+j] = sqrt(pow(re_data[i*cols+j],2)+pow(im_data[i*cols*j],2));
+			dst_data[i*cols+j] = sqrt(pow(re_data[i*cols+j],2)+pow(im_data[i*cols+j],2));
 		}
 	}
 }
-- 
2.43.0


From 91492f5af7466f8b504386f3bd233fef9bb4b713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:48 +0000
Subject: [PATCH 22/55] fix: hypercv_idft divided by sqrt(rows*cols), which
 does not invert the unscaled hypercv_dft

---
 modules/algorithm/src/dft.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/algorithm/src/dft.c b/modules/algorithm/src/dft.c
index 3ce9c41..ab2a60d 100644
--- a/modules/algorithm/src/dft.c
+++ b/modules/algorithm/src/dft.c
@@ -189,7 +189,7 @@ void hypercv_idft_uchar(simple_mat re_mat ,simple_mat im_mat, simple_mat dst_mat
 				}
 			}
 
-			dst_data[i*cols+j] =saturate_cast_float2uchar(real / sqrt(rows*cols));
+			dst_data[i*cols+j] =saturate_cast_float2uchar(real / (rows*cols));
 		}
 	}
 }
@@ -222,7 +222,7 @@ void hypercv_idft_ushort(simple_mat re_mat ,simple_mat im_mat, simple_mat dst_ma
 				}
 			}
 
-			dst_data[i*cols+j] =saturate_cast_float2uchar(real / sqrt(rows*cols));
+			dst_data[i*cols+j] =saturate_cast_float2uchar(real / (rows*cols));
 		}
 	}
 }
-- 
2.43.0


From 55a869b3fe01a2e10d10080e847a5391f70adb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:48 +0000
Subject: [PATCH 23/55] fix: hypercv_idft_ushort clamped at 255

---
 modules/algorithm/src/dft.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/algorithm/src/dft.c b/modules/algorithm/src/dft.c
index ab2a60d..c22144b 100644
--- a/modules/algorithm/src/dft.c
+++ b/modules/algorithm/src/dft.c
@@ -222,7 +222,8 @@ void hypercv_idft_ushort(simple_mat re_mat ,simple_mat im_mat, simple_mat dst_ma
 				}
 			}
 
-			dst_data[i*cols+j] =saturate_cast_float2uchar(real / (rows*cols));
+			real = real / (rows*cols);
+			dst_data[i*cols+j] = real>65535?65535:(real<0?0:HYPERCV_ROUND(real));
 		}
 	}
 }
-- 
2.43.0


From 905a45a69e0c3bd0502e1ab4c8e8116f6da7fdf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:52 +0000
Subject: [PATCH 24/55] fix: hypercv_filter2D set the data type of the
 destination instead of checking it

---
 modules/process/src/c_src/filter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/filter.c b/modules/process/src/c_src/filter.c
index 3ce9c5e..691be8c 100644
--- a/modules/process/src/c_src/filter.c
+++ b/modules/process/src/c_src/filter.c
@@ -87,7 +87,7 @@ void hypercv_filter2D(simple_mat src, simple_mat dst, float* kernel, int k_rows,
 {
 	hypercv_assert(src!= NULL&&dst!=NULL,"input mat cannot be null");
 	hypercv_assert(kernel!=NULL,"kernel cannot be null");
-	hypercv_assert(dst->data_type = 4,"dst data_type == float");
+	hypercv_assert(dst->data_type == 4,"dst data_type == float");
 
 	int rows = src->rows;
 	int cols = src->cols;
-- 
2.43.0


From e1e4920e1aa1daafbc4216fbe1726417c6f4f467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:52 +0000
Subject: [PATCH 25/55] fix: the gaussian blur leaked its intermediate plane
 and its kernels

---
 modules/process/src/c_src/filter.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/process/src/c_src/filter.c b/modules/process/src/c_src/filter.c
index 691be8c..64357ac 100644
--- a/modules/process/src/c_src/filter.c
+++ b/modules/process/src/c_src/filter.c
@@ -310,6 +310,8 @@ void hypercv_gaussian_blur(simple_mat src_mat, simple_mat dst_mat, int ksize_wid
 	simple_mat kernel_mat_x = gaussian_kernel(ksize_width, sigma1, kdepth);
 	simple_mat kernel_mat_y = gaussian_kernel(ksize_height,sigma2, kdepth);
 	hypercv_gaussian_blur_with_kernel(src_mat, dst_mat, kernel_mat_x, kernel_mat_y, border_type);
+	delete_simple_mat(kernel_mat_x);
+	delete_simple_mat(kernel_mat_y);
 }
 
 /**
@@ -451,6 +453,7 @@ void hypercv_gaussian_blur_with_kernel(simple_mat src_mat,simple_mat dst_mat, si
 			}
 		}
 	}
+	delete_simple_mat(temp_mat);
 }
 
 /**
-- 
2.43.0


From 28a3388a7078f62e84478f4ede856b1919b4953a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:40 +0000
Subject: [PATCH 26/55] fix: hypercv_meanblur rejected every image and averaged
 the wrong pixels

---
 modules/process/src/c_src/filter.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/modules/process/src/c_src/filter.c b/modules/process/src/c_src/filter.c
index 64357ac..ed096bc 100644
--- a/modules/process/src/c_src/filter.c
+++ b/modules/process/src/c_src/filter.c
@@ -175,7 +175,7 @@ void hypercv_medianblur(simple_mat src_mat, simple_mat dst_mat, int size)
  **/
 void hypercv_meanblur(simple_mat src_mat, simple_mat dst_mat, int size)
 {
-	hypercv_assert(!src_mat,"input mat can not be NULL");
+	hypercv_assert(src_mat!=NULL,"input mat can not be NULL");
 	int rows = src_mat->rows;
 	int cols = src_mat->cols;
 	int data_type = src_mat->data_type;
@@ -183,20 +183,19 @@ void hypercv_meanblur(simple_mat src_mat, simple_mat dst_mat, int size)
 
 	unsigned char* src_data = (unsigned char*) src_mat->data;
 	unsigned char* dst_data = (unsigned char*) dst_mat->data;
-	unsigned char* arr = (unsigned char*) malloc(size*size*sizeof(char));
 
 	for(int i=0;i<rows;i++)
 	{
 		for(int j=0;j<cols;j++)
 		{
 		    int sum=0,num=0;
-			for(int m = -size/2;m<size/2;m++)
+			for(int m = -size/2;m<size-size/2;m++)
 			{
-				for(int n = -size/2; n<size/2;n++)
+				for(int n = -size/2; n<size-size/2;n++)
 				{
-					if((i+m)>=0&&(i+m)<rows&&(j+m)>=0&&(j+m)<cols)
+					if((i+m)>=0&&(i+m)<rows&&(j+n)>=0&&(j+n)<cols)
 					{
-						sum+= src_data[(i+m)*cols+j+m];
+						sum+= src_data[(i+m)*cols+j+n];
 						num++;	 
 					}
 
-- 
2.43.0


From b343f55b6b4e30ffaedbcbfdbde356d52e06e3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:56 +0000
Subject: [PATCH 27/55] fix: HyMat::create checked and released uninitialised
 members instead of its arguments

---
 modules/core/include/cxx_include/hypermat.hpp | 44 +++++++++----------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/modules/core/include/cxx_include/hypermat.hpp b/modules/core/include/cxx_include/hypermat.hpp
index d940d16..4101a91 100644
--- a/modules/core/include/cxx_include/hypermat.hpp
+++ b/modules/core/include/cxx_include/hypermat.hpp
@@ -35,8 +35,8 @@ namespace hypercv
 			//todo 修改所有format 改成 int format， HYPERCV_BIL HYPERCV_BIP HYPERCV_BSQ 
 
 			char         interleave[3];
-			void*        data;
-			float*       wavelength;
+			void*        data = NULL;
+			float*       wavelength = NULL;
 
 			int          elemSize;
 			long int     dataSize;
@@ -121,16 +121,16 @@ namespace hypercv
 	inline void HyMat::create(int _samples, int _lines, int _bands, int _dataType, int _format, void* _data, float* _wavelength)
 	{
 
-		hypercv_assert(_samples > 0 && _lines > 0 && bands > 0, "HyMat size > 0");
-		hypercv_assert(dataType == HYPERCV_UCHAR || 
-				dataType == 2 ||
-				dataType == 3 ||
-				dataType == 4 ||
-				dataType == 5 ||
-				dataType == 12 ||
-				dataType == 13 ||
-				dataType == 14 ||
-				dataType == 15 , " data type error");
+		hypercv_assert(_samples > 0 && _lines > 0 && _bands > 0, "HyMat size > 0");
+		hypercv_assert(_dataType == HYPERCV_UCHAR || 
+				_dataType == 2 ||
+				_dataType == 3 ||
+				_dataType == 4 ||
+				_dataType == 5 ||
+				_dataType == 12 ||
+				_dataType == 13 ||
+				_dataType == 14 ||
+				_dataType == 15 , " data type error");
 		hypercv_assert(_format != HYPERCV_BIL || _format != HYPERCV_BIP || _format != HYPERCV_BSQ, "HyMat format must be bil bsq bip");
 
 		if(data)
@@ -327,16 +327,16 @@ namespace hypercv
 
 	inline void HyMat::open(const char* path, int _samples, int _lines, int _bands, int _dataType, int _format)
 	{
-		hypercv_assert(_samples > 0 && _lines > 0 && bands > 0, "HyMat size > 0");
-		hypercv_assert(dataType == HYPERCV_UCHAR || 
-				dataType == 2 ||
-				dataType == 3 ||
-				dataType == 4 ||
-				dataType == 5 ||
-				dataType == 12 ||
-				dataType == 13 ||
-				dataType == 14 ||
-				dataType == 15 , " data type error");
+		hypercv_assert(_samples > 0 && _lines > 0 && _bands > 0, "HyMat size > 0");
+		hypercv_assert(_dataType == HYPERCV_UCHAR || 
+				_dataType == 2 ||
+				_dataType == 3 ||
+				_dataType == 4 ||
+				_dataType == 5 ||
+				_dataType == 12 ||
+				_dataType == 13 ||
+				_dataType == 14 ||
+				_dataType == 15 , " data type error");
 		hypercv_assert(_format != HYPERCV_BIL || _format != HYPERCV_BIP || _format != HYPERCV_BSQ, "HyMat format must be bil bsq bip");
 
 		if (empty() == 0)
-- 
2.43.0


From 44bc7137602fdee6bc517d6a418281d69cccc607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:56 +0000
Subject: [PATCH 28/55] fix: the default constructor of HyMat always exited,
 and with it HyMat::copy and hmread

---
 modules/core/include/cxx_include/hypermat.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/modules/core/include/cxx_include/hypermat.hpp b/modules/core/include/cxx_include/hypermat.hpp
index 4101a91..6f7325b 100644
--- a/modules/core/include/cxx_include/hypermat.hpp
+++ b/modules/core/include/cxx_include/hypermat.hpp
@@ -82,7 +82,14 @@ namespace hypercv
 
 	inline HyMat::HyMat()
 	{
-		create(0, 0, 0, HYPERCV_UCHAR, HYPERCV_BSQ);
+		lines = samples = bands = 0;
+		dataType = HYPERCV_UCHAR;
+		format = HYPERCV_BSQ;
+		interleave[0] = 'b';
+		interleave[1] = 's';
+		interleave[2] = 'q';
+		elemSize = get_elemsize(dataType);
+		dataSize = 0;
 	}
 
 	inline HyMat::HyMat(int _samples, int _lines, int _bands, int _dataType, int _format)
-- 
2.43.0


From e1fbbc5addc2581b7d42e2e9babb8cb0ba3e8921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:38 +0000
Subject: [PATCH 29/55] fix: hypercv_corrosion and hypercv_expend addressed
 rows with the number of rows as stride

---
 modules/process/src/c_src/morphology.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/modules/process/src/c_src/morphology.c b/modules/process/src/c_src/morphology.c
index c533ba3..0a96363 100644
--- a/modules/process/src/c_src/morphology.c
+++ b/modules/process/src/c_src/morphology.c
@@ -47,7 +47,7 @@ void hypercv_corrosion(simple_mat mat, simple_mat dst_mat, S_2D s)
 		for(int j=0; j<cols; j++)
 		{	
 			flag = 0;
-			if(src[i*rows+j]!=0)
+			if(src[i*cols+j]!=0)
 			{
 				for(int m=0; m<height; m++)
 				{
@@ -55,18 +55,18 @@ void hypercv_corrosion(simple_mat mat, simple_mat dst_mat, S_2D s)
 					{
 						if(i-height/2>=0&&i+height/2<rows&&j-width/2>=0&&j+width/2<cols)
 						{
-							if(sd[m*width+n]==1&&src[(i-height/2+m)*rows+j-width/2+n]==0)
+							if(sd[m*width+n]==1&&src[(i-height/2+m)*cols+j-width/2+n]==0)
 								flag = 1;
 						}
 					}
 				}
 				if(flag ==0)
-					dst[i*rows+j] = src[i*rows+j];
+					dst[i*cols+j] = src[i*cols+j];
 				else
-					dst[i*rows+j] = 0;
+					dst[i*cols+j] = 0;
 			}
 			else
-				dst[i*rows+j] = 0;
+				dst[i*cols+j] = 0;
 		}
 	}
 }
@@ -111,7 +111,7 @@ void hypercv_expend(simple_mat mat, simple_mat dst_mat, S_2D s)
 		for(int j=0; j<cols; j++)
 		{	
 			flag = 0;
-			if(src[i*rows+j]==0)
+			if(src[i*cols+j]==0)
 			{
 				for(int m=0; m<height; m++)
 				{
@@ -119,18 +119,18 @@ void hypercv_expend(simple_mat mat, simple_mat dst_mat, S_2D s)
 					{
 						if(i-height/2>=0&&i+height/2<rows&&j-width/2>=0&&j+width/2<cols)
 						{
-							if(sd[m*width+n]==1&&src[(i-height/2+m)*rows+j-width/2+n]==0)
+							if(sd[m*width+n]==1&&src[(i-height/2+m)*cols+j-width/2+n]==0)
 								flag = 1;
 						}
 					}
 				}
 				if(flag ==0)
-					dst[i*rows+j] = src[i*rows+j];
+					dst[i*cols+j] = src[i*cols+j];
 				else
-					dst[i*rows+j] = 1;
+					dst[i*cols+j] = 1;
 			}
 			else
-				dst[i*rows+j] = src[i*rows+j];
+				dst[i*cols+j] = src[i*cols+j];
 		}
 	}
 }
-- 
2.43.0


From ed83f9ede7f42972fac2d98a506c629f3b4821d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:38 +0000
Subject: [PATCH 30/55] fix: hypercv_expend grew the background: it set pixels
 that have a zero neighbour

---
 modules/process/src/c_src/morphology.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/morphology.c b/modules/process/src/c_src/morphology.c
index 0a96363..a7095f8 100644
--- a/modules/process/src/c_src/morphology.c
+++ b/modules/process/src/c_src/morphology.c
@@ -119,7 +119,7 @@ void hypercv_expend(simple_mat mat, simple_mat dst_mat, S_2D s)
 					{
 						if(i-height/2>=0&&i+height/2<rows&&j-width/2>=0&&j+width/2<cols)
 						{
-							if(sd[m*width+n]==1&&src[(i-height/2+m)*cols+j-width/2+n]==0)
+							if(sd[m*width+n]==1&&src[(i-height/2+m)*cols+j-width/2+n]!=0)
 								flag = 1;
 						}
 					}
-- 
2.43.0


From dce60d95ac30fcfd516999f209d58c32ec41d7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:38 +0000
Subject: [PATCH 31/55] fix: hypercv_open and hypercv_close discarded the
 result of their first step

---
 modules/process/src/c_src/morphology.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/modules/process/src/c_src/morphology.c b/modules/process/src/c_src/morphology.c
index a7095f8..9d7bea8 100644
--- a/modules/process/src/c_src/morphology.c
+++ b/modules/process/src/c_src/morphology.c
@@ -157,11 +157,15 @@ void hypercv_open(simple_mat src, simple_mat dst, S_2D kernel, int iterations)
 	if(dst == NULL)
 		dst = simple_mat_copy(src);
 
+	simple_mat tmp = create_simple_mat(rows, cols, data_type, channels);
+
 	for(int i=0;i<iterations;i++)
 	{
-	    hypercv_corrosion(src,dst,kernel);
-		hypercv_expend(src,dst,kernel);
+	    hypercv_corrosion(i==0?src:dst,tmp,kernel);
+		hypercv_expend(tmp,dst,kernel);
 	}
+
+	delete_simple_mat(tmp);
 }
 
 /**
@@ -185,11 +189,15 @@ void hypercv_close(simple_mat src, simple_mat dst, S_2D kernel, int iterations)
 	if(dst == NULL)
 		dst = simple_mat_copy(src);
 
+	simple_mat tmp = create_simple_mat(rows, cols, data_type, channels);
+
 	for(int i=0;i<iterations;i++)
 	{
-		hypercv_expend(src,dst,kernel);
-	    hypercv_corrosion(src,dst,kernel);
+		hypercv_expend(i==0?src:dst,tmp,kernel);
+	    hypercv_corrosion(tmp,dst,kernel);
 	}
+
+	delete_simple_mat(tmp);
 }
 
 
-- 
2.43.0


From 5972e623256a954db181d14c8a6f562b37d20a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:19 +0000
Subject: [PATCH 32/55] fix: restore the line endings of
 RadiometricCalibration.c

---
 .../src/c_src/RadiometricCalibration.c        | 140 +++++++++---------
 1 file changed, 70 insertions(+), 70 deletions(-)

diff --git a/modules/process/src/c_src/RadiometricCalibration.c b/modules/process/src/c_src/RadiometricCalibration.c
index a822015..7cfda62 100644
--- a/modules/process/src/c_src/RadiometricCalibration.c
+++ b/modules/process/src/c_src/RadiometricCalibration.c
@@ -1,70 +1,70 @@
-#include "precomp.h"
-
-/**
-* @brief      hyper_mat relative correction.
-* @param[in]  bip_mat      hyper mat.
-* @param[in]  coefficient  correction coefficient.
-* @retval     hyper_mat    hyper image mat.
-**/
-hyper_mat relative_radiometric_correction(hyper_mat bip_mat, float* coefficient)
-{
-	int samples = bip_mat->samples;
-	int lines = bip_mat->lines;
-	int bands = bip_mat->bands;
-
-	unsigned short * bipdata = (unsigned short*)bip_mat->data;
-
-	hyper_mat res = create_hyper_mat(samples,lines,bands,4,bip_mat->interleave);
-	
-	float* res_data = (float*)res->data;
-
-	for (int i = 0; i < lines; i++)
-	{
-		for (int j = 0; j < samples; j++)
-		{
-			for (int k = 0; k < bands; k++)
-			{
-				res_data[i*samples*bands + j*bands + k] = bipdata[i*samples*bands + j*bands + k] * coefficient[k*samples + j];
-			}
-		}
-	}
-	return res;
-}
-
-/**
-* @brief      hyper_mat absolute correction.
-* @param[in]  bip_mat      hyper mat.
-* @param[in]  coefficient  correction coefficient.
-* @retval     hyper_mat    hyper image mat.
-**/
-hyper_mat absolute_radiometric_correction(hyper_mat bip_mat, float* coefficient)
-{
-	int samples = bip_mat->samples;
-	int lines = bip_mat->lines;
-	int bands = bip_mat->bands;
-
-	float* bipdata = (float*)bip_mat->data;
-
-	hyper_mat res = create_hyper_mat(samples, lines, bands, 4, bip_mat->interleave);
-
-	float* res_data = (float*)res->data;
-
-	for (int i = 0; i < lines; i++)
-	{
-		for (int j = 0; j < samples; j++)
-		{
-			for (int k = 0; k < bands; k++)
-			{
-				res_data[i*samples*bands + j*bands + k] = bipdata[i*samples*bands + j*bands + k] * coefficient[k];
-			}
-		}
-	}
-	return res;
-}
-
-
-
-
-
-
-
+#include "precomp.h"
+
+/**
+* @brief      hyper_mat relative correction.
+* @param[in]  bip_mat      hyper mat.
+* @param[in]  coefficient  correction coefficient.
+* @retval     hyper_mat    hyper image mat.
+**/
+hyper_mat relative_radiometric_correction(hyper_mat bip_mat, float* coefficient)
+{
+	int samples = bip_mat->samples;
+	int lines = bip_mat->lines;
+	int bands = bip_mat->bands;
+
+	unsigned short * bipdata = (unsigned short*)bip_mat->data;
+
+	hyper_mat res = create_hyper_mat(samples,lines,bands,4,bip_mat->interleave);
+	
+	float* res_data = (float*)res->data;
+
+	for (int i = 0; i < lines; i++)
+	{
+		for (int j = 0; j < samples; j++)
+		{
+			for (int k = 0; k < bands; k++)
+			{
+				res_data[i*samples*bands + j*bands + k] = bipdata[i*samples*bands + j*bands + k] * coefficient[k*samples + j];
+			}
+		}
+	}
+	return res;
+}
+
+/**
+* @brief      hyper_mat absolute correction.
+* @param[in]  bip_mat      hyper mat.
+* @param[in]  coefficient  correction coefficient.
+* @retval     hyper_mat    hyper image mat.
+**/
+hyper_mat absolute_radiometric_correction(hyper_mat bip_mat, float* coefficient)
+{
+	int samples = bip_mat->samples;
+	int lines = bip_mat->lines;
+	int bands = bip_mat->bands;
+
+	float* bipdata = (float*)bip_mat->data;
+
+	hyper_mat res = create_hyper_mat(samples, lines, bands, 4, bip_mat->interleave);
+
+	float* res_data = (float*)res->data;
+
+	for (int i = 0; i < lines; i++)
+	{
+		for (int j = 0; j < samples; j++)
+		{
+			for (int k = 0; k < bands; k++)
+			{
+				res_data[i*samples*bands + j*bands + k] = bipdata[i*samples*bands + j*bands + k] * coefficient[k];
+			}
+		}
+	}
+	return res;
+}
+
+
+
+
+
+
+
-- 
2.43.0


From 4054c1bfc145a2338a405f7878f70d002cf877fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:01 +0000
Subject: [PATCH 33/55] fix: cal_edge_signal_energy assigned channels and data
 type instead of checking them

---
 modules/algorithm/src/EdgeSignalEnergy.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/algorithm/src/EdgeSignalEnergy.c b/modules/algorithm/src/EdgeSignalEnergy.c
index 7ffdee2..d1d5c83 100644
--- a/modules/algorithm/src/EdgeSignalEnergy.c
+++ b/modules/algorithm/src/EdgeSignalEnergy.c
@@ -9,8 +9,8 @@
 float cal_edge_signal_energy(simple_mat mat)
 {
 	hypercv_assert(mat!=NULL, "input mat cannot be NULL");
-	hypercv_assert(mat->channels = 1,"only use in grayimage");
-	hypercv_assert(mat->data_type = 1,"data_type == 1");
+	hypercv_assert(mat->channels == 1,"only use in grayimage");
+	hypercv_assert(mat->data_type == 1,"data_type == 1");
   
 	float opt1[9] = {-1,-1,1,-1,4,-1,1,-1,-1};
 	float opt2[9] = {1,-1,-1,-1,4,-1,-1,-1,1};
-- 
2.43.0


From 522280a4eead40eb1d2ee8d74c0d8cb075f35151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:01 +0000
Subject: [PATCH 34/55] fix: cal_edge_signal_energy read outside images of one
 row or column

---
 modules/algorithm/src/EdgeSignalEnergy.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/algorithm/src/EdgeSignalEnergy.c b/modules/algorithm/src/EdgeSignalEnergy.c
index d1d5c83..f7d016d 100644
--- a/modules/algorithm/src/EdgeSignalEnergy.c
+++ b/modules/algorithm/src/EdgeSignalEnergy.c
@@ -27,8 +27,8 @@ float cal_edge_signal_energy(simple_mat mat)
 	simple_mat dst1 = create_simple_mat(rows,cols,4,1);
 	simple_mat dst2 = create_simple_mat(rows,cols,4,1);
 	
-	hypercv_filter2D(mat,dst1,opt1,3,3,0);
-	hypercv_filter2D(mat,dst2,opt2,3,3,0);
+	hypercv_filter2D(mat,dst1,opt1,3,3,BORDER_DEFAULT);
+	hypercv_filter2D(mat,dst2,opt2,3,3,BORDER_DEFAULT);
 
     simple_mat_addition_float(dst1,dst2,dst1);
 
-- 
2.43.0


From d7d53af82523438d9da7cc709b135dbad53d87f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:01 +0000
Subject: [PATCH 35/55] fix: hyper_mat_linear_tension took 0 and 1000000000
 into the range of every band

---
 modules/algorithm/src/HisEqualization.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/algorithm/src/HisEqualization.c b/modules/algorithm/src/HisEqualization.c
index 0cd7441..71b535f 100644
--- a/modules/algorithm/src/HisEqualization.c
+++ b/modules/algorithm/src/HisEqualization.c
@@ -54,8 +54,8 @@ void hyper_mat_linear_tension (hyper_mat bsq_mat,hyper_mat dst_mat)
 	int res=0;
 	for(int k=0; k<bands; k++)
 	{
-		maxdata = 0.0;
-		mindata = 1000000000;
+		maxdata = srcdata[k*samples*lines];
+		mindata = srcdata[k*samples*lines];
 		tmp =0.0;
 		res =0;
 		for(int i=0; i<lines;i++)
-- 
2.43.0


From 438ddd08afa2ee9b5f72fea08ea3ecac3818f490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:01 +0000
Subject: [PATCH 36/55] fix: hyper_mat_linear_tension divided by zero for bands
 with a single value

---
 modules/algorithm/src/HisEqualization.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/algorithm/src/HisEqualization.c b/modules/algorithm/src/HisEqualization.c
index 71b535f..9e1d76c 100644
--- a/modules/algorithm/src/HisEqualization.c
+++ b/modules/algorithm/src/HisEqualization.c
@@ -69,8 +69,8 @@ void hyper_mat_linear_tension (hyper_mat bsq_mat,hyper_mat dst_mat)
 					mindata = tmp;
 			}
 		}
-		float m = 255/(maxdata-mindata);
-		float n = -mindata*255/(maxdata-mindata);
+		float m = maxdata>mindata ? 255/(maxdata-mindata) : 0;
+		float n = -mindata*m;
 		for(int i=0; i<lines;i++)
 		{
 			for(int j=0; j<samples; j++)
-- 
2.43.0


From 3c9e5cc41fc3a892d4f2ddd24ea207d323a1cb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:13 +0000
Subject: [PATCH 37/55] fix: hypercv_pyramid_down leaked the smoothed image

---
 modules/process/src/c_src/GeometricTransformation.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/GeometricTransformation.c b/modules/process/src/c_src/GeometricTransformation.c
index 5ec5845..473d337 100644
--- a/modules/process/src/c_src/GeometricTransformation.c
+++ b/modules/process/src/c_src/GeometricTransformation.c
@@ -99,7 +99,8 @@ void hypercv_pyramid_down(simple_mat src, simple_mat dst)
 		for(int j=0;j<dst_cols;j++)
 			for(int m=0;m<channels;m++)
 			  dst_data[i*dst_cols*channels+j*channels+m] = tmp_data[2*i*src->cols*channels+2*j*channels+m];
-	
+
+	delete_simple_mat(tmp);
 }
 
 void hypercv_pyramid_up(simple_mat src, simple_mat dst)
-- 
2.43.0


From 71c486a2de1be60d3118496ecff1bb3d34ca5b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:13 +0000
Subject: [PATCH 38/55] fix: hypercv_pyramid_up leaked its intermediate image
 and kernel

---
 modules/process/src/c_src/GeometricTransformation.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/process/src/c_src/GeometricTransformation.c b/modules/process/src/c_src/GeometricTransformation.c
index 473d337..5b1cfc3 100644
--- a/modules/process/src/c_src/GeometricTransformation.c
+++ b/modules/process/src/c_src/GeometricTransformation.c
@@ -149,6 +149,9 @@ void hypercv_pyramid_up(simple_mat src, simple_mat dst)
 		kernel_data[i]=kernel_data[i]*2;
 
 	hypercv_gaussian_blur_with_kernel(tmp,dst,kernel,kernel,1);
+
+	delete_simple_mat(tmp);
+	delete_simple_mat(kernel);
 }
 
 
-- 
2.43.0


From 4c64ef6eb1469a23f67247da0cd284e5f4aeac4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:49 +0000
Subject: [PATCH 39/55] fix: hypercv_match_shapes leaked the moments of both
 images

---
 modules/algorithm/src/shapematch.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/algorithm/src/shapematch.c b/modules/algorithm/src/shapematch.c
index 5e12322..ef26ccd 100644
--- a/modules/algorithm/src/shapematch.c
+++ b/modules/algorithm/src/shapematch.c
@@ -114,6 +114,8 @@ double hypercv_match_shapes(simple_mat mat1, simple_mat mat2)
 
 	double res=0;
 	res = calc_similar_hu(hu1,hu2);
+	free(hu1);
+	free(hu2);
 	return res;
 }
 
-- 
2.43.0


From 9552e9cab47542ffc6d49be02a632b93fd55e420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:58 +0000
Subject: [PATCH 40/55] fix: draw_line inverted the slope of the line

---
 modules/highgui/src/draw.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/highgui/src/draw.c b/modules/highgui/src/draw.c
index bae668a..0b160fd 100644
--- a/modules/highgui/src/draw.c
+++ b/modules/highgui/src/draw.c
@@ -59,7 +59,7 @@ void draw_line(simple_mat src_mat, simple_mat dst_mat, POINT pt1, POINT pt2, RGB
 
 	memcpy(dst_data,src_data,rows*cols*channels);	
 
-	float k = (float)(pt2.x-pt1.x)/(pt2.y-pt1.y);
+	float k = (float)(pt2.y-pt1.y)/(pt2.x-pt1.x);
 	float b = (float)pt1.y-k*pt1.x;
 
 	for(int i=0;i<rows;i++)
-- 
2.43.0


From 4390df08eb96a89dddd1f7725d4b6c993fb6eb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:58 +0000
Subject: [PATCH 41/55] fix: draw_line compared instead of storing the colour
 in single-channel images

---
 modules/highgui/src/draw.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/highgui/src/draw.c b/modules/highgui/src/draw.c
index 0b160fd..4eff064 100644
--- a/modules/highgui/src/draw.c
+++ b/modules/highgui/src/draw.c
@@ -79,7 +79,7 @@ void draw_line(simple_mat src_mat, simple_mat dst_mat, POINT pt1, POINT pt2, RGB
 							dst_data[i*cols*channels+(j+t)*channels+2] = color.b;
 						}
 						else if(channels == 1)
-							dst_data[i*cols+(j+t)] == color.r;
+							dst_data[i*cols+(j+t)] = color.r;
 					}
 				}
 			}
-- 
2.43.0


From 59a6d53fdb69387b2c3d55dc0e6fc4b210711f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:58 +0000
Subject: [PATCH 42/55] fix: hmread_with_size returned uninitialised
 wavelengths and leaked its buffers

---
 modules/core/src/c_src/hypermat.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index ca93da3..d396918 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -294,9 +294,8 @@ hyper_mat hmread_with_size(const char* image_path, int samples, int lines, int b
 	fread(data, elem_size, data_size, image_fp);
 	fclose(image_fp);
 
-	float* wavelength = (float*)malloc(bands*sizeof(float));
-
-	hyper_mat mat = create_hyper_mat_with_data(samples, lines, bands, data_type, interleave, data, wavelength);
+	hyper_mat mat = create_hyper_mat_with_data(samples, lines, bands, data_type, interleave, data, NULL);
+	free(data);
 
 	return mat;
 }
-- 
2.43.0


From b664e09dece75fb69213e9de6dac1015916f148b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:58 +0000
Subject: [PATCH 43/55] fix: hmread_with_hdr leaked its buffers, and a file
 when the other is missing

---
 modules/core/src/c_src/hypermat.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index d396918..cb4ab1c 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -240,6 +240,11 @@ hyper_mat hmread_with_hdr(const char* image_path,const char* hdr_path)
 	if (image_fp == NULL || hdr_fp == NULL)
 	{
 		printf("can not open file\n");
+		if (image_fp != NULL)
+			fclose(image_fp);
+		if (hdr_fp != NULL)
+			fclose(hdr_fp);
+		free(interleave);
 		return 0;
 	}
 	else
@@ -259,6 +264,8 @@ hyper_mat hmread_with_hdr(const char* image_path,const char* hdr_path)
 	hyper_mat mat = create_hyper_mat_with_data(samples, lines, bands, data_type, interleave, data, wavelength);
 
 	free(interleave);
+	free(data);
+	free(wavelength);
 	
 	return mat;
 }
-- 
2.43.0


From ac0aa9d20519aebc68f19287a100b66d18263090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:58 +0000
Subject: [PATCH 44/55] fix: writehdr leaked the header path and the interleave
 text

---
 modules/core/src/c_src/hypermat.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index cb4ab1c..62d8ed6 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -389,6 +389,8 @@ void writehdr(const char* img_path, int samples, int lines, int bands, int data_
 		fputs("wavelength = unknown \n",fp);
 	}
 	fclose(fp);
+	free(it);
+	free(hdr_path);
 }
 
 
-- 
2.43.0


From c63ceaa272df4b06f34cf8db8812f030c5e5f1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:58 +0000
Subject: [PATCH 45/55] fix: readhdr read an unterminated wavelength text and
 could overrun its buffers

---
 modules/core/src/c_src/hypermat.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index 62d8ed6..a29357a 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -38,15 +38,19 @@ int cmpstr(char temp1[],char temp2[])
 // default wavelength charlength < 12
 static void read_wavelength(char* w, float* wavelength, int bands)
 {
-	char* tmp = (char*)malloc(MAXWAVECHAR*sizeof(char));
+	char* tmp = (char*)malloc((MAXWAVECHAR+1)*sizeof(char));
 	for(int i=0;i<MAXWAVECHAR;i++)
 		tmp[i]=' ';
+	tmp[MAXWAVECHAR]='\0';
 	int t = 0;
 	int n = 0;
 	for (int i=0;i<strlen(w);i++)
 	{
 		if(w[i]!=','&&w[i]!='}')
-			tmp[t++] = w[i];
+		{
+			if(t<MAXWAVECHAR)
+				tmp[t++] = w[i];
+		}
 		else
 		{
 			wavelength[n++] = atof(tmp);
@@ -125,18 +129,20 @@ static void readhdr(FILE* hdr_fp, int* samples, int* lines, int* bands, int* dat
 		}
 		else if (cmpstr(line,"wavelength = {")==1)
 		{	
-			char* w = (char*)malloc(MAXWAVECHAR * bandtemp*sizeof(char));
+			int w_size = MAXWAVECHAR * bandtemp;
+			char* w = (char*)malloc((w_size + 1)*sizeof(char));
 			char* t_w = w;
 
 			while (strchr(line, '}') == NULL&&fgets(line, MAXLINE, hdr_fp) != 0)
 			{
 				for (int i = 0; i < strlen(line); i++)
 				{
-					if (line[i] != '\n')
+					if (line[i] != '\n' && t_w < w + w_size)
 						*t_w++ = line[i];
 				}
 			}
-			float* wave = (float*)malloc((bandtemp)*sizeof(float));
+			*t_w = '\0';
+			float* wave = (float*)calloc(bandtemp, sizeof(float));
 			read_wavelength(w, wave, bandtemp);
 			*wavelength = wave;
 			free(w); w = NULL;
-- 
2.43.0


From 35601f7a10b2086dc2c5cd9192bc51f5ec4f677b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:15 +0000
Subject: [PATCH 46/55] fix: smread read one channel only, the others were
 taken from beyond the buffer

---
 modules/core/src/c_src/simplemat.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index a7b1b92..30aa1f3 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -76,7 +76,7 @@ simple_mat smread(const char * image_path, int rows, int cols, int data_type, in
 	hypercv_assert(image_fp != NULL, "can not open files");
 
 	int elem_size = get_elemsize(data_type);
-	int data_size = rows * cols;
+	int data_size = rows * cols * channels;
 	void* data = (void *)malloc(data_size * elem_size);
 
 	fread(data, elem_size, data_size, image_fp);
-- 
2.43.0


From e2018de2fb3c12e567c12c6426cd28e524c81037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:15 +0000
Subject: [PATCH 47/55] fix: smread_bmp left the colours of the middle row of
 an image of odd height in the wrong order

---
 modules/core/src/c_src/simplemat.c | 25 +++++--------------------
 1 file changed, 5 insertions(+), 20 deletions(-)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index 30aa1f3..4f34074 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -144,31 +144,16 @@ simple_mat smread_bmp(const char *bmpName)
 	fread(pBmpBuf, 1, lineByte * bmpHeight, fp);
 	fclose(fp);
 
-	for(int i=0;i<bmpHeight/2;i++)
-	{
-		for(int j=0;j<bmpWidth;j++)
-		{
-			for(int k=0;k<channels;k++)
-			{
-				int tmp = pBmpBuf[i*lineByte + j*channels + k];
-				pBmpBuf[i*lineByte + j*channels + k] = pBmpBuf[(bmpHeight-i-1)*lineByte + j*channels + 2-k];
-				pBmpBuf[(bmpHeight-i-1)*lineByte + j*channels + 2-k] = tmp;
-			}
-		}
-	}
-	
 	simple_mat res = create_simple_mat(bmpHeight,bmpWidth,1,3);
 	unsigned char* res_data = (unsigned char*)res->data;
 
-	if(lineByte == bmpWidth * biBitCount / 8)
-		memcpy(res_data, pBmpBuf, lineByte*bmpHeight);
-	else
+	// bottom row first, blue before red
+	for(int i=0; i<bmpHeight; i++)
 	{
-		for(int i=0; i<bmpHeight; i++)
+		for(int j=0; j<bmpWidth; j++)
 		{
-			unsigned char* pres = res_data + i*bmpWidth*channels;
-			unsigned char* pbmp = pBmpBuf + i*lineByte;
-			memcpy(pres, pbmp, bmpWidth*channels);
+			for(int k=0; k<channels; k++)
+				res_data[i*bmpWidth*channels + j*channels + k] = pBmpBuf[(bmpHeight-i-1)*lineByte + j*channels + 2-k];
 		}
 	}
 
-- 
2.43.0


From 00efa25c7e2b3fb3d016eab8b9a88ed8009fbcec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:15 +0000
Subject: [PATCH 48/55] fix: smwrite_bmp turned the caller's image upside down,
 wrote uninitialised padding, the middle row in the wrong order, and leaked

---
 modules/core/src/c_src/simplemat.c | 30 ++++++++----------------------
 1 file changed, 8 insertions(+), 22 deletions(-)

diff --git a/modules/core/src/c_src/simplemat.c b/modules/core/src/c_src/simplemat.c
index 4f34074..1114097 100644
--- a/modules/core/src/c_src/simplemat.c
+++ b/modules/core/src/c_src/simplemat.c
@@ -221,35 +221,21 @@ void smwrite_bmp(const char *bmpName, simple_mat src_mat)
 
 	fwrite(&infoHead, sizeof(BmpInfoHeader), 1, fp);
 
-	for(int i=0; i<height/2; i++)
+	// bottom row first, blue before red, rows padded with zeros
+	unsigned char* buf = (unsigned char*)calloc(height, lineByte);
+	for(int i=0; i<height; i++)
 	{
 		for(int j=0; j<width; j++)
 		{
 			for(int k=0; k<channels; k++)
-			{
-				int tempbuf = imgBuf[i*width*channels + j*channels + k];
-				imgBuf[i*width*channels + j*channels + k] = imgBuf[(height-i-1)*width*channels + j*channels + 2-k];
-				imgBuf[(height-i-1)*width*channels + j*channels + 2-k] = tempbuf;
-			}
-
+				buf[(height-i-1)*lineByte + j*channels + 2-k] = imgBuf[i*width*channels + j*channels + k];
 		}
 	}
+	fwrite(buf, height*lineByte, 1, fp);
+	free(buf);
 
-	if(lineByte > width*biBitCount/8)
-	{
-		unsigned char* tmp = (unsigned char*)malloc(height*lineByte);
-		unsigned char* data = tmp ;
-		for(int i=0; i<height; i++)
-		{
-			memcpy(data, imgBuf, width*3);
-			imgBuf += width*3;
-			data += lineByte;
-		}
-		fwrite(tmp, height*lineByte, 1, fp);
-		free(tmp);
-	}
-	else 
-		fwrite(imgBuf, height*lineByte, 1, fp);
+	if(mat != src_mat)
+		delete_simple_mat(mat);
 
 	fclose(fp);
 }
-- 
2.43.0


From ccd66efa3e8d47312c3d8b880c102d90d075f00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:13 +0000
Subject: [PATCH 49/55] fix: HyMat::open read elemSize times as many bytes as
 the image holds when the file is longer

---
 modules/core/include/cxx_include/hypermat.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/core/include/cxx_include/hypermat.hpp b/modules/core/include/cxx_include/hypermat.hpp
index 6f7325b..6ac0518 100644
--- a/modules/core/include/cxx_include/hypermat.hpp
+++ b/modules/core/include/cxx_include/hypermat.hpp
@@ -328,7 +328,7 @@ namespace hypercv
 			return ;
 		}
 
-		fread(data, elemSize, dataSize, _fp);
+		fread(data, 1, dataSize, _fp);
 		fclose(_fp);
 	}
 
@@ -360,7 +360,7 @@ namespace hypercv
 			return ;
 		}
 
-		fread(data, elemSize, dataSize, _fp);
+		fread(data, 1, dataSize, _fp);
 		fclose(_fp);
 
 	}
-- 
2.43.0


From 1927c9c24daf0b55b0768a73404cc547941381bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:13 +0000
Subject: [PATCH 50/55] fix: read_spectrum_file wrote past its buffer when the
 file holds more than length numbers, did not end at text, and left missing
 values uninitialised

---
 modules/process/src/c_src/spectralprocess.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/process/src/c_src/spectralprocess.c b/modules/process/src/c_src/spectralprocess.c
index 832216f..eaf87e0 100644
--- a/modules/process/src/c_src/spectralprocess.c
+++ b/modules/process/src/c_src/spectralprocess.c
@@ -115,13 +115,13 @@ float* read_spectrum_file(const char* sp_path, int length)
 
 	hypercv_assert(fp != NULL, "can not open files");
 
-	float* spectrum = (float*)malloc(length*sizeof(float));
+	float* spectrum = (float*)calloc(length, sizeof(float));
 
 	float* sp = spectrum;
 
 	float temp = 0;
 
-	while (fscanf(fp, "%f", &temp) != EOF)
+	while (sp - spectrum < length && fscanf(fp, "%f", &temp) == 1)
 	{
 		*sp = temp;
 		sp++;
-- 
2.43.0


From f894c482967c93d90ac16aa00f00961e659f980d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:13 +0000
Subject: [PATCH 51/55] fix: hypercv_integral stored plain pixels instead of
 sums in the first row and column

---
 modules/process/src/c_src/filter.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/modules/process/src/c_src/filter.c b/modules/process/src/c_src/filter.c
index ed096bc..315eca9 100644
--- a/modules/process/src/c_src/filter.c
+++ b/modules/process/src/c_src/filter.c
@@ -482,12 +482,12 @@ void hypercv_integral(simple_mat src, simple_mat dst)
 
 	for(int i=0;i<rows;i++)
 	{
+		int sum = 0;
+
 		for(int j=0;j<cols;j++)
 		{
-			if(i==0||j==0)
-				dst_data[i*cols+j] = src_data[i*cols+j];
-			else
-				dst_data[i*cols+j] = dst_data[(i-1)*cols+j] + dst_data[i*cols+j-1] + src_data[i*cols+j]-dst_data[(i-1)*cols+j-1];	
+			sum += src_data[i*cols+j];
+			dst_data[i*cols+j] = i==0 ? sum : dst_data[(i-1)*cols+j] + sum;
 		}
 	}
 }
-- 
2.43.0


From 42543449d2e362e1e3b7f5fc37cc5dec9a45b739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:58 +0000
Subject: [PATCH 52/55] fix: hyper_mat_cem passed factors and product of its
 matrix multiplications in the wrong order (writing over the target spectrum
 and past the filter) and accumulated into uninitialised memory

---
 modules/algorithm/src/cem.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/modules/algorithm/src/cem.c b/modules/algorithm/src/cem.c
index 40092db..345329d 100644
--- a/modules/algorithm/src/cem.c
+++ b/modules/algorithm/src/cem.c
@@ -39,13 +39,13 @@ simple_mat hyper_mat_cem(hyper_mat bsq_mat, float* spectral)
 
 	invert_matrix_float(invdata, c_data, bands);
 
-	float* fir1 = (float*)malloc(bands * sizeof(float));
-	float* fir2 = (float*)malloc(bands * sizeof(float));
-	float* fir3 = (float*)malloc(sizeof(float));
+	float* fir1 = (float*)calloc(bands, sizeof(float));
+	float* fir2 = (float*)calloc(bands, sizeof(float));
+	float* fir3 = (float*)calloc(1, sizeof(float));
 
-	MulMatrix_float(fir1, invdata, spectral, bands, bands, 1);
-	MulMatrix_float(fir2, spectral, invdata, 1, bands, bands);
-	MulMatrix_float(fir3, fir2, spectral, 1, bands, 1);
+	MulMatrix_float(invdata, spectral, fir1, bands, bands, 1);
+	MulMatrix_float(spectral, invdata, fir2, 1, bands, bands);
+	MulMatrix_float(fir2, spectral, fir3, 1, bands, 1);
 
 	for(int i=0; i<bands; i++)
 		fir1[i] = fir1[i]/fir3[0];
@@ -53,7 +53,7 @@ simple_mat hyper_mat_cem(hyper_mat bsq_mat, float* spectral)
 	simple_mat res = create_simple_mat(lines, samples, data_type, 1);
 	float* res_data = (float*)res->data;
 
-	MulMatrix_float(res_data, t_data, fir1, samples*lines,bands, 1);
+	MulMatrix_float(t_data, fir1, res_data, samples*lines,bands, 1);
 
 	delete_simple_mat(src);
 	delete_simple_mat(t);
-- 
2.43.0


From f90413d449f292358b898cd20816b9b63cf04a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:25 +0000
Subject: [PATCH 53/55] fix: wavelet_base_free leaked the reconstruction high
 pass when there is no decomposition high pass

---
 modules/process/src/c_src/dwt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/process/src/c_src/dwt.c b/modules/process/src/c_src/dwt.c
index 90063bc..8021cc5 100644
--- a/modules/process/src/c_src/dwt.c
+++ b/modules/process/src/c_src/dwt.c
@@ -97,7 +97,7 @@ void wavelet_base_free(wavelet_base* wb)
 			free(wb->HI_D);
 		if(wb->LO_R!=NULL)
 			free(wb->LO_R);
-		if(wb->HI_D!=NULL)
+		if(wb->HI_R!=NULL)
 			free(wb->HI_R);
 		free(wb);
 	}
-- 
2.43.0


From 60c04220e8a0f3de27118bd0e459a3b1e80ddb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:57 +0000
Subject: [PATCH 54/55] fix: readhdr took any header entry that begins with
 "data" (data ignore value, data gain values) for the data type

---
 modules/core/src/c_src/hypermat.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index a29357a..72448cd 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -113,7 +113,7 @@ static void readhdr(FILE* hdr_fp, int* samples, int* lines, int* bands, int* dat
 			sscanf(line, "%*[^=]=%d", &bandtemp);
 			*bands = bandtemp;
 		}
-		else if (cmpstr(item, "data") == 1)
+		else if (cmpstr(item, "data type") == 1)
 		{
 			sscanf(line, "%*[^=]=%d", &datatypetemp);
 			*data_type = datatypetemp;
-- 
2.43.0


From 07825dacffa5738bda4c757fc5248fd18f56f49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:52 +0000
Subject: [PATCH 55/55] fix: readhdr wrote four letters into the three of the
 layout when there is no single space before its name

---
 modules/core/src/c_src/hypermat.c | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/modules/core/src/c_src/hypermat.c b/modules/core/src/c_src/hypermat.c
index 72448cd..6fcd576 100644
--- a/modules/core/src/c_src/hypermat.c
+++ b/modules/core/src/c_src/hypermat.c
@@ -90,8 +90,6 @@ static void readhdr(FILE* hdr_fp, int* samples, int* lines, int* bands, int* dat
 	char line[MAXLINE];
 	char item[MAXLINE];
 
-	char it[4];
-
 	int sampletemp = 0, linetemp = 0, bandtemp = 0, datatypetemp = 0;
 
 	while (fgets(line, MAXLINE, hdr_fp) != 0)
@@ -120,12 +118,7 @@ static void readhdr(FILE* hdr_fp, int* samples, int* lines, int* bands, int* dat
 		}
 		else if (cmpstr(item, "interleave") == 1)
 		{
-			sscanf(line, "%*[^=]=%c%c%c%c", &it[0],&it[1],&it[2],&it[3]);
-			for(int i=0;i<4;i++)
-			{
-				if(it[i]!=' ')
-					*interleave++ = it[i];
-			}
+			sscanf(line, "%*[^=]= %c%c%c", &interleave[0], &interleave[1], &interleave[2]);
 		}
 		else if (cmpstr(line,"wavelength = {")==1)
 		{	
-- 
2.43.0

