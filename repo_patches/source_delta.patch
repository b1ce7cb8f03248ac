From 6cf445bfc9f2cd1f3f4e20acaee27ade8c05f014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:07 +0000
Subject: [PATCH 01/58] fix: take the row size of the second image into account
 in Subtract

---
 src/image_function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/image_function.cpp b/src/image_function.cpp
index f0abeab..a9aa16a 100644
--- a/src/image_function.cpp
+++ b/src/image_function.cpp
@@ -1915,7 +1915,7 @@ namespace Image_Function
         const uint8_t colorCount = CheckCommonColorCount( in1, in2, out );
         width = width * colorCount;
 
-        OptimiseRoi( width, height, in1, in1, out );
+        OptimiseRoi( width, height, in1, in2, out );
 
         const uint32_t rowSize1 = in1.rowSize();
         const uint32_t rowSize2 = in2.rowSize();
-- 
2.43.0


From 44691cbb1db402e444313e90d950200189a0832e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:07 +0000
Subject: [PATCH 02/58] fix: process whole rows of color images in Histogram

---
 src/image_function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/image_function.cpp b/src/image_function.cpp
index a9aa16a..1b770d5 100644
--- a/src/image_function.cpp
+++ b/src/image_function.cpp
@@ -891,7 +891,7 @@ namespace Image_Function
         else {
             for ( ; imageY != imageYEnd; imageY += rowSize ) {
                 const uint8_t * imageX = imageY;
-                const uint8_t * imageXEnd = imageX + width;
+                const uint8_t * imageXEnd = imageX + width * colorCount;
 
                 for ( ; imageX != imageXEnd; imageX += colorCount ) {
                     for ( uint32_t colorChannel = 0; colorChannel < colorCount; ++colorChannel )
@@ -950,7 +950,7 @@ namespace Image_Function
             for ( ; imageY != imageYEnd; imageY += rowSize, imageYMask += rowSizeMask ) {
                 const uint8_t * imageX = imageY;
                 const uint8_t * imageXMask = imageYMask;
-                const uint8_t * imageXEnd = imageX + width;
+                const uint8_t * imageXEnd = imageX + width * colorCount;
 
                 for ( ; imageX != imageXEnd; imageX += colorCount, ++imageXMask ) {
                     if ( ( *imageXMask ) > 0 ) {
-- 
2.43.0


From 2eb1af1c805291bd66b6c767e62ee82d8adcf7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:07 +0000
Subject: [PATCH 03/58] fix: respect color count of input image in
 ConvertTo16Bit and ConvertTo8Bit

---
 src/image_function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/image_function.cpp b/src/image_function.cpp
index 1b770d5..de9c23a 100644
--- a/src/image_function.cpp
+++ b/src/image_function.cpp
@@ -472,7 +472,7 @@ namespace Image_Function
 
         const uint8_t colorCount = in.colorCount();
 
-        const uint8_t * inY = in.data() + startYIn * rowSizeIn + startXIn;
+        const uint8_t * inY = in.data() + startYIn * rowSizeIn + startXIn * colorCount;
         uint16_t * outY = out.data() + startYOut * rowSizeOut + startXOut * colorCount;
 
         const uint16_t * outYEnd = outY + height * rowSizeOut;
@@ -528,7 +528,7 @@ namespace Image_Function
 
         const uint8_t colorCount = in.colorCount();
 
-        const uint16_t * inY = in.data() + startYIn * rowSizeIn + startXIn;
+        const uint16_t * inY = in.data() + startYIn * rowSizeIn + startXIn * colorCount;
         uint8_t * outY = out.data() + startYOut * rowSizeOut + startXOut * colorCount;
 
         const uint8_t * outYEnd = outY + height * rowSizeOut;
-- 
2.43.0


From f2d65e9e6fba13d5f676ead63d41f7634e472ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:07 +0000
Subject: [PATCH 04/58] fix: support RGBA images in ConvertToGrayScale and
 ConvertToRgb

---
 src/image_function.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/image_function.cpp b/src/image_function.cpp
index de9c23a..9047519 100644
--- a/src/image_function.cpp
+++ b/src/image_function.cpp
@@ -574,7 +574,7 @@ namespace Image_Function
         const uint32_t rowSizeIn = in.rowSize();
         const uint32_t rowSizeOut = out.rowSize();
 
-        const uint8_t colorCount = RGB;
+        const uint8_t colorCount = in.colorCount();
 
         const uint8_t * inY = in.data() + startYIn * rowSizeIn + startXIn * colorCount;
         uint8_t * outY = out.data() + startYOut * rowSizeOut + startXOut;
@@ -617,6 +617,11 @@ namespace Image_Function
             return;
         }
 
+        if ( in.colorCount() == RGBA ) {
+            RgbaToRgb( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
+            return;
+        }
+
         const uint32_t rowSizeIn = in.rowSize();
         const uint32_t rowSizeOut = out.rowSize();
 
-- 
2.43.0


From 58e4a2c09e1e9b221e675507a8e1fe1ac5f4b497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:07 +0000
Subject: [PATCH 05/58] fix: return images with color count of input image from
 GammaCorrection, LookupTable and Normalize

---
 src/image_function_helper.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/image_function_helper.cpp b/src/image_function_helper.cpp
index 62ef931..38b72eb 100644
--- a/src/image_function_helper.cpp
+++ b/src/image_function_helper.cpp
@@ -352,7 +352,7 @@ namespace Image_Function_Helper
     {
         Image_Function::ValidateImageParameters( in );
 
-        Image out = in.generate( in.width(), in.height() );
+        Image out = in.generate( in.width(), in.height(), in.colorCount() );
 
         gammaCorrection( in, 0, 0, out, 0, 0, out.width(), out.height(), a, gamma );
 
@@ -371,7 +371,7 @@ namespace Image_Function_Helper
     {
         Image_Function::ValidateImageParameters( in, startXIn, startYIn, width, height );
 
-        Image out = in.generate( width, height );
+        Image out = in.generate( width, height, in.colorCount() );
 
         gammaCorrection( in, startXIn, startYIn, out, 0, 0, width, height, a, gamma );
 
@@ -536,7 +536,7 @@ namespace Image_Function_Helper
     {
         Image_Function::ValidateImageParameters( in );
 
-        Image out = in.generate( in.width(), in.height() );
+        Image out = in.generate( in.width(), in.height(), in.colorCount() );
 
         lookupTable( in, 0, 0, out, 0, 0, out.width(), out.height(), table );
 
@@ -555,7 +555,7 @@ namespace Image_Function_Helper
     {
         Image_Function::ValidateImageParameters( in, startXIn, startYIn, width, height );
 
-        Image out = in.generate( width, height );
+        Image out = in.generate( width, height, in.colorCount() );
 
         lookupTable( in, startXIn, startYIn, out, 0, 0, width, height, table );
 
@@ -657,7 +657,7 @@ namespace Image_Function_Helper
     {
         Image_Function::ValidateImageParameters( in );
 
-        Image out = in.generate( in.width(), in.height() );
+        Image out = in.generate( in.width(), in.height(), in.colorCount() );
 
         normalize( in, 0, 0, out, 0, 0, out.width(), out.height() );
 
@@ -675,7 +675,7 @@ namespace Image_Function_Helper
     {
         Image_Function::ValidateImageParameters( in, startXIn, startYIn, width, height );
 
-        Image out = in.generate( width, height );
+        Image out = in.generate( width, height, in.colorCount() );
 
         normalize( in, startXIn, startYIn, out, 0, 0, width, height );
 
-- 
2.43.0


From d7e93cb57e52c4293a7126bff2d42783c17ab095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:07 +0000
Subject: [PATCH 06/58] fix: do not resize into images with different color
 count

---
 src/image_function.cpp        | 2 +-
 src/image_function_helper.cpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/image_function.cpp b/src/image_function.cpp
index 9047519..303ac4a 100644
--- a/src/image_function.cpp
+++ b/src/image_function.cpp
@@ -1450,7 +1450,7 @@ namespace Image_Function
         ValidateImageParameters( in, startXIn, startYIn, widthIn, heightIn );
         ValidateImageParameters( out, startXOut, startYOut, widthOut, heightOut );
 
-        const uint8_t colorCount = in.colorCount();
+        const uint8_t colorCount = CheckCommonColorCount( in, out );
 
         const uint32_t rowSizeIn = in.rowSize();
         const uint32_t rowSizeOut = out.rowSize();
diff --git a/src/image_function_helper.cpp b/src/image_function_helper.cpp
index 38b72eb..fa6aa82 100644
--- a/src/image_function_helper.cpp
+++ b/src/image_function_helper.cpp
@@ -710,7 +710,7 @@ namespace Image_Function_Helper
     {
         Image_Function::ValidateImageParameters( in );
 
-        Image out = in.generate( widthOut, heightOut );
+        Image out = in.generate( widthOut, heightOut, in.colorCount() );
 
         resize( in, 0, 0, in.width(), in.height(), out, 0, 0, widthOut, heightOut );
 
@@ -730,7 +730,7 @@ namespace Image_Function_Helper
     {
         Image_Function::ValidateImageParameters( in, startXIn, startYIn, widthIn, heightIn );
 
-        Image out = in.generate( widthOut, heightOut );
+        Image out = in.generate( widthOut, heightOut, in.colorCount() );
 
         resize( in, startXIn, startYIn, widthIn, heightIn, out, 0, 0, widthOut, heightOut );
 
-- 
2.43.0


From 16c37befca446daf11ce03a0cc4577de54dc4599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:07 +0000
Subject: [PATCH 07/58] fix: avoid integer overflow of pixel positions in
 Resize

---
 src/image_function.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/image_function.cpp b/src/image_function.cpp
index 303ac4a..d4e2ee9 100644
--- a/src/image_function.cpp
+++ b/src/image_function.cpp
@@ -1464,7 +1464,7 @@ namespace Image_Function
         // Precalculation of X position
         std::vector<uint32_t> positionX( widthOut );
         for ( uint32_t x = 0; x < widthOut; ++x )
-            positionX[x] = ( x * widthIn / widthOut ) * colorCount;
+            positionX[x] = static_cast<uint32_t>( static_cast<uint64_t>( x ) * widthIn / widthOut ) * colorCount;
 
         widthOut *= colorCount;
 
@@ -1473,7 +1473,7 @@ namespace Image_Function
                 uint8_t * outX = outY;
                 const uint8_t * outXEnd = outX + widthOut;
 
-                const uint8_t * inX = inY + ( idY * heightIn / heightOut ) * rowSizeIn;
+                const uint8_t * inX = inY + static_cast<uint32_t>( static_cast<uint64_t>( idY ) * heightIn / heightOut ) * rowSizeIn;
                 const uint32_t * idX = positionX.data();
 
                 for ( ; outX != outXEnd; ++outX, ++idX )
@@ -1487,7 +1487,7 @@ namespace Image_Function
                 uint8_t * outX = outY;
                 const uint8_t * outXEnd = outX + widthOut;
 
-                const uint8_t * inX = inY + ( idY * heightIn / heightOut ) * rowSizeIn;
+                const uint8_t * inX = inY + static_cast<uint32_t>( static_cast<uint64_t>( idY ) * heightIn / heightOut ) * rowSizeIn;
                 const uint32_t * idX = positionX.data();
 
                 for ( ; outX != outXEnd; outX += colorCount, ++idX )
-- 
2.43.0


From bb103e02157127073d7b2666442bb5aad038c72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:07 +0000
Subject: [PATCH 08/58] fix: do not convert out of range values in Normalize

---
 src/image_function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/image_function.cpp b/src/image_function.cpp
index d4e2ee9..16f0a6d 100644
--- a/src/image_function.cpp
+++ b/src/image_function.cpp
@@ -1324,7 +1324,7 @@ namespace Image_Function
             // We precalculate all values and store them in lookup table
             std::vector<uint8_t> value( 256 );
 
-            for ( uint16_t i = 0; i < 256; ++i )
+            for ( uint16_t i = minimum; i <= maximum; ++i )
                 value[i] = static_cast<uint8_t>( ( i - minimum ) * correction + 0.5 );
 
             LookupTable( in, startXIn, startYIn, out, startXOut, startYOut, width, height, value );
-- 
2.43.0


From ced1d3e45b5d2354b0bf0068c4487973baf3c157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:07 +0000
Subject: [PATCH 09/58] fix: validate all points before setting any of them in
 SetPixel

---
 src/image_function.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/image_function.cpp b/src/image_function.cpp
index 16f0a6d..fe04eb0 100644
--- a/src/image_function.cpp
+++ b/src/image_function.cpp
@@ -1741,9 +1741,10 @@ namespace Image_Function
         for ( ; x != end; ++x, ++y ) {
             if ( ( *x ) >= width || ( *y ) >= height )
                 throw penguinVException( "Position of point [x, y] is out of image" );
+        }
 
+        for ( x = X.begin(), y = Y.begin(); x != end; ++x, ++y )
             *( data + ( *y ) * rowSize + ( *x ) ) = value;
-        }
     }
 
     Image Shift( const Image & in, double shiftX, double shiftY )
-- 
2.43.0


From c84147b467d8cd52c017d37fb6d0020a30eb0718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:52 +0000
Subject: [PATCH 10/58] fix: respect color count of input image in vectorised
 ConvertTo16Bit and ConvertTo8Bit

---
 src/image_function_simd.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/image_function_simd.cpp b/src/image_function_simd.cpp
index d4a8764..19a0b1e 100644
--- a/src/image_function_simd.cpp
+++ b/src/image_function_simd.cpp
@@ -2729,7 +2729,7 @@ namespace simd
 
         const uint8_t colorCount = in.colorCount();
 
-        const uint8_t * inY = in.data() + startYIn * rowSizeIn + startXIn;
+        const uint8_t * inY = in.data() + startYIn * rowSizeIn + startXIn * colorCount;
         uint16_t * outY = out.data() + startYOut * rowSizeOut + startXOut * colorCount;
 
         const uint16_t * outYEnd = outY + height * rowSizeOut;
@@ -2768,7 +2768,7 @@ namespace simd
 
         const uint8_t colorCount = in.colorCount();
 
-        const uint16_t * inY = in.data() + startYIn * rowSizeIn + startXIn;
+        const uint16_t * inY = in.data() + startYIn * rowSizeIn + startXIn * colorCount;
         uint8_t * outY = out.data() + startYOut * rowSizeOut + startXOut * colorCount;
 
         const uint8_t * outYEnd = outY + height * rowSizeOut;
-- 
2.43.0


From 9de0dcb5fd162413ccf58879bffb7d22235c2f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:52 +0000
Subject: [PATCH 11/58] fix: support RGBA images in vectorised ConvertToRgb

---
 src/image_function_simd.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/image_function_simd.cpp b/src/image_function_simd.cpp
index 19a0b1e..9d4a4cc 100644
--- a/src/image_function_simd.cpp
+++ b/src/image_function_simd.cpp
@@ -2806,8 +2806,8 @@ namespace simd
         Image_Function::ValidateImageParameters( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
         Image_Function::VerifyRGBImage( out );
 
-        if ( in.colorCount() == RGB ) {
-            Image_Function::Copy( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
+        if ( in.colorCount() != GRAY_SCALE ) {
+            Image_Function::ConvertToRgb( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
             return;
         }
 
-- 
2.43.0


From 0f85034e0747bf34d5041ddc7d91ff5dad4a59b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:52 +0000
Subject: [PATCH 12/58] fix: accept color images in vectorised Accumulate like
 the scalar function does

---
 src/image_function_simd.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/image_function_simd.cpp b/src/image_function_simd.cpp
index 9d4a4cc..ce7da6f 100644
--- a/src/image_function_simd.cpp
+++ b/src/image_function_simd.cpp
@@ -2562,7 +2562,6 @@ namespace simd
         }
 
         Image_Function::ValidateImageParameters( image, x, y, width, height );
-        Image_Function::VerifyGrayScaleImage( image );
         width = width * colorCount;
 
         if ( result.size() != width * height )
-- 
2.43.0


From 538eaea39677f9f4037cf2af02c1bc019b583d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:52 +0000
Subject: [PATCH 13/58] fix: keep the order of elements in AVX and AVX-512
 functions which pack or unpack data

---
 src/image_function_simd.cpp | 55 +++++++++++++++++++++++++------------
 1 file changed, 37 insertions(+), 18 deletions(-)

diff --git a/src/image_function_simd.cpp b/src/image_function_simd.cpp
index ce7da6f..77cf4fd 100644
--- a/src/image_function_simd.cpp
+++ b/src/image_function_simd.cpp
@@ -82,6 +82,18 @@ namespace avx512
 #ifdef PENGUINV_AVX512_SKL_SET
     using simd = __m512i;
 
+    // Unpack instructions work within 128-bit lanes. This reordering of 64-bit elements is needed before them to keep the order of elements
+    simd OrderForUnpack( const simd data )
+    {
+        return _mm512_permutexvar_epi64( _mm512_set_epi64( 7, 3, 6, 2, 5, 1, 4, 0 ), data );
+    }
+
+    // Pack instructions work within 128-bit lanes. This reordering of 64-bit elements is needed after them to keep the order of elements
+    simd OrderAfterPack( const simd data )
+    {
+        return _mm512_permutexvar_epi64( _mm512_set_epi64( 7, 5, 3, 1, 6, 4, 2, 0 ), data );
+    }
+
     void AbsoluteDifference( uint32_t rowSizeIn1, uint32_t rowSizeIn2, uint32_t rowSizeOut, const uint8_t * in1Y, const uint8_t * in2Y, uint8_t * outY,
                              const uint8_t * outYEnd, uint32_t simdWidth, uint32_t totalSimdWidth, uint32_t nonSimdWidth )
     {
@@ -124,10 +136,10 @@ namespace avx512
             simd * dst = reinterpret_cast<simd *>( outY );
 
             for ( ; src != srcEnd; ++src ) {
-                simd data = _mm512_loadu_si512( src );
+                simd data = OrderForUnpack( _mm512_loadu_si512( src ) );
 
-                const simd dataLo = _mm512_unpacklo_epi8( data, zero );
-                const simd dataHi = _mm512_unpackhi_epi8( data, zero );
+                const simd dataLo = OrderForUnpack( _mm512_unpacklo_epi8( data, zero ) );
+                const simd dataHi = OrderForUnpack( _mm512_unpackhi_epi8( data, zero ) );
 
                 const simd data_1 = _mm512_unpacklo_epi16( dataLo, zero );
                 const simd data_2 = _mm512_unpackhi_epi16( dataLo, zero );
@@ -243,10 +255,10 @@ namespace avx512
             const simd * srcEnd = src + simdWidth;
 
             for ( ; src != srcEnd; ++src ) {
-                const simd srcData = _mm512_loadu_si512( src );
+                const simd srcData = OrderForUnpack( _mm512_loadu_si512( src ) );
 
                 _mm512_storeu_si512( dst++, _mm512_unpacklo_epi8( zero, srcData ) );
-                _mm512_storeu_si512( dst++, _mm512_unpacklo_epi8( zero, srcData ) );
+                _mm512_storeu_si512( dst++, _mm512_unpackhi_epi8( zero, srcData ) );
             }
 
             if ( nonSimdWidth > 0 ) {
@@ -274,7 +286,7 @@ namespace avx512
                 const simd srcData2 = _mm512_loadu_si512( src );
                 ++src;
 
-                _mm512_storeu_si512( dst, _mm512_packus_epi16( _mm512_srli_epi16( srcData1, 8 ), _mm512_srli_epi16( srcData2, 8 ) ) );
+                _mm512_storeu_si512( dst, OrderAfterPack( _mm512_packus_epi16( _mm512_srli_epi16( srcData1, 8 ), _mm512_srli_epi16( srcData2, 8 ) ) ) );
             }
 
             if ( nonSimdWidth > 0 ) {
@@ -396,10 +408,10 @@ namespace avx512
                 for ( ; imageSimdY != imageSimdYEnd; imageSimdY += rowSize ) {
                     const simd * src = reinterpret_cast<const simd *>( imageSimdY );
 
-                    const simd data = _mm512_loadu_si512( src );
+                    const simd data = OrderForUnpack( _mm512_loadu_si512( src ) );
 
-                    const simd dataLo = _mm512_unpacklo_epi8( data, zero );
-                    const simd dataHi = _mm512_unpackhi_epi8( data, zero );
+                    const simd dataLo = OrderForUnpack( _mm512_unpacklo_epi8( data, zero ) );
+                    const simd dataHi = OrderForUnpack( _mm512_unpackhi_epi8( data, zero ) );
 
                     const simd data_1 = _mm512_unpacklo_epi16( dataLo, zero );
                     const simd data_2 = _mm512_unpackhi_epi16( dataLo, zero );
@@ -540,6 +552,13 @@ namespace avx
 #ifdef PENGUINV_AVX_SET
     using simd = __m256i;
 
+    // Pack and unpack instructions work within 128-bit lanes. This reordering of 64-bit elements is needed before unpacking and after packing
+    // to keep the order of elements
+    simd OrderElements( const simd data )
+    {
+        return _mm256_permute4x64_epi64( data, 0xD8 );
+    }
+
     // We are not sure that input data is aligned by 32 bytes so we use loadu() functions instead of load()
 
     void AbsoluteDifference( uint32_t rowSizeIn1, uint32_t rowSizeIn2, uint32_t rowSizeOut, const uint8_t * in1Y, const uint8_t * in2Y, uint8_t * outY,
@@ -584,10 +603,10 @@ namespace avx
             simd * dst = reinterpret_cast<simd *>( outY );
 
             for ( ; src != srcEnd; ++src ) {
-                simd data = _mm256_loadu_si256( src );
+                simd data = OrderElements( _mm256_loadu_si256( src ) );
 
-                const simd dataLo = _mm256_unpacklo_epi8( data, zero );
-                const simd dataHi = _mm256_unpackhi_epi8( data, zero );
+                const simd dataLo = OrderElements( _mm256_unpacklo_epi8( data, zero ) );
+                const simd dataHi = OrderElements( _mm256_unpackhi_epi8( data, zero ) );
 
                 const simd data_1 = _mm256_unpacklo_epi16( dataLo, zero );
                 const simd data_2 = _mm256_unpackhi_epi16( dataLo, zero );
@@ -703,10 +722,10 @@ namespace avx
             const simd * srcEnd = src + simdWidth;
 
             for ( ; src != srcEnd; ++src ) {
-                const simd srcData = _mm256_loadu_si256( src );
+                const simd srcData = OrderElements( _mm256_loadu_si256( src ) );
 
                 _mm256_storeu_si256( dst++, _mm256_unpacklo_epi8( zero, srcData ) );
-                _mm256_storeu_si256( dst++, _mm256_unpacklo_epi8( zero, srcData ) );
+                _mm256_storeu_si256( dst++, _mm256_unpackhi_epi8( zero, srcData ) );
             }
 
             if ( nonSimdWidth > 0 ) {
@@ -734,7 +753,7 @@ namespace avx
                 const simd srcData2 = _mm256_loadu_si256( src );
                 ++src;
 
-                _mm256_storeu_si256( dst, _mm256_packus_epi16( _mm256_srli_epi16( srcData1, 8 ), _mm256_srli_epi16( srcData2, 8 ) ) );
+                _mm256_storeu_si256( dst, OrderElements( _mm256_packus_epi16( _mm256_srli_epi16( srcData1, 8 ), _mm256_srli_epi16( srcData2, 8 ) ) ) );
             }
 
             if ( nonSimdWidth > 0 ) {
@@ -858,10 +877,10 @@ namespace avx
                 for ( ; imageSimdY != imageSimdYEnd; imageSimdY += rowSize ) {
                     const simd * src = reinterpret_cast<const simd *>( imageSimdY );
 
-                    const simd data = _mm256_loadu_si256( src );
+                    const simd data = OrderElements( _mm256_loadu_si256( src ) );
 
-                    const simd dataLo = _mm256_unpacklo_epi8( data, zero );
-                    const simd dataHi = _mm256_unpackhi_epi8( data, zero );
+                    const simd dataLo = OrderElements( _mm256_unpacklo_epi8( data, zero ) );
+                    const simd dataHi = OrderElements( _mm256_unpackhi_epi8( data, zero ) );
 
                     const simd data_1 = _mm256_unpacklo_epi16( dataLo, zero );
                     const simd data_2 = _mm256_unpackhi_epi16( dataLo, zero );
-- 
2.43.0


From dc8b8b061eddb10f3856cbde11c8278fcce91aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:52 +0000
Subject: [PATCH 14/58] fix: support color images in multithreaded
 ProjectionProfile

---
 src/function_pool.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/function_pool.cpp b/src/function_pool.cpp
index 8a43caf..529a5ee 100644
--- a/src/function_pool.cpp
+++ b/src/function_pool.cpp
@@ -310,7 +310,7 @@ namespace Function_Pool
             _dataIn.horizontalProjection = horizontal;
             _process( _ProjectionProfile );
 
-            projection.resize( horizontal ? width : height );
+            projection.resize( horizontal ? width * image.colorCount() : height );
             _dataOut.getProjection( projection );
         }
 
-- 
2.43.0


From 6aad53e324df362f75e1c2e3447bee3039c7a53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:52 +0000
Subject: [PATCH 15/58] fix: support color images and do not convert out of
 range values in multithreaded Normalize

---
 src/function_pool.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/function_pool.cpp b/src/function_pool.cpp
index 529a5ee..c8a19aa 100644
--- a/src/function_pool.cpp
+++ b/src/function_pool.cpp
@@ -895,15 +895,19 @@ namespace Function_Pool
 
     void Normalize( const Image & in, uint32_t startXIn, uint32_t startYIn, Image & out, uint32_t startXOut, uint32_t startYOut, uint32_t width, uint32_t height )
     {
+        Image_Function::ValidateImageParameters( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
+        const uint8_t colorCount = Image_Function::CheckCommonColorCount( in, out );
+
         const std::vector<uint32_t> histogram = Function_Pool::Histogram( in, startXIn, startYIn, width, height );
-        if ( histogram.size() != 256u )
-            throw penguinVException( "Histogram size is not equal to 256" );
+        if ( histogram.size() != 256u * colorCount )
+            throw penguinVException( "Histogram size is not equal to 256 values per color channel" );
 
         uint16_t minimum = 255u;
         uint16_t maximum = 0u;
 
-        for ( uint16_t i = 0u; i < 256u; ++i ) {
-            if ( histogram[i] > 0u ) {
+        for ( size_t id = 0u; id < histogram.size(); ++id ) {
+            if ( histogram[id] > 0u ) {
+                const uint16_t i = static_cast<uint16_t>( id / colorCount );
                 if ( maximum < i )
                     maximum = i;
                 if ( minimum > i )
@@ -920,7 +924,7 @@ namespace Function_Pool
             // We precalculate all values and store them in lookup table
             std::vector<uint8_t> value( 256 );
 
-            for ( uint16_t i = 0; i < 256; ++i )
+            for ( uint16_t i = minimum; i <= maximum; ++i )
                 value[i] = static_cast<uint8_t>( ( i - minimum ) * correction + 0.5 );
 
             FunctionTask().LookupTable( in, startXIn, startYIn, out, startXOut, startYOut, width, height, value );
-- 
2.43.0


From afa0613bf59cc73484cbddb96c63bbd0a42cabf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:52 +0000
Subject: [PATCH 16/58] fix: make result of multithreaded Resize independent of
 the number of threads

---
 src/function_pool.cpp | 45 +++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 43 insertions(+), 2 deletions(-)

diff --git a/src/function_pool.cpp b/src/function_pool.cpp
index c8a19aa..5474476 100644
--- a/src/function_pool.cpp
+++ b/src/function_pool.cpp
@@ -37,6 +37,14 @@ namespace Function_Pool
         bool verticalFlip{ false };
         double coefficientA{ 1.0 }; // for GammaCorrection() function
         double coefficientGamma{ 1.0 }; // for GammaCorrection() function
+        uint32_t resizeStartXIn{ 0 }; // for Resize() function: full areas of input and output images
+        uint32_t resizeStartYIn{ 0 };
+        uint32_t resizeWidthIn{ 0 };
+        uint32_t resizeHeightIn{ 0 };
+        uint32_t resizeStartXOut{ 0 };
+        uint32_t resizeStartYOut{ 0 };
+        uint32_t resizeWidthOut{ 0 };
+        uint32_t resizeHeightOut{ 0 };
         std::vector<uint8_t> lookupTable; // for LookupTable() function
     };
 
@@ -318,6 +326,16 @@ namespace Function_Pool
                      uint32_t widthOut, uint32_t heightOut )
         {
             _setup( in, startXIn, startYIn, widthIn, heightIn, out, startXOut, startYOut, widthOut, heightOut );
+
+            _dataIn.resizeStartXIn = startXIn;
+            _dataIn.resizeStartYIn = startYIn;
+            _dataIn.resizeWidthIn = widthIn;
+            _dataIn.resizeHeightIn = heightIn;
+            _dataIn.resizeStartXOut = startXOut;
+            _dataIn.resizeStartYOut = startYOut;
+            _dataIn.resizeWidthOut = widthOut;
+            _dataIn.resizeHeightOut = heightOut;
+
             _process( _Resize );
         }
 
@@ -488,8 +506,7 @@ namespace Function_Pool
                                              _dataIn.horizontalProjection, _dataOut.projection[taskId] );
                 break;
             case _Resize:
-                penguinV::Resize( _infoIn1->image, _infoIn1->startX[taskId], _infoIn1->startY[taskId], _infoIn1->width[taskId], _infoIn1->height[taskId],
-                                  _infoOut1->image, _infoOut1->startX[taskId], _infoOut1->startY[taskId], _infoOut1->width[taskId], _infoOut1->height[taskId] );
+                _resizeArea( taskId );
                 break;
             case _RgbToBgr:
                 penguinV::RgbToBgr( _infoIn1->image, _infoIn1->startX[taskId], _infoIn1->startY[taskId], _infoOut1->image, _infoOut1->startX[taskId],
@@ -532,6 +549,29 @@ namespace Function_Pool
         InputInfo _dataIn; // structure which holds some unique input parameters
         OutputInfo _dataOut; // structure which holds some unique output values
 
+        // resizes an output area of the task using the scale of the whole areas so the result does not depend on the number of tasks
+        void _resizeArea( size_t taskId )
+        {
+            const Image & in = _infoIn1->image;
+            Image & out = _infoOut1->image;
+            const uint8_t colorCount = in.colorCount();
+
+            for ( uint32_t y = 0; y < _infoOut1->height[taskId]; ++y ) {
+                const uint64_t idY = _infoOut1->startY[taskId] + y - _dataIn.resizeStartYOut;
+                const uint32_t inY = _dataIn.resizeStartYIn + static_cast<uint32_t>( idY * _dataIn.resizeHeightIn / _dataIn.resizeHeightOut );
+
+                const uint8_t * inLine = in.data() + inY * in.rowSize();
+                uint8_t * outX = out.data() + ( _infoOut1->startY[taskId] + y ) * out.rowSize() + _infoOut1->startX[taskId] * colorCount;
+
+                for ( uint32_t x = 0; x < _infoOut1->width[taskId]; ++x, outX += colorCount ) {
+                    const uint64_t idX = _infoOut1->startX[taskId] + x - _dataIn.resizeStartXOut;
+                    const uint32_t inX = _dataIn.resizeStartXIn + static_cast<uint32_t>( idX * _dataIn.resizeWidthIn / _dataIn.resizeWidthOut );
+
+                    memcpy( outX, inLine + inX * colorCount, sizeof( uint8_t ) * colorCount );
+                }
+            }
+        }
+
         void _process( TaskName id )
         {
             functionId = id;
@@ -971,6 +1011,7 @@ namespace Function_Pool
     {
         Image_Function::ValidateImageParameters( in, startXIn, startYIn, widthIn, heightIn );
         Image_Function::ValidateImageParameters( out, startXOut, startYOut, widthOut, heightOut );
+        Image_Function::CheckCommonColorCount( in, out );
 
         FunctionTask().Resize( in, startXIn, startYIn, widthIn, heightIn, out, startXOut, startYOut, widthOut, heightOut );
     }
-- 
2.43.0


From 9909dfc7beeb3bd4ff4ca8c9d5b3b136a956c1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:07 +0000
Subject: [PATCH 17/58] fix: store the second half of elements in SSE
 ConvertTo16Bit

---
 src/image_function_simd.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/image_function_simd.cpp b/src/image_function_simd.cpp
index 77cf4fd..2240d4f 100644
--- a/src/image_function_simd.cpp
+++ b/src/image_function_simd.cpp
@@ -1342,7 +1342,7 @@ namespace sse
                 const simd srcData = _mm_loadu_si128( src );
 
                 _mm_storeu_si128( dst++, _mm_unpacklo_epi8( zero, srcData ) );
-                _mm_storeu_si128( dst++, _mm_unpacklo_epi8( zero, srcData ) );
+                _mm_storeu_si128( dst++, _mm_unpackhi_epi8( zero, srcData ) );
             }
 
             if ( nonSimdWidth > 0 ) {
-- 
2.43.0


From 849b394c0277e646d37fe856588ab0dd88a7c358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:07 +0000
Subject: [PATCH 18/58] fix: reject incorrect threshold range in vectorised
 Threshold

---
 src/image_function_simd.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/image_function_simd.cpp b/src/image_function_simd.cpp
index 2240d4f..c22cb09 100644
--- a/src/image_function_simd.cpp
+++ b/src/image_function_simd.cpp
@@ -3227,6 +3227,8 @@ namespace simd
 
         Image_Function::ValidateImageParameters( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
         Image_Function::VerifyGrayScaleImage( in, out );
+        if ( minThreshold > maxThreshold )
+            throw penguinVException( "Minimum threshold value is bigger than maximum threshold value" );
 
         Image_Function::OptimiseRoi( width, height, in, out );
 
-- 
2.43.0


From 91d0a29ab4fed4e2baf6d20926a16f8d5fbe6ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:42 +0000
Subject: [PATCH 19/58] fix: do not access task provider after completion of
 its tasks

---
 src/thread_pool.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/thread_pool.cpp b/src/thread_pool.cpp
index af9a214..1397a9a 100644
--- a/src/thread_pool.cpp
+++ b/src/thread_pool.cpp
@@ -50,9 +50,11 @@ AbstractTaskProvider & AbstractTaskProvider::operator=( const AbstractTaskProvid
 
 void AbstractTaskProvider::_taskRun( bool skip )
 {
+    // this object can be reused or even destroyed as soon as the last task is completed so the number of tasks must not be read after it
+    const size_t taskCount = _taskCount;
     const size_t taskId = _givenTaskCount++;
 
-    if ( taskId < _taskCount ) {
+    if ( taskId < taskCount ) {
         if ( !skip ) {
             try {
                 _task( taskId );
@@ -66,7 +68,7 @@ void AbstractTaskProvider::_taskRun( bool skip )
 
         const size_t completedTasks = ( ++_completedTaskCount );
 
-        if ( completedTasks == _taskCount ) {
+        if ( completedTasks == taskCount ) {
             _completion.lock();
 
             _running = false;
-- 
2.43.0


From f9b3d93d4c7472ff21082ceb2f980da529f5d417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:42 +0000
Subject: [PATCH 20/58] fix: complete tasks instead of executing them in
 ThreadPool::clear

---
 src/thread_pool.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/thread_pool.cpp b/src/thread_pool.cpp
index 1397a9a..4551572 100644
--- a/src/thread_pool.cpp
+++ b/src/thread_pool.cpp
@@ -251,7 +251,7 @@ void ThreadPool::clear()
 {
     _taskInfo.lock();
     // complete all tasks without real computations. It helps to avoid a deadlock in a case when thread pool is destroyed
-    std::for_each( _task.begin(), _task.end(), []( AbstractTaskProvider * task ) { task->_task( true ); } );
+    std::for_each( _task.begin(), _task.end(), []( AbstractTaskProvider * task ) { task->_taskRun( true ); } );
     _task.clear();
 
     _taskInfo.unlock();
-- 
2.43.0


From 4fe40f351eed549bd4526296c9ffef3ac5d9b41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:42 +0000
Subject: [PATCH 21/58] fix: complete tasks which are removed from thread pool

---
 src/thread_pool.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/thread_pool.cpp b/src/thread_pool.cpp
index 4551572..be8460a 100644
--- a/src/thread_pool.cpp
+++ b/src/thread_pool.cpp
@@ -242,7 +242,16 @@ void ThreadPool::remove( AbstractTaskProvider * provider )
 {
     _taskInfo.lock();
 
-    _task.remove( provider );
+    // removed tasks are completed without real computations otherwise the provider would wait for them forever
+    for ( std::list<AbstractTaskProvider *>::iterator task = _task.begin(); task != _task.end(); ) {
+        if ( *task == provider ) {
+            task = _task.erase( task );
+            provider->_taskRun( true );
+        }
+        else {
+            ++task;
+        }
+    }
 
     _taskInfo.unlock();
 }
-- 
2.43.0


From a6066f554f47feb4fd88aa34cfbb54981a15b635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:42 +0000
Subject: [PATCH 22/58] fix: allow to use thread pool after stop call

---
 src/thread_pool.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/thread_pool.cpp b/src/thread_pool.cpp
index be8460a..2fee2d7 100644
--- a/src/thread_pool.cpp
+++ b/src/thread_pool.cpp
@@ -283,6 +283,8 @@ void ThreadPool::stop()
             thread->join();
 
         _worker.clear();
+        _exit.clear();
+        _run.clear();
     }
 }
 
-- 
2.43.0


From 7a37615290bdd428a77ae2390ef5852107f2183a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:42 +0000
Subject: [PATCH 23/58] fix: avoid data races in thread pool

---
 src/thread_pool.cpp | 14 +++++++-------
 src/thread_pool.h   |  4 ++--
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/thread_pool.cpp b/src/thread_pool.cpp
index 2fee2d7..e2eed79 100644
--- a/src/thread_pool.cpp
+++ b/src/thread_pool.cpp
@@ -168,6 +168,10 @@ void ThreadPool::resize( size_t threads )
         _exit.resize( threads, 0 );
         _taskInfo.unlock();
 
+        _creation.lock();
+        _threadsCreated = false;
+        _creation.unlock();
+
         _threadCount = threads;
 
         while ( threads > threadCount() )
@@ -297,29 +301,25 @@ void ThreadPool::_workerThread( ThreadPool * pool, size_t threadId )
         pool->_creation.unlock();
     }
 
-    while ( !pool->_exit[threadId] ) {
+    while ( true ) {
+        // the arrays of indicators can be reallocated so they are accessible only under the lock
         std::unique_lock<std::mutex> _mutexLock( pool->_taskInfo );
         pool->_waiting.wait( _mutexLock, [&] { return pool->_run[threadId]; } );
-        _mutexLock.unlock();
 
         if ( pool->_exit[threadId] )
             break;
 
-        pool->_taskInfo.lock();
-
         if ( !pool->_task.empty() ) {
             AbstractTaskProvider * task = pool->_task.front();
 
             pool->_task.pop_front();
 
-            pool->_taskInfo.unlock();
+            _mutexLock.unlock();
 
             task->_taskRun( false );
         }
         else {
             pool->_run[threadId] = 0;
-
-            pool->_taskInfo.unlock();
         }
     }
 
diff --git a/src/thread_pool.h b/src/thread_pool.h
index 3a05aa0..242b420 100644
--- a/src/thread_pool.h
+++ b/src/thread_pool.h
@@ -55,12 +55,12 @@ private:
     std::atomic<size_t> _givenTaskCount; // number of tasks which were given to thread pool
     std::atomic<size_t> _completedTaskCount; // number of completed tasks
 
-    bool _running; // boolean variable specifies the state of tasks processing
+    std::atomic<bool> _running; // boolean variable specifies the state of tasks processing
     std::mutex _completion; // mutex for synchronization reporting about completion of all tasks
                             // this mutex is waited in _wait() function
     std::condition_variable _waiting; // condition variable for verification that all tasks are really completed
 
-    bool _exceptionRaised; // notifies whether an exception raised during task execution
+    std::atomic<bool> _exceptionRaised; // notifies whether an exception raised during task execution
 
     void _taskRun( bool skip ); // function is called only by thread pool to call _task() function and increment counters
 };
-- 
2.43.0


From 8d9195e9e74458f65b6c3f9e698bcd241c5824d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:47 +0000
Subject: [PATCH 24/58] fix: release the lock when memory cannot be reserved

---
 src/memory/cpu_memory.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/memory/cpu_memory.h b/src/memory/cpu_memory.h
index 33eb783..4d9f091 100644
--- a/src/memory/cpu_memory.h
+++ b/src/memory/cpu_memory.h
@@ -110,7 +110,7 @@ namespace cpu_Memory
         // true memory allocation on CPU
         virtual void _allocate( size_t size )
         {
-            _lock.lock();
+            std::lock_guard<std::mutex> lock( _lock );
             if ( _size != size && size > 0 ) {
                 if ( !_allocatedChunk.empty() ) {
                     throw std::logic_error( "Cannot free a memory on CPU. Not all objects were previously deallocated from allocator." );
@@ -125,7 +125,6 @@ namespace cpu_Memory
 
                 _size = size;
             }
-            _lock.unlock();
         }
 
         // true memory deallocation on CPU
-- 
2.43.0


From 5d314de783a7dfacddf8657f311ab8864fe90e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:47 +0000
Subject: [PATCH 25/58] fix: avoid overflow of requested memory size

---
 src/memory/cpu_memory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/memory/cpu_memory.h b/src/memory/cpu_memory.h
index 4d9f091..8175600 100644
--- a/src/memory/cpu_memory.h
+++ b/src/memory/cpu_memory.h
@@ -57,7 +57,7 @@ namespace cpu_Memory
             if ( _data != nullptr ) {
                 const size_t overallSize = size * sizeof( _DataType );
 
-                if ( overallSize < _size ) {
+                if ( size <= _size / sizeof( _DataType ) && overallSize < _size ) {
                     const uint8_t level = _getAllocationLevel( overallSize );
 
                     if ( _split( level ) ) {
-- 
2.43.0


From 81a8198326c038989887d0fca758875cfc4b3f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:47 +0000
Subject: [PATCH 26/58] fix: merge only halves of the same memory chunk

---
 src/memory/memory_allocator.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/memory/memory_allocator.h b/src/memory/memory_allocator.h
index d59dba1..d7ce5f2 100644
--- a/src/memory/memory_allocator.h
+++ b/src/memory/memory_allocator.h
@@ -135,7 +135,8 @@ protected:
             ++neighbour;
 
             if ( neighbour != level->end() ) {
-                if ( *( neighbour ) - *( pos ) == memorySize ) {
+                // only halves of the same chunk can be merged otherwise the chunk would not be aligned to its size
+                if ( *( neighbour ) - *( pos ) == memorySize && ( *( pos ) & memorySize ) == 0 ) {
                     offset = *pos;
                     ( level + 1 )->insert( offset );
                     level->erase( pos, ++neighbour );
@@ -147,7 +148,7 @@ protected:
                 neighbour = pos;
                 --neighbour;
 
-                if ( *( pos ) - *( neighbour ) == memorySize ) {
+                if ( *( pos ) - *( neighbour ) == memorySize && ( *( neighbour ) & memorySize ) == 0 ) {
                     offset = *neighbour;
                     ( level + 1 )->insert( offset );
                     level->erase( neighbour, ++pos );
-- 
2.43.0


From 14b3d82281bcde08f9e2710232cc89fe99fbd730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:47 +0000
Subject: [PATCH 27/58] fix: keep image data on self-assignment

---
 src/image_buffer.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/image_buffer.h b/src/image_buffer.h
index 6ed23b0..aee4f9b 100644
--- a/src/image_buffer.h
+++ b/src/image_buffer.h
@@ -211,6 +211,10 @@ namespace penguinV
 
         void copy( const ImageTemplate & image )
         {
+            if ( this == &image ) {
+                return;
+            }
+
             if ( _deviceType != image._deviceType ) {
                 throw penguinVException( "Cannot copy image of one type to another type." );
             }
-- 
2.43.0


From f06f1f5c31ab0a596faa17d9d6401128c81bc5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:47 +0000
Subject: [PATCH 28/58] fix: avoid overflow of image row size and image size

---
 src/image_buffer.h | 43 ++++++++++++++++++++++++++++++-------------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/src/image_buffer.h b/src/image_buffer.h
index aee4f9b..b03b008 100644
--- a/src/image_buffer.h
+++ b/src/image_buffer.h
@@ -83,15 +83,16 @@ namespace penguinV
         void resize( uint32_t width_, uint32_t height_ )
         {
             if ( width_ > 0 && height_ > 0 && ( width_ != _width || height_ != _height ) ) {
+                if ( !_isValidRowSize( width_, colorCount(), alignment() ) ) {
+                    throw penguinVException( "Image row size is too big" );
+                }
+
                 clear();
 
                 _width = width_;
                 _height = height_;
 
-                _rowSize = width() * colorCount();
-                if ( _rowSize % alignment() != 0 ) {
-                    _rowSize = ( _rowSize / alignment() + 1 ) * alignment();
-                }
+                _rowSize = _getRowSize( width(), colorCount(), alignment() );
 
                 _data = _allocate( static_cast<size_t>( _height ) * static_cast<size_t>( _rowSize ) );
             }
@@ -121,7 +122,8 @@ namespace penguinV
 
         void assign( TColorDepth * data_, uint32_t width_, uint32_t height_, uint8_t colorCount_, uint8_t alignment_ )
         {
-            if ( data_ == nullptr || width_ == 0 || height_ == 0 || colorCount_ == 0 || alignment_ == 0 ) {
+            if ( data_ == nullptr || width_ == 0 || height_ == 0 || colorCount_ == 0 || alignment_ == 0
+                 || !_isValidRowSize( width_, colorCount_, alignment_ ) ) {
                 throw penguinVException( "Invalid image assignment parameters" );
             }
 
@@ -135,10 +137,7 @@ namespace penguinV
 
             _data = data_;
 
-            _rowSize = width() * colorCount();
-            if ( _rowSize % alignment() != 0 ) {
-                _rowSize = ( _rowSize / alignment() + 1 ) * alignment();
-            }
+            _rowSize = _getRowSize( width(), colorCount(), alignment() );
         }
 
         bool empty() const
@@ -238,12 +237,13 @@ namespace penguinV
         bool mutate( uint32_t width_, uint32_t height_, uint8_t colorCount_, uint8_t alignment_ )
         {
             if ( colorCount_ > 0 && alignment_ > 0 ) {
-                uint32_t rowSize_ = width_ * colorCount_;
-                if ( rowSize_ % alignment_ != 0 ) {
-                    rowSize_ = ( rowSize_ / alignment_ + 1 ) * alignment_;
+                if ( !_isValidRowSize( width_, colorCount_, alignment_ ) ) {
+                    return false;
                 }
 
-                if ( rowSize_ * height_ != _rowSize * _height ) {
+                const uint32_t rowSize_ = _getRowSize( width_, colorCount_, alignment_ );
+
+                if ( static_cast<size_t>( rowSize_ ) * height_ != static_cast<size_t>( _rowSize ) * _height ) {
                     return false;
                 }
 
@@ -290,6 +290,23 @@ namespace penguinV
         }
 
     private:
+        // Returns the size of a row with padding. Row size must be verified by _isValidRowSize() function before
+        static uint32_t _getRowSize( uint32_t width_, uint8_t colorCount_, uint8_t alignment_ )
+        {
+            uint32_t rowSize_ = width_ * colorCount_;
+            if ( rowSize_ % alignment_ != 0 ) {
+                rowSize_ = ( rowSize_ / alignment_ + 1 ) * alignment_;
+            }
+
+            return rowSize_;
+        }
+
+        // Verifies that a row with its padding does not exceed the limit of row size type
+        static bool _isValidRowSize( uint32_t width_, uint8_t colorCount_, uint8_t alignment_ )
+        {
+            return static_cast<uint64_t>( width_ ) * colorCount_ + alignment_ <= 0xFFFFFFFFu;
+        }
+
         TColorDepth * _allocate( size_t size ) const
         {
             return FunctionFacade::instance().allocate( _deviceType )( size );
-- 
2.43.0


From 80aaf01b6d68edfcf0045330c83d77157b78475e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:29 +0000
Subject: [PATCH 29/58] fix: masked histogram requires a gray-scale mask
 instead of misreading a color one

---
 src/image_function.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/image_function.cpp b/src/image_function.cpp
index fe04eb0..b69a461 100644
--- a/src/image_function.cpp
+++ b/src/image_function.cpp
@@ -925,6 +925,7 @@ namespace Image_Function
                     std::vector<uint32_t> & histogram )
     {
         ValidateImageParameters( image, x, y, mask, maskX, maskY, width, height );
+        VerifyGrayScaleImage( mask );
         OptimiseRoi( width, height, image, mask );
 
         const uint32_t colorCount = image.colorCount();
-- 
2.43.0


From 21461ecabb138f6fcbf72552af3089758c0ba1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:08 +0000
Subject: [PATCH 30/58] fix: expand the first stored row of 256-colour bitmaps

---
 src/file/bmp_image.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/file/bmp_image.cpp b/src/file/bmp_image.cpp
index 1fb3550..4048e0a 100644
--- a/src/file/bmp_image.cpp
+++ b/src/file/bmp_image.cpp
@@ -499,7 +499,7 @@ namespace Bitmap_Operation
             const uint8_t * inYEnd = image.data();
             uint8_t * outY = image.data() + image.rowSize() * ( image.height() - 1 );
 
-            for ( ; inY != inYEnd; inY -= rowSize, outY -= image.rowSize() ) {
+            for ( ;; inY -= rowSize, outY -= image.rowSize() ) {
                 const uint8_t * inX = inY + ( info->width() - 1u );
                 const uint8_t * inXEnd = inY;
                 uint8_t * outX = outY + 3u * ( image.width() - 1u );
@@ -513,6 +513,9 @@ namespace Bitmap_Operation
                     if ( inX == inXEnd ) // this is done to count first pixel in row
                         break;
                 }
+
+                if ( inY == inYEnd ) // this is done to count first row in image
+                    break;
             }
         }
 
-- 
2.43.0


From 587240b9e6b3e8afb5f3628a70500d38d7f7ade6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:08 +0000
Subject: [PATCH 31/58] fix: load bitmap files smaller than the in-memory size
 of the header structures

---
 src/file/bmp_image.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file/bmp_image.cpp b/src/file/bmp_image.cpp
index 4048e0a..68aa743 100644
--- a/src/file/bmp_image.cpp
+++ b/src/file/bmp_image.cpp
@@ -396,7 +396,7 @@ namespace Bitmap_Operation
         file.seekg( 0, file.end );
         std::streamoff length = file.tellg();
 
-        if ( length == std::char_traits<char>::pos_type( -1 ) || static_cast<size_t>( length ) < sizeof( BitmapFileHeader ) + sizeof( BitmapInfoHeader ) )
+        if ( length == std::char_traits<char>::pos_type( -1 ) || static_cast<size_t>( length ) < BitmapFileHeader().overallSize + BitmapCoreHeader().overallSize )
             return penguinV::Image();
 
         file.seekg( 0, file.beg );
-- 
2.43.0


From 79147352c8f34eb863aeb5773917a43014654794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:09 +0000
Subject: [PATCH 32/58] fix: do not read bitmap header fields through
 misaligned pointers

---
 src/file/bmp_image.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file/bmp_image.cpp b/src/file/bmp_image.cpp
index 68aa743..0c8d84f 100644
--- a/src/file/bmp_image.cpp
+++ b/src/file/bmp_image.cpp
@@ -71,7 +71,7 @@ namespace Bitmap_Operation
     template <typename valueType>
     void get_value( const std::vector<uint8_t> & data, size_t & offset, valueType & value )
     {
-        value = *( reinterpret_cast<const valueType *>( data.data() + offset ) );
+        memcpy( &value, data.data() + offset, sizeof( valueType ) );
         offset += sizeof( valueType );
     }
 
-- 
2.43.0


From 4d5e71ac42ddfd5f0860fb55b6ab4cc9388569b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:09 +0000
Subject: [PATCH 33/58] fix: do not negate the minimum integer in a bitmap
 height

---
 src/file/bmp_image.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/file/bmp_image.cpp b/src/file/bmp_image.cpp
index 0c8d84f..540a371 100644
--- a/src/file/bmp_image.cpp
+++ b/src/file/bmp_image.cpp
@@ -22,6 +22,7 @@
 #include "../parameter_validation.h"
 #include "../penguinv_exception.h"
 #include <fstream>
+#include <limits>
 #include <memory>
 #include <vector>
 
@@ -283,7 +284,7 @@ namespace Bitmap_Operation
             get_value( data, offset, biClrUsed );
             get_value( data, offset, biClrImportant );
 
-            if ( biHeight < 0 ) {
+            if ( biHeight < 0 && biHeight != std::numeric_limits<int32_t>::min() ) { // the minimum value cannot be negated and it is not a valid height
                 biHeight = -biHeight;
                 flipped = false;
             }
-- 
2.43.0


From 39b16cf8a05458c2b61918d6aab5650f521f5a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:09 +0000
Subject: [PATCH 34/58] fix: compute the size of bitmap data with 64 bits

---
 src/file/bmp_image.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/file/bmp_image.cpp b/src/file/bmp_image.cpp
index 540a371..8307cc1 100644
--- a/src/file/bmp_image.cpp
+++ b/src/file/bmp_image.cpp
@@ -361,12 +361,12 @@ namespace Bitmap_Operation
 
         virtual bool validate( const BitmapFileHeader & header ) const
         {
-            uint32_t rowSize = width() * colorCount();
+            uint64_t rowSize = static_cast<uint64_t>( width() ) * colorCount();
             if ( rowSize % BITMAP_ALIGNMENT != 0 )
                 rowSize = ( rowSize / BITMAP_ALIGNMENT + 1 ) * BITMAP_ALIGNMENT;
 
             return !( biBitCount == 8u || biBitCount == 24u || biBitCount == 32u ) || biWidth <= 0 || biHeight <= 0 || biSize != BitmapInfoHeader().biSize
-                   || ( biSizeImage != rowSize * static_cast<uint32_t>( biHeight ) && biSizeImage != 0 ) || biPlanes != BitmapInfoHeader().biPlanes
+                   || ( biSizeImage != rowSize * height() && biSizeImage != 0 ) || biPlanes != BitmapInfoHeader().biPlanes
                    || header.bfOffBits < overallSize + header.overallSize;
         }
     };
@@ -441,13 +441,16 @@ namespace Bitmap_Operation
         if ( info->validate( header ) )
             return penguinV::Image();
 
-        uint32_t rowSize = info->width() * info->colorCount();
-        if ( rowSize % BITMAP_ALIGNMENT != 0 )
-            rowSize = ( rowSize / BITMAP_ALIGNMENT + 1 ) * BITMAP_ALIGNMENT;
+        uint64_t fileRowSize = static_cast<uint64_t>( info->width() ) * info->colorCount();
+        if ( fileRowSize % BITMAP_ALIGNMENT != 0 )
+            fileRowSize = ( fileRowSize / BITMAP_ALIGNMENT + 1 ) * BITMAP_ALIGNMENT;
 
-        if ( length != header.bfOffBits + rowSize * info->height() )
+        // neither the row size nor the size of the whole image can exceed 32 bits
+        if ( fileRowSize > std::numeric_limits<uint32_t>::max() / info->height() || static_cast<uint64_t>( length ) != header.bfOffBits + fileRowSize * info->height() )
             return penguinV::Image();
 
+        const uint32_t rowSize = static_cast<uint32_t>( fileRowSize );
+
         const uint32_t palleteSize = header.bfOffBits - info->size() - header.overallSize;
         std::vector<uint8_t> pallete( palleteSize );
 
-- 
2.43.0


From 19e4c4e97af73488088ac66b686a62cadbd8eed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:44 +0000
Subject: [PATCH 35/58] fix: Prewitt and Sobel zeroed the last column and row
 of a region when exactly one more column or row follows it

---
 src/filtering.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/filtering.cpp b/src/filtering.cpp
index 3d95200..a5cdc23 100644
--- a/src/filtering.cpp
+++ b/src/filtering.cpp
@@ -174,8 +174,8 @@ namespace Image_Function
 
         const uint32_t startXOffset = ( startXIn > 0u ) ? 1u : 0u;
         const uint32_t startYOffset = ( startYIn > 0u ) ? 1u : 0u;
-        const uint32_t endXOffset = ( ( startXIn + width + 1u ) < in.width() ) ? 1u : 0u;
-        const uint32_t endYOffset = ( ( startYIn + height + 1u ) < in.height() ) ? 1u : 0u;
+        const uint32_t endXOffset = ( ( startXIn + width ) < in.width() ) ? 1u : 0u;
+        const uint32_t endYOffset = ( ( startYIn + height ) < in.height() ) ? 1u : 0u;
 
         // Create the map of gradient values
         const uint32_t gradientWidth = width - ( ( ( startXOffset > 0u ) ? 0u : 1u ) + ( ( endXOffset > 0u ) ? 0u : 1u ) );
@@ -282,8 +282,8 @@ namespace Image_Function
 
         const uint32_t startXOffset = ( startXIn > 0u ) ? 1u : 0u;
         const uint32_t startYOffset = ( startYIn > 0u ) ? 1u : 0u;
-        const uint32_t endXOffset = ( ( startXIn + width + 1u ) < in.width() ) ? 1u : 0u;
-        const uint32_t endYOffset = ( ( startYIn + height + 1u ) < in.height() ) ? 1u : 0u;
+        const uint32_t endXOffset = ( ( startXIn + width ) < in.width() ) ? 1u : 0u;
+        const uint32_t endYOffset = ( ( startYIn + height ) < in.height() ) ? 1u : 0u;
 
         // Create the map of gradient values
         const uint32_t gradientWidth = width - ( ( ( startXOffset > 0u ) ? 0u : 1u ) + ( ( endXOffset > 0u ) ? 0u : 1u ) );
-- 
2.43.0


From f218f6b632879448558cb86bb6898f8e63980947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:06 +0000
Subject: [PATCH 36/58] fix: filter kernel table converted values above 255 to
 8 bits

---
 src/filtering.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/filtering.cpp b/src/filtering.cpp
index a5cdc23..099e523 100644
--- a/src/filtering.cpp
+++ b/src/filtering.cpp
@@ -36,8 +36,10 @@ namespace
             const uint32_t size = 256u * sizeInBytes;
             for ( uint32_t i = 0; i < size; ++i ) {
                 const uint32_t squaredI = i * i;
-                for ( uint32_t j = i; j < size; ++j )
-                    kernel[i][j] = kernel[j][i] = static_cast<uint8_t>( sqrtf( static_cast<float>( squaredI + j * j ) ) * multiplier_ + 0.5f );
+                for ( uint32_t j = i; j < size; ++j ) {
+                    const float value = sqrtf( static_cast<float>( squaredI + j * j ) ) * multiplier_ + 0.5f;
+                    kernel[i][j] = kernel[j][i] = ( value < 255.0f ) ? static_cast<uint8_t>( value ) : 255u;
+                }
             }
         }
 
-- 
2.43.0


From e624f437693b1669ee5d9da2954577921eeba2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:06 +0000
Subject: [PATCH 37/58] fix: light correction read uninitialised sizes when
 used before analysis

---
 src/tool/light_correction.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tool/light_correction.h b/src/tool/light_correction.h
index c5daff1..846eb4e 100644
--- a/src/tool/light_correction.h
+++ b/src/tool/light_correction.h
@@ -38,6 +38,6 @@ public:
 
 private:
     std::vector<uint32_t> _data;
-    uint32_t _width;
-    uint32_t _height;
+    uint32_t _width{ 0 };
+    uint32_t _height{ 0 };
 };
-- 
2.43.0


From 2297a101590deb85b58c7048a53d172deb67bbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:06 +0000
Subject: [PATCH 38/58] fix: light correction analysis accepted colour images
 and kept a partial state after rejecting an image

---
 src/tool/light_correction.cpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/tool/light_correction.cpp b/src/tool/light_correction.cpp
index 828ec22..bc3d11f 100644
--- a/src/tool/light_correction.cpp
+++ b/src/tool/light_correction.cpp
@@ -24,22 +24,21 @@
 void LightCorrection::analyze( const penguinV::Image & image )
 {
     Image_Function::ValidateImageParameters( image );
+    Image_Function::VerifyGrayScaleImage( image );
 
-    _width = image.width();
-    _height = image.height();
-
-    _data.resize( _width * _height );
+    const uint32_t width = image.width();
+    const uint32_t height = image.height();
 
     uint8_t minValue = 255u;
     uint8_t maxValue = 0u;
 
     const uint32_t rowSize = image.rowSize();
     const uint8_t * imageY = image.data();
-    const uint8_t * imageYEnd = imageY + _height * rowSize;
+    const uint8_t * imageYEnd = imageY + height * rowSize;
 
     for ( ; imageY != imageYEnd; imageY += rowSize ) {
         const uint8_t * imageX = imageY;
-        const uint8_t * imageXEnd = imageX + _width;
+        const uint8_t * imageXEnd = imageX + width;
 
         for ( ; imageX != imageXEnd; ++imageX ) {
             if ( ( *imageX ) < minValue && ( *imageX ) > 0 )
@@ -53,13 +52,19 @@ void LightCorrection::analyze( const penguinV::Image & image )
     if ( minValue >= maxValue )
         throw penguinVException( "Image in invalid. Minimum value cannot be greater or equal to maximum value." );
 
+    // from here the image is known to be valid
+    _width = width;
+    _height = height;
+
+    _data.resize( _width * _height );
+
     imageY = image.data();
-    imageYEnd = imageY + _height * rowSize;
+    imageYEnd = imageY + height * rowSize;
     uint32_t * data = _data.data();
 
     for ( ; imageY != imageYEnd; imageY += rowSize ) {
         const uint8_t * imageX = imageY;
-        const uint8_t * imageXEnd = imageX + _width;
+        const uint8_t * imageXEnd = imageX + width;
 
         for ( ; imageX != imageXEnd; ++imageX, ++data ) {
             if ( ( *imageX ) > maxValue )
-- 
2.43.0


From 913e26cf385d6d9abc2d584cfb97d477d2694b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:06 +0000
Subject: [PATCH 39/58] fix: light correction read outside of its data for
 areas not covered by the analyzed image

---
 src/tool/light_correction.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tool/light_correction.cpp b/src/tool/light_correction.cpp
index bc3d11f..851f530 100644
--- a/src/tool/light_correction.cpp
+++ b/src/tool/light_correction.cpp
@@ -90,6 +90,10 @@ void LightCorrection::correct( penguinV::Image & image, uint32_t x, uint32_t y,
     if ( _width == 0 || _height == 0 )
         throw penguinVException( "Image is not being analyzed before calling correction. Analyze first." );
 
+    Image_Function::VerifyGrayScaleImage( image );
+    if ( x + width > _width || y + height > _height )
+        throw penguinVException( "Corrected area is outside of the analyzed image." );
+
     const uint32_t rowSize = image.rowSize();
 
     uint8_t * imageY = image.data() + y * rowSize + x;
-- 
2.43.0


From a7682161c712c460f1cdd39f8cebfd10b52bef9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:06 +0000
Subject: [PATCH 40/58] fix: light correction searched for incorrect pixels
 outside of a smaller image

---
 src/tool/light_correction.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tool/light_correction.cpp b/src/tool/light_correction.cpp
index 851f530..e047e96 100644
--- a/src/tool/light_correction.cpp
+++ b/src/tool/light_correction.cpp
@@ -118,6 +118,11 @@ void LightCorrection::correct( penguinV::Image & image, uint32_t x, uint32_t y,
 
 std::vector<PointBase2D<uint32_t>> LightCorrection::findIncorrectPixels( const penguinV::Image & image ) const
 {
+    Image_Function::ValidateImageParameters( image );
+    Image_Function::VerifyGrayScaleImage( image );
+    if ( image.width() < _width || image.height() < _height )
+        throw penguinVException( "Image is smaller than the analyzed image." );
+
     std::vector<PointBase2D<uint32_t>> point;
 
     const uint32_t rowSize = image.rowSize();
-- 
2.43.0


From 4bcc48138195a976aca3d83b398ea547addc6f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:32 +0000
Subject: [PATCH 41/58] fix: edge detection read outside of the area when
 grouping more rows or columns than it has

---
 src/edge_detection.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/edge_detection.cpp b/src/edge_detection.cpp
index 03c3ac4..c839fc8 100644
--- a/src/edge_detection.cpp
+++ b/src/edge_detection.cpp
@@ -268,6 +268,11 @@ namespace
             return;
         }
 
+        // there is no group of such number of rows or columns within the area
+        if ( edgeParameter.groupFactor > ( horizontalEdgeDetectionBase ? height : width ) ) {
+            return;
+        }
+
         const uint32_t rowSize = image.rowSize();
 
         if ( horizontalEdgeDetectionBase ) {
-- 
2.43.0


From 268413dd7762f35c8cccb9a646b0631776ad9f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:32 +0000
Subject: [PATCH 42/58] fix: edge detection contrast offset wrapped around and
 caused out of bounds reads

---
 src/edge_detection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/edge_detection.cpp b/src/edge_detection.cpp
index c839fc8..7554488 100644
--- a/src/edge_detection.cpp
+++ b/src/edge_detection.cpp
@@ -87,7 +87,7 @@ namespace
             return false;
         }
 
-        if ( checkContrast && leftSideContrastCheck <= position && ( rightSideContrastCheck + position ) < size ) {
+        if ( checkContrast && leftSideContrastCheck <= position && rightSideContrastCheck < size - position ) {
             const uint32_t blackContrastEnd = position;
             const uint32_t whiteContrastStart = position + 1;
 
-- 
2.43.0


From d9ec67c2531557ee517b2460bf75a35acc44d241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:24 +0000
Subject: [PATCH 43/58] fix: blob elongation used a wrong end point and wrapped
 unsigned coordinate differences

---
 src/blob_detection.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/blob_detection.cpp b/src/blob_detection.cpp
index a9d6e3a..81eacfd 100644
--- a/src/blob_detection.cpp
+++ b/src/blob_detection.cpp
@@ -64,7 +64,7 @@ namespace
                     startPoint.y = *y;
 
                     endPoint.x = *xx;
-                    endPoint.y = *xx;
+                    endPoint.y = *yy;
                 }
             }
         }
@@ -126,7 +126,9 @@ namespace Blob_Detection
                 PointBase2D<uint32_t> startPoint;
                 PointBase2D<uint32_t> endPoint;
                 const double length = getLengthFromCountour( _contourX, _contourY, startPoint, endPoint );
-                const double angle = -atan2( static_cast<double>( endPoint.y - startPoint.y ), static_cast<double>( endPoint.x - startPoint.x ) );
+                const double startX = startPoint.x;
+                const double startY = startPoint.y;
+                const double angle = -atan2( endPoint.y - startY, endPoint.x - startX );
 
                 const double _cos = cos( angle );
                 const double _sin = sin( angle );
@@ -138,7 +140,7 @@ namespace Blob_Detection
                 auto endRotated = _contourX.end();
 
                 for ( ; xRotated != endRotated; ++xRotated, ++yRotated ) {
-                    ( *yRotated ) = ( *xRotated - startPoint.x ) * _sin + ( *yRotated - startPoint.y ) * _cos;
+                    ( *yRotated ) = ( *xRotated - startX ) * _sin + ( *yRotated - startY ) * _cos;
                 }
 
                 double height = *( std::max_element( contourYTemp.begin(), contourYTemp.end() ) ) - *( std::min_element( contourYTemp.begin(), contourYTemp.end() ) );
-- 
2.43.0


From 7d261d248de82e86491a8f3d65e4b2f2528f43ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:24 +0000
Subject: [PATCH 44/58] fix: blob center of a big blob overflowed a 32-bit sum

---
 src/blob_detection.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/blob_detection.cpp b/src/blob_detection.cpp
index 81eacfd..a9630e6 100644
--- a/src/blob_detection.cpp
+++ b/src/blob_detection.cpp
@@ -90,8 +90,8 @@ namespace Blob_Detection
     void BlobInfo::_getCenter()
     {
         if ( !_center.found && !_pointX.empty() && !_pointY.empty() ) {
-            _center.value.x = static_cast<double>( std::accumulate( _pointX.begin(), _pointX.end(), 0 ) ) / static_cast<double>( size() );
-            _center.value.y = static_cast<double>( std::accumulate( _pointY.begin(), _pointY.end(), 0 ) ) / static_cast<double>( size() );
+            _center.value.x = static_cast<double>( std::accumulate( _pointX.begin(), _pointX.end(), static_cast<uint64_t>( 0 ) ) ) / static_cast<double>( size() );
+            _center.value.y = static_cast<double>( std::accumulate( _pointY.begin(), _pointY.end(), static_cast<uint64_t>( 0 ) ) ) / static_cast<double>( size() );
 
             _center.found = true;
         }
-- 
2.43.0


From 86bd1c78a718e2409629faac5bfd2597f52ae19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:24 +0000
Subject: [PATCH 45/58] fix: blob length overflowed 32 bits for distant points

---
 src/blob_detection.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/blob_detection.cpp b/src/blob_detection.cpp
index a9630e6..aaef3b4 100644
--- a/src/blob_detection.cpp
+++ b/src/blob_detection.cpp
@@ -47,15 +47,16 @@ namespace
         auto y = contourY.cbegin();
         auto end = contourX.cend();
 
-        int32_t maximumDistance = 0;
+        int64_t maximumDistance = 0;
 
         for ( ; x != ( end - 1 ); ++x, ++y ) {
             auto xx = x + 1;
             auto yy = y + 1;
 
             for ( ; xx != end; ++xx, ++yy ) {
-                const int32_t distance
-                    = static_cast<int32_t>( *x - *xx ) * static_cast<int32_t>( *x - *xx ) + static_cast<int32_t>( *y - *yy ) * static_cast<int32_t>( *y - *yy );
+                const int64_t differenceX = static_cast<int64_t>( *x ) - *xx;
+                const int64_t differenceY = static_cast<int64_t>( *y ) - *yy;
+                const int64_t distance = differenceX * differenceX + differenceY * differenceY;
 
                 if ( maximumDistance < distance ) {
                     maximumDistance = distance;
-- 
2.43.0


From 410ca03d7dbfb990560a1c07c4aa31d78147957e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:24 +0000
Subject: [PATCH 46/58] fix: blob values which are not calculated were
 uninitialised

---
 src/blob_detection.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blob_detection.h b/src/blob_detection.h
index 41bf86e..433ff58 100644
--- a/src/blob_detection.h
+++ b/src/blob_detection.h
@@ -138,7 +138,7 @@ namespace Blob_Detection
     template <typename Data>
     struct Value
     {
-        Data value;
+        Data value{};
         bool found{ false };
     };
 
-- 
2.43.0


From e1c436176b365819e03910c60d6b16551d2b172c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:05 +0000
Subject: [PATCH 47/58] fix: copyOpenCL kernel wrote one row below the
 requested output region

---
 src/opencl/image_function_opencl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opencl/image_function_opencl.cpp b/src/opencl/image_function_opencl.cpp
index cbe877d..a96e866 100644
--- a/src/opencl/image_function_opencl.cpp
+++ b/src/opencl/image_function_opencl.cpp
@@ -171,7 +171,7 @@ namespace
             const size_t y = get_global_id(1);
 
             if ( x < width && y < height ) {
-                out[rowSizeOut + y * rowSizeOut + x] = in[offsetIn + y * rowSizeIn + x];
+                out[offsetOut + y * rowSizeOut + x] = in[offsetIn + y * rowSizeIn + x];
             }
         }
 
-- 
2.43.0


From 32c9ba3b0f03ed1a7e81f6a7ed1108c84c93b34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:05 +0000
Subject: [PATCH 48/58] fix: extractChannelOpenCL kernel read wrong rows of a
 multi-row image

---
 src/opencl/image_function_opencl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opencl/image_function_opencl.cpp b/src/opencl/image_function_opencl.cpp
index a96e866..a0ff644 100644
--- a/src/opencl/image_function_opencl.cpp
+++ b/src/opencl/image_function_opencl.cpp
@@ -182,7 +182,7 @@ namespace
             const size_t y = get_global_id(1);
 
             if( x < width && y < height )
-                out[offsetOut + y * rowSizeOut + x] = in[offsetIn + (y * rowSizeIn + x) * colorCount + channelId];
+                out[offsetOut + y * rowSizeOut + x] = in[offsetIn + y * rowSizeIn + x * colorCount + channelId];
         }
 
         __kernel void fillOpenCL( __global uchar * data, uint offset, uint rowSize, uint width, uint height, uchar value )
-- 
2.43.0


From f08eb8d8eab2ae2260e7ec5bf2cf207a9a1cc308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:05 +0000
Subject: [PATCH 49/58] fix: OpenCL functions swapped the x and y start
 position of a region

---
 src/opencl/image_function_opencl.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/opencl/image_function_opencl.cpp b/src/opencl/image_function_opencl.cpp
index a0ff644..9e91028 100644
--- a/src/opencl/image_function_opencl.cpp
+++ b/src/opencl/image_function_opencl.cpp
@@ -640,7 +640,7 @@ namespace Image_Function_OpenCL
         const uint32_t rowSizeIn = in.rowSize();
         const uint32_t rowSizeOut = out.rowSize();
 
-        const uint32_t offsetIn = startXIn * rowSizeIn + startYIn * in.colorCount();
+        const uint32_t offsetIn = startYIn * rowSizeIn + startXIn * in.colorCount();
         const uint32_t offsetOut = startYOut * rowSizeOut + startXOut * out.colorCount();
 
         kernel.setArgument( in.data(), offsetIn, rowSizeIn, in.colorCount(), out.data(), offsetOut, rowSizeOut, width, height );
@@ -678,7 +678,7 @@ namespace Image_Function_OpenCL
             const uint32_t rowSizeIn = in.rowSize();
             const uint32_t rowSizeOut = out.rowSize();
 
-            const uint32_t offsetIn = startXIn * rowSizeIn + startYIn * in.colorCount();
+            const uint32_t offsetIn = startYIn * rowSizeIn + startXIn * in.colorCount();
             const uint32_t offsetOut = startYOut * rowSizeOut + startXOut * out.colorCount();
 
             kernel.setArgument( in.data(), offsetIn, rowSizeIn, out.data(), offsetOut, rowSizeOut, out.colorCount(), width, height );
@@ -712,7 +712,7 @@ namespace Image_Function_OpenCL
         const uint32_t rowSizeIn = in.rowSize();
         const uint32_t rowSizeOut = out.rowSize();
 
-        const uint32_t offsetIn = startXIn * rowSizeIn + startYIn * colorCount;
+        const uint32_t offsetIn = startYIn * rowSizeIn + startXIn * colorCount;
         const uint32_t offsetOut = startYOut * rowSizeOut + startXOut * colorCount;
 
         kernel.setArgument( in.data(), offsetIn, rowSizeIn, out.data(), offsetOut, rowSizeOut, width, height );
@@ -750,7 +750,7 @@ namespace Image_Function_OpenCL
         const uint32_t rowSizeIn = in.rowSize();
         const uint32_t rowSizeOut = out.rowSize();
 
-        const uint32_t offsetIn = startXIn * rowSizeIn + startYIn * in.colorCount();
+        const uint32_t offsetIn = startYIn * rowSizeIn + startXIn * in.colorCount();
         const uint32_t offsetOut = startYOut * rowSizeOut + startXOut * out.colorCount();
 
         kernel.setArgument( in.data(), offsetIn, rowSizeIn, in.colorCount(), out.data(), offsetOut, rowSizeOut, width, height, channelId );
@@ -772,7 +772,7 @@ namespace Image_Function_OpenCL
         multiCL::OpenCLKernel kernel( program, "fillOpenCL" );
 
         const uint32_t rowSize = image.rowSize();
-        const uint32_t offset = x * rowSize + y;
+        const uint32_t offset = y * rowSize + x;
 
         kernel.setArgument( image.data(), offset, rowSize, width, height, value );
 
@@ -879,7 +879,7 @@ namespace Image_Function_OpenCL
         multiCL::OpenCLKernel kernel( program, "histogramOpenCL" );
 
         const uint32_t rowSize = image.rowSize();
-        const uint32_t offset = x * rowSize + y;
+        const uint32_t offset = y * rowSize + x;
 
         kernel.setArgument( image.data(), offset, rowSize, width, height, histogramOpenCL.data() );
 
@@ -990,7 +990,7 @@ namespace Image_Function_OpenCL
         const uint32_t rowSizeIn = in.rowSize();
         const uint32_t rowSizeOut = out.rowSize();
 
-        const uint32_t offsetIn = startXIn * rowSizeIn + startYIn * colorCount;
+        const uint32_t offsetIn = startYIn * rowSizeIn + startXIn * colorCount;
         const uint32_t offsetOut = startYOut * rowSizeOut + startXOut * colorCount;
 
         kernel.setArgument( in.data(), offsetIn, rowSizeIn, out.data(), offsetOut, rowSizeOut, width, height, tableOpenCL.data() );
@@ -1289,7 +1289,7 @@ namespace Image_Function_OpenCL
         const uint32_t rowSizeIn = in.rowSize();
         const uint32_t rowSizeOut = out.rowSize();
 
-        const uint32_t offsetIn = startXIn * rowSizeIn + startYIn;
+        const uint32_t offsetIn = startYIn * rowSizeIn + startXIn;
         const uint32_t offsetOut = startYOut * rowSizeOut + startXOut;
 
         kernel.setArgument( in.data(), offsetIn, rowSizeIn, out.data(), offsetOut, rowSizeOut, width, height, threshold );
@@ -1324,7 +1324,7 @@ namespace Image_Function_OpenCL
         const uint32_t rowSizeIn = in.rowSize();
         const uint32_t rowSizeOut = out.rowSize();
 
-        const uint32_t offsetIn = startXIn * rowSizeIn + startYIn;
+        const uint32_t offsetIn = startYIn * rowSizeIn + startXIn;
         const uint32_t offsetOut = startYOut * rowSizeOut + startXOut;
 
         kernel.setArgument( in.data(), offsetIn, rowSizeIn, out.data(), offsetOut, rowSizeOut, width, height, minThreshold, maxThreshold );
-- 
2.43.0


From 948050f58414b3a6b632744ada93f710ebb74561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:05 +0000
Subject: [PATCH 50/58] fix: SetPixel of OpenCL used overloaded kernels,
 mismatched arguments and added the position twice

---
 src/opencl/image_function_opencl.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/opencl/image_function_opencl.cpp b/src/opencl/image_function_opencl.cpp
index 9e91028..d06b500 100644
--- a/src/opencl/image_function_opencl.cpp
+++ b/src/opencl/image_function_opencl.cpp
@@ -326,15 +326,15 @@ namespace
             }
         }
 
-        __kernel void __attribute__(( overloadable )) setPixelOpenCL( __global uchar * data, uint offset, uint rowSize, uint width, uint height, uint x, uint y, uchar value )
+        __kernel void setPixelOpenCL( __global uchar * data, uint offset, uint rowSize, uint width, uint height, uint x, uint y, uchar value )
         {
             if ( x < width && y < height ) {
                 data[offset + y * rowSize + x] = value;
             }
         }
 
-        __kernel void __attribute__(( overloadable )) setPixelOpenCL( __global uchar * data, uint offset, uint rowSize, uint width, uint height,
-                                                                      __global const uint * pointX, __global const uint * pointY, uint pointSize, uint value )
+        __kernel void setPixelsOpenCL( __global uchar * data, uint offset, uint rowSize, uint width, uint height,
+                                       __global const uint * pointX, __global const uint * pointY, uint pointSize, uchar value )
         {
             const size_t id = get_global_id(0);
 
@@ -1227,7 +1227,7 @@ namespace Image_Function_OpenCL
         const uint32_t width = image.width();
         const uint32_t height = image.height();
         const uint32_t rowSize = image.rowSize();
-        const uint32_t offset = x * rowSize + y;
+        const uint32_t offset = 0u;
 
         kernel.setArgument( image.data(), offset, rowSize, width, height, x, y, value );
 
@@ -1239,7 +1239,7 @@ namespace Image_Function_OpenCL
         Image_Function::ValidateImageParameters( image );
 
         const multiCL::OpenCLProgram & program = GetProgram();
-        multiCL::OpenCLKernel kernel( program, "setPixelOpenCL" );
+        multiCL::OpenCLKernel kernel( program, "setPixelsOpenCL" );
 
         if ( image.empty() || X.empty() || X.size() != Y.size() )
             throw penguinVException( "Bad input parameters in image function" );
@@ -1253,11 +1253,12 @@ namespace Image_Function_OpenCL
         }
 
         const uint32_t rowSize = image.rowSize();
+        const uint32_t offset = 0u;
 
         multiCL::Array<uint32_t> pointX( X );
         multiCL::Array<uint32_t> pointY( Y );
 
-        kernel.setArgument( image.data(), rowSize, width, height, pointX.data(), pointY.data(), X.size(), value );
+        kernel.setArgument( image.data(), offset, rowSize, width, height, pointX.data(), pointY.data(), static_cast<uint32_t>( X.size() ), value );
 
         multiCL::launchKernel1D( kernel, static_cast<uint32_t>( X.size() ) );
     }
-- 
2.43.0


From d7b495f3b57e37741dbe570121d5785d2ef265fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:05 +0000
Subject: [PATCH 51/58] fix: OpenCL Flip used the size of the input image
 instead of the size of the region

---
 src/opencl/image_function_opencl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opencl/image_function_opencl.cpp b/src/opencl/image_function_opencl.cpp
index d06b500..47f6d5e 100644
--- a/src/opencl/image_function_opencl.cpp
+++ b/src/opencl/image_function_opencl.cpp
@@ -813,9 +813,9 @@ namespace Image_Function_OpenCL
             const uint32_t offsetIn = startYIn * rowSizeIn + startXIn;
             const uint32_t offsetOut = startYOut * rowSizeOut + startXOut;
 
-            kernel.setArgument( in.data(), offsetIn, rowSizeIn, out.data(), offsetOut, rowSizeOut, in.width(), in.height(), horizontal, vertical );
+            kernel.setArgument( in.data(), offsetIn, rowSizeIn, out.data(), offsetOut, rowSizeOut, width, height, static_cast<uint8_t>( horizontal ), static_cast<uint8_t>( vertical ) );
 
-            multiCL::launchKernel2D( kernel, in.width(), in.height() );
+            multiCL::launchKernel2D( kernel, width, height );
         }
     }
 
-- 
2.43.0


From f3fe5e1f34def1b0b6facb9ea7d060e0eeeb70f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:05 +0000
Subject: [PATCH 52/58] fix: OpenCL ConvertToGrayScale and ConvertToRgb ignored
 the region for images which need no conversion

---
 src/opencl/image_function_opencl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opencl/image_function_opencl.cpp b/src/opencl/image_function_opencl.cpp
index 47f6d5e..0f4f200 100644
--- a/src/opencl/image_function_opencl.cpp
+++ b/src/opencl/image_function_opencl.cpp
@@ -630,7 +630,7 @@ namespace Image_Function_OpenCL
         Image_Function::VerifyGrayScaleImage( out );
 
         if ( in.colorCount() == penguinV::GRAY_SCALE ) {
-            Copy( in, out );
+            Copy( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
             return;
         }
 
@@ -669,7 +669,7 @@ namespace Image_Function_OpenCL
         Image_Function::VerifyRGBImage( out );
 
         if ( in.colorCount() == penguinV::RGB ) {
-            Copy( in, out );
+            Copy( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
         }
         else {
             const multiCL::OpenCLProgram & program = GetProgram();
-- 
2.43.0


From cdd2c56b3ea08e3c037ad6863136be52aec2fc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:05 +0000
Subject: [PATCH 53/58] fix: OpenCL ConvertToRgb treated an RGBA image as a
 gray-scale image

---
 src/opencl/image_function_opencl.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/opencl/image_function_opencl.cpp b/src/opencl/image_function_opencl.cpp
index 0f4f200..19581a2 100644
--- a/src/opencl/image_function_opencl.cpp
+++ b/src/opencl/image_function_opencl.cpp
@@ -147,20 +147,20 @@ namespace
             }
         }
 
-        __kernel void convertToRgbOpenCL( __global const uchar * in, uint offsetIn, uint rowSizeIn, __global uchar * out, uint offsetOut, uint rowSizeOut, uchar colorCount,
-                                          uint width, uint height )
+        __kernel void convertToRgbOpenCL( __global const uchar * in, uint offsetIn, uint rowSizeIn, uchar colorCountIn, __global uchar * out, uint offsetOut,
+                                          uint rowSizeOut, uchar colorCount, uint width, uint height )
         {
             const size_t x = get_global_id(0);
             const size_t y = get_global_id(1);
 
             if( x < width && y < height ) {
-                const size_t id = offsetIn + y * rowSizeIn + x;
+                const size_t id = offsetIn + y * rowSizeIn + x * colorCountIn;
 
                 __global uchar * data = out + offsetOut + (rowSizeOut * y) + x * colorCount;
 
                 for( uchar i = 0; i < colorCount; ++i, ++data )
                 {
-                    (*data) = in[id];
+                    (*data) = (colorCountIn == 1) ? in[id] : in[id + i];
                 }
             }
         }
@@ -681,7 +681,7 @@ namespace Image_Function_OpenCL
             const uint32_t offsetIn = startYIn * rowSizeIn + startXIn * in.colorCount();
             const uint32_t offsetOut = startYOut * rowSizeOut + startXOut * out.colorCount();
 
-            kernel.setArgument( in.data(), offsetIn, rowSizeIn, out.data(), offsetOut, rowSizeOut, out.colorCount(), width, height );
+            kernel.setArgument( in.data(), offsetIn, rowSizeIn, in.colorCount(), out.data(), offsetOut, rowSizeOut, out.colorCount(), width, height );
 
             multiCL::launchKernel2D( kernel, width, height );
         }
-- 
2.43.0


From fafb39b2452dd5bee1e0f1daa442030729440f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:05 +0000
Subject: [PATCH 54/58] fix: OpenCL Normalize passed arguments which do not
 match its kernel

---
 src/opencl/image_function_opencl.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/opencl/image_function_opencl.cpp b/src/opencl/image_function_opencl.cpp
index 19581a2..286156c 100644
--- a/src/opencl/image_function_opencl.cpp
+++ b/src/opencl/image_function_opencl.cpp
@@ -1099,21 +1099,18 @@ namespace Image_Function_OpenCL
         multiCL::OpenCLKernel kernel( program, "intensityRangeOpenCL" );
 
         const uint8_t colorCount = Image_Function::CheckCommonColorCount( in, out );
-        width = width * colorCount;
+        const uint32_t rowWidth = width * colorCount;
 
         const uint32_t rowSizeIn = in.rowSize();
-        const uint32_t rowSizeOut = out.rowSize();
-
         const uint32_t offsetIn = startYIn * rowSizeIn + startXIn * colorCount;
-        const uint32_t offsetOut = startYOut * rowSizeOut + startXOut * colorCount;
 
         std::vector<uint32_t> range = { 255, 0 };
 
         multiCL::Array<uint32_t> rangeOpenCL( range );
 
-        kernel.setArgument( in.data(), offsetIn, rowSizeIn, out.data(), offsetOut, rowSizeOut, width, height, rangeOpenCL.data() );
+        kernel.setArgument( in.data(), offsetIn, rowSizeIn, rowWidth, height, rangeOpenCL.data() );
 
-        multiCL::launchKernel2D( kernel, width, height );
+        multiCL::launchKernel2D( kernel, rowWidth, height );
 
         range = rangeOpenCL.get();
 
@@ -1126,7 +1123,7 @@ namespace Image_Function_OpenCL
             // We precalculate all values and store them in lookup table
             std::vector<uint8_t> value( 256 );
 
-            for ( uint16_t i = 0; i < 256; ++i )
+            for ( uint32_t i = range[0]; i <= range[1]; ++i )
                 value[i] = static_cast<uint8_t>( ( i - range[0] ) * correction + 0.5 );
 
             LookupTable( in, startXIn, startYIn, out, startXOut, startYOut, width, height, value );
-- 
2.43.0


From 7acc3dfbb48eb69d57e422a9428573bb2a89a2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:05 +0000
Subject: [PATCH 55/58] fix: transfer of an image with padded rows to or from
 an OpenCL device

---
 src/opencl/image_function_opencl.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/opencl/image_function_opencl.cpp b/src/opencl/image_function_opencl.cpp
index 286156c..bb83500 100644
--- a/src/opencl/image_function_opencl.cpp
+++ b/src/opencl/image_function_opencl.cpp
@@ -565,16 +565,16 @@ namespace Image_Function_OpenCL
         if ( in.width() != out.width() || in.height() != out.height() || in.colorCount() != out.colorCount() )
             throw penguinVException( "Bad input parameters in image function" );
 
-        if ( in.alignment() == 1u || ( in.rowSize() == in.width() * in.colorCount() ) ) {
+        if ( in.rowSize() == out.rowSize() ) {
             const size_t size = static_cast<size_t>( in.rowSize() ) * in.height();
             multiCL::writeBuffer( reinterpret_cast<cl_mem>( out.data() ), size * sizeof( uint8_t ), in.data() );
         }
         else {
             const size_t origin[3] = { 0, 0, 0 };
-            const size_t region[3] = { in.width(), in.height(), 1 };
+            const size_t region[3] = { static_cast<size_t>( in.width() ) * in.colorCount(), in.height(), 1 };
 
-            multiCL::openCLCheck( clEnqueueWriteImage( multiCL::OpenCLDeviceManager::instance().device().queue()(), reinterpret_cast<cl_mem>( out.data() ), CL_TRUE,
-                                                       origin, region, in.rowSize(), 0, in.data(), 0, NULL, NULL ) );
+            multiCL::openCLCheck( clEnqueueWriteBufferRect( multiCL::OpenCLDeviceManager::instance().device().queue()(), reinterpret_cast<cl_mem>( out.data() ), CL_TRUE,
+                                                            origin, origin, region, out.rowSize(), 0, in.rowSize(), 0, in.data(), 0, NULL, NULL ) );
         }
     }
 
@@ -594,17 +594,17 @@ namespace Image_Function_OpenCL
         if ( in.width() != out.width() || in.height() != out.height() || in.colorCount() != out.colorCount() )
             throw penguinVException( "Bad input parameters in image function" );
 
-        if ( out.alignment() == 1u || ( out.rowSize() == out.width() * out.colorCount() ) ) {
+        if ( in.rowSize() == out.rowSize() ) {
             const size_t size = static_cast<size_t>( in.rowSize() ) * in.height();
             multiCL::readBuffer( reinterpret_cast<cl_mem>( const_cast<uint8_t *>( in.data() ) ), size * sizeof( uint8_t ), out.data() );
         }
         else {
             const size_t origin[3] = { 0, 0, 0 };
-            const size_t region[3] = { out.width(), out.height(), 1 };
+            const size_t region[3] = { static_cast<size_t>( out.width() ) * out.colorCount(), out.height(), 1 };
 
-            multiCL::openCLCheck( clEnqueueReadImage( multiCL::OpenCLDeviceManager::instance().device().queue()(),
-                                                      reinterpret_cast<cl_mem>( const_cast<uint8_t *>( in.data() ) ), CL_TRUE, origin, region, out.rowSize(), 0,
-                                                      out.data(), 0, NULL, NULL ) );
+            multiCL::openCLCheck( clEnqueueReadBufferRect( multiCL::OpenCLDeviceManager::instance().device().queue()(),
+                                                           reinterpret_cast<cl_mem>( const_cast<uint8_t *>( in.data() ) ), CL_TRUE, origin, origin, region, in.rowSize(), 0,
+                                                           out.rowSize(), 0, out.data(), 0, NULL, NULL ) );
         }
     }
 
-- 
2.43.0


From 1459f9d3891d32766a09e0cfddae55f712bfa099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:15 +0000
Subject: [PATCH 56/58] fix: OpenCL ConvertToGrayScale counted the alpha
 channel of an RGBA image

---
 src/opencl/image_function_opencl.cpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/opencl/image_function_opencl.cpp b/src/opencl/image_function_opencl.cpp
index bb83500..9deb2f4 100644
--- a/src/opencl/image_function_opencl.cpp
+++ b/src/opencl/image_function_opencl.cpp
@@ -136,14 +136,8 @@ namespace
             if( x < width && y < height ) {
                 __global const uchar * data = in + offsetIn + (rowSizeIn * y) + x * colorCount;
 
-                uint sum = 0;
-                for( uchar i = 0; i < colorCount; ++i, ++data )
-                {
-                    sum += (*data);
-                }
-
                 const size_t id = offsetOut + y * rowSizeOut + x;
-                out[id] = sum / colorCount;
+                out[id] = (data[0] + data[1] + data[2]) / 3; // average of red, green and blue components
             }
         }
 
-- 
2.43.0


From 7b0432dd96fcd0b4f6aec1ac3b105c8e0a53ed14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:15 +0000
Subject: [PATCH 57/58] fix: OpenCL SetPixel and double Threshold accepted
 parameters which other implementations reject

---
 src/opencl/image_function_opencl.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/opencl/image_function_opencl.cpp b/src/opencl/image_function_opencl.cpp
index 9deb2f4..aa0d9f4 100644
--- a/src/opencl/image_function_opencl.cpp
+++ b/src/opencl/image_function_opencl.cpp
@@ -1208,6 +1208,7 @@ namespace Image_Function_OpenCL
     void SetPixel( Image & image, uint32_t x, uint32_t y, uint8_t value )
     {
         Image_Function::ValidateImageParameters( image );
+        Image_Function::VerifyGrayScaleImage( image );
 
         const multiCL::OpenCLProgram & program = GetProgram();
         multiCL::OpenCLKernel kernel( program, "setPixelOpenCL" );
@@ -1228,6 +1229,7 @@ namespace Image_Function_OpenCL
     void SetPixel( Image & image, const std::vector<uint32_t> & X, const std::vector<uint32_t> & Y, uint8_t value )
     {
         Image_Function::ValidateImageParameters( image );
+        Image_Function::VerifyGrayScaleImage( image );
 
         const multiCL::OpenCLProgram & program = GetProgram();
         multiCL::OpenCLKernel kernel( program, "setPixelsOpenCL" );
@@ -1309,6 +1311,8 @@ namespace Image_Function_OpenCL
     {
         Image_Function::ValidateImageParameters( in, startXIn, startYIn, out, startXOut, startYOut, width, height );
         Image_Function::VerifyGrayScaleImage( in, out );
+        if ( minThreshold > maxThreshold )
+            throw penguinVException( "Minimum threshold value is bigger than maximum threshold value" );
 
         const multiCL::OpenCLProgram & program = GetProgram();
         multiCL::OpenCLKernel kernel( program, "thresholdDoubleOpenCL" );
-- 
2.43.0


From 6d0ec26e5b9f498f1e2a8a73f74ec08336a5151f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:10 +0000
Subject: [PATCH 58/58] fix: keep image empty when memory allocation fails in
 resize and copy

---
 src/image_buffer.h | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/image_buffer.h b/src/image_buffer.h
index b03b008..700916a 100644
--- a/src/image_buffer.h
+++ b/src/image_buffer.h
@@ -89,12 +89,14 @@ namespace penguinV
 
                 clear();
 
-                _width = width_;
-                _height = height_;
+                const uint32_t rowSize_ = _getRowSize( width_, colorCount(), alignment() );
 
-                _rowSize = _getRowSize( width(), colorCount(), alignment() );
+                // If allocation fails the image remains empty
+                _data = _allocate( static_cast<size_t>( height_ ) * static_cast<size_t>( rowSize_ ) );
 
-                _data = _allocate( static_cast<size_t>( _height ) * static_cast<size_t>( _rowSize ) );
+                _width = width_;
+                _height = height_;
+                _rowSize = rowSize_;
             }
         }
 
@@ -220,6 +222,11 @@ namespace penguinV
 
             clear();
 
+            if ( image._data != nullptr ) {
+                // If allocation fails the image remains empty
+                _data = _allocate( static_cast<size_t>( image._height ) * static_cast<size_t>( image._rowSize ) );
+            }
+
             _width = image._width;
             _height = image._height;
 
@@ -228,8 +235,6 @@ namespace penguinV
             _alignment = image._alignment;
 
             if ( image._data != nullptr ) {
-                _data = _allocate( static_cast<size_t>( _height ) * static_cast<size_t>( _rowSize ) );
-
                 _copy( _data, image._data, sizeof( TColorDepth ) * _height * _rowSize );
             }
         }
-- 
2.43.0

