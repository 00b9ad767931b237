From 0239850e6261327b1dd1d3d6aa03706906626c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:02 +0000
Subject: [PATCH 01/42] fix: ImageBase::getHeight() returned the width

---
 boofcpp/src/boofcv/image_types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index ddf14b8..1ca6cd3 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -44,7 +44,7 @@ namespace boofcv {
         }
 
         uint32_t getHeight() const {
-            return width;
+            return height;
         }
 
         /**
-- 
2.43.0


From d290ea43217c38f287a6be0d59242c6e90d7c2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:02 +0000
Subject: [PATCH 02/42] fix: vertical mean blur selects its code path from the
 image height

The width was compared with the kernel, so a wide and short image was read and
written out of bounds.
---
 boofcpp/src/boofcv/image_blur.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/image_blur.h b/boofcpp/src/boofcv/image_blur.h
index c16709c..3e53c57 100644
--- a/boofcpp/src/boofcv/image_blur.h
+++ b/boofcpp/src/boofcv/image_blur.h
@@ -194,7 +194,7 @@ namespace boofcv {
             typedef typename TypeInfo<E>::signed_type signed_type;
 
             Kernel1D<signed_type> kernel = FactoryKernel::mean1D<signed_type>(radius*2+1);
-            if( kernel.width > input.width ) {
+            if( kernel.width > input.height ) {
                 ConvolveNormalized::vertical(kernel,input,output);
             } else {
                 ConvolveNormalized_JustBorder::vertical(kernel, input ,output );
-- 
2.43.0


From 930b2f8d1bdc39286a032ac72c242f60d5b8e4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:02 +0000
Subject: [PATCH 03/42] fix: naive normalized vertical convolution truncated
 kernel weights to the pixel type

---
 boofcpp/src/boofcv/convolve.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/boofcpp/src/boofcv/convolve.h b/boofcpp/src/boofcv/convolve.h
index 0fb81e3..48deba5 100644
--- a/boofcpp/src/boofcv/convolve.h
+++ b/boofcpp/src/boofcv/convolve.h
@@ -307,7 +307,7 @@ namespace boofcv {
                     signed_type weight = 0;
 
                     for( int32_t i = startY; i < endY; i++ ) {
-                        E v = kernel.at(i-y+kernel.offset);
+                        signed_type v = kernel.at(i-y+kernel.offset);
                         total += input.unsafe_at(x,i)*v;
                         weight += v;
                     }
@@ -340,7 +340,7 @@ namespace boofcv {
                     signed_type weight = 0;
 
                     for( int32_t i = startY; i < endY; i++ ) {
-                        E v = kernel.at(i-y+kernel.offset);
+                        signed_type v = kernel.at(i-y+kernel.offset);
                         total += input.unsafe_at(x,i)*v;
                         weight += v;
                     }
-- 
2.43.0


From 19742fffe4ffd44fa0c3d0f1d69320b714034ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:02 +0000
Subject: [PATCH 04/42] fix: reflect and wrap borders read outside the image
 for far away coordinates

Coordinates were folded only once, which is not enough when the kernel is larger
than the image.
---
 boofcpp/src/boofcv/image_border.h | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/boofcpp/src/boofcv/image_border.h b/boofcpp/src/boofcv/image_border.h
index ffc2a20..1d48630 100644
--- a/boofcpp/src/boofcv/image_border.h
+++ b/boofcpp/src/boofcv/image_border.h
@@ -98,10 +98,13 @@ namespace boofcv {
     class ImageBorderReflect : public ImageBorderIndex<E> {
     public:
         void adjust( int32_t& x , const uint32_t& max_value ) const override {
-            if( x < 0 )
-                x = -x;
-            else if( x >= max_value)
-                x = max_value-2-(x-max_value);
+            // the reflected image repeats itself every 2*(N-1) pixels
+            const int64_t N = max_value;
+            const int64_t period = N > 1 ? 2*(N-1) : 1;
+            int64_t p = x%period;
+            if( p < 0 )
+                p += period;
+            x = static_cast<int32_t>(p < N ? p : period-p);
         }
     };
 
@@ -112,10 +115,11 @@ namespace boofcv {
     class ImageBorderWrap : public ImageBorderIndex<E> {
     public:
         void adjust( int32_t& x , const uint32_t& max_value ) const override {
-            if( x < 0 )
-                x = max_value+x;
-            else if( x >= max_value)
-                x = x-max_value;
+            const int64_t N = max_value;
+            int64_t p = x%N;
+            if( p < 0 )
+                p += N;
+            x = static_cast<int32_t>(p);
         }
     };
 
-- 
2.43.0


From db2fbe856dd7ffa7f2dbe68b854fd91721379669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:02 +0000
Subject: [PATCH 05/42] fix: block min-max threshold treated every block as
 textureless if disabled or negative

A negative minimum spread, documented as disabling the test, was converted to a huge
unsigned number for 8-bit images, and the maximum of negative floats was never found.
---
 boofcpp/src/boofcv/threshold_block_filters.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/boofcpp/src/boofcv/threshold_block_filters.h b/boofcpp/src/boofcv/threshold_block_filters.h
index d3d7655..ff771f8 100644
--- a/boofcpp/src/boofcv/threshold_block_filters.h
+++ b/boofcpp/src/boofcv/threshold_block_filters.h
@@ -444,7 +444,7 @@ namespace boofcv
 
             // find the min and max pixel values inside this block region
             E min = std::numeric_limits<E>::max();
-            E max = std::numeric_limits<E>::min();
+            E max = std::numeric_limits<E>::lowest();
 
             for (uint32_t y = blockY0; y <= blockY1; y++) {
                 for (uint32_t x = blockX0; x <= blockX1; x++) {
@@ -459,7 +459,7 @@ namespace boofcv
             }
 
             // apply threshold
-            auto textureThreshold = static_cast<sum_type>(this->minimumSpread);
+            auto textureThreshold = static_cast<typename TypeInfo<E>::signed_type>(this->minimumSpread);
             for (uint32_t y = y0; y < y1; y++) {
                 E* input_ptr = &input.data[input.offset + y*input.stride + x0];
                 U8* output_ptr = &output.data[output.offset + y*output.stride + x0];
-- 
2.43.0


From 157f194b2b21515a8962256ae3d1c5cbfd1afd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:02 +0000
Subject: [PATCH 06/42] fix: image min/max ignored the offset and stride of
 sub-images and negative floats

---
 boofcpp/src/boofcv/image_statistics.h | 30 +++++++++++++++------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/boofcpp/src/boofcv/image_statistics.h b/boofcpp/src/boofcv/image_statistics.h
index 81f08ba..59686c3 100644
--- a/boofcpp/src/boofcv/image_statistics.h
+++ b/boofcpp/src/boofcv/image_statistics.h
@@ -12,12 +12,14 @@ namespace boofcv {
         static T min( const Gray<T>& input) {
             T min_value = std::numeric_limits<T>::max();
 
-            const T* ptr = input.data;
-            const T* end = &ptr[input.total_pixels()];
-            while( ptr != end ) {
-                const T& v = *ptr++;
-                if( v < min_value ) {
-                    min_value = v;
+            for( uint32_t y = 0; y < input.height; y++ ) {
+                const T* ptr = &input.data[input.offset + y*input.stride];
+                const T* end = &ptr[input.width];
+                while( ptr != end ) {
+                    const T& v = *ptr++;
+                    if( v < min_value ) {
+                        min_value = v;
+                    }
                 }
             }
 
@@ -26,14 +28,16 @@ namespace boofcv {
 
         template<class T>
         static T max( const Gray<T>& input) {
-            T max_value = std::numeric_limits<T>::min();
+            T max_value = std::numeric_limits<T>::lowest();
 
-            const T* ptr = input.data;
-            const T* end = &ptr[input.total_pixels()];
-            while( ptr != end ) {
-                const T& v = *ptr++;
-                if( v > max_value ) {
-                    max_value = v;
+            for( uint32_t y = 0; y < input.height; y++ ) {
+                const T* ptr = &input.data[input.offset + y*input.stride];
+                const T* end = &ptr[input.width];
+                while( ptr != end ) {
+                    const T& v = *ptr++;
+                    if( v > max_value ) {
+                        max_value = v;
+                    }
                 }
             }
 
-- 
2.43.0


From 0242bbd28592e4b55d38614180051a2e01b79673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:02 +0000
Subject: [PATCH 07/42] fix: filling interleaved images and uniform random
 filling ignored sub-image offset and stride

---
 boofcpp/src/boofcv/image_misc_ops.h | 30 +++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/boofcpp/src/boofcv/image_misc_ops.h b/boofcpp/src/boofcv/image_misc_ops.h
index 5927518..e2cdf23 100644
--- a/boofcpp/src/boofcv/image_misc_ops.h
+++ b/boofcpp/src/boofcv/image_misc_ops.h
@@ -60,10 +60,12 @@ namespace boofcv {
 
         template<class E>
         static void fill( Interleaved<E>& image , E value ) {
-            E* ptr = image.data;
-            E* end = &ptr[image.total_pixels()*image.num_bands];
-            while( ptr != end ) {
-                *ptr++ = value;
+            for( uint32_t y = 0; y < image.height; y++ ) {
+                E* ptr = &image.data[image.offset + y*image.stride];
+                E* end = &ptr[image.width*image.num_bands];
+                while( ptr != end ) {
+                    *ptr++ = value;
+                }
             }
         }
 
@@ -80,10 +82,12 @@ namespace boofcv {
 
             std::uniform_int_distribution<E> dis(min_value, max_value-1);
 
-            E* ptr = image.data;
-            E* end = &ptr[image.total_pixels()];
-            while( ptr != end ) {
-                *ptr++ = dis(rng);
+            for( uint32_t y = 0; y < image.height; y++ ) {
+                E* ptr = &image.data[image.offset + y*image.stride];
+                E* end = &ptr[image.width];
+                while( ptr != end ) {
+                    *ptr++ = dis(rng);
+                }
             }
         }
 
@@ -91,10 +95,12 @@ namespace boofcv {
         static void fill_uniform( Gray<E>& image , E min_value , E max_value , RNG& rng, typename std::enable_if<std::is_floating_point<E>::value >::type* = 0) {
             std::uniform_real_distribution<E> dis(min_value, max_value);
 
-            E* ptr = image.data;
-            E* end = &ptr[image.total_pixels()];
-            while( ptr != end ) {
-                *ptr++ = dis(rng);
+            for( uint32_t y = 0; y < image.height; y++ ) {
+                E* ptr = &image.data[image.offset + y*image.stride];
+                E* end = &ptr[image.width];
+                while( ptr != end ) {
+                    *ptr++ = dis(rng);
+                }
             }
         }
     };
-- 
2.43.0


From 526c3c5f43eeb28ccee1f332f1c3730f4134c66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:02 +0000
Subject: [PATCH 08/42] fix: Interleaved::setTo copied only part of multi-byte
 pixels and at() accepted any band

---
 boofcpp/src/boofcv/image_types.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index 1ca6cd3..9cdad80 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -418,7 +418,7 @@ namespace boofcv {
         }
 
         T& at( uint32_t x , uint32_t y , uint32_t band ) const {
-            if( x >= this->width || y >= this->height )
+            if( x >= this->width || y >= this->height || band >= this->num_bands )
                 throw invalid_argument("out of range");
             return data[this->offset + y*this->stride + x*this->num_bands + band];
         }
@@ -456,7 +456,7 @@ namespace boofcv {
             }
             // This will handle the situation where all of some of the images are sub-images
             for( uint32_t y = 0; y < this->height; y++ ) {
-                memcpy(this->data+this->offset+y*this->stride,src.data+src.offset+y*src.stride,src.width*this->num_bands);
+                memcpy(this->data+this->offset+y*this->stride,src.data+src.offset+y*src.stride,sizeof(T)*src.width*this->num_bands);
             }
         }
 
-- 
2.43.0


From 3f0619d79dd081919e25befb12a60fbaff6d1b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:02 +0000
Subject: [PATCH 09/42] fix: planar images freed the wrong pointer and their
 band functions did not compile

---
 boofcpp/src/boofcv/image_types.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index 9cdad80..25e2709 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -249,7 +249,7 @@ namespace boofcv {
             this->offset = 0;
             this->stride = 0;
             for( uint32_t i = 0; i < num_bands; i++ ) {
-                delete bands;
+                delete bands[i];
             }
             delete []bands;
             bands = NULL;
@@ -268,7 +268,7 @@ namespace boofcv {
         }
 
         void setNumberOfBands( uint32_t desired ) {
-            T* new_bands;
+            T** new_bands;
             if( desired > this->num_bands ) {
                 new_bands = new T*[desired];
                 for( uint32_t i = 0; i < this->num_bands; i++ ) {
@@ -293,7 +293,7 @@ namespace boofcv {
             this->num_bands = desired;
         }
 
-        T& at( uint32_t x , uint32_t y , uint32_t band ) const {
+        typename T::pixel_type& at( uint32_t x , uint32_t y , uint32_t band ) const {
             if( band >= this->num_bands )
                 throw invalid_argument("Band out of range");
 
@@ -308,7 +308,7 @@ namespace boofcv {
             }
             setNumberOfBands(src.num_bands);
             for( uint32_t i = 0; i < this->num_bands; i++ ) {
-                this->bands[i]->setTo(src.bands[i]);
+                this->bands[i]->copy(*src.bands[i]);
             }
         }
 
-- 
2.43.0


From b6610ab4c98cf01b52ce24c0bead3293861b06c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:50 +0000
Subject: [PATCH 10/42] fix: GrowArray filled bytes instead of elements and
 resize() exposed stale elements

---
 boofcpp/src/boofcv/base_types.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/boofcpp/src/boofcv/base_types.h b/boofcpp/src/boofcv/base_types.h
index 76c5965..ee41b32 100644
--- a/boofcpp/src/boofcv/base_types.h
+++ b/boofcpp/src/boofcv/base_types.h
@@ -127,7 +127,8 @@ namespace boofcv {
                 delete []this->data;
                 this->data = new T[new_size];
                 this->array_length = new_size;
-                memset(data,default_value,new_size);
+                for( uint32_t i = 0; i < new_size; i++ )
+                    this->data[i] = default_value;
             }
             this->size = 0;
         }
@@ -143,16 +144,19 @@ namespace boofcv {
             if( new_size > array_length ) {
                 auto *tmp = new T[new_size];
                 memmove(tmp,this->data,sizeof(T)*this->size);
-                memset(&tmp[this->size],default_value,sizeof(T)*(new_size-this->size));
                 delete []this->data;
                 this->data = tmp;
                 this->array_length = new_size;
             }
+            // elements which are newly exposed take on the default value, even if the memory was used before
+            for( uint32_t i = this->size; i < new_size; i++ )
+                this->data[i] = default_value;
             this->size = new_size;
         }
 
         void fill( T value ) {
-            std::memset(this->data,value,this->size*sizeof(T));
+            for( uint32_t i = 0; i < this->size; i++ )
+                this->data[i] = value;
         }
 
         T& at( uint32_t index ) const {
-- 
2.43.0


From d9adaac915a5880556655c12802ce6c5753a0b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:50 +0000
Subject: [PATCH 11/42] fix: copying a GrowArray freed its data twice

---
 boofcpp/src/boofcv/base_types.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/boofcpp/src/boofcv/base_types.h b/boofcpp/src/boofcv/base_types.h
index ee41b32..2acc084 100644
--- a/boofcpp/src/boofcv/base_types.h
+++ b/boofcpp/src/boofcv/base_types.h
@@ -108,6 +108,11 @@ namespace boofcv {
             }
         }
 
+        GrowArray(const GrowArray<T>& other) : GrowArray(other.size) {
+            this->default_value = other.default_value;
+            std::memcpy(this->data,other.data,sizeof(T)*other.size);
+        }
+
         ~GrowArray() {
             if( !can_resize )
                 return;
-- 
2.43.0


From 671b9c3b22edb7c44572da1741ad42a3b09ba400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:50 +0000
Subject: [PATCH 12/42] fix: copying a Gray image freed its data twice

---
 boofcpp/src/boofcv/image_types.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index 25e2709..da37f5b 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -135,6 +135,14 @@ namespace boofcv {
         Gray() : Gray(0,0) {
         }
 
+        /**
+         * Copies the pixels of an image. The copy of a sub-image is a sub-image with the same pixels.
+         */
+        Gray( const Gray<T>& other ) : Gray(nullptr,0,0,0,0,0) {
+            this->subimage = false;
+            *this = other;
+        }
+
         ~Gray() {
             if( !this->subimage ) {
                 delete[]this->data;
-- 
2.43.0


From 96901041f11a9eab42c4773a43620f288c57d017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:50 +0000
Subject: [PATCH 13/42] fix: copying interleaved and planar images freed their
 data twice

---
 boofcpp/src/boofcv/image_types.h | 37 ++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index da37f5b..9aa07dc 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -251,6 +251,17 @@ namespace boofcv {
         Planar() : Planar(0,0,0) {
         }
 
+        Planar( const Planar<T>& other ) : Planar(other.width,other.height,other.num_bands) {
+            this->setTo(other);
+        }
+
+        Planar<T>& operator=( const Planar<T>& other ) {
+            if (this != &other) {
+                this->setTo(other);
+            }
+            return *this;
+        }
+
         ~Planar() {
             this->width = 0;
             this->height = 0;
@@ -371,6 +382,32 @@ namespace boofcv {
         Interleaved() : Interleaved(0,0,0) {
         }
 
+        /**
+         * Copies the pixels of an image. The copy of a sub-image is a sub-image with the same pixels.
+         */
+        Interleaved( const Interleaved<T>& other ) : Interleaved(nullptr,0,0,0,0,0,0) {
+            this->subimage = false;
+            *this = other;
+        }
+
+        Interleaved<T>& operator=( const Interleaved<T>& other ) {
+            if (this != &other) {
+                if( other.subimage ) {
+                    this->data = other.data;
+                    this->data_length = other.data_length;
+                    this->width = other.width;
+                    this->height = other.height;
+                    this->num_bands = other.num_bands;
+                    this->offset = other.offset;
+                    this->stride = other.stride;
+                    this->subimage = true;
+                } else {
+                    this->setTo(other);
+                }
+            }
+            return *this;
+        }
+
         ~Interleaved() {
             if( !this->subimage ) {
                 this->width = 0;
-- 
2.43.0


From c3ab4db4556c3a1f0bb1efb4b0f088c241abab48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:50 +0000
Subject: [PATCH 14/42] fix: normalizing a 2D kernel only scaled its first row

---
 boofcpp/src/boofcv/convolve_kernels.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/convolve_kernels.h b/boofcpp/src/boofcv/convolve_kernels.h
index 122045c..4c8f511 100644
--- a/boofcpp/src/boofcv/convolve_kernels.h
+++ b/boofcpp/src/boofcv/convolve_kernels.h
@@ -259,7 +259,7 @@ namespace boofcv {
 
             typename Kernel1D<E>::sum_type sum = kernel.sum();
 
-            for( uint32_t i = 0; i < kernel.width; i++ ) {
+            for( uint32_t i = 0; i < kernel.data.size; i++ ) {
                 kernel.data[i] /= sum;
             }
         }
-- 
2.43.0


From 4625c39de8a1df513851c831e70580610ae95044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:50 +0000
Subject: [PATCH 15/42] fix: 2D gaussian kernel ignored the width derived from
 sigma

---
 boofcpp/src/boofcv/convolve_kernels.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/boofcpp/src/boofcv/convolve_kernels.h b/boofcpp/src/boofcv/convolve_kernels.h
index 4c8f511..0b77a69 100644
--- a/boofcpp/src/boofcv/convolve_kernels.h
+++ b/boofcpp/src/boofcv/convolve_kernels.h
@@ -333,6 +333,7 @@ namespace boofcv {
                                       typename std::enable_if<std::is_floating_point<E>::value>::type* = 0 )
         {
             Kernel1D<E> seed = gaussian1D<E>(sigma,width);
+            width = seed.width; // it was selected from sigma if not specified
             Kernel2D<E> output(width,width/2);
 
             for( int i = 0; i < width; i++ ) {
-- 
2.43.0


From 2550ae3f5608989727da493554360310b7312c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:50 +0000
Subject: [PATCH 16/42] fix: computeOtsu() returned a histogram index instead
 of a pixel value

---
 boofcpp/src/boofcv/binary_ops.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/boofcpp/src/boofcv/binary_ops.h b/boofcpp/src/boofcv/binary_ops.h
index 5ecf40d..47f1a0a 100644
--- a/boofcpp/src/boofcv/binary_ops.h
+++ b/boofcpp/src/boofcv/binary_ops.h
@@ -119,7 +119,8 @@ namespace boofcv
             // this should configure so that all the really fancy stuff has been turned off
             ComputeOtsu otsu(otsu2,0,true,1.0);
             otsu.compute(histogram, input.total_pixels());
-            return (uint32_t)otsu.threshold;
+            // the histogram starts at the minimum value
+            return (uint32_t)static_cast<int64_t>(otsu.threshold + min_value);
         }
 
         /**
@@ -255,7 +256,8 @@ namespace boofcv
         {  }
 
         void process(const Gray<T>& input , Gray<U8>& output ) override {
-            T threshold = ThresholdOps::computeOtsu(input,min_value,max_value,false);
+            // go through a signed integer because the minimum value can be negative
+            T threshold = static_cast<T>(static_cast<int32_t>(ThresholdOps::computeOtsu(input,min_value,max_value,false)));
             ThresholdOps::threshold(input,threshold,down,output);
         }
     };
-- 
2.43.0


From 5b7139b2401546536b28c22e0b73af6ef79a4b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:33 +0000
Subject: [PATCH 17/42] fix: erode4/dilate4 left border pixels unset and read
 outside of empty images

---
 boofcpp/src/boofcv/binary_ops.cpp | 39 +++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/boofcpp/src/boofcv/binary_ops.cpp b/boofcpp/src/boofcv/binary_ops.cpp
index 87929f8..a05ace3 100644
--- a/boofcpp/src/boofcv/binary_ops.cpp
+++ b/boofcpp/src/boofcv/binary_ops.cpp
@@ -39,9 +39,42 @@ void boofcv::BinaryImageOps::logicOr(const Gray<U8>& inputA , const Gray<U8>& in
     }
 }
 
+/**
+ * Sets each pixel along the image border to one if at least 'minimum' pixels in its 4-neighborhood, itself included,
+ * are one. Pixels outside of the image are zero.
+ */
+static void applyToBorder( const Gray<U8>& input , Gray<U8>& output , uint32_t minimum ) {
+    for( uint32_t y = 0; y < input.height; y++ ) {
+        bool inner = y > 0 && y+1 < input.height;
+        for( uint32_t x = 0; x < input.width; x++ ) {
+            // skip over pixels inside
+            if( inner && x == 1 && input.width > 2 )
+                x = input.width-1;
+
+            uint32_t sum = input.unsafe_at(x,y);
+            if( x > 0 )
+                sum += input.unsafe_at(x-1,y);
+            if( x+1 < input.width )
+                sum += input.unsafe_at(x+1,y);
+            if( y > 0 )
+                sum += input.unsafe_at(x,y-1);
+            if( y+1 < input.height )
+                sum += input.unsafe_at(x,y+1);
+
+            output.unsafe_at(x,y) = static_cast<U8>(sum >= minimum);
+        }
+    }
+}
+
 void boofcv::BinaryImageOps::erode4(const Gray<U8>& input, Gray<U8>& output) {
     output.reshape(input.width,input.height);
 
+    // the 4-neighborhood of every pixel along the image border is partially outside of the image
+    applyToBorder(input,output,5);
+
+    if( input.width < 3 || input.height < 3 )
+        return;
+
     const int h = input.height - 1;
     const int w = input.width - 2;
 
@@ -64,6 +97,12 @@ void boofcv::BinaryImageOps::erode4(const Gray<U8>& input, Gray<U8>& output) {
 void boofcv::BinaryImageOps::dilate4(const Gray<U8>& input, Gray<U8>& output) {
     output.reshape(input.width,input.height);
 
+    // the 4-neighborhood of every pixel along the image border is partially outside of the image
+    applyToBorder(input,output,1);
+
+    if( input.width < 3 || input.height < 3 )
+        return;
+
     const int h = input.height - 1;
     const int w = input.width - 2;
 
-- 
2.43.0


From d4f4c3c2b25a66d718400b094bd097ddec505cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:33 +0000
Subject: [PATCH 18/42] fix: a block threshold with a block width of zero
 divided by zero

---
 boofcpp/src/boofcv/threshold_block_filters.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/boofcpp/src/boofcv/threshold_block_filters.h b/boofcpp/src/boofcv/threshold_block_filters.h
index ff771f8..9b3261b 100644
--- a/boofcpp/src/boofcv/threshold_block_filters.h
+++ b/boofcpp/src/boofcv/threshold_block_filters.h
@@ -74,6 +74,10 @@ namespace boofcv
                 throw invalid_argument("Image is smaller than block size");
             }
 
+            if( requestedBlockWidth == 0 ) {
+                throw invalid_argument("Block width must be more than zero");
+            }
+
             selectBlockSize(input.width,input.height,(uint32_t)requestedBlockWidth);
 
             this->stats.reshape(input.width/blockWidth,input.height/blockHeight);
-- 
2.43.0


From 51f59b25f568b82fbbd5886452ea0bdcf5d08fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:10 +0000
Subject: [PATCH 19/42] fix: native thresholds never released the input array
 if the operation failed

---
 boofcpp-jni/src/main/cpp/NativeBlockMean.cpp   | 17 ++++++++++++++---
 boofcpp-jni/src/main/cpp/NativeBlockMinMax.cpp | 17 ++++++++++++++---
 boofcpp-jni/src/main/cpp/NativeBlockOtsu.cpp   | 17 ++++++++++++++---
 boofcpp-jni/src/main/cpp/NativeGlobalFixed.cpp | 17 ++++++++++++++---
 boofcpp-jni/src/main/cpp/NativeGlobalOtsu.cpp  | 17 ++++++++++++++---
 boofcpp-jni/src/main/cpp/NativeLocalMean.cpp   | 17 ++++++++++++++---
 6 files changed, 84 insertions(+), 18 deletions(-)

diff --git a/boofcpp-jni/src/main/cpp/NativeBlockMean.cpp b/boofcpp-jni/src/main/cpp/NativeBlockMean.cpp
index 18ede7d..7dcf142 100644
--- a/boofcpp-jni/src/main/cpp/NativeBlockMean.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeBlockMean.cpp
@@ -62,13 +62,23 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMean_nativeprocess
             ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
             input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
             output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
-            ((ThresholdBlockMean<U8>*)nativePtr)->process(input.image, output.image);
+            try {
+                ((ThresholdBlockMean<U8>*)nativePtr)->process(input.image, output.image);
+            } catch( ... ) {
+                env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
+                throw;
+            }
             env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         } else {
             ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
             input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
             output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
-            ((ThresholdBlockMean<F32> *)nativePtr)->process(input.image, output.image);
+            try {
+                ((ThresholdBlockMean<F32> *)nativePtr)->process(input.image, output.image);
+            } catch( ... ) {
+                env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
+                throw;
+            }
             env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         }
     } catch( ... ) {
@@ -77,7 +87,8 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMean_nativeprocess
     }
 
     // Release the arrays
-    env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
+    if( output.image.data != nullptr )
+        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
 }
 
 }
\ No newline at end of file
diff --git a/boofcpp-jni/src/main/cpp/NativeBlockMinMax.cpp b/boofcpp-jni/src/main/cpp/NativeBlockMinMax.cpp
index 35fe579..336af94 100644
--- a/boofcpp-jni/src/main/cpp/NativeBlockMinMax.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeBlockMinMax.cpp
@@ -63,13 +63,23 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMinMax_nativeproces
             ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
             input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
             output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
-            ((ThresholdBlockMinMax<U8>*)nativePtr)->process(input.image, output.image);
+            try {
+                ((ThresholdBlockMinMax<U8>*)nativePtr)->process(input.image, output.image);
+            } catch( ... ) {
+                env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
+                throw;
+            }
             env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         } else {
             ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
             input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
             output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
-            ((ThresholdBlockMinMax<F32> *)nativePtr)->process(input.image, output.image);
+            try {
+                ((ThresholdBlockMinMax<F32> *)nativePtr)->process(input.image, output.image);
+            } catch( ... ) {
+                env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
+                throw;
+            }
             env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         }
     } catch( ... ) {
@@ -78,7 +88,8 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockMinMax_nativeproces
     }
 
     // Release the arrays
-    env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
+    if( output.image.data != nullptr )
+        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
 }
 
 }
\ No newline at end of file
diff --git a/boofcpp-jni/src/main/cpp/NativeBlockOtsu.cpp b/boofcpp-jni/src/main/cpp/NativeBlockOtsu.cpp
index 2652302..be677e6 100644
--- a/boofcpp-jni/src/main/cpp/NativeBlockOtsu.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeBlockOtsu.cpp
@@ -62,13 +62,23 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockOtsu_nativeprocess
             ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
             input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
             output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
-            ((ThresholdBlockOtsu<U8>*)nativePtr)->process(input.image, output.image);
+            try {
+                ((ThresholdBlockOtsu<U8>*)nativePtr)->process(input.image, output.image);
+            } catch( ... ) {
+                env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
+                throw;
+            }
             env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         } else {
             ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
             input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
             output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
-            ((ThresholdBlockOtsu<F32> *)nativePtr)->process(input.image, output.image);
+            try {
+                ((ThresholdBlockOtsu<F32> *)nativePtr)->process(input.image, output.image);
+            } catch( ... ) {
+                env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
+                throw;
+            }
             env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         }
     } catch( ... ) {
@@ -77,7 +87,8 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeBlockOtsu_nativeprocess
     }
 
     // Release the arrays
-    env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
+    if( output.image.data != nullptr )
+        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
 }
 
 }
\ No newline at end of file
diff --git a/boofcpp-jni/src/main/cpp/NativeGlobalFixed.cpp b/boofcpp-jni/src/main/cpp/NativeGlobalFixed.cpp
index 8baa758..924dfbd 100644
--- a/boofcpp-jni/src/main/cpp/NativeGlobalFixed.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeGlobalFixed.cpp
@@ -61,13 +61,23 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalFixed_nativeproces
             ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
             input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
             output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
-            ((GlobalFixedBinaryFilter<U8>*)nativePtr)->process(input.image, output.image);
+            try {
+                ((GlobalFixedBinaryFilter<U8>*)nativePtr)->process(input.image, output.image);
+            } catch( ... ) {
+                env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
+                throw;
+            }
             env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         } else {
             ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
             input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
              output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
-            ((GlobalFixedBinaryFilter<F32> *)nativePtr)->process(input.image, output.image);
+            try {
+                ((GlobalFixedBinaryFilter<F32> *)nativePtr)->process(input.image, output.image);
+            } catch( ... ) {
+                env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
+                throw;
+            }
             env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         }
     } catch( ... ) {
@@ -76,7 +86,8 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalFixed_nativeproces
     }
 
     // Release the arrays
-    env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
+    if( output.image.data != nullptr )
+        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
 }
 
 }
\ No newline at end of file
diff --git a/boofcpp-jni/src/main/cpp/NativeGlobalOtsu.cpp b/boofcpp-jni/src/main/cpp/NativeGlobalOtsu.cpp
index 1d62507..ba664ec 100644
--- a/boofcpp-jni/src/main/cpp/NativeGlobalOtsu.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeGlobalOtsu.cpp
@@ -58,13 +58,23 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalOtsu_nativeprocess
             ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
             input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
             output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
-            ((GlobalOtsuBinaryFilter<U8>*)nativePtr)->process(input.image, output.image);
+            try {
+                ((GlobalOtsuBinaryFilter<U8>*)nativePtr)->process(input.image, output.image);
+            } catch( ... ) {
+                env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
+                throw;
+            }
             env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         } else {
             ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
             input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
             output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
-            ((GlobalOtsuBinaryFilter<F32> *)nativePtr)->process(input.image, output.image);
+            try {
+                ((GlobalOtsuBinaryFilter<F32> *)nativePtr)->process(input.image, output.image);
+            } catch( ... ) {
+                env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
+                throw;
+            }
             env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         }
     } catch( ... ) {
@@ -73,7 +83,8 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeGlobalOtsu_nativeprocess
     }
 
     // Release the arrays
-    env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
+    if( output.image.data != nullptr )
+        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
 }
 
 }
\ No newline at end of file
diff --git a/boofcpp-jni/src/main/cpp/NativeLocalMean.cpp b/boofcpp-jni/src/main/cpp/NativeLocalMean.cpp
index 3ba111b..0397d8a 100644
--- a/boofcpp-jni/src/main/cpp/NativeLocalMean.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeLocalMean.cpp
@@ -62,13 +62,23 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeLocalMean_nativeprocess
             ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
             input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
             output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
-            ((InputToBinary<Gray<U8>>*)nativePtr)->process(input.image, output.image);
+            try {
+                ((InputToBinary<Gray<U8>>*)nativePtr)->process(input.image, output.image);
+            } catch( ... ) {
+                env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
+                throw;
+            }
             env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         } else {
             ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
             input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
             output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
-            ((InputToBinary<Gray<F32>> *)nativePtr)->process(input.image, output.image);
+            try {
+                ((InputToBinary<Gray<F32>> *)nativePtr)->process(input.image, output.image);
+            } catch( ... ) {
+                env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
+                throw;
+            }
             env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
         }
     } catch( ... ) {
@@ -77,7 +87,8 @@ JNIEXPORT void JNICALL Java_org_boofcpp_threshold_NativeLocalMean_nativeprocess
     }
 
     // Release the arrays
-    env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
+    if( output.image.data != nullptr )
+        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
 }
 
 }
\ No newline at end of file
-- 
2.43.0


From 95ffb72c6f4e6498350b3b7c24d6a7d9879e8407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:56 +0000
Subject: [PATCH 20/42] fix: averaging the bands of negative pixels divided by
 an unsigned number

---
 boofcpp/src/boofcv/image_convert.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/image_convert.h b/boofcpp/src/boofcv/image_convert.h
index 8e7439e..47025e3 100644
--- a/boofcpp/src/boofcv/image_convert.h
+++ b/boofcpp/src/boofcv/image_convert.h
@@ -32,7 +32,7 @@ namespace boofcv {
                     sum += *input_ptr++;
                 }
 
-                *output_ptr++ = static_cast<E>(sum/input.num_bands);
+                *output_ptr++ = static_cast<E>(sum/static_cast<sum_type>(input.num_bands));
             }
         }
     }
-- 
2.43.0


From 34ba082ce4e2f1eed4ea79c6a3ab6c5d672157bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:56 +0000
Subject: [PATCH 21/42] fix: mean of an image with a negative sum divided by an
 unsigned number

---
 boofcpp/src/boofcv/image_statistics.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/boofcpp/src/boofcv/image_statistics.h b/boofcpp/src/boofcv/image_statistics.h
index 59686c3..a6d17fa 100644
--- a/boofcpp/src/boofcv/image_statistics.h
+++ b/boofcpp/src/boofcv/image_statistics.h
@@ -59,8 +59,9 @@ namespace boofcv {
 
         template<class T>
         static T mean( const Gray<T>& input) {
-            typename TypeInfo<T>::sum_type a = sum(input);
-            return static_cast<T>(a / (input.width * input.height));
+            typedef typename TypeInfo<T>::sum_type sum_type;
+            sum_type a = sum(input);
+            return static_cast<T>(a / static_cast<sum_type>(input.width * input.height));
         }
 
         template<class T>
-- 
2.43.0


From f99414bcf77f3f8bcdd6935f735d1672ed705907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:56 +0000
Subject: [PATCH 22/42] fix: block mean threshold divided negative sums by an
 unsigned number

---
 boofcpp/src/boofcv/threshold_block_filters.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/boofcpp/src/boofcv/threshold_block_filters.h b/boofcpp/src/boofcv/threshold_block_filters.h
index 9b3261b..8aeca13 100644
--- a/boofcpp/src/boofcv/threshold_block_filters.h
+++ b/boofcpp/src/boofcv/threshold_block_filters.h
@@ -225,14 +225,15 @@ namespace boofcv
             }
 
             // Average the mean across local blocks
-            typename TypeInfo<E>::sum_type sum = 0;
+            typedef typename TypeInfo<E>::sum_type sum_type;
+            sum_type sum = 0;
 
             for (uint32_t y = blockY0; y <= blockY1; y++) {
                 for (uint32_t x = blockX0; x <= blockX1; x++) {
                     sum += this->stats.unsafe_at(x,y,0);
                 }
             }
-            E mean = sum/((blockY1-blockY0+1)*(blockX1-blockX0+1));
+            E mean = sum/static_cast<sum_type>((blockY1-blockY0+1)*(blockX1-blockX0+1));
 
             // apply threshold
             for (uint32_t y = y0; y < y1; y++) {
-- 
2.43.0


From 88f3456094ddf2e2fb3a605f07639cccddf60c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:44 +0000
Subject: [PATCH 23/42] fix: limit scaled block means to the range of the pixel
 type

---
 boofcpp/src/boofcv/threshold_block_filters.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/boofcpp/src/boofcv/threshold_block_filters.h b/boofcpp/src/boofcv/threshold_block_filters.h
index 8aeca13..200115a 100644
--- a/boofcpp/src/boofcv/threshold_block_filters.h
+++ b/boofcpp/src/boofcv/threshold_block_filters.h
@@ -274,6 +274,9 @@ namespace boofcv
             else {
                 sum = static_cast<sum_type>(scale*sum/(width*height));
             }
+            // a scale above one can make it larger than what a pixel can hold
+            sum = std::min(sum, static_cast<sum_type>(std::numeric_limits<E>::max()));
+            sum = std::max(sum, static_cast<sum_type>(std::numeric_limits<E>::lowest()));
             this->stats.data[indexStats] = static_cast<E>(sum);
         }
     };
-- 
2.43.0


From 68a7bb87c5521a2809d2cab042be1ee96c54bfcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:17 +0000
Subject: [PATCH 24/42] fix: 2D kernels given row by row accepted an origin
 outside of the kernel

---
 boofcpp/src/boofcv/convolve_kernels.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/boofcpp/src/boofcv/convolve_kernels.h b/boofcpp/src/boofcv/convolve_kernels.h
index 0b77a69..80464a9 100644
--- a/boofcpp/src/boofcv/convolve_kernels.h
+++ b/boofcpp/src/boofcv/convolve_kernels.h
@@ -167,6 +167,8 @@ namespace boofcv {
 
         Kernel2D(uint32_t offset, std::initializer_list<std::initializer_list<E>> l ) {
             this->width = static_cast<uint32_t >(l.size());
+            if( offset >= this->width )
+                throw std::invalid_argument("The offset must be inside the kernel's bounds");
             this->offset = offset;
 
             this->data.resize(this->width*this->width);
-- 
2.43.0


From ee57cfd806f5579e6e5e473cf45acec79d18243d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:47 +0000
Subject: [PATCH 25/42] fix: native blurs, convolutions and contours kept
 arrays if the operation failed

---
 boofcpp-jni/src/main/cpp/JNIBoofCPP.h         | 29 +++++++
 boofcpp-jni/src/main/cpp/NativeChang2004.cpp  | 11 ++-
 .../src/main/cpp/NativeImageBlurOps.cpp       | 40 +++------
 .../src/main/cpp/NativeImageConvolve.cpp      | 81 ++++++-------------
 .../cpp/NativeImageConvolveNormalized.cpp     | 40 +++------
 5 files changed, 82 insertions(+), 119 deletions(-)

diff --git a/boofcpp-jni/src/main/cpp/JNIBoofCPP.h b/boofcpp-jni/src/main/cpp/JNIBoofCPP.h
index c9a72a8..e3c6ffd 100644
--- a/boofcpp-jni/src/main/cpp/JNIBoofCPP.h
+++ b/boofcpp-jni/src/main/cpp/JNIBoofCPP.h
@@ -8,6 +8,7 @@
 #include "convolve.h"
 #include <geometry_types.h>
 #include <packed_sets.h>
+#include <memory>
 
 class WrapJGrowQueue_I32 {
 public:
@@ -78,6 +79,34 @@ struct ImageAndInfo {
     Info info;
 };
 
+/**
+ * Acquires the pixels of an image for as long as it exists. They are also given back if the operation on
+ * the image fails with an exception. There can't be any other JNI calls while it exists.
+ */
+template<class Image>
+class CriticalPixels {
+public:
+    CriticalPixels( JNIEnv *env, ImageAndInfo<Image,JImageInfo>& wrapped, jint mode )
+    : env(env), array((jarray)wrapped.info.jdata), mode(mode)
+    {
+        data = env->GetPrimitiveArrayCritical(array, 0);
+        wrapped.image.data = static_cast<decltype(wrapped.image.data)>(data);
+    }
+
+    ~CriticalPixels() {
+        env->ReleasePrimitiveArrayCritical(array, data, mode);
+    }
+
+    CriticalPixels( const CriticalPixels& ) = delete;
+    CriticalPixels& operator=( const CriticalPixels& ) = delete;
+
+private:
+    JNIEnv *env;
+    jarray array;
+    void* data;
+    jint mode;
+};
+
 void copy_into_java( JNIEnv *env, const boofcv::PackedSet<boofcv::Point2D<boofcv::S32>>& src , jobject dst );
 
 jclass safe_FindClass( JNIEnv *env, const char* name );
diff --git a/boofcpp-jni/src/main/cpp/NativeChang2004.cpp b/boofcpp-jni/src/main/cpp/NativeChang2004.cpp
index 315a8e6..19e1307 100644
--- a/boofcpp-jni/src/main/cpp/NativeChang2004.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeChang2004.cpp
@@ -43,13 +43,12 @@ JNIEXPORT void JNICALL Java_org_boofcpp_contour_NativeChang2004_native_1process
     ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jbinary);
     ImageAndInfo<Gray<S32>,JImageInfo> label = wrapCriticalGrayS32(env,jlabel);
 
-    input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-    label.image.data = (S32*)env->GetPrimitiveArrayCritical((jarray)label.info.jdata, 0);
+    {
+        CriticalPixels<Gray<U8>> inputPixels(env,input,JNI_ABORT);
+        CriticalPixels<Gray<S32>> labelPixels(env,label,0);
 
-    contour->process(input.image, label.image);
-
-    env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-    env->ReleasePrimitiveArrayCritical((jarray)label.info.jdata, label.image.data, 0);
+        contour->process(input.image, label.image);
+    }
 
     jfieldID fidPoints = safe_GetFieldID(env, objClass, "storagePoints", "Lorg/ddogleg/struct/GrowQueue_I32;");
     jobject jpoints = env->GetObjectField(obj,fidPoints);
diff --git a/boofcpp-jni/src/main/cpp/NativeImageBlurOps.cpp b/boofcpp-jni/src/main/cpp/NativeImageBlurOps.cpp
index 78bb88c..7f5a8a4 100644
--- a/boofcpp-jni/src/main/cpp/NativeImageBlurOps.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeImageBlurOps.cpp
@@ -17,29 +17,21 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeImageBlurOps_nativeMean(
         ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
         ImageAndInfo<Gray<U8>,JImageInfo> storage = wrapCriticalGrayU8(env,jstorage);
 
-        input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-        output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
-        storage.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)storage.info.jdata, 0);
+        CriticalPixels<Gray<U8>> inputPixels(env,input,JNI_ABORT);
+        CriticalPixels<Gray<U8>> outputPixels(env,output,0);
+        CriticalPixels<Gray<U8>> storagePixels(env,storage,JNI_ABORT);
 
         BlurImageOps::mean(input.image,output.image,(uint32_t)radius,storage.image);
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
-        env->ReleasePrimitiveArrayCritical((jarray)storage.info.jdata, storage.image.data, JNI_ABORT);
     } else {
         ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
         ImageAndInfo<Gray<F32>,JImageInfo> output = wrapCriticalGrayF32(env,joutput);
         ImageAndInfo<Gray<F32>,JImageInfo> storage = wrapCriticalGrayF32(env,jstorage);
 
-        input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-        output.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
-        storage.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)storage.info.jdata, 0);
+        CriticalPixels<Gray<F32>> inputPixels(env,input,JNI_ABORT);
+        CriticalPixels<Gray<F32>> outputPixels(env,output,0);
+        CriticalPixels<Gray<F32>> storagePixels(env,storage,JNI_ABORT);
 
         BlurImageOps::mean(input.image,output.image,(uint32_t)radius,storage.image);
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
-        env->ReleasePrimitiveArrayCritical((jarray)storage.info.jdata, storage.image.data, JNI_ABORT);
     }
 }
 
@@ -57,29 +49,21 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeImageBlurOps_nativeGaussi
         ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
         ImageAndInfo<Gray<U8>,JImageInfo> storage = wrapCriticalGrayU8(env,jstorage);
 
-        input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-        output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
-        storage.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)storage.info.jdata, 0);
+        CriticalPixels<Gray<U8>> inputPixels(env,input,JNI_ABORT);
+        CriticalPixels<Gray<U8>> outputPixels(env,output,0);
+        CriticalPixels<Gray<U8>> storagePixels(env,storage,JNI_ABORT);
 
         BlurImageOps::gaussian(input.image,output.image,(double)sigma,(int32_t)width,storage.image);
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
-        env->ReleasePrimitiveArrayCritical((jarray)storage.info.jdata, storage.image.data, JNI_ABORT);
     } else {
         ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
         ImageAndInfo<Gray<F32>,JImageInfo> output = wrapCriticalGrayF32(env,joutput);
         ImageAndInfo<Gray<F32>,JImageInfo> storage = wrapCriticalGrayF32(env,jstorage);
 
-        input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-        output.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
-        storage.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)storage.info.jdata, 0);
+        CriticalPixels<Gray<F32>> inputPixels(env,input,JNI_ABORT);
+        CriticalPixels<Gray<F32>> outputPixels(env,output,0);
+        CriticalPixels<Gray<F32>> storagePixels(env,storage,JNI_ABORT);
 
         BlurImageOps::gaussian(input.image,output.image,(double)sigma,(int32_t)width,storage.image);
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
-        env->ReleasePrimitiveArrayCritical((jarray)storage.info.jdata, storage.image.data, JNI_ABORT);
     }
 }
 
diff --git a/boofcpp-jni/src/main/cpp/NativeImageConvolve.cpp b/boofcpp-jni/src/main/cpp/NativeImageConvolve.cpp
index b74cfd7..56b65b6 100644
--- a/boofcpp-jni/src/main/cpp/NativeImageConvolve.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeImageConvolve.cpp
@@ -41,7 +41,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeHoriz
     if( isInteger ) {
         if( inputBits != 8 )
             throw std::runtime_error("Can only handle 8-bit input integer images currently");
-        boofcv::Kernel1D<S32>* kernel = extractKernel1D_S32(env,jkernel);
+        std::unique_ptr<boofcv::Kernel1D<S32>> kernel(extractKernel1D_S32(env,jkernel));
         std::shared_ptr<ImageBorder<U8>> border = FactoryImageBorder::create_SB<U8>(borderType);
 
         ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
@@ -49,8 +49,8 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeHoriz
 
         if( outputBits == 16 ) {
             ImageAndInfo<Gray<S16>,JImageInfo> output = wrapCriticalGrayS16(env,joutput);
-            input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-            output.image.data = (S16*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalPixels<Gray<U8>> inputPixels(env,input,JNI_ABORT);
+            CriticalPixels<Gray<S16>> outputPixels(env,output,0);
 
             // Trying to figure out why this runs slower than a C++ application
             // JNI overhead appears to be negligible based on the printed times below
@@ -59,40 +59,29 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeHoriz
             ConvolveImage::horizontal(*kernel, *border.get(),output.image);
 //            t = clock() - t;
 //            printf("horizontal time %f kernel %d\n",(float)1000*t/CLOCKS_PER_SEC,kernel->width);
-
-            env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
         } else if( outputBits == 32 ) {
             ImageAndInfo<Gray<S32>,JImageInfo> output = wrapCriticalGrayS32(env,joutput);
-            input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-            output.image.data = (S32*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalPixels<Gray<U8>> inputPixels(env,input,JNI_ABORT);
+            CriticalPixels<Gray<S32>> outputPixels(env,output,0);
 
             ConvolveImage::horizontal(*kernel, *border.get(),output.image);
-
-            env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
         } else {
             throw std::runtime_error("Can only handle 16-bit or 32-bit integer output images currently");
         }
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        delete kernel;
     } else {
         if( inputBits != 32 || outputBits != 32 ) {
             throw std::runtime_error("Can only handle 32-bit floats currently");
         }
         ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
         ImageAndInfo<Gray<F32>,JImageInfo> output = wrapCriticalGrayF32(env,joutput);
-        boofcv::Kernel1D<F32>* kernel = extractKernel1D_F32(env,jkernel);
+        std::unique_ptr<boofcv::Kernel1D<F32>> kernel(extractKernel1D_F32(env,jkernel));
         std::shared_ptr<ImageBorder<F32>> border = FactoryImageBorder::create_SB<F32>(borderType);
         border.get()->setImage(input.image);
 
-        input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-        output.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+        CriticalPixels<Gray<F32>> inputPixels(env,input,JNI_ABORT);
+        CriticalPixels<Gray<F32>> outputPixels(env,output,0);
 
         ConvolveImage::horizontal(*kernel, *border.get(),output.image);
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
-        delete kernel;
     }
 }
 
@@ -110,7 +99,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeVerti
     if( isInteger ) {
         if( inputBits != 8 )
             throw std::runtime_error("Can only handle 8-bit input integer images currently");
-        boofcv::Kernel1D<S32>* kernel = extractKernel1D_S32(env,jkernel);
+        std::unique_ptr<boofcv::Kernel1D<S32>> kernel(extractKernel1D_S32(env,jkernel));
         std::shared_ptr<ImageBorder<U8>> border = FactoryImageBorder::create_SB<U8>(borderType);
 
         ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
@@ -118,44 +107,33 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeVerti
 
         if( outputBits == 16 ) {
             ImageAndInfo<Gray<S16>,JImageInfo> output = wrapCriticalGrayS16(env,joutput);
-            input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-            output.image.data = (S16*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalPixels<Gray<U8>> inputPixels(env,input,JNI_ABORT);
+            CriticalPixels<Gray<S16>> outputPixels(env,output,0);
 
             ConvolveImage::vertical(*kernel, *border.get(),output.image);
-
-            env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
         } else if( outputBits == 32 ) {
             ImageAndInfo<Gray<S32>,JImageInfo> output = wrapCriticalGrayS32(env,joutput);
-            input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-            output.image.data = (S32*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalPixels<Gray<U8>> inputPixels(env,input,JNI_ABORT);
+            CriticalPixels<Gray<S32>> outputPixels(env,output,0);
 
             ConvolveImage::vertical(*kernel, *border.get(),output.image);
-
-            env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
         } else {
             throw std::runtime_error("Can only handle 16-bit or 32-bit integer output currently");
         }
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        delete kernel;
     } else {
         if( inputBits != 32 || outputBits != 32 ) {
             throw std::runtime_error("Can only handle 32-bit floats currently");
         }
         ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
         ImageAndInfo<Gray<F32>,JImageInfo> output = wrapCriticalGrayF32(env,joutput);
-        boofcv::Kernel1D<F32>* kernel = extractKernel1D_F32(env,jkernel);
+        std::unique_ptr<boofcv::Kernel1D<F32>> kernel(extractKernel1D_F32(env,jkernel));
         std::shared_ptr<ImageBorder<F32>> border = FactoryImageBorder::create_SB<F32>(borderType);
         border.get()->setImage(input.image);
 
-        input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-        output.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+        CriticalPixels<Gray<F32>> inputPixels(env,input,JNI_ABORT);
+        CriticalPixels<Gray<F32>> outputPixels(env,output,0);
 
         ConvolveImage::vertical(*kernel, *border.get(),output.image);
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
-        delete kernel;
     }
 }
 
@@ -173,7 +151,7 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeConvo
     if( isInteger ) {
         if( inputBits != 8 )
             throw std::runtime_error("Can only handle 8-bit input integer images currently");
-        boofcv::Kernel2D<S32>* kernel = extractKernel2D_S32(env,jkernel);
+        std::unique_ptr<boofcv::Kernel2D<S32>> kernel(extractKernel2D_S32(env,jkernel));
         std::shared_ptr<ImageBorder<U8>> border = FactoryImageBorder::create_SB<U8>(borderType);
 
         ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
@@ -181,44 +159,33 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeConvolveImage_nativeConvo
 
         if( outputBits == 16 ) {
             ImageAndInfo<Gray<S16>,JImageInfo> output = wrapCriticalGrayS16(env,joutput);
-            input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-            output.image.data = (S16*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalPixels<Gray<U8>> inputPixels(env,input,JNI_ABORT);
+            CriticalPixels<Gray<S16>> outputPixels(env,output,0);
 
             ConvolveImage::convolve(*kernel, *border.get(),output.image);
-
-            env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
         } else if( outputBits == 32 ) {
             ImageAndInfo<Gray<S32>,JImageInfo> output = wrapCriticalGrayS32(env,joutput);
-            input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-            output.image.data = (S32*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+            CriticalPixels<Gray<U8>> inputPixels(env,input,JNI_ABORT);
+            CriticalPixels<Gray<S32>> outputPixels(env,output,0);
 
             ConvolveImage::convolve(*kernel, *border.get(),output.image);
-
-            env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
         } else {
             throw std::runtime_error("Can only handle 16-bit or 32-bit integer output images currently");
         }
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        delete kernel;
     } else {
         if( inputBits != 32 || outputBits != 32 ) {
             throw std::runtime_error("Can only handle 32-bit floats currently");
         }
         ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
         ImageAndInfo<Gray<F32>,JImageInfo> output = wrapCriticalGrayF32(env,joutput);
-        boofcv::Kernel2D<F32>* kernel = extractKernel2D_F32(env,jkernel);
+        std::unique_ptr<boofcv::Kernel2D<F32>> kernel(extractKernel2D_F32(env,jkernel));
         std::shared_ptr<ImageBorder<F32>> border = FactoryImageBorder::create_SB<F32>(borderType);
         border.get()->setImage(input.image);
 
-        input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-        output.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+        CriticalPixels<Gray<F32>> inputPixels(env,input,JNI_ABORT);
+        CriticalPixels<Gray<F32>> outputPixels(env,output,0);
 
         ConvolveImage::convolve(*kernel, *border.get(),output.image);
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
-        delete kernel;
     }
 }
 
diff --git a/boofcpp-jni/src/main/cpp/NativeImageConvolveNormalized.cpp b/boofcpp-jni/src/main/cpp/NativeImageConvolveNormalized.cpp
index d5ddc2c..98c657f 100644
--- a/boofcpp-jni/src/main/cpp/NativeImageConvolveNormalized.cpp
+++ b/boofcpp-jni/src/main/cpp/NativeImageConvolveNormalized.cpp
@@ -17,29 +17,21 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeImageConvolveNormalized_n
     if( isInteger ) {
         ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
         ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
-        boofcv::Kernel1D<S32>* kernel = extractKernel1D_S32(env,jkernel);
+        std::unique_ptr<boofcv::Kernel1D<S32>> kernel(extractKernel1D_S32(env,jkernel));
 
-        input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-        output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+        CriticalPixels<Gray<U8>> inputPixels(env,input,JNI_ABORT);
+        CriticalPixels<Gray<U8>> outputPixels(env,output,0);
 
         ConvolveNormalized::horizontal(*kernel, input.image,output.image);
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
-        delete kernel;
     } else {
         ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
         ImageAndInfo<Gray<F32>,JImageInfo> output = wrapCriticalGrayF32(env,joutput);
-        boofcv::Kernel1D<F32>* kernel = extractKernel1D_F32(env,jkernel);
+        std::unique_ptr<boofcv::Kernel1D<F32>> kernel(extractKernel1D_F32(env,jkernel));
 
-        input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-        output.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+        CriticalPixels<Gray<F32>> inputPixels(env,input,JNI_ABORT);
+        CriticalPixels<Gray<F32>> outputPixels(env,output,0);
 
         ConvolveNormalized::horizontal(*kernel, input.image,output.image);
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
-        delete kernel;
     }
 }
 
@@ -53,29 +45,21 @@ JNIEXPORT void JNICALL Java_org_boofcpp_convolve_NativeImageConvolveNormalized_n
     if( isInteger ) {
         ImageAndInfo<Gray<U8>,JImageInfo> input = wrapCriticalGrayU8(env,jinput);
         ImageAndInfo<Gray<U8>,JImageInfo> output = wrapCriticalGrayU8(env,joutput);
-        boofcv::Kernel1D<S32>* kernel = extractKernel1D_S32(env,jkernel);
+        std::unique_ptr<boofcv::Kernel1D<S32>> kernel(extractKernel1D_S32(env,jkernel));
 
-        input.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-        output.image.data = (U8*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+        CriticalPixels<Gray<U8>> inputPixels(env,input,JNI_ABORT);
+        CriticalPixels<Gray<U8>> outputPixels(env,output,0);
 
         ConvolveNormalized::vertical(*kernel, input.image,output.image);
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
-        delete kernel;
     } else {
         ImageAndInfo<Gray<F32>,JImageInfo> input = wrapCriticalGrayF32(env,jinput);
         ImageAndInfo<Gray<F32>,JImageInfo> output = wrapCriticalGrayF32(env,joutput);
-        boofcv::Kernel1D<F32>* kernel = extractKernel1D_F32(env,jkernel);
+        std::unique_ptr<boofcv::Kernel1D<F32>> kernel(extractKernel1D_F32(env,jkernel));
 
-        input.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)input.info.jdata, 0);
-        output.image.data = (F32*)env->GetPrimitiveArrayCritical((jarray)output.info.jdata, 0);
+        CriticalPixels<Gray<F32>> inputPixels(env,input,JNI_ABORT);
+        CriticalPixels<Gray<F32>> outputPixels(env,output,0);
 
         ConvolveNormalized::vertical(*kernel, input.image,output.image);
-
-        env->ReleasePrimitiveArrayCritical((jarray)input.info.jdata, input.image.data, JNI_ABORT);
-        env->ReleasePrimitiveArrayCritical((jarray)output.info.jdata, output.image.data, 0);
-        delete kernel;
     }
 }
 
-- 
2.43.0


From fdcdb59ffb7ffa158ddb782c354bb0f0527b826a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:33 +0000
Subject: [PATCH 26/42] fix: native convolutions kept the kernel array if its
 shape was rejected

---
 boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp b/boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp
index b00988d..22d79bd 100644
--- a/boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp
+++ b/boofcpp-jni/src/main/cpp/JNIBoofCPP.cpp
@@ -371,11 +371,13 @@ boofcv::Kernel1D<S32>* extractKernel1D_S32( JNIEnv *env, jobject& jkernel ) {
 
     jfieldID fid = env->GetFieldID(objClass, "data", "[I");
     jobject  jarray = env->GetObjectField (jkernel, fid);
+    // an invalid shape is rejected before the array is acquired
+    auto kernel1D = new boofcv::Kernel1D<S32>((uint32_t)width,(uint32_t)offset);
+
     jint* data = env->GetIntArrayElements((jintArray)jarray, 0);
     jint length = env->GetArrayLength((jintArray)jarray);
 
     // copy the Java array into the kernel
-    auto kernel1D = new boofcv::Kernel1D<S32>((uint32_t)width,(uint32_t)offset);
     kernel1D->data.set((S32*)data,(uint32_t)length);
 
     // release java objects
@@ -392,11 +394,13 @@ boofcv::Kernel1D<F32>* extractKernel1D_F32( JNIEnv *env, jobject& jkernel ) {
 
     jfieldID fid = env->GetFieldID(objClass, "data", "[F");
     jobject  jarray = env->GetObjectField (jkernel, fid);
+    // an invalid shape is rejected before the array is acquired
+    auto kernel1D = new boofcv::Kernel1D<F32>((uint32_t)width,(uint32_t)offset);
+
     jfloat* data = env->GetFloatArrayElements((jfloatArray)jarray, 0);
     jint length = env->GetArrayLength((jfloatArray)jarray);
 
     // copy the Java array into the kernel
-    auto kernel1D = new boofcv::Kernel1D<F32>((uint32_t)width,(uint32_t)offset);
     kernel1D->data.set((F32*)data,(uint32_t)length);
 
     // release java objects
@@ -413,11 +417,13 @@ boofcv::Kernel2D<boofcv::S32>* extractKernel2D_S32( JNIEnv *env, jobject& jkerne
 
     jfieldID fid = env->GetFieldID(objClass, "data", "[I");
     jobject  jarray = env->GetObjectField (jkernel, fid);
+    // an invalid shape is rejected before the array is acquired
+    auto kernel2D = new boofcv::Kernel2D<S32>((uint32_t)width,(uint32_t)offset);
+
     jint* data = env->GetIntArrayElements((jintArray)jarray, 0);
     jint length = env->GetArrayLength((jintArray)jarray);
 
     // copy the Java array into the kernel
-    auto kernel2D = new boofcv::Kernel2D<S32>((uint32_t)width,(uint32_t)offset);
     kernel2D->data.set((S32*)data,(uint32_t)length);
 
     // release java objects
@@ -434,11 +440,13 @@ boofcv::Kernel2D<boofcv::F32>* extractKernel2D_F32( JNIEnv *env, jobject& jkerne
 
     jfieldID fid = env->GetFieldID(objClass, "data", "[F");
     jobject  jarray = env->GetObjectField (jkernel, fid);
+    // an invalid shape is rejected before the array is acquired
+    auto kernel2D = new boofcv::Kernel2D<F32>((uint32_t)width,(uint32_t)offset);
+
     jfloat* data = env->GetFloatArrayElements((jfloatArray)jarray, 0);
     jint length = env->GetArrayLength((jfloatArray)jarray);
 
     // copy the Java array into the kernel
-    auto kernel2D = new boofcv::Kernel2D<F32>((uint32_t)width,(uint32_t)offset);
     kernel2D->data.set((F32*)data,(uint32_t)length);
 
     // release java objects
-- 
2.43.0


From df4f9771796a1482e8795c8e7870e0f346a456ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:26 +0000
Subject: [PATCH 27/42] fix: GrowArray: an assignment rejected by an array
 which wraps memory keeps its default value

---
 boofcpp/src/boofcv/base_types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/base_types.h b/boofcpp/src/boofcv/base_types.h
index 2acc084..78002e2 100644
--- a/boofcpp/src/boofcv/base_types.h
+++ b/boofcpp/src/boofcv/base_types.h
@@ -177,8 +177,8 @@ namespace boofcv {
         GrowArray<T>& operator=(const GrowArray<T>& other) // copy assignment
         {
             if (this != &other) { // self-assignment check expected
-                this->default_value = other.default_value;
                 this->grow_array(other.size);
+                this->default_value = other.default_value;
                 this->size = other.size;
                 std::memcpy(this->data,other.data,sizeof(T)*other.size);
             }
-- 
2.43.0


From 7997365aa4a65e4486b9898864c8d2cc6af51e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:25 +0000
Subject: [PATCH 28/42] fix: mean blur kept a row of sums on the stack, which
 wide images overflow

---
 boofcpp/src/boofcv/image_blur.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/boofcpp/src/boofcv/image_blur.h b/boofcpp/src/boofcv/image_blur.h
index 3e53c57..760646e 100644
--- a/boofcpp/src/boofcv/image_blur.h
+++ b/boofcpp/src/boofcv/image_blur.h
@@ -4,6 +4,7 @@
 #include "convolve.h"
 #include "sanity_checks.h"
 #include <math.h>
+#include <vector>
 
 namespace boofcv {
     /**
@@ -94,7 +95,7 @@ namespace boofcv {
 
             sum_type divisor = kernelWidth;
             sum_type halfDivisor = divisor/2;
-            sum_type totals[ input.width ];
+            std::vector<sum_type> totals(input.width);
 
             for( uint32_t x = 0; x < input.width; x++ ) {
                 uint32_t indexIn = input.offset + x;
@@ -137,7 +138,7 @@ namespace boofcv {
             uint32_t backStep = kernelWidth*input.stride;
 
             sum_type divisor = kernelWidth;
-            sum_type totals[ input.width ];
+            std::vector<sum_type> totals(input.width);
 
             for( uint32_t x = 0; x < input.width; x++ ) {
                 uint32_t indexIn = input.offset + x;
-- 
2.43.0


From 12cbaba2ebcf1c9bb73e010813d54aab2611e44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:58 +0000
Subject: [PATCH 29/42] fix: images with more elements than can be indexed were
 given too little memory

---
 boofcpp/src/boofcv/image_types.h | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index 9aa07dc..f36635f 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -60,6 +60,17 @@ namespace boofcv {
         bool isInBounds( uint32_t x , uint32_t y ) const {
             return x < this->width && y < this->height;
         }
+
+    protected:
+        /**
+         * Length of the data array of an image. Shapes with more elements than can be indexed are rejected.
+         */
+        static uint32_t dataLength( uint32_t width , uint32_t height , uint32_t num_bands = 1 ) {
+            const uint64_t total = static_cast<uint64_t>(width)*height;
+            if( total > 0xFFFFFFFF || total*num_bands > 0xFFFFFFFF )
+                throw invalid_argument("Image is too large");
+            return static_cast<uint32_t>(total*num_bands);
+        }
     };
 
     template<class _PT>
@@ -87,8 +98,8 @@ namespace boofcv {
         Gray( uint32_t width , uint32_t height ) {
             this->width = width;
             this->height = height;
-            this->data = new T[width*height]();
-            this->data_length = width*height;
+            this->data_length = this->dataLength(width,height);
+            this->data = new T[this->data_length]();
             this->offset = 0;
             this->stride = width;
             this->subimage = false;
@@ -162,7 +173,7 @@ namespace boofcv {
                 throw invalid_argument("Can't reshape a subimage");
             }
 
-            uint32_t desired_length = width*height;
+            uint32_t desired_length = this->dataLength(width,height);
             if( desired_length > this->data_length ) {
                 delete []this->data;
                 this->data = new T[desired_length]();
@@ -358,7 +369,7 @@ namespace boofcv {
             this->width = width;
             this->height = height;
             this->num_bands = num_bands;
-            this->data_length = width*height*num_bands;
+            this->data_length = this->dataLength(width,height,num_bands);
             this->data = new T[this->data_length]();
             this->offset = 0;
             this->stride = width*num_bands;
@@ -428,7 +439,7 @@ namespace boofcv {
                 throw invalid_argument("Can't reshape a subimage");
             }
 
-            uint32_t new_length = width*height*bands;
+            uint32_t new_length = this->dataLength(width,height,bands);
             if( new_length > data_length ) {
                 if( this->subimage ) {
                     throw invalid_argument("Grow the data array in a subimage");
@@ -451,7 +462,7 @@ namespace boofcv {
                 throw invalid_argument("Can't reshape a subimage");
             }
 
-            uint32_t desired_length = width*height*this->num_bands;
+            uint32_t desired_length = this->dataLength(width,height,this->num_bands);
             if( desired_length > this->data_length ) {
                 delete []data;
                 this->data = new T[desired_length]();
@@ -479,7 +490,7 @@ namespace boofcv {
                 throw invalid_argument("Can't reshape a subimage");
             }
 
-            uint32_t new_length = this->width*this->height*desired;
+            uint32_t new_length = this->dataLength(this->width,this->height,desired);
             if( new_length > data_length ) {
                 if( this->subimage ) {
                     throw invalid_argument("Grow the data array in a subimage");
@@ -496,8 +507,7 @@ namespace boofcv {
             if (this->subimage && (this->width != src.width || this->height != src.height || this->num_bands != src.num_bands) ) {
                 throw invalid_argument("Shapes must match for sub images");
             } else {
-                setNumberOfBands(src.num_bands);
-                reshape(src.width, src.height);
+                reshape(src.width, src.height, src.num_bands);
             }
             // This will handle the situation where all of some of the images are sub-images
             for( uint32_t y = 0; y < this->height; y++ ) {
-- 
2.43.0


From 91b4eb020f1cd29c5eecabe60874cd25ea03610d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:20 +0000
Subject: [PATCH 30/42] fix: images gave back their pixels before they had the
 memory to replace them

---
 boofcpp/src/boofcv/image_types.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index f36635f..489bfd4 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -175,8 +175,9 @@ namespace boofcv {
 
             uint32_t desired_length = this->dataLength(width,height);
             if( desired_length > this->data_length ) {
+                T* new_data = new T[desired_length]();
                 delete []this->data;
-                this->data = new T[desired_length]();
+                this->data = new_data;
                 this->data_length = desired_length;
             }
             this->width = width;
@@ -444,8 +445,9 @@ namespace boofcv {
                 if( this->subimage ) {
                     throw invalid_argument("Grow the data array in a subimage");
                 }
+                T* new_data = new T[new_length]();
                 delete []data;
-                data = new T[new_length]();
+                data = new_data;
                 this->data_length = new_length;
             }
 
@@ -464,8 +466,9 @@ namespace boofcv {
 
             uint32_t desired_length = this->dataLength(width,height,this->num_bands);
             if( desired_length > this->data_length ) {
+                T* new_data = new T[desired_length]();
                 delete []data;
-                this->data = new T[desired_length]();
+                this->data = new_data;
                 this->data_length = desired_length;
             }
             this->width = width;
@@ -495,8 +498,9 @@ namespace boofcv {
                 if( this->subimage ) {
                     throw invalid_argument("Grow the data array in a subimage");
                 }
+                T* new_data = new T[new_length]();
                 delete []data;
-                data = new T[new_length]();
+                data = new_data;
                 this->data_length = new_length;
             }
             this->num_bands = desired;
-- 
2.43.0


From e89b00977ac09c6f5c752c9067ea42dda0f6d325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:20 +0000
Subject: [PATCH 31/42] fix: GrowArray gave back its elements before it had the
 memory to replace them

---
 boofcpp/src/boofcv/base_types.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/base_types.h b/boofcpp/src/boofcv/base_types.h
index 78002e2..88168ad 100644
--- a/boofcpp/src/boofcv/base_types.h
+++ b/boofcpp/src/boofcv/base_types.h
@@ -129,8 +129,9 @@ namespace boofcv {
             if( !can_resize )
                 throw std::invalid_argument("Can't resize array");
             if( new_size > array_length ) {
+                T* new_data = new T[new_size];
                 delete []this->data;
-                this->data = new T[new_size];
+                this->data = new_data;
                 this->array_length = new_size;
                 for( uint32_t i = 0; i < new_size; i++ )
                     this->data[i] = default_value;
-- 
2.43.0


From 561d508bc876d5fe9537467d9cb7e4fec2bb729e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:20 +0000
Subject: [PATCH 32/42] fix: Gray images given row by row kept their memory if
 the rows did not match

---
 boofcpp/src/boofcv/image_types.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index 489bfd4..a838ddd 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -126,6 +126,11 @@ namespace boofcv {
             } else {
                 this->width = static_cast<uint32_t >(l.begin()->size());
             }
+            for (auto& x : l ) {
+                if( x.size() != this->width ) {
+                    throw invalid_argument("width missmatch");
+                }
+            }
             this->data = new T[this->width*this->height]();
             this->data_length = this->width*this->height;
             this->offset = 0;
@@ -134,9 +139,6 @@ namespace boofcv {
             
             T* ptr = this->data;
             for (auto& x : l ) {
-                if( x.size() != this->width ) {
-                    throw invalid_argument("width missmatch");
-                }
                 for(auto& y : x ) {
                     *ptr++ = y;
                 }
-- 
2.43.0


From d850da78f9884f76b497bce4c999f7bdf513e2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:20 +0000
Subject: [PATCH 33/42] fix: images which became a sub-image of another one
 kept the memory they owned

---
 boofcpp/src/boofcv/image_types.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index a838ddd..385185e 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -223,6 +223,10 @@ namespace boofcv {
         {
             if (this != &other) { // self-assignment check expected
                 if( other.subimage ) {
+                    // pixels which the image owns are given up, unless it becomes a sub-image of itself
+                    if( !this->subimage && this->data != other.data ) {
+                        delete []this->data;
+                    }
                     this->data = other.data;
                     this->data_length = other.data_length;
                     this->width = other.width;
@@ -407,6 +411,10 @@ namespace boofcv {
         Interleaved<T>& operator=( const Interleaved<T>& other ) {
             if (this != &other) {
                 if( other.subimage ) {
+                    // pixels which the image owns are given up, unless it becomes a sub-image of itself
+                    if( !this->subimage && this->data != other.data ) {
+                        delete []this->data;
+                    }
                     this->data = other.data;
                     this->data_length = other.data_length;
                     this->width = other.width;
-- 
2.43.0


From a143b57782148da1c1b1e60f080aa9f599c5a4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:20 +0000
Subject: [PATCH 34/42] fix: planar images leaked bands and mixed shapes if
 there was no memory for all bands

---
 boofcpp/src/boofcv/image_types.h | 42 +++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/boofcpp/src/boofcv/image_types.h b/boofcpp/src/boofcv/image_types.h
index 385185e..13d34bc 100644
--- a/boofcpp/src/boofcv/image_types.h
+++ b/boofcpp/src/boofcv/image_types.h
@@ -252,21 +252,18 @@ namespace boofcv {
         T** bands;
         uint32_t num_bands;
 
-        Planar( uint32_t width , uint32_t height , uint32_t num_bands ) {
+        Planar( uint32_t width , uint32_t height , uint32_t num_bands ) : Planar() {
             this->width = width;
             this->height = height;
-            this->offset = 0;
             this->stride = width;
-            this->subimage = false;
-
-            this->num_bands = num_bands;
-            bands = new T*[this->num_bands];
-            for( uint32_t i = 0; i < this->num_bands; i++ ) {
-                bands[i] = new T(width,height);
-            }
+            // what has been created so far is freed by the destructor if this fails
+            setNumberOfBands(num_bands);
         }
 
-        Planar() : Planar(0,0,0) {
+        Planar() {
+            this->offset = 0;
+            this->num_bands = 0;
+            this->bands = nullptr;
         }
 
         Planar( const Planar<T>& other ) : Planar(other.width,other.height,other.num_bands) {
@@ -296,8 +293,16 @@ namespace boofcv {
             if( this->subimage ) {
                 throw invalid_argument("Can't reshape a subimage");
             }
-            for( uint32_t i = 0; i < num_bands; i++ ) {
-                bands[i]->reshape(width,height);
+            try {
+                for( uint32_t i = 0; i < num_bands; i++ ) {
+                    bands[i]->reshape(width,height);
+                }
+            } catch( ... ) {
+                // all bands must have the same shape. There's always enough memory to go back to the old one
+                for( uint32_t i = 0; i < num_bands; i++ ) {
+                    bands[i]->reshape(this->width,this->height);
+                }
+                throw;
             }
             this->width = width;
             this->height = height;
@@ -311,8 +316,17 @@ namespace boofcv {
                 for( uint32_t i = 0; i < this->num_bands; i++ ) {
                     new_bands[i] = this->bands[i];
                 }
-                for( uint32_t i = num_bands; i < desired; i++ ) {
-                    new_bands[i] = new T(this->width,this->height);
+                uint32_t created = this->num_bands;
+                try {
+                    for( ; created < desired; created++ ) {
+                        new_bands[created] = new T(this->width,this->height);
+                    }
+                } catch( ... ) {
+                    while( created > this->num_bands ) {
+                        delete new_bands[--created];
+                    }
+                    delete []new_bands;
+                    throw;
                 }
             } else if( desired < this->num_bands ) {
                 new_bands = new T*[desired];
-- 
2.43.0


From 0db4d53ea472bce66b592d30c3b10c27c057b733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:20 +0000
Subject: [PATCH 35/42] fix: packed sets leaked if there was no memory for a
 block

---
 boofcpp/src/boofcv/packed_sets.h | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/boofcpp/src/boofcv/packed_sets.h b/boofcpp/src/boofcv/packed_sets.h
index 8832050..b6d99f7 100644
--- a/boofcpp/src/boofcv/packed_sets.h
+++ b/boofcpp/src/boofcv/packed_sets.h
@@ -51,10 +51,14 @@ namespace boofcv {
         PackedSet( uint32_t size_of_block ) :
                 _size_of_block(size_of_block) ,_number_of_blocks(1), _total_element(0)
         {
-            blocks = new T*[_number_of_blocks];
-            for( uint32_t i = 0; i < _number_of_blocks; i++ ) {
-                blocks[i] = new T[_size_of_block];
+            T* block = new T[_size_of_block];
+            try {
+                blocks = new T*[_number_of_blocks];
+            } catch( ... ) {
+                delete []block;
+                throw;
             }
+            blocks[0] = block;
         }
 
         PackedSet() : PackedSet(2000) {}
@@ -122,7 +126,12 @@ namespace boofcv {
                 for( uint32_t i = 0; i < _number_of_blocks; i++ ) {
                     tmp[i] = blocks[i];
                 }
-                tmp[_number_of_blocks] = new T[_size_of_block];
+                try {
+                    tmp[_number_of_blocks] = new T[_size_of_block];
+                } catch( ... ) {
+                    delete []tmp;
+                    throw;
+                }
                 delete []blocks;
                 this->blocks = tmp;
                 this->_number_of_blocks++;
-- 
2.43.0


From f66ff747baa41fb4f1f23b7a16cc96a819b20eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:20 +0000
Subject: [PATCH 36/42] fix: kernels claimed a width for which they had no
 memory

---
 boofcpp/src/boofcv/convolve_kernels.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/boofcpp/src/boofcv/convolve_kernels.h b/boofcpp/src/boofcv/convolve_kernels.h
index 80464a9..d0cb2e3 100644
--- a/boofcpp/src/boofcv/convolve_kernels.h
+++ b/boofcpp/src/boofcv/convolve_kernels.h
@@ -124,9 +124,9 @@ namespace boofcv {
         }
 
         void reshape( uint32_t width , uint32_t offset ) override {
+            this->data.resize(width);
             this->width = width;
             this->offset = offset;
-            this->data.resize(width);
         }
 
         E& at( uint32_t index ) const {
@@ -144,9 +144,9 @@ namespace boofcv {
         Kernel1D<E>& operator=(const Kernel1D<E>& other) // copy assignment
         {
             if (this != &other) { // self-assignment check expected
+                this->data = other.data;
                 this->width = other.width;
                 this->offset = other.offset;
-                this->data = other.data;
             }
             return *this;
         }
@@ -188,9 +188,9 @@ namespace boofcv {
         }
 
         void reshape( uint32_t width , uint32_t offset ) override {
+            this->data.resize(width*width);
             this->width = width;
             this->offset = offset;
-            this->data.resize(width*width);
         }
 
         uint32_t dimension() const override  {
@@ -206,9 +206,9 @@ namespace boofcv {
         Kernel2D<E>& operator=(const Kernel2D<E>& other) // copy assignment
         {
             if (this != &other) { // self-assignment check expected
+                this->data = other.data;
                 this->width = other.width;
                 this->offset = other.offset;
-                this->data = other.data;
             }
             return *this;
         }
-- 
2.43.0


From ab676529b8061cb6d2d141e04100c197a139a556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:38 +0000
Subject: [PATCH 37/42] fix: contour tracer leaked its tables if there was no
 memory for all of them

---
 boofcpp/src/boofcv/contour.cpp | 15 ---------------
 boofcpp/src/boofcv/contour.h   |  8 +++-----
 2 files changed, 3 insertions(+), 20 deletions(-)

diff --git a/boofcpp/src/boofcv/contour.cpp b/boofcpp/src/boofcv/contour.cpp
index caa447d..37c9fec 100644
--- a/boofcpp/src/boofcv/contour.cpp
+++ b/boofcpp/src/boofcv/contour.cpp
@@ -16,31 +16,16 @@ ContourTracer::ContourTracer(ConnectRule rule) :
     if (ConnectRule::EIGHT == rule) {
         // start the next search +2 away from the square it came from
         // the square it came from is the opposite from the previous 'dir'
-        nextDirection = new uint32_t[8];
         for (uint32_t i = 0; i < 8; i++)
             nextDirection[i] = ((i + 4) % 8 + 2) % 8;
         ruleN = 8;
     } else if (ConnectRule::FOUR == rule) {
-        nextDirection = new uint32_t[4];
         for (uint32_t i = 0; i < 4; i++)
             nextDirection[i] = ((i + 2) % 4 + 1) % 4;
         ruleN = 4;
     } else {
         throw std::invalid_argument("Connectivity rule must be 4 or 8");
     }
-
-    offsetsBinary = new int32_t[ruleN];
-    offsetsLabeled = new int32_t[ruleN];
-}
-
-ContourTracer::~ContourTracer() {
-    delete[]offsetsBinary;
-    delete[]offsetsLabeled;
-    delete[]nextDirection;
-
-    offsetsBinary = nullptr;
-    offsetsLabeled = nullptr;
-    nextDirection = nullptr;
 }
 
 /**
diff --git a/boofcpp/src/boofcv/contour.h b/boofcpp/src/boofcv/contour.h
index ca57014..4629b9b 100644
--- a/boofcpp/src/boofcv/contour.h
+++ b/boofcpp/src/boofcv/contour.h
@@ -53,10 +53,10 @@ namespace boofcv {
         uint32_t indexLabel;
 
         // the pixel index offset to each neighbor
-        int32_t *offsetsBinary;
-        int32_t *offsetsLabeled;
+        int32_t offsetsBinary[8];
+        int32_t offsetsLabeled[8];
         // lookup table for which direction it should search next given the direction it traveled into the current pixel
-        uint32_t *nextDirection;
+        uint32_t nextDirection[8];
 
         /**
          * Specifies connectivity rule
@@ -65,8 +65,6 @@ namespace boofcv {
          */
         ContourTracer( ConnectRule rule );
 
-        ~ContourTracer();
-
         /**
          *
          * @param binary Binary image with a border of zeros added to the outside.
-- 
2.43.0


From 366b0a4cffbdfae5d2e449dcbec8b73a2ef2b6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:50 +0000
Subject: [PATCH 38/42] fix: copying a packed set freed its blocks twice

---
 boofcpp/src/boofcv/packed_sets.h | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/boofcpp/src/boofcv/packed_sets.h b/boofcpp/src/boofcv/packed_sets.h
index b6d99f7..1876bef 100644
--- a/boofcpp/src/boofcv/packed_sets.h
+++ b/boofcpp/src/boofcv/packed_sets.h
@@ -3,6 +3,7 @@
 
 #include <cstdint>
 #include <stdexcept>
+#include <utility>
 #include <vector>
 
 namespace boofcv {
@@ -63,6 +64,25 @@ namespace boofcv {
 
         PackedSet() : PackedSet(2000) {}
 
+        /**
+         * The copy has its own storage
+         */
+        PackedSet( const PackedSet<T>& other ) : PackedSet(other._size_of_block) {
+            for( uint32_t i = 0; i < other._total_element; i++ ) {
+                _add_element(other.blocks[i / _size_of_block][i % _size_of_block]);
+            }
+            this->set_info = other.set_info;
+        }
+
+        PackedSet<T>& operator=( PackedSet<T> other ) {
+            std::swap(this->blocks,other.blocks);
+            std::swap(this->_number_of_blocks,other._number_of_blocks);
+            std::swap(this->_size_of_block,other._size_of_block);
+            std::swap(this->_total_element,other._total_element);
+            this->set_info.swap(other.set_info);
+            return *this;
+        }
+
         ~PackedSet() {
             for( uint32_t i = 0; i < _number_of_blocks; i++ ) {
                 delete []blocks[i];
-- 
2.43.0


From bcb63b945ca99d23984c1036043920d3a180d4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:32 +0000
Subject: [PATCH 39/42] fix: convolving with a divisor computes floating point
 images' indices as signed 32 bits

---
 boofcpp/src/boofcv/convolve.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/boofcpp/src/boofcv/convolve.h b/boofcpp/src/boofcv/convolve.h
index 48deba5..8934f94 100644
--- a/boofcpp/src/boofcv/convolve.h
+++ b/boofcpp/src/boofcv/convolve.h
@@ -632,8 +632,8 @@ namespace boofcv {
 
             for( uint32_t i = 0; i < input.height; i++ ) {
                 uint32_t indexDst = output.offset + i*output.stride + kernel.offset;
-                int32_t j = input.offset + i*input.stride;
-                int32_t jEnd = j+input.width-(kernel.width-1);
+                int64_t j = input.offset + i*input.stride;
+                int64_t jEnd = j+input.width-(kernel.width-1);
 
                 for( ; j < jEnd; j++ ) {
                     signed_type total = 0;
@@ -750,8 +750,8 @@ namespace boofcv {
 
             for( uint32_t y = kernel.offset; y < yEnd; y++ ) {
                 uint32_t indexDst = output.offset+y*output.stride;
-                int32_t i = input.offset + (y-kernel.offset)*input.stride;
-                int32_t iEnd = i+input.width;
+                int64_t i = input.offset + (y-kernel.offset)*input.stride;
+                int64_t iEnd = i+input.width;
 
                 for( ; i < iEnd; i++ ) {
                     signed_type total = 0;
-- 
2.43.0


From d7f57b1c896965b94734c5151097ae730f7ef26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:32 +0000
Subject: [PATCH 40/42] fix: the mean of floating point images steps between
 rows with float arithmetic

---
 boofcpp/src/boofcv/image_blur.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/image_blur.h b/boofcpp/src/boofcv/image_blur.h
index 760646e..7ad83d6 100644
--- a/boofcpp/src/boofcv/image_blur.h
+++ b/boofcpp/src/boofcv/image_blur.h
@@ -133,7 +133,7 @@ namespace boofcv {
                                    typename std::enable_if<std::is_floating_point<E>::value >::type* = 0)
         {
             typedef typename TypeInfo<E>::sum_type sum_type;
-            sum_type kernelWidth = radius*2 + 1;
+            uint32_t kernelWidth = radius*2 + 1;
 
             uint32_t backStep = kernelWidth*input.stride;
 
-- 
2.43.0


From 3498755b2a3a223f19b5f7b85341b3b2a0470075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:25:25 +0000
Subject: [PATCH 41/42] fix: the mean of a column which ends at the last index
 skipped its first rows

---
 boofcpp/src/boofcv/image_blur.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/boofcpp/src/boofcv/image_blur.h b/boofcpp/src/boofcv/image_blur.h
index 7ad83d6..ac68deb 100644
--- a/boofcpp/src/boofcv/image_blur.h
+++ b/boofcpp/src/boofcv/image_blur.h
@@ -103,7 +103,7 @@ namespace boofcv {
 
                 sum_type total = 0;
                 uint32_t indexEnd = indexIn + input.stride*kernelWidth;
-                for( ; indexIn < indexEnd; indexIn += input.stride) {
+                for( ; indexIn != indexEnd; indexIn += input.stride) {
                     total += input.data[indexIn];
                 }
                 totals[x] = total;
@@ -146,7 +146,7 @@ namespace boofcv {
 
                 sum_type total = 0;
                 uint32_t indexEnd = indexIn + input.stride*kernelWidth;
-                for( ; indexIn < indexEnd; indexIn += input.stride) {
+                for( ; indexIn != indexEnd; indexIn += input.stride) {
                     total += input.data[indexIn];
                 }
                 totals[x] = total;
-- 
2.43.0


From d947ed8ec968dd0f7e83918cbbbb4ecb0464d31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:56 +0000
Subject: [PATCH 42/42] fix: block min-max with a minimum spread between -1 and
 0 took flat integer blocks as textureless

---
 boofcpp/src/boofcv/threshold_block_filters.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/boofcpp/src/boofcv/threshold_block_filters.h b/boofcpp/src/boofcv/threshold_block_filters.h
index 200115a..dde2ab0 100644
--- a/boofcpp/src/boofcv/threshold_block_filters.h
+++ b/boofcpp/src/boofcv/threshold_block_filters.h
@@ -467,7 +467,8 @@ namespace boofcv
             }
 
             // apply threshold
-            auto textureThreshold = static_cast<typename TypeInfo<E>::signed_type>(this->minimumSpread);
+            auto textureThreshold = static_cast<typename TypeInfo<E>::signed_type>(
+                    std::numeric_limits<E>::is_integer ? std::floor(this->minimumSpread) : this->minimumSpread);
             for (uint32_t y = y0; y < y1; y++) {
                 E* input_ptr = &input.data[input.offset + y*input.stride + x0];
                 U8* output_ptr = &output.data[output.offset + y*output.stride + x0];
-- 
2.43.0

