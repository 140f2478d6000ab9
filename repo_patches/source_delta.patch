From 8ab68f5391d7092ad5ad6cec0ea014c092ee4f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:05 +0000
Subject: [PATCH 01/49] fix: GlobalMaxPooling ignored column 0 of every row but
 the first

---
 pico-cnn/layers/pooling/global_max_pooling.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico-cnn/layers/pooling/global_max_pooling.cpp b/pico-cnn/layers/pooling/global_max_pooling.cpp
index 96f52f9..d5995c5 100644
--- a/pico-cnn/layers/pooling/global_max_pooling.cpp
+++ b/pico-cnn/layers/pooling/global_max_pooling.cpp
@@ -27,7 +27,7 @@ void pico_cnn::naive::GlobalMaxPooling::pool(pico_cnn::naive::Tensor *input, pic
                                                num_channels, height, width);
 
                 for (uint32_t row = 0; row < height; row++) {
-                    for (uint32_t col = 1; col < width; col++) {
+                    for (uint32_t col = 0; col < width; col++) {
 
                         candidate = input->access(batch, channel, row, col, num_channels, height, width);
 
-- 
2.43.0


From 9adfa960703593881dea98859f0275915cf6a553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:05 +0000
Subject: [PATCH 02/49] fix: MaxPooling let the zeros of the padding win over
 negative inputs

---
 pico-cnn/layers/pooling/max_pooling.h | 4 ++++
 pico-cnn/layers/pooling/pooling.cpp   | 2 +-
 pico-cnn/layers/pooling/pooling.h     | 3 +++
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/pico-cnn/layers/pooling/max_pooling.h b/pico-cnn/layers/pooling/max_pooling.h
index 4bd2236..b1343a6 100644
--- a/pico-cnn/layers/pooling/max_pooling.h
+++ b/pico-cnn/layers/pooling/max_pooling.h
@@ -6,6 +6,8 @@
 #ifndef PICO_CNN_MAX_POOLING_H
 #define PICO_CNN_MAX_POOLING_H
 
+#include <limits>
+
 #include "../../parameters.h"
 #include "../../tensor.h"
 #include "../layer.h"
@@ -21,6 +23,8 @@ namespace pico_cnn {
 
         private:
             void pool(Tensor *input, Tensor *output) override;
+
+            fp_t padding_value() const override { return -std::numeric_limits<fp_t>::infinity(); }
         };
     }
 }
diff --git a/pico-cnn/layers/pooling/pooling.cpp b/pico-cnn/layers/pooling/pooling.cpp
index f9a413b..3a43abb 100644
--- a/pico-cnn/layers/pooling/pooling.cpp
+++ b/pico-cnn/layers/pooling/pooling.cpp
@@ -38,7 +38,7 @@ void pico_cnn::naive::Pooling::run(pico_cnn::naive::Tensor *input, pico_cnn::nai
         Tensor *input_tensor;
 
         if (padding_) {
-            input_tensor = input->expand_with_padding(padding_);
+            input_tensor = input->expand_with_padding(padding_, this->padding_value());
         } else {
             input_tensor = input;
         }
diff --git a/pico-cnn/layers/pooling/pooling.h b/pico-cnn/layers/pooling/pooling.h
index 56b0012..155bd35 100644
--- a/pico-cnn/layers/pooling/pooling.h
+++ b/pico-cnn/layers/pooling/pooling.h
@@ -22,6 +22,9 @@ namespace pico_cnn {
         protected:
             virtual void pool(Tensor *input, Tensor *output) = 0;
 
+            // value of the padded border: must not influence the pooled result
+            virtual fp_t padding_value() const { return 0.0; }
+
             uint32_t *kernel_size_;
             uint32_t *stride_;
             uint32_t *padding_;
-- 
2.43.0


From f1c9d58bb2b2e25eaa5aff96ea9430c13408a4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:05 +0000
Subject: [PATCH 03/49] fix: AveragePooling without count_include_pad divided
 by the wrong count

---
 pico-cnn/layers/pooling/average_pooling.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/pico-cnn/layers/pooling/average_pooling.cpp b/pico-cnn/layers/pooling/average_pooling.cpp
index ba80c79..982dbe5 100644
--- a/pico-cnn/layers/pooling/average_pooling.cpp
+++ b/pico-cnn/layers/pooling/average_pooling.cpp
@@ -88,14 +88,13 @@ void pico_cnn::naive::AveragePooling::pool(pico_cnn::naive::Tensor *input, pico_
                                 }
                             }
 
-                            // center case
-                            if (output_channel_row >= padding_[0] && output_channel_row < output_channel_height - padding_[2] &&
-                                output_channel_column >= padding_[1] && output_channel_column < output_channel_width - padding_[3]) {
+                            // no padding: every window is full
+                            if (!padding_) {
 
                                 output->access(batch, channel, output_channel_row, output_channel_column,
                                                num_channels, output_height, output_width) = pixel / ((fp_t) (kernel_size_[0] * kernel_size_[1]));
 
-                                // edge case
+                                // count the elements of the window that are not padding
                             } else {
 
                                 uint32_t up_row, down_row, left_col, right_col;
@@ -186,12 +185,12 @@ void pico_cnn::naive::AveragePooling::pool(pico_cnn::naive::Tensor *input, pico_
                             pixel += input->access(batch, channel, kernel_column, num_channels, width);
                         }
 
-                        // center case
-                        if (output_channel_column >= padding_[0] && output_channel_column < output_channel_width - padding_[1]) {
+                        // no padding: every window is full
+                        if (!padding_) {
 
                             output->access(batch, channel, output_channel_column,
                                            num_channels, output_width) = pixel / ((fp_t) (kernel_size_[0]));
-                        // edge case
+                        // count the elements of the window that are not padding
                         } else {
 
                             uint32_t left_col, right_col;
-- 
2.43.0


From c320388a3d51daf74299a3d6aca82ca2c05ceba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:09 +0000
Subject: [PATCH 04/49] fix: ParameterizedReLU read past a slope tensor of
 another shape

---
 pico-cnn/layers/activation_functions/relu.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pico-cnn/layers/activation_functions/relu.cpp b/pico-cnn/layers/activation_functions/relu.cpp
index 68ab883..7493d1d 100644
--- a/pico-cnn/layers/activation_functions/relu.cpp
+++ b/pico-cnn/layers/activation_functions/relu.cpp
@@ -44,7 +44,11 @@ namespace pico_cnn {
         }
 
         void ParameterizedReLU::run(Tensor *input, Tensor *output) {
-            if (input->num_dimensions() != slope_->num_dimensions()){
+            bool same_shape = input->num_dimensions() == slope_->num_dimensions();
+            for (uint32_t i = 0; same_shape && i < input->num_dimensions(); i++) {
+                same_shape = input->shape_[i] == slope_->shape_[i];
+            }
+            if (!same_shape) {
                 PRINT_ERROR_AND_DIE("Broadcasting is not supported at the moment.")
             } else {
                 this->activate(input, output);
-- 
2.43.0


From f820fd834a726384431c342c31e39dcd59d5145a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:07 +0000
Subject: [PATCH 05/49] fix: Softmax returned NaN for inputs beyond the range
 of expl

---
 pico-cnn/layers/activation_functions/softmax.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pico-cnn/layers/activation_functions/softmax.cpp b/pico-cnn/layers/activation_functions/softmax.cpp
index b36f32d..aaaea84 100644
--- a/pico-cnn/layers/activation_functions/softmax.cpp
+++ b/pico-cnn/layers/activation_functions/softmax.cpp
@@ -19,12 +19,18 @@ namespace pico_cnn {
 
             uint32_t num_elements = input->num_elements();
 
+            // shifting by the maximum keeps the exponentials in range and does not change the result
+            long double maximum = num_elements > 0 ? input->access_blob(0) : 0.0;
+            for(uint32_t i = 1; i < num_elements; i++) {
+                maximum = MAX(maximum, (long double)input->access_blob(i));
+            }
+
             for(uint32_t i = 0; i < num_elements; i++) {
-                denominator += expl((long double)input->access_blob(i));
+                denominator += expl((long double)input->access_blob(i) - maximum);
             }
 
             for(uint32_t i = 0; i < num_elements; i++) {
-                output->access_blob(i) = (fp_t)(expl((long double)input->access_blob(i)) / denominator);
+                output->access_blob(i) = (fp_t)(expl((long double)input->access_blob(i) - maximum) / denominator);
             }
         }
     }
-- 
2.43.0


From 1c4d1d806fee9055ee173b3521c253bea50edd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:13 +0000
Subject: [PATCH 06/49] fix: copy_with_padding_into left old data in the border
 when padding with zero

---
 pico-cnn/tensor.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pico-cnn/tensor.cpp b/pico-cnn/tensor.cpp
index 34fc60b..a0f25d4 100644
--- a/pico-cnn/tensor.cpp
+++ b/pico-cnn/tensor.cpp
@@ -299,10 +299,8 @@ namespace pico_cnn {
             uint32_t height = this->height();
             uint32_t width = this->width();
 
-            if(initializer != 0.0) {
-                for (uint32_t i = 0; i < dest->num_elements(); i++) {
-                    dest->access_blob(i) = initializer;
-                }
+            for (uint32_t i = 0; i < dest->num_elements(); i++) {
+                dest->access_blob(i) = initializer;
             }
 
             if (dest->num_dimensions_ == 4) {
-- 
2.43.0


From d274de700c742db42c505888e9db58ed519b4e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:13 +0000
Subject: [PATCH 07/49] fix: comparing tensors of different rank read past the
 smaller shape

---
 pico-cnn/tensor.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pico-cnn/tensor.h b/pico-cnn/tensor.h
index e86c6c1..22c8461 100644
--- a/pico-cnn/tensor.h
+++ b/pico-cnn/tensor.h
@@ -92,6 +92,10 @@ namespace pico_cnn {
             void mul_with_factor(Tensor *other, fp_t factor);
 
             bool operator ==(const Tensor &other) const {
+                if (num_dimensions_ != other.num_dimensions_) {
+                    PRINT_ERROR("Number of dimensions does not match: " << num_dimensions_ << " != " << other.num_dimensions_)
+                    return false;
+                }
                 for (uint32_t i = 0; i < num_dimensions_; i++) {
                     if(shape_[i] != other.shape_[i]) {
                         PRINT_ERROR("Shape does not match at position " << i << ": " << shape_[i] << " != " << other.shape_[i])
-- 
2.43.0


From 9d733cc5cad9752bfefb93b0d73cd14deeb949d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:13 +0000
Subject: [PATCH 08/49] fix: add_tensor read past an operand with fewer
 elements

---
 pico-cnn/tensor.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pico-cnn/tensor.cpp b/pico-cnn/tensor.cpp
index a0f25d4..fb58a69 100644
--- a/pico-cnn/tensor.cpp
+++ b/pico-cnn/tensor.cpp
@@ -111,6 +111,11 @@ namespace pico_cnn {
         bool Tensor::add_tensor(Tensor *other) const {
 //            if (*(this->shape()) == *(other->shape())) {
 
+            if (this->num_elements_ != other->num_elements_) {
+                PRINT_ERROR("Tensors of different sizes cannot be added.")
+                return false;
+            }
+
             for (uint32_t i = 0; i < this->num_elements_; i++) {
                 this->access_blob(i) = this->access_blob(i) + other->access_blob(i);
             }
-- 
2.43.0


From aad5f4cadae2b2609831e964c32b958702074a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:13 +0000
Subject: [PATCH 09/49] fix: concatenating row vectors wrote every input over
 the first one

---
 pico-cnn/tensor.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pico-cnn/tensor.cpp b/pico-cnn/tensor.cpp
index fb58a69..64911da 100644
--- a/pico-cnn/tensor.cpp
+++ b/pico-cnn/tensor.cpp
@@ -381,6 +381,7 @@ namespace pico_cnn {
             // concatenate along channels
             if(dimension == 1) {
                 uint32_t output_channel_counter = 0;
+                uint32_t output_column = 0;
 
                 for(uint32_t input_id = 0; input_id < num_inputs; input_id++){
 
@@ -397,6 +398,10 @@ namespace pico_cnn {
 
                         input_channel_ptr = input->get_ptr_to_channel(0, input_channel);
                         output_channel_ptr = this->get_ptr_to_channel(0, output_channel_counter+input_channel);
+                        if (num_dimensions_ == 2) { // row vectors have no channels: append the columns
+                            output_channel_ptr = data_ + output_column;
+                            output_column += input_channel_size;
+                        }
 
                         std::memcpy(output_channel_ptr,
                                     input_channel_ptr,
-- 
2.43.0


From 6839377f3a222813febdafc7130702bfd45a23f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:13 +0000
Subject: [PATCH 10/49] fix: Convolution read past the stride and padding
 arrays of 1D convolutions

---
 pico-cnn/layers/convolution.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pico-cnn/layers/convolution.cpp b/pico-cnn/layers/convolution.cpp
index 0994463..47d2a9a 100644
--- a/pico-cnn/layers/convolution.cpp
+++ b/pico-cnn/layers/convolution.cpp
@@ -9,15 +9,18 @@ namespace pico_cnn {
             kernel_ = kernel;
             bias_ = bias;
 
+            // 1D convolutions come with one stride and two paddings
+            const uint32_t num_strides = kernel_->num_dimensions() == 3 ? 1 : 2;
+
             if (padding) {
                 padding_ = new uint32_t[4]();
-                std::memcpy(padding_, padding, 4 * sizeof(uint32_t));
+                std::memcpy(padding_, padding, 2 * num_strides * sizeof(uint32_t));
             } else {
                 padding_ = padding;
             }
 
             stride_ = new uint32_t[2]();
-            std::memcpy(stride_, stride, 2*sizeof(uint32_t));
+            std::memcpy(stride_, stride, num_strides*sizeof(uint32_t));
 
             num_groups_ = num_groups;
 
-- 
2.43.0


From cf9d1b1d60e3d7f3a469734a8e80595a50a2e628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:45 +0000
Subject: [PATCH 11/49] fix: read_binary_weights closed a null stream and
 reported success for a missing file

---
 pico-cnn/io/read_binary_weights.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pico-cnn/io/read_binary_weights.cpp b/pico-cnn/io/read_binary_weights.cpp
index 4f253b5..8e94f02 100644
--- a/pico-cnn/io/read_binary_weights.cpp
+++ b/pico-cnn/io/read_binary_weights.cpp
@@ -382,6 +382,9 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
         }
         PRINT_DEBUG(end_marker)
 
+    } else {
+        PRINT_ERROR("ERROR: Could not open weights file: " << path_to_weights_file)
+        return 1;
     }
     fclose(binary_file);
     return 0;
-- 
2.43.0


From 48b7129dcfde90607f709ead3f3867e579a60999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:45 +0000
Subject: [PATCH 12/49] fix: read_binary_weights overflowed its name buffers on
 names of 100 or more characters

---
 pico-cnn/io/read_binary_weights.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pico-cnn/io/read_binary_weights.cpp b/pico-cnn/io/read_binary_weights.cpp
index 8e94f02..ecf7b59 100644
--- a/pico-cnn/io/read_binary_weights.cpp
+++ b/pico-cnn/io/read_binary_weights.cpp
@@ -33,9 +33,10 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                 fclose(binary_file);
                 return 1;
             }
-            buffer[i] = c;
+            if(i < sizeof(buffer)) // longer names are cut off
+                buffer[i] = c;
         }
-        buffer[i-1] = '\0'; //terminate string correctly
+        buffer[i <= sizeof(buffer) ? i-1 : sizeof(buffer)-1] = '\0'; //terminate string correctly
 
         PRINT_DEBUG(buffer)
 
@@ -67,9 +68,10 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                     fclose(binary_file);
                     return 1;
                 }
-                buffer[i] = c;
+                if(i < sizeof(buffer)) // longer names are cut off
+                    buffer[i] = c;
             }
-            buffer[i-1] = '\0'; //terminate string correctly
+            buffer[i <= sizeof(buffer) ? i-1 : sizeof(buffer)-1] = '\0'; //terminate string correctly
 
             // Read layer type
             char buffer_layer_type[100];
@@ -81,9 +83,10 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                     fclose(binary_file);
                     return 1;
                 }
-                buffer_layer_type[i] = c;
+                if(i < sizeof(buffer_layer_type)) // no layer type is that long
+                    buffer_layer_type[i] = c;
             }
-            buffer_layer_type[i-1] = '\0'; //terminate string correctly
+            buffer_layer_type[i <= sizeof(buffer_layer_type) ? i-1 : sizeof(buffer_layer_type)-1] = '\0'; //terminate string correctly
 
             PRINT_DEBUG("Layer " << layer << ": " << buffer << " of type: " << buffer_layer_type)
 
-- 
2.43.0


From 0365272757b2a8483a9878b64ab32ae1a6c19bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:45 +0000
Subject: [PATCH 13/49] fix: read_binary_weights wrote past tensors smaller
 than the recorded dimensions

---
 pico-cnn/io/read_binary_weights.cpp | 62 ++++++++++++++++++++++++++++-
 1 file changed, 61 insertions(+), 1 deletion(-)

diff --git a/pico-cnn/io/read_binary_weights.cpp b/pico-cnn/io/read_binary_weights.cpp
index ecf7b59..393f6dc 100644
--- a/pico-cnn/io/read_binary_weights.cpp
+++ b/pico-cnn/io/read_binary_weights.cpp
@@ -122,6 +122,15 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                             kernel_width << ", kernel_idx: " << kernel_idx)
 
                 if(kernel_height != 0 && kernel_width != 0 && num_output_channels != 0 && num_input_channels != 0) {
+                    if((*kernels)[kernel_idx]->num_batches() != num_output_channels ||
+                       (*kernels)[kernel_idx]->num_channels() != num_input_channels ||
+                       (*kernels)[kernel_idx]->height() != kernel_height ||
+                       (*kernels)[kernel_idx]->width() != kernel_width) {
+                        PRINT_ERROR("ERROR: Kernel dimensions do not match the network.")
+                        fclose(binary_file);
+                        return 1;
+                    }
+
                     auto *values = new fp_t[kernel_height*kernel_width]();
 
                     for (uint32_t out_ch = 0; out_ch < num_output_channels; out_ch++) {
@@ -151,6 +160,12 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                 PRINT_DEBUG("Number of biases: " << num_biases)
 
                 if (num_biases) {
+                    if((*biases)[bias_idx]->num_elements() != num_biases) {
+                        PRINT_ERROR("ERROR: Number of bias values does not match the network.")
+                        fclose(binary_file);
+                        return 1;
+                    }
+
                     auto *bias_values = new fp_t[num_biases]();
 
                     if(fread((void *) bias_values, sizeof(float), num_biases, binary_file) != num_biases) {
@@ -177,6 +192,12 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                 PRINT_DEBUG("Number of gamma values: " << num_gamma)
 
                 if(num_gamma) {
+                    if((*biases)[bias_idx]->num_elements() != num_gamma) {
+                        PRINT_ERROR("ERROR: Number of gamma values does not match the network.")
+                        fclose(binary_file);
+                        return 1;
+                    }
+
                     auto* gamma_values = new fp_t[num_gamma]();
 
                     if(fread((void *) gamma_values, sizeof(float), num_gamma, binary_file) != num_gamma) {
@@ -202,6 +223,12 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                 PRINT_DEBUG("Number of beta values: " << num_beta)
 
                 if(num_beta) {
+                    if((*biases)[bias_idx]->num_elements() != num_beta) {
+                        PRINT_ERROR("ERROR: Number of beta values does not match the network.")
+                        fclose(binary_file);
+                        return 1;
+                    }
+
                     auto *beta_values = new fp_t[num_beta]();
 
                     if(fread((void *) beta_values, sizeof(float), num_beta, binary_file) != num_beta) {
@@ -227,6 +254,12 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                 PRINT_DEBUG("Number of mean values: " << num_mean)
 
                 if(num_mean) {
+                    if((*biases)[bias_idx]->num_elements() != num_mean) {
+                        PRINT_ERROR("ERROR: Number of mean values does not match the network.")
+                        fclose(binary_file);
+                        return 1;
+                    }
+
                     auto *mean_values = new fp_t[num_mean]();
 
                     if(fread((void *) mean_values, sizeof(float), num_mean, binary_file) != num_mean) {
@@ -252,6 +285,12 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                 PRINT_DEBUG("Number of variance values: " << num_variance)
 
                 if(num_variance) {
+                    if((*biases)[bias_idx]->num_elements() != num_variance) {
+                        PRINT_ERROR("ERROR: Number of variance values does not match the network.")
+                        fclose(binary_file);
+                        return 1;
+                    }
+
                     auto *variance_values = new fp_t[num_variance]();
 
                     if(fread((void *) variance_values, sizeof(float), num_variance, binary_file) != num_variance) {
@@ -294,11 +333,20 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                 PRINT_DEBUG("Num kernels: " << num_kernels << ", height: " << kernel_height << ", width: " << kernel_width << ", kernel_idx: " << kernel_idx)
 
                 uint32_t kernel;
-                auto *values = new fp_t[kernel_height*kernel_width]();
 
                 if(num_kernels != 1)
                     PRINT_ERROR_AND_DIE("Number of kernels != 1")
 
+                if((*kernels)[kernel_idx]->num_dimensions() != 2 ||
+                   (*kernels)[kernel_idx]->height() != kernel_height ||
+                   (*kernels)[kernel_idx]->width() != kernel_width) {
+                    PRINT_ERROR("ERROR: Kernel dimensions do not match the network.")
+                    fclose(binary_file);
+                    return 1;
+                }
+
+                auto *values = new fp_t[kernel_height*kernel_width]();
+
                 for(kernel = 0; kernel < num_kernels; kernel++) {
                     if(fread((void *) values, sizeof(float), kernel_height * kernel_width, binary_file) != (kernel_height*kernel_width)) {
                         PRINT_ERROR("ERROR while reading kernel values.")
@@ -322,6 +370,12 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                 PRINT_DEBUG("Number of biases: " << num_biases)
 
                 if(num_biases) {
+                    if((*biases)[bias_idx]->num_elements() != num_biases) {
+                        PRINT_ERROR("ERROR: Number of bias values does not match the network.")
+                        fclose(binary_file);
+                        return 1;
+                    }
+
                     auto *bias_values = new fp_t[num_biases]();
 
                     if(fread((void *) bias_values, sizeof(float), num_biases, binary_file) != num_biases) {
@@ -346,6 +400,12 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                 PRINT_DEBUG("Number of biases: " << num_biases)
 
                 if (num_biases) {
+                    if((*biases)[bias_idx]->num_elements() != num_biases) {
+                        PRINT_ERROR("ERROR: Number of bias values does not match the network.")
+                        fclose(binary_file);
+                        return 1;
+                    }
+
                     auto *bias_values = new fp_t[num_biases]();
 
                     if(fread((void *) bias_values, sizeof(float), num_biases, binary_file) != num_biases) {
-- 
2.43.0


From b5b0faf1cef838452ddee84c3d368610a2863bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:45 +0000
Subject: [PATCH 14/49] fix: read_binary_weights released arrays from new[]
 with free

---
 pico-cnn/io/read_binary_weights.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pico-cnn/io/read_binary_weights.cpp b/pico-cnn/io/read_binary_weights.cpp
index 393f6dc..6b8895a 100644
--- a/pico-cnn/io/read_binary_weights.cpp
+++ b/pico-cnn/io/read_binary_weights.cpp
@@ -137,7 +137,7 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                         for (uint32_t in_ch = 0; in_ch < num_input_channels; in_ch++) {
                             if(fread((void *) values, sizeof(float), kernel_height * kernel_width, binary_file) != (kernel_height*kernel_width)) {
                                 PRINT_ERROR("ERROR while reading kernel values.")
-                                free(values);
+                                delete[] values;
                                 fclose(binary_file);
                                 return 1;
                             }
@@ -170,7 +170,7 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
 
                     if(fread((void *) bias_values, sizeof(float), num_biases, binary_file) != num_biases) {
                         PRINT_ERROR("ERROR while reading bias values.")
-                        free(bias_values);
+                        delete[] bias_values;
                         fclose(binary_file);
                         return 1;
                     }
@@ -202,7 +202,7 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
 
                     if(fread((void *) gamma_values, sizeof(float), num_gamma, binary_file) != num_gamma) {
                         PRINT_ERROR("ERROR while reading gamma values.")
-                        free(gamma_values);
+                        delete[] gamma_values;
                         fclose(binary_file);
                         return 1;
                     }
@@ -233,7 +233,7 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
 
                     if(fread((void *) beta_values, sizeof(float), num_beta, binary_file) != num_beta) {
                         PRINT_ERROR("ERROR while reading beta values.")
-                        free(beta_values);
+                        delete[] beta_values;
                         fclose(binary_file);
                         return 1;
                     }
@@ -264,7 +264,7 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
 
                     if(fread((void *) mean_values, sizeof(float), num_mean, binary_file) != num_mean) {
                         PRINT_ERROR("ERROR while reading mean values.")
-                        free(mean_values);
+                        delete[] mean_values;
                         fclose(binary_file);
                         return 1;
                     }
@@ -295,7 +295,7 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
 
                     if(fread((void *) variance_values, sizeof(float), num_variance, binary_file) != num_variance) {
                         PRINT_ERROR("ERROR while reading variance values.")
-                        free(variance_values);
+                        delete[] variance_values;
                         fclose(binary_file);
                         return 1;
                     }
@@ -350,7 +350,7 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                 for(kernel = 0; kernel < num_kernels; kernel++) {
                     if(fread((void *) values, sizeof(float), kernel_height * kernel_width, binary_file) != (kernel_height*kernel_width)) {
                         PRINT_ERROR("ERROR while reading kernel values.")
-                        free(values);
+                        delete[] values;
                         fclose(binary_file);
                         return 1;
                     }
@@ -380,7 +380,7 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
 
                     if(fread((void *) bias_values, sizeof(float), num_biases, binary_file) != num_biases) {
                         PRINT_ERROR("ERROR while reading bias values.")
-                        free(bias_values);
+                        delete[] bias_values;
                         fclose(binary_file);
                         return 1;
                     }
@@ -410,7 +410,7 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
 
                     if(fread((void *) bias_values, sizeof(float), num_biases, binary_file) != num_biases) {
                         PRINT_ERROR("ERROR while reading bias values.")
-                        free(bias_values);
+                        delete[] bias_values;
                         fclose(binary_file);
                         return 1;
                     }
-- 
2.43.0


From 0bf715d99441a094d2f0d966ed17cbf9760b2ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:04 +0000
Subject: [PATCH 15/49] fix: read_binary_weights terminated on Gemm and MatMul
 records without values of their own

---
 pico-cnn/io/read_binary_weights.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pico-cnn/io/read_binary_weights.cpp b/pico-cnn/io/read_binary_weights.cpp
index 6b8895a..566e2c6 100644
--- a/pico-cnn/io/read_binary_weights.cpp
+++ b/pico-cnn/io/read_binary_weights.cpp
@@ -334,12 +334,17 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
 
                 uint32_t kernel;
 
-                if(num_kernels != 1)
+                // a layer without values of its own, e.g. one that shares those of another layer
+                if(num_kernels == 0 || kernel_height == 0 || kernel_width == 0)
+                    num_kernels = kernel_height = kernel_width = 0;
+
+                if(num_kernels > 1)
                     PRINT_ERROR_AND_DIE("Number of kernels != 1")
 
-                if((*kernels)[kernel_idx]->num_dimensions() != 2 ||
-                   (*kernels)[kernel_idx]->height() != kernel_height ||
-                   (*kernels)[kernel_idx]->width() != kernel_width) {
+                if(num_kernels != 0 &&
+                   ((*kernels)[kernel_idx]->num_dimensions() != 2 ||
+                    (*kernels)[kernel_idx]->height() != kernel_height ||
+                    (*kernels)[kernel_idx]->width() != kernel_width)) {
                     PRINT_ERROR("ERROR: Kernel dimensions do not match the network.")
                     fclose(binary_file);
                     return 1;
@@ -357,7 +362,7 @@ int32_t read_binary_weights(const char* path_to_weights_file, pico_cnn::naive::T
                     std::memcpy((*kernels)[kernel_idx]->get_ptr_to_channel(0, kernel), values, kernel_height*kernel_width*sizeof(fp_t));
                 }
 
-                kernel_idx++;
+                kernel_idx += num_kernels;
 
                 delete[] values;
 
-- 
2.43.0


From 5d344fb3e27a0530055858786d55a8d0dac0d90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:42 +0000
Subject: [PATCH 16/49] fix: reference data readers closed a null stream and
 reported success for a missing file, leaked on short files

---
 pico-cnn/io/read_binary_reference_data.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pico-cnn/io/read_binary_reference_data.cpp b/pico-cnn/io/read_binary_reference_data.cpp
index 125fe60..1cf9d72 100644
--- a/pico-cnn/io/read_binary_reference_data.cpp
+++ b/pico-cnn/io/read_binary_reference_data.cpp
@@ -102,7 +102,8 @@ int32_t read_binary_reference_input_data(const char* path_to_sample_data, pico_c
 
             if(numbers_read != height*width) {
                 PRINT_ERROR("ERROR reading data. numbers_read = " << numbers_read)
-                free(values);
+                delete[] values;
+                fclose(binary_file);
                 return 1;
             } else {
                 #ifdef DEBUG
@@ -131,6 +132,9 @@ int32_t read_binary_reference_input_data(const char* path_to_sample_data, pico_c
             return 1;
         }
         PRINT_DEBUG(end_marker)
+    } else {
+        PRINT_ERROR("ERROR: Could not open reference data file: " << path_to_sample_data)
+        return 1;
     }
     fclose(binary_file);
 
@@ -199,7 +203,7 @@ int32_t read_binary_reference_output_data(const char* path_to_sample_data, pico_
 
         if(fread((void*)values, sizeof(float), num_outputs, binary_file) != num_outputs) {
             PRINT_ERROR("ERROR reading output values.")
-            free(values);
+            delete[] values;
             fclose(binary_file);
             return 1;
         }
@@ -229,6 +233,9 @@ int32_t read_binary_reference_output_data(const char* path_to_sample_data, pico_
             return 1;
         }
         PRINT_DEBUG(end_marker)
+    } else {
+        PRINT_ERROR("ERROR: Could not open reference data file: " << path_to_sample_data)
+        return 1;
     }
     fclose(binary_file);
 
-- 
2.43.0


From 5797a75526265c3a19f63d9b32ae7204c6b82a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:24 +0000
Subject: [PATCH 17/49] fix: MNIST readers returned uninitialised images and
 invented labels for files that end early

---
 pico-cnn/io/read_mnist.cpp | 58 ++++++++++++++++++++++++++++++--------
 1 file changed, 46 insertions(+), 12 deletions(-)

diff --git a/pico-cnn/io/read_mnist.cpp b/pico-cnn/io/read_mnist.cpp
index 9e458d1..93f74b6 100644
--- a/pico-cnn/io/read_mnist.cpp
+++ b/pico-cnn/io/read_mnist.cpp
@@ -23,7 +23,10 @@ uint32_t read_mnist_images(const char* path_to_mnist_images, fp_t*** mnist_image
 
         uint32_t i;
 
-        fread(&magic_number, sizeof(magic_number), 1, images);
+        if(fread(&magic_number, sizeof(magic_number), 1, images) != 1) {
+            fclose(images);
+            return 0;
+        }
         magic_number = change_endianess(magic_number);
 
         // check magic number
@@ -32,15 +35,23 @@ uint32_t read_mnist_images(const char* path_to_mnist_images, fp_t*** mnist_image
             return 0;
         }
 
-        fread(&num_images_provided, sizeof(num_images_provided), 1, images);
+        if(fread(&num_images_provided, sizeof(num_images_provided), 1, images) != 1 ||
+           fread(&height, sizeof(height), 1, images) != 1 ||
+           fread(&width, sizeof(width), 1, images) != 1) {
+            fclose(images);
+            return 0;
+        }
         num_images_provided = change_endianess(num_images_provided);
-
-        fread(&height, sizeof(height), 1, images);
         height = change_endianess(height);
-
-        fread(&width, sizeof(width), 1, images);
         width = change_endianess(width);
 
+        // larger images cannot be indexed
+        if(height > UINT16_MAX || width > UINT16_MAX ||
+           (uint64_t)(width+2*padding)*(height+2*padding) > UINT32_MAX) {
+            fclose(images);
+            return 0;
+        }
+
         // if there are less images in the dataset than requested reduce
         // the number of requested images to number of images provided
         if(num_images_provided < num_images) {
@@ -49,17 +60,26 @@ uint32_t read_mnist_images(const char* path_to_mnist_images, fp_t*** mnist_image
 
         // allocate pointers for images
         *mnist_images = (fp_t**) malloc(num_images*sizeof(fp_t*));
+        uint8_t *buffer = (uint8_t*) malloc(width*height);
+
+        if((!*mnist_images && num_images != 0) || (!buffer && width*height != 0)) {
+            num_images = 0;
+        }
 
         // start reading images
         for(i = 0; i < num_images; i++) {
 
             // allocate memory for single image
-            (*mnist_images)[i] = (fp_t*) malloc((width+2*padding)*(height+2*padding)*sizeof(fp_t));
+            (*mnist_images)[i] = (fp_t*) malloc((size_t)(width+2*padding)*(height+2*padding)*sizeof(fp_t));
 
             uint32_t row, column;
-            uint8_t buffer[width*height];
             // store single image
-            fread(&buffer, 1, height*width, images);
+            if(!(*mnist_images)[i] || fread(buffer, 1, height*width, images) != height*width) {
+                // only the images before this one are complete
+                free((*mnist_images)[i]);
+                num_images = i;
+                break;
+            }
 
             for(row = 0; row < height+2*padding; row++) {
                 for(column = 0; column < width+2*padding; column++) {
@@ -74,6 +94,7 @@ uint32_t read_mnist_images(const char* path_to_mnist_images, fp_t*** mnist_image
             }
         }
 
+        free(buffer);
         fclose(images);
 
         return num_images;
@@ -93,7 +114,10 @@ uint32_t read_mnist_labels(const char* path_to_mnist_labels, uint8_t** mnist_lab
 
         uint32_t i;
 
-        fread(&magic_number, sizeof(magic_number), 1, labels);
+        if(fread(&magic_number, sizeof(magic_number), 1, labels) != 1) {
+            fclose(labels);
+            return 0;
+        }
         magic_number = change_endianess(magic_number);
 
         // check magic number
@@ -102,7 +126,10 @@ uint32_t read_mnist_labels(const char* path_to_mnist_labels, uint8_t** mnist_lab
             return 0;
         }
 
-        fread(&num_labels_provided, sizeof(num_labels_provided), 1, labels);
+        if(fread(&num_labels_provided, sizeof(num_labels_provided), 1, labels) != 1) {
+            fclose(labels);
+            return 0;
+        }
         num_labels_provided = change_endianess(num_labels_provided);
 
         // if there are less labels in the dataset than requested reduce
@@ -113,10 +140,17 @@ uint32_t read_mnist_labels(const char* path_to_mnist_labels, uint8_t** mnist_lab
 
         // allocate pointers for all images
         *mnist_labels = (uint8_t*) malloc(num_labels*sizeof(uint8_t));
+        if(!*mnist_labels) {
+            num_labels = 0;
+        }
 
         // start reading images
         for(i = 0; i < num_labels; i++) {
-            uint8_t label = getc(labels);
+            int32_t label = getc(labels);
+            if(label == EOF) {
+                num_labels = i;
+                break;
+            }
             (*mnist_labels)[i] = label;
         }
 
-- 
2.43.0


From 69d607a6bbc6fabdb33fccb41205429fb433e51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:24 +0000
Subject: [PATCH 18/49] fix: read_pgm accepted truncated files, skipped white
 space pixels and the dimensions of files without comment

---
 pico-cnn/io/read_pgm.cpp | 63 ++++++++++++++++++++++++++--------------
 1 file changed, 42 insertions(+), 21 deletions(-)

diff --git a/pico-cnn/io/read_pgm.cpp b/pico-cnn/io/read_pgm.cpp
index 0e0b55c..69f4b62 100644
--- a/pico-cnn/io/read_pgm.cpp
+++ b/pico-cnn/io/read_pgm.cpp
@@ -9,38 +9,59 @@ int32_t read_pgm(fp_t** image, const char* pgm_path, const uint8_t padding, cons
 
         char buffer[100];
 
-        fgets(buffer, 100, pgm_file);
-
-        if(strcmp(buffer,"P5\n") != 0) {
+        if(fgets(buffer, 100, pgm_file) == nullptr || strcmp(buffer,"P5\n") != 0) {
             fclose(pgm_file);
             return 1;
         }
 
-        uint8_t max_gray_value;
+        uint32_t max_gray_value, file_width, file_height;
 
         fp_t range = fabs(lower_bound - upper_bound);
 
-        // skip comment
-        fgets(buffer, 100, pgm_file);
-        // read dimensions
-        fscanf(pgm_file, "%hu %hu\n", width, height);
-        // read max gray value
-        fscanf(pgm_file, "%hhu\n", &max_gray_value);
+        // skip comments
+        int32_t c;
+        while((c = fgetc(pgm_file)) == '#') {
+            while(c != '\n' && c != EOF) {
+                c = fgetc(pgm_file);
+            }
+        }
+        ungetc(c, pgm_file);
+
+        // read dimensions and max gray value, which a single whitespace separates from the pixels
+        if(fscanf(pgm_file, "%u %u", &file_width, &file_height) != 2 || file_width > UINT16_MAX || file_height > UINT16_MAX ||
+           fscanf(pgm_file, "%u", &max_gray_value) != 1 || max_gray_value > 255 || fgetc(pgm_file) == EOF) {
+            fclose(pgm_file);
+            return 1;
+        }
+
+        *width = file_width;
+        *height = file_height;
+
+        (*image) = (fp_t*) malloc((size_t)((*height)+2*padding) * ((*width)+2*padding) * sizeof(fp_t));
 
-        (*image) = (fp_t*) malloc(((*height)+2*padding) * ((*width)+2*padding) * sizeof(fp_t));
+        if(!(*image)) {
+            fclose(pgm_file);
+            return 1;
+        }
 
-        uint16_t row, column;
-        uint8_t pixel;
+        uint32_t row, column;
+        int32_t pixel;
 
-        for(row = 0; row < (*height)+2*padding; row++) {
-            for(column = 0; column < (*width)+2*padding; column++) {
-                if(row < padding || row >= (*height)+padding) {
-                    (*image)[row*((*width)+2*padding)+column] = lower_bound;
-                } else if(column < padding || column >= (*width)+padding) {
-                    (*image)[row*((*width)+2*padding)+column] = lower_bound;
+        for(row = 0; row < (uint32_t)(*height)+2*padding; row++) {
+            for(column = 0; column < (uint32_t)(*width)+2*padding; column++) {
+                if(row < padding || row >= (uint32_t)(*height)+padding) {
+                    (*image)[(size_t)row*((*width)+2*padding)+column] = lower_bound;
+                } else if(column < padding || column >= (uint32_t)(*width)+padding) {
+                    (*image)[(size_t)row*((*width)+2*padding)+column] = lower_bound;
                 } else {
-                    pixel = (uint8_t) fgetc(pgm_file);
-                    (*image)[row*((*width)+2*padding)+column] = (((pixel / 255.0f) * range) + lower_bound);
+                    pixel = fgetc(pgm_file);
+                    if(pixel == EOF) {
+                        free(*image);
+                        *image = nullptr;
+                        fclose(pgm_file);
+                        return 1;
+                    }
+                    (*image)[(size_t)row*((*width)+2*padding)+column] = (((pixel / 255.0f) * range) + lower_bound);
                 }
             }
         }
-- 
2.43.0


From 9c756adc4cc3d85c3091b571eff477f67863af53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:24 +0000
Subject: [PATCH 19/49] fix: write_pgm divided by zero for constant images and
 ignored values beyond +-1000

---
 pico-cnn/io/write_pgm.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pico-cnn/io/write_pgm.cpp b/pico-cnn/io/write_pgm.cpp
index 9e2cf3a..7018842 100644
--- a/pico-cnn/io/write_pgm.cpp
+++ b/pico-cnn/io/write_pgm.cpp
@@ -3,8 +3,8 @@
 int32_t write_pgm(const fp_t* image, const uint16_t height, const uint16_t width, const char* pgm_path) {
 
     // determine max gray value
-    fp_t max_gray_value = -1000;
-    fp_t min_gray_value = 1000;
+    fp_t max_gray_value = -INFINITY;
+    fp_t min_gray_value = INFINITY;
     uint16_t row, column;
 
     for(row = 0; row < height; row++) {
@@ -18,7 +18,7 @@ int32_t write_pgm(const fp_t* image, const uint16_t height, const uint16_t width
         }
     }
 
-    fp_t gray_value_range = fabsf(min_gray_value - max_gray_value);
+    double gray_value_range = (double)max_gray_value - min_gray_value;
 
     FILE* pgm_file;
     pgm_file = fopen(pgm_path, "w+");
@@ -39,7 +39,8 @@ int32_t write_pgm(const fp_t* image, const uint16_t height, const uint16_t width
     for(row = 0; row < height; row++) {
         for(column = 0; column < width; column++) {
             // normalize
-            uint8_t pixel = (uint8_t) ( ( (image[row*width+column]-min_gray_value) / gray_value_range ) * 255.0f );
+            uint8_t pixel = gray_value_range > 0 ?
+                    (uint8_t) ( ( ((double)image[row*width+column]-min_gray_value) / gray_value_range ) * 255.0f ) : 0;
             fputc(pixel, pgm_file);
         }
     }
-- 
2.43.0


From b7cc8ff26e7a46b10cf1d8a8b38d6dab867fcda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:24 +0000
Subject: [PATCH 20/49] fix: read_means reported success for files with missing
 values

---
 pico-cnn/io/read_means.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pico-cnn/io/read_means.cpp b/pico-cnn/io/read_means.cpp
index eb0b9f9..f8486a6 100644
--- a/pico-cnn/io/read_means.cpp
+++ b/pico-cnn/io/read_means.cpp
@@ -25,14 +25,14 @@ int32_t read_means(const char* path_to_means_file, fp_t* means) {
         //fread(means, sizeof(fp_t), 3, means_file);
 
         fp_t mean;
-        fscanf(means_file, "%a\n", &mean);
-        means[0] = mean;
-
-        fscanf(means_file, "%a\n", &mean);
-        means[1] = mean;
-
-        fscanf(means_file, "%a\n", &mean);
-        means[2] = mean;
+        for(uint32_t i = 0; i < 3; i++) {
+            if(fscanf(means_file, "%a\n", &mean) != 1) {
+                PRINT_ERROR("Failed to read mean value.")
+                fclose(means_file);
+                return 1;
+            }
+            means[i] = mean;
+        }
 
         fclose(means_file);
 
-- 
2.43.0


From f618036047a005cf6b9bcf16cb8bf5dffeb6cf84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:24 +0000
Subject: [PATCH 21/49] fix: read_imagenet_labels wrote past its array for more
 than 1000 lines and cut off the last line

---
 pico-cnn/io/read_imagenet_labels.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pico-cnn/io/read_imagenet_labels.cpp b/pico-cnn/io/read_imagenet_labels.cpp
index 2918d19..6b9f883 100644
--- a/pico-cnn/io/read_imagenet_labels.cpp
+++ b/pico-cnn/io/read_imagenet_labels.cpp
@@ -6,17 +6,21 @@ int32_t read_imagenet_labels(const char* path_to_imagenet_labels, char*** imagen
 
     if(labels_file != nullptr) {
 
-        (*imagenet_labels) = (char**) malloc(1000*sizeof(char*));
+        (*imagenet_labels) = (char**) malloc((size_t)num_labels*sizeof(char*));
 
         char buffer[255];
-        int32_t i = 0;
+        uint32_t i = 0;
         int32_t label_length;
 
-        while(fgets(buffer, 255, labels_file)) {
+        while(i < num_labels && fgets(buffer, 255, labels_file)) {
             label_length = strlen(buffer);
-            (*imagenet_labels)[i] = (char*) malloc((label_length)*sizeof(char));
-            strncpy((*imagenet_labels)[i], buffer, label_length-1);
-            (*imagenet_labels)[i][label_length-1] = '\0';
+            // the last line may come without newline
+            if(label_length > 0 && buffer[label_length-1] == '\n') {
+                label_length--;
+            }
+            (*imagenet_labels)[i] = (char*) malloc((label_length+1)*sizeof(char));
+            strncpy((*imagenet_labels)[i], buffer, label_length);
+            (*imagenet_labels)[i][label_length] = '\0';
             i++;
         }
 
-- 
2.43.0


From 44bddcdde4b76e8ab118aa92a54ebd4c133c5619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:24 +0000
Subject: [PATCH 22/49] fix: read_imagenet_validation_labels left out the last
 label and parsed an unterminated buffer

---
 pico-cnn/io/read_imagenet_validation_labels.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pico-cnn/io/read_imagenet_validation_labels.cpp b/pico-cnn/io/read_imagenet_validation_labels.cpp
index f301f95..a8a777a 100644
--- a/pico-cnn/io/read_imagenet_validation_labels.cpp
+++ b/pico-cnn/io/read_imagenet_validation_labels.cpp
@@ -6,13 +6,16 @@ int32_t read_imagenet_validation_labels(const char* path_to_imagenet_validation_
 
     if(labels_file != nullptr) {
 
-        (*imagenet_validation_labels) = (uint32_t*) malloc((num_labels+1)*sizeof(uint32_t));
+        (*imagenet_validation_labels) = (uint32_t*) malloc(((size_t)num_labels+1)*sizeof(uint32_t));
 
         char buffer[255];
-        char label_buffer[6];
+        char label_buffer[6] = {0};
         uint32_t i = 1;
 
-        while(fgets(buffer, 255, labels_file) && i < num_labels) {
+        while(i <= num_labels && fgets(buffer, 255, labels_file)) {
+            if(strlen(buffer) <= FILE_NAME_LENGTH) { // not a file name followed by a label
+                break;
+            }
             memcpy(label_buffer, &buffer[FILE_NAME_LENGTH+1], 4);
             (*imagenet_validation_labels)[i] = (uint32_t) atoi(label_buffer);
             i++;
-- 
2.43.0


From a43fa4b8dbbfc7b9af0de0fe72c3319a1dbda725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:24 +0000
Subject: [PATCH 23/49] fix: read_jpeg cut the row size of wide images to 16
 bits and closed the file before the decoder had finished

---
 pico-cnn/io/read_jpeg.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pico-cnn/io/read_jpeg.cpp b/pico-cnn/io/read_jpeg.cpp
index e460bc7..c2c3d45 100644
--- a/pico-cnn/io/read_jpeg.cpp
+++ b/pico-cnn/io/read_jpeg.cpp
@@ -14,7 +14,7 @@ int32_t read_jpeg(fp_t*** image, const char* jpeg_path, const fp_t lower_bound,
         struct jpeg_error_mgr jerr;
 
         JSAMPARRAY jpeg_buffer;
-        uint16_t row_stride;
+        uint32_t row_stride;
         uint32_t pos = 0;
 
         cinfo.err = jpeg_std_error(&jerr);
@@ -28,11 +28,11 @@ int32_t read_jpeg(fp_t*** image, const char* jpeg_path, const fp_t lower_bound,
 
         (*image) = (fp_t**) malloc(3*sizeof(fp_t*));
         // red
-        (*image)[2] = (fp_t*) malloc((*height)*(*width)*sizeof(fp_t));
+        (*image)[2] = (fp_t*) malloc((size_t)(*height)*(*width)*sizeof(fp_t));
         // green
-        (*image)[1] = (fp_t*) malloc((*height)*(*width)*sizeof(fp_t));
+        (*image)[1] = (fp_t*) malloc((size_t)(*height)*(*width)*sizeof(fp_t));
         // blue
-        (*image)[0] = (fp_t*) malloc((*height)*(*width)*sizeof(fp_t));
+        (*image)[0] = (fp_t*) malloc((size_t)(*height)*(*width)*sizeof(fp_t));
 
         row_stride = (*width) * cinfo.output_components;
         jpeg_buffer = (*cinfo.mem->alloc_sarray) ((j_common_ptr) &cinfo, JPOOL_IMAGE, row_stride, 1);
@@ -64,9 +64,9 @@ int32_t read_jpeg(fp_t*** image, const char* jpeg_path, const fp_t lower_bound,
                 pos++;
             }
         }
-        fclose(jpeg_file);
         (void) jpeg_finish_decompress(&cinfo);
         jpeg_destroy_decompress(&cinfo);
+        fclose(jpeg_file);
 
         return 0;
     }
-- 
2.43.0


From c347e9bf91d899a8813ff761aeb6dcf1e12dc264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:36 +0000
Subject: [PATCH 24/49] fix: networks with 1-D pooling passed arrays shorter
 than the ones Pooling copies

---
 .../code_templates/pool/pico_cnn_avg_pool1d_alloc.cpp  | 10 +++++-----
 .../code_templates/pool/pico_cnn_max_pool1d_alloc.cpp  | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/onnx_import/code_templates/pool/pico_cnn_avg_pool1d_alloc.cpp b/onnx_import/code_templates/pool/pico_cnn_avg_pool1d_alloc.cpp
index b22c7bc..a7d27cd 100644
--- a/onnx_import/code_templates/pool/pico_cnn_avg_pool1d_alloc.cpp
+++ b/onnx_import/code_templates/pool/pico_cnn_avg_pool1d_alloc.cpp
@@ -1,13 +1,13 @@
 {% if padding_needed %}
-    uint32_t {{identifier}}_kernel_shape[1] = { {{kernel_shape.0}} };
-    uint32_t {{identifier}}_stride[1] = { {{stride.0}} };
-    uint32_t {{identifier}}_padding[2] = { {{padding.0}}, {{padding.1}} };
+    uint32_t {{identifier}}_kernel_shape[2] = { {{kernel_shape.0}} };
+    uint32_t {{identifier}}_stride[2] = { {{stride.0}} };
+    uint32_t {{identifier}}_padding[4] = { {{padding.0}}, {{padding.1}} };
 
     {{identifier}}_layer = new pico_cnn::naive::AveragePooling("{{name}}", 0, pico_cnn::op_type::AveragePool,
                                                   {{identifier}}_kernel_shape, {{identifier}}_stride, {{identifier}}_padding, {{count_include_pad}});
 {% else %}
-    uint32_t {{identifier}}_kernel_shape[1] = { {{kernel_shape.0}} };
-    uint32_t {{identifier}}_stride[1] = { {{stride.0}} };
+    uint32_t {{identifier}}_kernel_shape[2] = { {{kernel_shape.0}} };
+    uint32_t {{identifier}}_stride[2] = { {{stride.0}} };
 
     {{identifier}}_layer = new pico_cnn::naive::AveragePooling("{{name}}", 0, pico_cnn::op_type::AveragePool,
                                                   {{identifier}}_kernel_shape, {{identifier}}_stride, nullptr, {{count_include_pad}});
diff --git a/onnx_import/code_templates/pool/pico_cnn_max_pool1d_alloc.cpp b/onnx_import/code_templates/pool/pico_cnn_max_pool1d_alloc.cpp
index 3b2cb05..5d8796c 100644
--- a/onnx_import/code_templates/pool/pico_cnn_max_pool1d_alloc.cpp
+++ b/onnx_import/code_templates/pool/pico_cnn_max_pool1d_alloc.cpp
@@ -1,13 +1,13 @@
 {% if padding_needed %}
-    uint32_t {{identifier}}_kernel_shape[1] = { {{kernel_shape.0}} };
-    uint32_t {{identifier}}_stride[1] = { {{stride.0}} };
-    uint32_t {{identifier}}_padding[2] = { {{padding.0}}, {{padding.1}} };
+    uint32_t {{identifier}}_kernel_shape[2] = { {{kernel_shape.0}} };
+    uint32_t {{identifier}}_stride[2] = { {{stride.0}} };
+    uint32_t {{identifier}}_padding[4] = { {{padding.0}}, {{padding.1}} };
 
     {{identifier}}_layer = new pico_cnn::naive::MaxPooling("{{name}}", 0, pico_cnn::op_type::MaxPool,
                                                   {{identifier}}_kernel_shape, {{identifier}}_stride, {{identifier}}_padding);
 {% else %}
-    uint32_t {{identifier}}_kernel_shape[1] = { {{kernel_shape.0}} };
-    uint32_t {{identifier}}_stride[1] = { {{stride.0}} };
+    uint32_t {{identifier}}_kernel_shape[2] = { {{kernel_shape.0}} };
+    uint32_t {{identifier}}_stride[2] = { {{stride.0}} };
 
     {{identifier}}_layer = new pico_cnn::naive::MaxPooling("{{name}}", 0, pico_cnn::op_type::MaxPool,
                                                   {{identifier}}_kernel_shape, {{identifier}}_stride, nullptr);
-- 
2.43.0


From 44ed95f21880bc76f901f84a0b83289e6f0f1cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:36 +0000
Subject: [PATCH 25/49] fix: average pooling without pads attribute was refused

---
 onnx_import/pico_cnn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index 2732484..c3de88a 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -655,7 +655,7 @@ class AveragePool1D(BaseLayer):
 
         kernel_stride = attrs["strides"]
 
-        padding = attrs["pads"]
+        padding = attrs.get("pads", (0, 0))
         padding_needed = False
         for num in padding:
             if num != 0:
-- 
2.43.0


From 00bc318faff81e1c41c5aab48fc254e25d6c67a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:36 +0000
Subject: [PATCH 26/49] fix: Mul with a one-element vector as factor generated
 invalid code

---
 onnx_import/pico_cnn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index c3de88a..5d941d6 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -568,7 +568,7 @@ class Mul(BaseLayer):
 
         operation.attributes['input_buffer'] = input_buffer
         operation.attributes['output_buffer'] = output_buffer
-        operation.attributes['factor'] = factor
+        operation.attributes['factor'] = factor.item()
 
         return operation
 
-- 
2.43.0


From fad89d66e98effaae09b77a56cbad4c35e524dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:36 +0000
Subject: [PATCH 27/49] fix: Unsqueeze was removed although its consumers need
 the new shape and it may be the output

---
 onnx_import/backend.py  | 12 ------------
 onnx_import/pico_cnn.py | 11 +++++++++++
 2 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/onnx_import/backend.py b/onnx_import/backend.py
index 7625688..0687cc0 100644
--- a/onnx_import/backend.py
+++ b/onnx_import/backend.py
@@ -51,18 +51,6 @@ class BackendRep(backend_base.BackendRep):
     def _remove_nops(self, graph, constant_states):
         # Remove nop nodes
         for node in list(graph.nodes):
-            if node.op_type == "Unsqueeze":
-                inp = node.inputs[0]
-                out = node.outputs[0]
-
-                print("Removing nop", node.name)
-                graph.nodes.remove(node)
-
-                for node in graph.nodes:
-                    for num, input in enumerate(node.inputs):
-                        if input == out:
-                            node.inputs[num] = inp
-
             if node.op_type == "Reshape":
                 input_state = constant_states[node.inputs[0]]
                 reshape_state = constant_states[node.inputs[1]]
diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index 5d941d6..4b7ae0d 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -1158,6 +1158,17 @@ class Squeeze(BaseLayer):
 OperationRegistry.register(Squeeze)
 
 
+class Unsqueeze(Squeeze):
+    """
+    Insert single-dimensional entries into the shape of a tensor.
+    """
+    name = "UnsqueezeGeneric"
+    operator = "Unsqueeze"
+
+
+OperationRegistry.register(Unsqueeze)
+
+
 class Pad(BaseLayer):
     name = "PicoCNNPad"
     operator = "Pad"
-- 
2.43.0


From 60e1286797d406bd41d35357115acde6fda376af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:36 +0000
Subject: [PATCH 28/49] fix: a Reshape that drops trailing dimensions of size 1
 was taken for a nop

---
 onnx_import/backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_import/backend.py b/onnx_import/backend.py
index 0687cc0..2d3b3a6 100644
--- a/onnx_import/backend.py
+++ b/onnx_import/backend.py
@@ -55,7 +55,7 @@ class BackendRep(backend_base.BackendRep):
                 input_state = constant_states[node.inputs[0]]
                 reshape_state = constant_states[node.inputs[1]]
                 is_nop = False
-                if reshape_state.value is not None:
+                if reshape_state.value is not None and len(reshape_state.value) == len(input_state.shape):
                     for i, dim in enumerate(reshape_state.value):
                         if dim == -1 and i == len(reshape_state.value):
                             is_nop = True
-- 
2.43.0


From 0286b9aa871f72617b1d8a7ec8e1255feee4e92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:13 +0000
Subject: [PATCH 29/49] fix: dilated convolutions were translated as if they
 were not dilated

---
 onnx_import/pico_cnn.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index 4b7ae0d..86d7fb3 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -87,7 +87,9 @@ class Conv2D(BaseLayer):
 
         kernel_shape = attrs["kernel_shape"]
         stride = attrs["strides"]
-        # dilation = attrs["dilations"][0]
+        if any(d != 1 for d in attrs.get("dilations", [])):
+            print("{} dilation is currently not supported".format(node.name))
+            exit(1)
 
         num_groups = attrs.get("group", 1)
 
@@ -152,7 +154,9 @@ class Conv1D(BaseLayer):
 
         kernel_shape = attrs["kernel_shape"]
         stride = attrs["strides"]
-        # dilation = attrs["dilations"][0]
+        if any(d != 1 for d in attrs.get("dilations", [])):
+            print("{} dilation is currently not supported".format(node.name))
+            exit(1)
 
         num_groups = attrs.get("group", 1)
 
-- 
2.43.0


From b122530a7ea41e2871cdcf6a824522104fb57225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:13 +0000
Subject: [PATCH 30/49] fix: auto_pad, ceil_mode and dilations of pooling
 operations were ignored

---
 onnx_import/pico_cnn.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index 86d7fb3..ffb6700 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -261,6 +261,18 @@ class FullyConnected(BaseLayer):
 OperationRegistry.register(FullyConnected)
 
 
+def check_pool_attributes(node):
+    """
+    Stop if a pooling operation uses attributes which change its result but are not supported.
+    :param node: ComputeNode object of a pooling layer
+    """
+    attrs = node.attrs
+    if attrs.get("auto_pad", b"NOTSET") != b"NOTSET" or attrs.get("ceil_mode", 0) != 0 \
+            or any(d != 1 for d in attrs.get("dilations", [])):
+        print("ERROR: {} auto padding, ceil mode and dilation are currently not supported".format(node.name))
+        exit(1)
+
+
 class MaxPool2D(BaseLayer):
     """
     2-dimensional max-pooling operation.
@@ -283,6 +295,7 @@ class MaxPool2D(BaseLayer):
         :return:
         """
         attrs = node.attrs
+        check_pool_attributes(node)
 
         # assert tuple(attrs["pads"]) == (0, 0)  # TODO Check if we need this assertion
 
@@ -340,6 +353,7 @@ class MaxPool1D(BaseLayer):
     @classmethod
     def create(cls, node, graph, memory_manager):
         attrs = node.attrs
+        check_pool_attributes(node)
 
         kernel_shape = attrs["kernel_shape"]
         if not (len(kernel_shape) == 1):
@@ -591,6 +605,7 @@ class AveragePool2D(BaseLayer):
     @classmethod
     def create(cls, node, graph, memory_manager):
         attrs = node.attrs
+        check_pool_attributes(node)
 
         kernel_shape = attrs['kernel_shape']
 
@@ -647,6 +662,7 @@ class AveragePool1D(BaseLayer):
     @classmethod
     def create(cls, node, graph, memory_manager):
         attrs = node.attrs
+        check_pool_attributes(node)
 
         kernel_shape = attrs["kernel_shape"]
 
-- 
2.43.0


From 3e8725c3216abf078feeb7265331306fe1dcb7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:13 +0000
Subject: [PATCH 31/49] fix: the transposition attributes of Gemm were never
 checked

---
 onnx_import/pico_cnn.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index ffb6700..2b60112 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -228,14 +228,12 @@ class FullyConnected(BaseLayer):
             if node.attrs['beta'] != 1.0:
                 print("ERROR: Generation of Gemm layer aborted: beta = {}".format(node.attrs['beta']))
                 return None
-        if 'tranA' in node.attrs:
-            if node.attrs['transA'] != 0:
-                print("ERROR: Generation of Gemm layer aborted: tranA = {}".format(node.attrs['tranA']))
-                return None
-        if 'tranB' in node.attrs:
-            if node.attrs['transB'] != 1:
-                print("ERROR: Generation of Gemm layer aborted: tranB = {}".format(node.attrs['tranB']))
-                return None
+        if node.attrs.get('transA', 0) != 0:
+            print("ERROR: Generation of Gemm layer aborted: transA = {}".format(node.attrs['transA']))
+            return None
+        if node.attrs.get('transB', 0) != 1:
+            print("ERROR: Generation of Gemm layer aborted: transB = {}".format(node.attrs.get('transB', 0)))
+            return None
 
         input_buffer = memory_manager.get_buffer(graph, node.inputs[0])
         weight_buffer = memory_manager.get_buffer(graph, node.inputs[1])
-- 
2.43.0


From adc255c0b89ab712f5d128b225ac9144f5f7a07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:13 +0000
Subject: [PATCH 32/49] fix: the bias of LRN was ignored

---
 onnx_import/pico_cnn.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index 2b60112..78d8dc8 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -1124,6 +1124,10 @@ class LocalResponseNormalization(BaseLayer):
         input_buffer = memory_manager.get_buffer(graph, node.inputs[0])
         output_buffer = memory_manager.get_buffer(graph, node.outputs[0])
 
+        if attrs.get("bias", 1.0) != 1.0:
+            print("ERROR: Generation of LRN layer aborted: bias = {}".format(attrs["bias"]))
+            return None
+
         operation = cls(node, graph)
 
         identifier = node.name.replace('.', '_').replace(':', '_').replace('/', '_')
-- 
2.43.0


From 155055a8fa5481223eaf1a4e1dca26487c5f6c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:13 +0000
Subject: [PATCH 33/49] fix: the axis of Softmax was ignored

---
 onnx_import/pico_cnn.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index 78d8dc8..fba137a 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -1085,6 +1085,11 @@ class Softmax(BaseLayer):
         input_buffers = [memory_manager.get_buffer(graph, i) for i in node.inputs]
         output_buffer = memory_manager.get_buffer(graph, node.outputs[0])
 
+        # The softmax is computed over the whole tensor.
+        if reduce_mult(input_buffers[0].shape[:attrs.get('axis', 1)]) != 1:
+            print("ERROR: Generation of Softmax layer aborted: axis = {}".format(attrs.get('axis', 1)))
+            return None
+
         operation = cls(node, graph)
 
         identifier = node.name.replace('.', '_').replace(':', '_').replace('/', '_')
-- 
2.43.0


From f50d3c73eff460a71d7ae723c23cba5865a6fb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:13 +0000
Subject: [PATCH 34/49] fix: additions of differently sized vectors were
 accepted

---
 onnx_import/pico_cnn.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index fba137a..b612671 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -1037,6 +1037,9 @@ class Add(BaseLayer):
                     # TODO: This needs a better solution!!!
                     print("Broadcasting is not supported for add operation")
                     exit(1)
+            if reduce_mult(shape) != reduce_mult(output_buffer.shape):
+                print("Broadcasting is not supported for add operation")
+                exit(1)
 
         operation = cls(node, graph)
         operation.attributes['name'] = node.name
-- 
2.43.0


From 0d5036426ba84db58c26625892f3a14d675d69c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:13 +0000
Subject: [PATCH 35/49] fix: Pad with negative padding was accepted

---
 onnx_import/pico_cnn.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index b612671..25efeff 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -1224,6 +1224,10 @@ class Pad(BaseLayer):
             print("ERROR: Pad layer only supported in mode constant (not: {}).").format(mode)
             exit(1)
 
+        if any(pad < 0 for pad in pads):
+            print("ERROR: Negative padding is not supported. pads = {}".format(pads))
+            exit(1)
+
         if len(input_shape) == 4:
             if pads[0] != 0 or pads[1] != 0 or pads[4] != 0 or pads[5] != 0:
                 print("ERROR: Padding only supported for height and width dimension. pads = {}").format(pads)
-- 
2.43.0


From 9338811494e82c72c7044efccef573fd22c155d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:54 +0000
Subject: [PATCH 36/49] fix: only the first row of Gemm and MatMul with several
 input rows was computed, and Gemm biases of other shapes were accepted

---
 onnx_import/pico_cnn.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index 25efeff..010e014 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -242,6 +242,13 @@ class FullyConnected(BaseLayer):
             bias_buffer = memory_manager.get_buffer(graph, node.inputs[2])
         output_buffer = memory_manager.get_buffer(graph, node.outputs[0])
 
+        if len(input_buffer.shape) != 2 or input_buffer.shape[0] != 1:
+            print("ERROR: Gemm is only supported for a single input vector, not for {}".format(input_buffer.shape))
+            return None
+        if bias_buffer and tuple(bias_buffer.shape) != (weight_buffer.shape[0],):
+            print("ERROR: Broadcasting is not supported for Gemm biases: {}".format(bias_buffer.shape))
+            return None
+
         operation = cls(node, graph)
 
         identifier = node.name.replace('.', '_').replace(':', '_').replace('/', '_')
@@ -535,6 +542,11 @@ class MatMul(BaseLayer):
         weight_buffer = memory_manager.get_buffer(graph, node.inputs[1])
         output_buffer = memory_manager.get_buffer(graph, node.outputs[0])
 
+        if len(input_buffer.shape) != 2 or input_buffer.shape[0] != 1 or len(weight_buffer.shape) != 2:
+            print("ERROR: MatMul is only supported for a vector and a matrix, not for {} and {}".format(
+                input_buffer.shape, weight_buffer.shape))
+            return None
+
         input_size = reduce_mult(input_buffer.shape)
         output_size = reduce_mult(output_buffer.shape)
 
-- 
2.43.0


From ab83e595563e9ba3ecb40b57ef4f65027272812f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:54 +0000
Subject: [PATCH 37/49] fix: networks were generated for BatchNormalization and
 LRN on shapes the library refuses

---
 onnx_import/pico_cnn.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index 010e014..53403ea 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -473,6 +473,10 @@ class BatchNorm(BaseLayer):
 
         output_buffer = memory_manager.get_buffer(graph, node.outputs[0])
 
+        if len(input_buffer.shape) not in (3, 4) or attrs.get("spatial", 1) != 1:
+            print("ERROR: BatchNormalization is only supported per channel, not for {}".format(input_buffer.shape))
+            return None
+
         operation = cls(node, graph)
 
         identifier = node.name.replace('.', '_').replace(':', '_').replace('/', '_')
@@ -1147,6 +1151,9 @@ class LocalResponseNormalization(BaseLayer):
         if attrs.get("bias", 1.0) != 1.0:
             print("ERROR: Generation of LRN layer aborted: bias = {}".format(attrs["bias"]))
             return None
+        if len(input_buffer.shape) != 4:
+            print("ERROR: Generation of LRN layer aborted: input shape = {}".format(input_buffer.shape))
+            return None
 
         operation = cls(node, graph)
 
-- 
2.43.0


From f362fca003effeac7965331b8011e01814c856fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:54 +0000
Subject: [PATCH 38/49] fix: weights files lacked entries for initializers used
 several times by one operation

---
 onnx_import/backend.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/onnx_import/backend.py b/onnx_import/backend.py
index 2d3b3a6..7fba598 100644
--- a/onnx_import/backend.py
+++ b/onnx_import/backend.py
@@ -156,7 +156,10 @@ class BackendRep(backend_base.BackendRep):
             else:
                 continue
 
-            for num, input in enumerate(node.input_tensors):
+            # every operand has an entry of its own, even if one tensor is used several times
+            inputs = [input for input in node.inputs if input in node.input_tensors]
+
+            for num, input in enumerate(inputs):
 
                 if input in buffers_written:
                     write_buffer = False
@@ -253,7 +256,7 @@ class BackendRep(backend_base.BackendRep):
 
                 # This handles the case that no bias values are available in the onnx file.
                 # So we need to add num_biases = 0 into the binary file.
-                if len(node.input_tensors) == 1 and node.op_type != "Add":
+                if len(inputs) == 1 and node.op_type != "Add":
                     # print("No biases in onnx file.")
                     weights_packed.append(struct.pack('i', 0))
 
-- 
2.43.0


From f530fddde87fb3c59121a053b7c12bcc3c99d110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:54 +0000
Subject: [PATCH 39/49] fix: weights were exported for operations the weights
 file cannot hold

---
 onnx_import/backend.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/onnx_import/backend.py b/onnx_import/backend.py
index 7fba598..6d1c92f 100644
--- a/onnx_import/backend.py
+++ b/onnx_import/backend.py
@@ -149,6 +149,11 @@ class BackendRep(backend_base.BackendRep):
 
         for node in graph.nodes:
             if len(node.input_tensors) > 0 and node.op_type not in ops_to_ignore:
+                if node.op_type not in ['Conv', 'Gemm', 'MatMul', 'BatchNormalization', 'Add'] \
+                        or (node.op_type == 'Add' and any(t.ndim != 1 for t in node.input_tensors.values())):
+                    print("ERROR: Initializers of {} ({}) are not supported!".format(node.name, node.op_type))
+                    exit(1)
+
                 layer_name = bytes(node.name + "\n", "ascii")
                 weights_packed.append(struct.pack('{}s'.format(len(layer_name)), layer_name))
                 layer_type = bytes(node.op_type + "\n", "ascii")
-- 
2.43.0


From b5bea1b3f4543ec52175e482ab72be8751de1ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:54 +0000
Subject: [PATCH 40/49] fix: networks were generated that use constants which
 are not part of them

---
 onnx_import/backend.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/onnx_import/backend.py b/onnx_import/backend.py
index 6d1c92f..c862486 100644
--- a/onnx_import/backend.py
+++ b/onnx_import/backend.py
@@ -525,6 +525,15 @@ class BackendRep(backend_base.BackendRep):
         self._remove_constants(graph, constant_states)
         self._remove_nops(graph, constant_states)
 
+        # Only initializers can be operands of the network, other constants are just used to compute shapes
+        available = [i.name for i in graph.inputs] + [o for node in graph.nodes for o in node.outputs]
+        for node in graph.nodes:
+            for num, input in enumerate(node.inputs):
+                if input not in available and (input not in node.input_tensors or node.op_type == "Reshape") \
+                        and not (node.op_type == "Reshape" and num == 1):
+                    print("ERROR: Operand {} of {} is not supported!".format(input, node.name))
+                    exit(1)
+
         # Add shape information from constant propagation:
         for var, res in constant_states.items():
             if var in graph.shape_dict:
-- 
2.43.0


From b3485101d19de552fe83c5dbe7c848c64c7d68a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:44 +0000
Subject: [PATCH 41/49] fix: propagate constants through Concat if they have
 several elements

---
 onnx_import/constprop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_import/constprop.py b/onnx_import/constprop.py
index 1d7776b..af048b9 100644
--- a/onnx_import/constprop.py
+++ b/onnx_import/constprop.py
@@ -302,7 +302,7 @@ def constant_propagation(graph):
             out = ConstPropState(None, input_shapes[0] if None not in input_shapes else None)
 
             # TODO: Is this first case even possible? If not, remove it!
-            if None not in input_states:
+            if all(value is not None for value in input_states):
                 res = np.concatenate(input_states, axis=axis)
                 out = ConstPropState(res, res.shape)
             else:
-- 
2.43.0


From 8b15258c35e08d170627d9b5a71255bdbd06200b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:44 +0000
Subject: [PATCH 42/49] fix: keep the node which computes the output if an
 unused node behind it is removed

---
 onnx_import/compute_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_import/compute_graph.py b/onnx_import/compute_graph.py
index 9c5a986..3512db0 100644
--- a/onnx_import/compute_graph.py
+++ b/onnx_import/compute_graph.py
@@ -172,7 +172,7 @@ class ComputeGraph(object):
 
         for parent in node.parents:
             parent.children.remove(node)
-            if not parent.children:
+            if not parent.children and not any(self.is_output(output) for output in parent.outputs):
                 self.remove_node(parent)
 
         for child in node.children:
-- 
2.43.0


From 7f7eb1a05cf4cd0cb16a8489927e7f35b8ec4af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:44 +0000
Subject: [PATCH 43/49] fix: do not remove a Reshape which is all that connects
 input and output

---
 onnx_import/backend.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/onnx_import/backend.py b/onnx_import/backend.py
index c862486..a80fa70 100644
--- a/onnx_import/backend.py
+++ b/onnx_import/backend.py
@@ -65,7 +65,8 @@ class BackendRep(backend_base.BackendRep):
                             is_nop = False
                             break
 
-                if is_nop:
+                # the output of the network has to be written even if it equals the input
+                if is_nop and not (graph.is_input(node.inputs[0]) and graph.is_output(node.outputs[0])):
                     removed_input = node.inputs[0]
                     removed_output = node.outputs[0]
 
-- 
2.43.0


From 3be3177dc46fa135c0b23bc95a8d9b4710ce3dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:44 +0000
Subject: [PATCH 44/49] fix: refuse models whose weights are the input of the
 network

---
 onnx_import/pico_cnn.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index 53403ea..d0189aa 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -45,6 +45,17 @@ class BaseLayer(object):
         pass
 
 
+def check_weights(node, graph):
+    """
+    Stop if the weights of an operation are the input of the network, they have to be known when it is constructed.
+    :param node: ComputeNode object of an operation with weights
+    :param graph: ComputeGraph object of the CNN
+    """
+    if any(graph.is_input(weights) for weights in node.inputs[1:]):
+        print("ERROR: Weights of {} are the input of the network, this is currently not supported".format(node.name))
+        exit(1)
+
+
 class Conv2D(BaseLayer):
     """
     2-dimensional convolution layer.
@@ -71,6 +82,8 @@ class Conv2D(BaseLayer):
         input_buffers = [memory_manager.get_buffer(graph, id) for id in node.inputs]
         output_buffers = [memory_manager.get_buffer(graph, id) for id in node.outputs]
 
+        check_weights(node, graph)
+
         input_shape = input_buffers[0].shape
         num_input_channels = input_shape[1]
 
@@ -146,6 +159,8 @@ class Conv1D(BaseLayer):
         input_buffers = [memory_manager.get_buffer(graph, id) for id in node.inputs]
         output_buffers = [memory_manager.get_buffer(graph, id) for id in node.outputs]
 
+        check_weights(node, graph)
+
         input_shape = input_buffers[0].shape
 
         if not (len(input_shape) == 3):
@@ -219,6 +234,7 @@ class FullyConnected(BaseLayer):
         :return:
         """
         attrs = node.attrs
+        check_weights(node, graph)
 
         if 'alpha' in node.attrs:
             if node.attrs['alpha'] != 1.0:
@@ -464,6 +480,7 @@ class BatchNorm(BaseLayer):
     @classmethod
     def create(cls, node, graph, memory_manager):
         attrs = node.attrs
+        check_weights(node, graph)
 
         input_buffer = memory_manager.get_buffer(graph, node.inputs[0])
         gamma_buffer = memory_manager.get_buffer(graph, node.inputs[1])
@@ -541,6 +558,7 @@ class MatMul(BaseLayer):
     @classmethod
     def create(cls, node, graph, memory_manager):
         attrs = node.attrs
+        check_weights(node, graph)
 
         input_buffer = memory_manager.get_buffer(graph, node.inputs[0])
         weight_buffer = memory_manager.get_buffer(graph, node.inputs[1])
-- 
2.43.0


From c342005175ff98ab681a20aa88cfa2ec5e55e3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:44 +0000
Subject: [PATCH 45/49] fix: refuse batches inside of the network for Conv and
 BatchNormalization

---
 onnx_import/pico_cnn.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index d0189aa..a6430d7 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -91,6 +91,10 @@ class Conv2D(BaseLayer):
             print("{} is not a 2DConvolution".format(node.name))
             return None
 
+        if input_shape[0] != 1:
+            print("ERROR: {} inference for batch_size > 1 currently not supported!".format(node.name))
+            exit(1)
+
         if input_shape[2] != input_shape[3]:
             print("WARNING: Not a squared input image ({}x{})!!!".format(input_shape[2], input_shape[3]))
 
@@ -167,6 +171,10 @@ class Conv1D(BaseLayer):
             print("{} is not a 1DConvolution".format(node.name))
             return None
 
+        if input_shape[0] != 1:
+            print("ERROR: {} inference for batch_size > 1 currently not supported!".format(node.name))
+            exit(1)
+
         kernel_shape = attrs["kernel_shape"]
         stride = attrs["strides"]
         if any(d != 1 for d in attrs.get("dilations", [])):
@@ -490,7 +498,7 @@ class BatchNorm(BaseLayer):
 
         output_buffer = memory_manager.get_buffer(graph, node.outputs[0])
 
-        if len(input_buffer.shape) not in (3, 4) or attrs.get("spatial", 1) != 1:
+        if len(input_buffer.shape) not in (3, 4) or input_buffer.shape[0] != 1 or attrs.get("spatial", 1) != 1:
             print("ERROR: BatchNormalization is only supported per channel, not for {}".format(input_buffer.shape))
             return None
 
-- 
2.43.0


From b960c0f4d2bd26f99105d800a073e0766fbb33bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:44 +0000
Subject: [PATCH 46/49] fix: refuse to concatenate batches, only the first one
 would be copied

---
 onnx_import/pico_cnn.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/onnx_import/pico_cnn.py b/onnx_import/pico_cnn.py
index a6430d7..9f4dbf0 100644
--- a/onnx_import/pico_cnn.py
+++ b/onnx_import/pico_cnn.py
@@ -935,6 +935,10 @@ class Concat(BaseLayer):
         num_input_shapes = len(input_shapes)
         output_shape = graph.get_shape(node.outputs[0])
 
+        if output_shape[0] != 1:
+            print("ERROR: {} concatenation for batch_size > 1 currently not supported!".format(node.name))
+            exit(1)
+
         for input_shape in input_shapes:
             assert(len(input_shape) == len(output_shape))
             for i, s in enumerate(input_shape):
-- 
2.43.0


From f286fcf9784f1755b83bad7226529bb8f9c1d430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:36 +0000
Subject: [PATCH 47/49] fix: write the height and width of 4-D WAV input shapes
 to the reference file

---
 util/generate_reference_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/generate_reference_data.py b/util/generate_reference_data.py
index 283997d..e3f2d63 100644
--- a/util/generate_reference_data.py
+++ b/util/generate_reference_data.py
@@ -109,8 +109,8 @@ def main():
         packed_input.append(struct.pack('{}s'.format(len(magic_input)), magic_input))
         packed_input.append(struct.pack('i', input_shape[0]))  # Number of batches
         packed_input.append(struct.pack('i', input_shape[1]))  # Number of channels
-        packed_input.append(struct.pack('i', 1))  # Channel height
-        packed_input.append(struct.pack('i', input_shape[2]))  # Channel width
+        packed_input.append(struct.pack('i', input_shape[2] if len(input_shape) == 4 else 1))  # Channel height
+        packed_input.append(struct.pack('i', input_shape[-1]))  # Channel width
         packed_input.append(struct.pack('f' * len(input_data), *input_data))  # Data
 
         tupac = bytes("end\n", "ascii")
-- 
2.43.0


From 7034a3fae2a718053db3c9c02cdc5bf186ae4047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:36 +0000
Subject: [PATCH 48/49] fix: do not copy paths into fixed buffers in the
 generated main programs

---
 onnx_import/code_templates/main_program/dummy_input.cpp  | 3 +--
 .../code_templates/main_program/reference_input.cpp      | 9 +++------
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/onnx_import/code_templates/main_program/dummy_input.cpp b/onnx_import/code_templates/main_program/dummy_input.cpp
index 9d50311..0112dce 100644
--- a/onnx_import/code_templates/main_program/dummy_input.cpp
+++ b/onnx_import/code_templates/main_program/dummy_input.cpp
@@ -24,8 +24,7 @@ int32_t main(int32_t argc, char** argv) {
 
     std::srand(std::time(0));
 
-    char weights_path[1024];
-    strcpy(weights_path, argv[1]);
+    const char *weights_path = argv[1];
 
     int32_t RUNS = atoi(argv[2]);
 
diff --git a/onnx_import/code_templates/main_program/reference_input.cpp b/onnx_import/code_templates/main_program/reference_input.cpp
index 1a6bfa6..45289f0 100644
--- a/onnx_import/code_templates/main_program/reference_input.cpp
+++ b/onnx_import/code_templates/main_program/reference_input.cpp
@@ -20,14 +20,11 @@ int32_t main(int32_t argc, char** argv) {
         return 1;
     }
 
-    char weights_path[1024];
-    strcpy(weights_path, argv[1]);
+    const char *weights_path = argv[1];
 
-    char sample_input_path[1024];
-    strcpy(sample_input_path, argv[2]);
+    const char *sample_input_path = argv[2];
 
-    char sample_output_path[1024];
-    strcpy(sample_output_path, argv[3]);
+    const char *sample_output_path = argv[3];
 
     {% if num_input_dims == 4 %}
     auto input_tensor = new pico_cnn::naive::Tensor({{num_input_batches}}, {{num_input_channels}}, {{input_channel_height}}, {{input_channel_width}});
-- 
2.43.0


From ead6a7cc9f1987173925690018e353cc46b1ceb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:03 +0000
Subject: [PATCH 49/49] fix: Convolution: channel ranges of a group no longer
 overflow when groups x channels exceeds 2^32

---
 pico-cnn/layers/convolution.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pico-cnn/layers/convolution.cpp b/pico-cnn/layers/convolution.cpp
index 47d2a9a..e792ea8 100644
--- a/pico-cnn/layers/convolution.cpp
+++ b/pico-cnn/layers/convolution.cpp
@@ -66,15 +66,15 @@ namespace pico_cnn {
             for (uint32_t batch = 0; batch < num_batches; batch++) {
 
                 for (uint32_t g = 0; g < num_groups_; g++) {
-                    for (uint32_t i = g * num_output_channels / num_groups_;
-                         i < (g + 1) * num_output_channels / num_groups_; i++) {
+                    for (uint32_t i = g * (num_output_channels / num_groups_);
+                         i < (g + 1) * (num_output_channels / num_groups_); i++) {
 
                         if (input_tensor->num_dimensions() == 4) {
-                            this->convolve(input_tensor, output, g * num_input_channels / num_groups_, i, 0,
+                            this->convolve(input_tensor, output, g * (num_input_channels / num_groups_), i, 0,
                                            num_input_channels, input_height, input_width,
                                            num_output_channels, output_height, output_width, num_kernel_input_channel);
                         } else if (input_tensor->num_dimensions() == 3) {
-                            this->convolve_1d(input_tensor, output, g * num_input_channels / num_groups_, i, 0,
+                            this->convolve_1d(input_tensor, output, g * (num_input_channels / num_groups_), i, 0,
                                            num_input_channels, input_width,
                                            num_output_channels, output_width, num_kernel_input_channel);
                         }
@@ -83,7 +83,7 @@ namespace pico_cnn {
                         if (num_input_channels > num_groups_) {
                             uint32_t cnt = 1;
 
-                            for (uint32_t j = g * num_input_channels / num_groups_ + 1;
+                            for (uint32_t j = g * (num_input_channels / num_groups_) + 1;
                                  j < (g + 1) * (num_input_channels / num_groups_); j++) {
 
 
-- 
2.43.0

