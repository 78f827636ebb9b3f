From 10e3256ef529983ec70efaef79bf4086789c7e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:39 +0000
Subject: [PATCH 01/36] fix: moving a tensor keeps track of shadowed and memory
 mapped storage

---
 src/util/Tensor.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/util/Tensor.cpp b/src/util/Tensor.cpp
index d927f44..78b827b 100644
--- a/src/util/Tensor.cpp
+++ b/src/util/Tensor.cpp
@@ -74,7 +74,15 @@ Tensor::Tensor ( Tensor && tensor ) {
   height_ = tensor.height_;
   elements_ = tensor.elements_;
 
+  // The memory's origin decides how it is released later
+  is_shadow_ = tensor.is_shadow_;
+  shadow_target_ = tensor.shadow_target_;
+  mmapped_ = tensor.mmapped_;
+  original_mmap_ = tensor.original_mmap_;
+
   tensor.data_ptr_ = nullptr;
+  tensor.mmapped_ = false;
+  tensor.original_mmap_ = nullptr;
   tensor.DeleteIfPossible();
 }
 
-- 
2.43.0


From 304d0980644c9e7839dbed334a5699af90e8d2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:39 +0000
Subject: [PATCH 02/36] fix: recognise the native Tensor suffix when loading
 and writing files

---
 src/util/Tensor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/Tensor.cpp b/src/util/Tensor.cpp
index 78b827b..515c401 100644
--- a/src/util/Tensor.cpp
+++ b/src/util/Tensor.cpp
@@ -617,7 +617,7 @@ void Tensor::LoadFromFile ( const std::string& filename ) {
 
 #endif
 
-  if ( filename.compare ( filename.length() - 3, 3, "Tensor" ) == 0 ) {
+  if ( filename.length() >= 6 && filename.compare ( filename.length() - 6, 6, "Tensor" ) == 0 ) {
     std::ifstream input_image_file ( filename, std::ios::in | std::ios::binary );
 
     if ( !input_image_file.good() )
@@ -660,7 +660,7 @@ void Tensor::WriteToFile ( const std::string& filename ) {
 
 #endif
 
-  if ( filename.compare ( filename.length() - 3, 3, "Tensor" ) == 0 ) {
+  if ( filename.length() >= 6 && filename.compare ( filename.length() - 6, 6, "Tensor" ) == 0 ) {
     std::ofstream output_image_file ( filename, std::ios::out | std::ios::binary );
 
     if ( !output_image_file.good() )
-- 
2.43.0


From c2bfd33fd7ae9458736b007ebfdbc2eeb48d8324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:39 +0000
Subject: [PATCH 03/36] fix: COL2IM checks the column against the image width

---
 src/math/TensorMath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/TensorMath.cpp b/src/math/TensorMath.cpp
index f1cbebe..767a1af 100644
--- a/src/math/TensorMath.cpp
+++ b/src/math/TensorMath.cpp
@@ -332,7 +332,7 @@ void TensorMath::COL2IM(Tensor& source, const int source_width, const int source
           if(iy >= 0 && iy < source_height) {
             for(int ox = 0; ox < target_width; ox++) {
               int ix = ox * stride_width - pad_width + kx;
-              if(ix >= 0 && iy < source_width) {
+              if(ix >= 0 && ix < source_width) {
                 source_ptr[(imap * source_height + iy) * source_width + ix] +=
                   target_ptr[(sample * target_height + oy) * target_width + ox];
               } 
-- 
2.43.0


From 4435c20900a180feb6b5c7fb29762b4cefdbfb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:39 +0000
Subject: [PATCH 04/36] fix: local response normalization covers the whole
 width of non-square inputs

---
 src/net/LocalResponseNormalizationLayer.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/net/LocalResponseNormalizationLayer.cpp b/src/net/LocalResponseNormalizationLayer.cpp
index efadf67..808d934 100644
--- a/src/net/LocalResponseNormalizationLayer.cpp
+++ b/src/net/LocalResponseNormalizationLayer.cpp
@@ -83,7 +83,7 @@ void LocalResponseNormalizationLayer::FeedForward() {
     if(normalization_method_ == WITHIN_CHANNELS) {
       for(unsigned int map = 0; map < maps_; map++) {
         for(unsigned int y = 0; y < input_height_; y++) {
-          for(unsigned int x = 0; x < input_height_; x++) {
+          for(unsigned int x = 0; x < input_width_; x++) {
             datum region_sum = 0;
             unsigned int region_size = 0;
             for(unsigned int iy = (((int)y-sub) > 0 ? (int)y-sub : 0); (iy < input_height_) && (iy <= ((int)y+add)); iy++) {
@@ -103,7 +103,7 @@ void LocalResponseNormalizationLayer::FeedForward() {
     } else if(normalization_method_ == ACROSS_CHANNELS) {
       for(unsigned int map = 0; map < maps_; map++) {
         for(unsigned int y = 0; y < input_height_; y++) {
-          for(unsigned int x = 0; x < input_height_; x++) {
+          for(unsigned int x = 0; x < input_width_; x++) {
             datum region_sum = 0;
             unsigned int region_size = 0;
             for(unsigned int imap = (((int)map-sub) > 0 ? (int)map-sub : 0); (imap < maps_) && (imap <= ((int)map+add)); imap++) {
@@ -135,7 +135,7 @@ void LocalResponseNormalizationLayer::BackPropagate() {
     if(normalization_method_ == WITHIN_CHANNELS) {
       for(unsigned int map = 0; map < maps_; map++) {
         for(unsigned int y = 0; y < input_height_; y++) {
-          for(unsigned int x = 0; x < input_height_; x++) {
+          for(unsigned int x = 0; x < input_width_; x++) {
             datum region_sum = (*region_sums_.data_ptr_const(x,y,map,sample));
             unsigned int region_size = 0;
             for(unsigned int iy = (((int)y-sub) > 0 ? (int)y-sub : 0); (iy < input_height_) && (iy <= ((int)y+add)); iy++) {
@@ -163,7 +163,7 @@ void LocalResponseNormalizationLayer::BackPropagate() {
     } else if(normalization_method_ == ACROSS_CHANNELS) {
       for(unsigned int map = 0; map < maps_; map++) {
         for(unsigned int y = 0; y < input_height_; y++) {
-          for(unsigned int x = 0; x < input_height_; x++) {
+          for(unsigned int x = 0; x < input_width_; x++) {
             datum region_sum = (*region_sums_.data_ptr_const(x,y,map,sample));
             unsigned int region_size = 0;
             for(unsigned int imap = (((int)map-sub) > 0 ? (int)map-sub : 0); (imap < maps_) && (imap <= ((int)map+add)); imap++) {
-- 
2.43.0


From c1028a2e6bd5ad7616371ad8f0d5a5be91e488de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:26 +0000
Subject: [PATCH 05/36] fix: sum and concatenation layers reject inputs of
 different width or height

---
 src/net/ConcatenationLayer.cpp | 3 ++-
 src/net/SumLayer.cpp           | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/net/ConcatenationLayer.cpp b/src/net/ConcatenationLayer.cpp
index 25b7609..1e3bb51 100644
--- a/src/net/ConcatenationLayer.cpp
+++ b/src/net/ConcatenationLayer.cpp
@@ -32,8 +32,9 @@ bool ConcatenationLayer::CreateOutputs (const std::vector< CombinedTensor* >& in
   }
   
   if(input_a->data.width() != input_b->data.width()
-    && input_a->data.height() != input_b->data.height()) {
+    || input_a->data.height() != input_b->data.height()) {
     LOGERROR << "Dimensions don't match!";
+    return false;
   }
   
   if(input_a->data.samples() != input_b->data.samples()) {
diff --git a/src/net/SumLayer.cpp b/src/net/SumLayer.cpp
index c599aa1..f9a34d1 100644
--- a/src/net/SumLayer.cpp
+++ b/src/net/SumLayer.cpp
@@ -33,8 +33,9 @@ bool SumLayer::CreateOutputs (const std::vector< CombinedTensor* >& inputs,
   }
   
   if(input_a->data.width() != input_b->data.width()
-    && input_a->data.height() != input_b->data.height()) {
+    || input_a->data.height() != input_b->data.height()) {
     LOGERROR << "Dimensions don't match!";
+    return false;
   }
   
   if(input_a->data.samples() != input_b->data.samples()) {
-- 
2.43.0


From 9f1155950d908f7d01fcde2ba0fbf6134a747030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:26 +0000
Subject: [PATCH 06/36] fix: sum layer validates the output it is connected to

---
 src/net/SumLayer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/net/SumLayer.cpp b/src/net/SumLayer.cpp
index f9a34d1..c80dc12 100644
--- a/src/net/SumLayer.cpp
+++ b/src/net/SumLayer.cpp
@@ -88,7 +88,7 @@ bool SumLayer::Connect (const std::vector< CombinedTensor* >& inputs,
   }
   
   if((output->data.elements() != input_a->data.elements())
-    && (output_->data.elements() != input_b->data.elements())) {
+    || (output->data.elements() != input_b->data.elements())) {
     LOGERROR << "Wrong output dimensions!";
     return false;
   }
-- 
2.43.0


From 2d7c9df28fe23b6883b35374e8a8692b777458a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:26 +0000
Subject: [PATCH 07/36] fix: strided max pooling rejects regions larger than
 the input

---
 src/net/AdvancedMaxPoolingLayer.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/net/AdvancedMaxPoolingLayer.cpp b/src/net/AdvancedMaxPoolingLayer.cpp
index e40d027..7977187 100644
--- a/src/net/AdvancedMaxPoolingLayer.cpp
+++ b/src/net/AdvancedMaxPoolingLayer.cpp
@@ -59,6 +59,12 @@ bool AdvancedMaxPoolingLayer::CreateOutputs (
     return false;
   }
 
+  // Check if at least one region fits
+  if (region_width_ > input->data.width() || region_height_ > input->data.height()) {
+    LOGERROR << "Pooling region is larger than the input!";
+    return false;
+  }
+
   const int output_width = ((int)input->data.width() - (int)region_width_ ) / (int)stride_width_ + 1;
   const int output_height = ((int)input->data.height() - (int)region_height_) / (int)stride_height_ + 1;
 
-- 
2.43.0


From bf0537a17fc4bb460687ecac6f158d64e01ee3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:26 +0000
Subject: [PATCH 08/36] fix: patch dataset addresses testing samples behind the
 training samples

---
 src/util/TensorStreamPatchDataset.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/util/TensorStreamPatchDataset.cpp b/src/util/TensorStreamPatchDataset.cpp
index 00dc53b..e74d8a8 100644
--- a/src/util/TensorStreamPatchDataset.cpp
+++ b/src/util/TensorStreamPatchDataset.cpp
@@ -217,7 +217,7 @@ bool TensorStreamPatchDataset::GetTrainingSample (Tensor& data_tensor, Tensor& l
     while ( (t < tensors_) && (index >= last_sample_[t]))
       t++;
 
-    if (index >= last_sample_[t])
+    if (t >= tensors_)
       return false;
 
     unsigned int inner_width = data_[t].width() - (patchsize_x_ - 1);
@@ -269,7 +269,7 @@ bool TensorStreamPatchDataset::GetTrainingSample (Tensor& data_tensor, Tensor& l
 
 bool TensorStreamPatchDataset::GetTestingSample (Tensor& data_tensor, Tensor& label_tensor, Tensor& helper_tensor, Tensor& weight_tensor, unsigned int sample, unsigned int index) {
   if (index < sample_count_testing_) {
-		index += sample_count_testing_;
+		index += sample_count_training_;
     bool success = true;
 
     // Find patch
@@ -278,7 +278,7 @@ bool TensorStreamPatchDataset::GetTestingSample (Tensor& data_tensor, Tensor& la
     while ( (t < tensors_) && (index >= last_sample_[t]))
       t++;
 
-    if (index >= last_sample_[t])
+    if (t >= tensors_)
       return false;
 
     unsigned int inner_width = data_[t].width() - (patchsize_x_ - 1);
-- 
2.43.0


From 8fda95c83b15c7c24e7669b03a8574934058a214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:26 +0000
Subject: [PATCH 09/36] fix: patch dataset maps the testing file for testing
 tensors

---
 src/util/TensorStreamPatchDataset.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/TensorStreamPatchDataset.cpp b/src/util/TensorStreamPatchDataset.cpp
index e74d8a8..6d1155c 100644
--- a/src/util/TensorStreamPatchDataset.cpp
+++ b/src/util/TensorStreamPatchDataset.cpp
@@ -442,7 +442,7 @@ TensorStreamPatchDataset* TensorStreamPatchDataset::CreateFromConfiguration (std
     }
 #ifdef BUILD_POSIX
     if(!no_mmap)
-      testing_fd = open(training_file.c_str(), O_RDONLY);
+      testing_fd = open(testing_file.c_str(), O_RDONLY);
     if(testing_fd < 0) {
       FATAL("Failed to load " << testing_file << "!");
     }
-- 
2.43.0


From 433530355828fc68dad504b522608e41ce89dd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:26 +0000
Subject: [PATCH 10/36] fix: stream dataset considers every testing image for
 its maximum size

---
 src/util/TensorStreamDataset.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/TensorStreamDataset.cpp b/src/util/TensorStreamDataset.cpp
index 14109dd..c9cfe73 100644
--- a/src/util/TensorStreamDataset.cpp
+++ b/src/util/TensorStreamDataset.cpp
@@ -87,7 +87,7 @@ TensorStreamDataset::TensorStreamDataset (
       max_height_ = training_stream_->GetHeight(2*t);
   }
 
-  for (unsigned int t = (tensor_count_training_ / 2) ; t < tensors_; t++) {
+  for (unsigned int t = 0; t < (tensor_count_testing_ / 2); t++) {
     if(testing_stream_->GetWidth(2*t) > max_width_)
       max_width_ = testing_stream_->GetWidth(2*t);
     
-- 
2.43.0


From 50b4e6c729d9bd49eeed7a1d6a2db84cd0976a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:26 +0000
Subject: [PATCH 11/36] fix: list tensor stream reports the result of copying a
 sample

---
 src/util/ListTensorStream.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/util/ListTensorStream.cpp b/src/util/ListTensorStream.cpp
index 0832b12..48f8a09 100644
--- a/src/util/ListTensorStream.cpp
+++ b/src/util/ListTensorStream.cpp
@@ -155,11 +155,16 @@ namespace Conv {
 						}
 					}
 				} // end if
-				Tensor::CopySample(label_tensor, source_sample, target, target_sample);
+
+				delete[] cr;
+				delete[] cg;
+				delete[] cb;
+
+				return Tensor::CopySample(label_tensor, source_sample, target, target_sample);
 				
 			} else {
 				// Tensor has an image in it, no transform needed
-				Tensor::CopySample(rgb_tensor, source_sample, target, target_sample);
+				return Tensor::CopySample(rgb_tensor, source_sample, target, target_sample);
 			}
 		} else {
 			return false;
-- 
2.43.0


From 6b7ef74a807f656b05c13578e996a1228e5ce670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:28 +0000
Subject: [PATCH 12/36] fix: colorize picks the largest class even if no value
 is positive

---
 src/util/Colorize.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/Colorize.cpp b/src/util/Colorize.cpp
index 758df1f..b28d423 100644
--- a/src/util/Colorize.cpp
+++ b/src/util/Colorize.cpp
@@ -49,7 +49,7 @@ void Dataset::Colorize(Tensor& net_output_tensor, Tensor& target_tensor) {
        for(unsigned int y = 0; y < net_output_tensor.height(); y++) {
 	for(unsigned int x = 0; x < net_output_tensor.width(); x++) {
 	  unsigned int maxclass = 0;
-	  datum maxvalue = std::numeric_limits<datum>::min();
+	  datum maxvalue = std::numeric_limits<datum>::lowest();
 	  for(unsigned int c = 0; c < GetClasses(); c++) {
 	    const datum value = *net_output_tensor.data_ptr_const(x,y,c,sample);
 	    if(value > maxvalue) {
-- 
2.43.0


From 17fb79805f8e2f1e7f4159ce0fd62ea7436505d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:28 +0000
Subject: [PATCH 13/36] fix: binary statistics have an F1 value of zero if
 nothing was detected correctly

---
 src/net/BinaryStatLayer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/net/BinaryStatLayer.cpp b/src/net/BinaryStatLayer.cpp
index 19a1877..a281c51 100644
--- a/src/net/BinaryStatLayer.cpp
+++ b/src/net/BinaryStatLayer.cpp
@@ -117,7 +117,7 @@ void BinaryStatLayer::UpdateAll() {
                ( true_positives_[t] + false_negatives_[t] );
 
     if ( precision >= 0 && recall >= 0 ) {
-      f1 = 2 * precision * recall / ( precision + recall );
+      f1 = ( precision + recall ) > 0 ? 2 * precision * recall / ( precision + recall ) : 0;
     }
 
     if ( f1 > fmax ) {
@@ -150,7 +150,7 @@ void BinaryStatLayer::UpdateAll() {
           ( true_positives_[tfmax] + false_negatives_[tfmax] );
 
   if ( precision >= 0 && recall >= 0 )
-    f1 = 2 * precision * recall / ( precision + recall );
+    f1 = ( precision + recall ) > 0 ? 2 * precision * recall / ( precision + recall ) : 0;
   
   acc = ( true_positives_[tfmax] + true_negatives_[tfmax] ) /
           ( true_positives_[tfmax] + true_negatives_[tfmax] +
-- 
2.43.0


From 27896d71f2c9a5d1bc427c87d3a768daf8cd41ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:28 +0000
Subject: [PATCH 14/36] fix: CSV sink does not write to a file it could not
 open

---
 src/util/CSVStatSink.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/util/CSVStatSink.cpp b/src/util/CSVStatSink.cpp
index 4f7ac90..a76d49b 100644
--- a/src/util/CSVStatSink.cpp
+++ b/src/util/CSVStatSink.cpp
@@ -73,6 +73,7 @@ void CSVStatSink::SetCurrentExperiment(std::string current_experiment) {
     LOGERROR << "Cannot open " << csv_filename << " for writing!";
     delete csv_stream_;
     csv_stream_ = nullptr;
+    return;
   }
   // Write header for hardcoded stats
   (*csv_stream_) << "IsTraining,Epoch,Iterations,SecondsElapsed,";
-- 
2.43.0


From 29230598861627a390b4a5d784fd83cc5a3db704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:28 +0000
Subject: [PATCH 15/36] fix: HMax activation weights receive the output
 gradient

---
 src/net/HMaxActivationFunction.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/net/HMaxActivationFunction.cpp b/src/net/HMaxActivationFunction.cpp
index 49c2684..aa707f2 100644
--- a/src/net/HMaxActivationFunction.cpp
+++ b/src/net/HMaxActivationFunction.cpp
@@ -168,8 +168,8 @@ void HMaxActivationFunction::BackPropagate() {
     datum input_delta = output_delta * a * output_mix; 
     
     // Calculate gradient of the output w.r.t. to weights
-    delta_a += output_mix * input_data;
-    delta_b += output_mix;
+    delta_a += output_delta * output_mix * input_data;
+    delta_b += output_delta * output_mix;
 
     // handle the KL divergence regularization;
     // We need to add the derivative of eq. (4) w.r.t. x here to input_delta
-- 
2.43.0


From 13f8af207f0e89b5b97ed43b193a1a81f4f2e0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:30 +0000
Subject: [PATCH 16/36] fix: deserializing into a memory mapped tensor releases
 the old mapping

---
 src/util/Tensor.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/util/Tensor.cpp b/src/util/Tensor.cpp
index 515c401..b90adb3 100644
--- a/src/util/Tensor.cpp
+++ b/src/util/Tensor.cpp
@@ -312,6 +312,8 @@ void Tensor::Deserialize ( std::istream& input , bool head_only, bool try_mmap,
       if(target_mmap == MAP_FAILED) {
         LOGERROR << "Memory map failed: " << errno;
       }
+      // Release the old storage while its mapping is still known
+      DeleteIfPossible();
       original_mmap_ = target_mmap;
       
       target_mmap = (void*)(((long)target_mmap) + offset_in_page);
-- 
2.43.0


From 045156018e0caed12af909a98d8a41ce4eb315cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:30 +0000
Subject: [PATCH 17/36] fix: stream dataset helper coordinates are defined for
 one pixel wide or high images

---
 src/util/TensorStreamDataset.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/util/TensorStreamDataset.cpp b/src/util/TensorStreamDataset.cpp
index c9cfe73..df54c30 100644
--- a/src/util/TensorStreamDataset.cpp
+++ b/src/util/TensorStreamDataset.cpp
@@ -205,8 +205,8 @@ bool TensorStreamDataset::GetTrainingSample (Tensor& data_tensor, Tensor& label_
 		// Write spatial prior data to helper tensor
 		for (unsigned int y = 0; y < data_height; y++) {
 			for (unsigned int x = 0; x < data_width; x++) {
-				*helper_tensor.data_ptr(x, y, 0, sample) = ((datum)x) / ((datum)data_width - 1);
-				*helper_tensor.data_ptr(x, y, 1, sample) = ((datum)y) / ((datum)data_height - 1);
+				*helper_tensor.data_ptr(x, y, 0, sample) = data_width > 1 ? ((datum)x) / ((datum)data_width - 1) : 0;
+				*helper_tensor.data_ptr(x, y, 1, sample) = data_height > 1 ? ((datum)y) / ((datum)data_height - 1) : 0;
 			}
 			for (unsigned int x = data_width; x < GetWidth(); x++) {
 				*helper_tensor.data_ptr(x, y, 0, sample) = 0;
@@ -251,8 +251,8 @@ bool TensorStreamDataset::GetTestingSample (Tensor& data_tensor, Tensor& label_t
 		// Write spatial prior data to helper tensor
 		for (unsigned int y = 0; y < data_height; y++) {
 			for (unsigned int x = 0; x < data_width; x++) {
-				*helper_tensor.data_ptr(x, y, 0, sample) = ((datum)x) / ((datum)data_width - 1);
-				*helper_tensor.data_ptr(x, y, 1, sample) = ((datum)y) / ((datum)data_height - 1);
+				*helper_tensor.data_ptr(x, y, 0, sample) = data_width > 1 ? ((datum)x) / ((datum)data_width - 1) : 0;
+				*helper_tensor.data_ptr(x, y, 1, sample) = data_height > 1 ? ((datum)y) / ((datum)data_height - 1) : 0;
 			}
 			for (unsigned int x = data_width; x < GetWidth(); x++) {
 				*helper_tensor.data_ptr(x, y, 0, sample) = 0;
-- 
2.43.0


From cd8f548628c7bd26269613f907f38b85a1e24069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:30 +0000
Subject: [PATCH 18/36] fix: images smaller than the patch size have no patches

---
 src/util/TensorStreamPatchDataset.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/util/TensorStreamPatchDataset.cpp b/src/util/TensorStreamPatchDataset.cpp
index 6d1155c..57d67a0 100644
--- a/src/util/TensorStreamPatchDataset.cpp
+++ b/src/util/TensorStreamPatchDataset.cpp
@@ -122,8 +122,8 @@ TensorStreamPatchDataset::TensorStreamPatchDataset(std::istream& training_stream
 	for (unsigned int t = 0; t < (tensor_count_training_ / 2); t++) {
 		data_[t].Deserialize(training_stream, false, true, training_fd);
 
-		unsigned int inner_width = data_[t].width() - (patchsize_x_ - 1);
-		unsigned int inner_height = data_[t].height() - (patchsize_y_ - 1);
+		unsigned int inner_width = data_[t].width() >= patchsize_x_ ? data_[t].width() - (patchsize_x_ - 1) : 0;
+		unsigned int inner_height = data_[t].height() >= patchsize_y_ ? data_[t].height() - (patchsize_y_ - 1) : 0;
 
 		if (t == 0)
 			last_sample_[t] = inner_width * inner_height;
@@ -140,8 +140,8 @@ TensorStreamPatchDataset::TensorStreamPatchDataset(std::istream& training_stream
 	for (unsigned int t = (tensor_count_training_ / 2); t < tensors_; t++) {
 		data_[t].Deserialize(testing_stream, false, true, testing_fd);
 
-		unsigned int inner_width = data_[t].width() - (patchsize_x_ - 1);
-		unsigned int inner_height = data_[t].height() - (patchsize_y_ - 1);
+		unsigned int inner_width = data_[t].width() >= patchsize_x_ ? data_[t].width() - (patchsize_x_ - 1) : 0;
+		unsigned int inner_height = data_[t].height() >= patchsize_y_ ? data_[t].height() - (patchsize_y_ - 1) : 0;
 
 		if (t == 0)
 			last_sample_[t] = inner_width * inner_height;
-- 
2.43.0


From c73241d6b2c8e78ccd661039f951730e0fa9e1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:58 +0000
Subject: [PATCH 19/36] fix: fan-out layer rejects outputs of a different size

---
 src/net/GradientAccumulationLayer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/net/GradientAccumulationLayer.cpp b/src/net/GradientAccumulationLayer.cpp
index 70fa9e5..a676d00 100644
--- a/src/net/GradientAccumulationLayer.cpp
+++ b/src/net/GradientAccumulationLayer.cpp
@@ -78,6 +78,7 @@ bool GradientAccumulationLayer::Connect (const std::vector< CombinedTensor* >& i
     }
     if(input->data.elements() != outputs[i]->data.elements()) {
       LOGERROR << "Wrong output dimensions!";
+      return false;
     }
     outputs_.push_back(outputs[i]);
   }
-- 
2.43.0


From a468d42278de8bca59e0b104953a7e76f2833bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:58 +0000
Subject: [PATCH 20/36] fix: memory mapped reading of an empty tensor or of a
 header kept the old contents and dimensions

---
 src/util/Tensor.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/util/Tensor.cpp b/src/util/Tensor.cpp
index b90adb3..4c10304 100644
--- a/src/util/Tensor.cpp
+++ b/src/util/Tensor.cpp
@@ -289,12 +289,13 @@ void Tensor::Deserialize ( std::istream& input , bool head_only, bool try_mmap,
   input.read ( ( char* ) &height, sizeof ( uint64_t ) / sizeof ( char ) );
   input.read ( ( char* ) &maps, sizeof ( uint64_t ) / sizeof ( char ) );
 
+  std::size_t elements = samples * maps * width * height;
+
 #ifdef BUILD_POSIX
-  if(!try_mmap || fd == 0)
+  // Only actual data is mapped
+  if(!try_mmap || fd == 0 || head_only || elements == 0)
 #endif
     Resize ( samples, width, height, maps );
-  
-  std::size_t elements = samples * maps * width * height;
 
   if ( elements > 0 && !head_only ) {
 #ifdef BUILD_POSIX
-- 
2.43.0


From c26968de4258b18c6ababc96a103113c66dfc008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:29 +0000
Subject: [PATCH 21/36] fix: deserializing into a memory mapped compressed
 tensor unmapped the new mapping or kept old contents

---
 src/util/CompressedTensor.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/util/CompressedTensor.cpp b/src/util/CompressedTensor.cpp
index b8a76a5..ac7eb31 100644
--- a/src/util/CompressedTensor.cpp
+++ b/src/util/CompressedTensor.cpp
@@ -136,7 +136,8 @@ void CompressedTensor::Deserialize ( std::istream& input , bool head_only, bool
   input.read ( ( char* ) &compressed_length, sizeof ( uint64_t ) / sizeof ( char ) );
 
 #ifdef BUILD_POSIX
-  if(!try_mmap || fd == 0)
+  // Only actual data is mapped
+  if(!try_mmap || fd == 0 || head_only || compressed_length == 0)
 #endif
     Resize ( samples, width, height, maps, compressed_length );
     
@@ -156,6 +157,8 @@ void CompressedTensor::Deserialize ( std::istream& input , bool head_only, bool
       if(target_mmap == MAP_FAILED) {
         LOGERROR << "Memory map failed: " << errno;
       }
+      // Release the old storage while its mapping is still known
+      DeleteIfPossible();
       original_mmap_ = target_mmap;
       
       target_mmap = (void*)(((long)target_mmap) + offset_in_page);
-- 
2.43.0


From cc1ea1d7642f5b21872f253ee6c0cc78275b9391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:13 +0000
Subject: [PATCH 22/36] fix: statistics registered after initialization or
 reported before it were accessed out of bounds

---
 src/util/StatAggregator.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/util/StatAggregator.cpp b/src/util/StatAggregator.cpp
index e2aed6e..b562229 100644
--- a/src/util/StatAggregator.cpp
+++ b/src/util/StatAggregator.cpp
@@ -21,6 +21,8 @@ unsigned int StatAggregator::RegisterSink(StatSink* stat_sink)
 unsigned int StatAggregator::RegisterStat(StatDescriptor* stat_descriptor)
 {
   stat_descriptors_.push_back(stat_descriptor);
+  // Statistics may be registered at any time, so keep one value per descriptor
+  stats_.push_back(Stat());
   stat_descriptor->stat_id = stat_descriptor_count_;
   return stat_descriptor_count_++;
 }
@@ -35,11 +37,6 @@ void StatAggregator::Initialize()
     stat_sinks_[s]->Initialize(stat_descriptors_);
   }
   
-  // Initialize all statistics
-  for(unsigned int s = 0; s < stat_descriptor_count_; s++) {
-    Stat stat;
-    stats_.push_back(stat);
-  }
   state_ = STOPPED;
   
   // Reset statistics
-- 
2.43.0


From 331d1d039135bac2dbca794b4284d0b6787e23e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:03 +0000
Subject: [PATCH 23/36] fix: NetGraph::IsComplete never noticed connections to
 nodes outside the network

---
 src/net/NetGraph.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/net/NetGraph.cpp b/src/net/NetGraph.cpp
index c7471a4..cefe265 100644
--- a/src/net/NetGraph.cpp
+++ b/src/net/NetGraph.cpp
@@ -85,8 +85,9 @@ bool NetGraph::IsComplete() const {
 			if (node->layer != nullptr) {
 				for (NetGraphConnection connection : node->input_connections) {
 					if (connection.node != nullptr) {
-						if (std::find(nodes_.begin(), nodes_.end(), node) == nodes_.end()) {
+						if (std::find(nodes_.begin(), nodes_.end(), connection.node) == nodes_.end()) {
 							LOGWARN << "Node has out-of-network connection: " << node->layer->GetLayerDescription();
+							node_okay = false;
 						}
 						else {
 							if (connection.buffer >= connection.node->output_buffers.size()) {
-- 
2.43.0


From b57cb4d94d7224eb8a6fd218c1fff5aada6d6085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:03 +0000
Subject: [PATCH 24/36] fix: adding a node to a network again registered it and
 its gradient connections twice

---
 src/net/NetGraph.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/net/NetGraph.cpp b/src/net/NetGraph.cpp
index cefe265..4c936ce 100644
--- a/src/net/NetGraph.cpp
+++ b/src/net/NetGraph.cpp
@@ -29,6 +29,12 @@ void NetGraph::AddNode(NetGraphNode* node) {
 	if (node->layer == nullptr)
 		FATAL("Tried to add layerless node!");
 
+	// Adding a node again would run its layer's connections twice
+	if (std::find(nodes_.begin(), nodes_.end(), node) != nodes_.end()) {
+		LOGWARN << "Node is already in the network: " << node->layer->GetLayerDescription();
+		return;
+	}
+
 	// We don't check the node's connections at this time because we can't expect
 	// the user to sort the nodes before adding. NetGraph::IsComplete() contains
 	// all necessary checks.
-- 
2.43.0


From 64aaf4e821decc5da77f6c9a49a5e4f2d9f913d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:03 +0000
Subject: [PATCH 25/36] fix: adding a node with an unset connection
 dereferenced a null pointer

---
 src/net/NetGraph.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/net/NetGraph.cpp b/src/net/NetGraph.cpp
index 4c936ce..c0a92a1 100644
--- a/src/net/NetGraph.cpp
+++ b/src/net/NetGraph.cpp
@@ -64,6 +64,10 @@ void NetGraph::AddNode(NetGraphNode* node) {
   
   // Add backprop connection where appropiate
   for(NetGraphConnection& connection : node->input_connections) {
+    // IsComplete() reports missing nodes
+    if (connection.node == nullptr)
+      continue;
+
     if (connection.backprop && !connection.node->is_input) {
       NetGraphBackpropConnection backprop_connection(node, connection.buffer);
       connection.node->backprop_connections.push_back(backprop_connection);
-- 
2.43.0


From da987c18a00e636760689022f050fe697c0b41e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:03 +0000
Subject: [PATCH 26/36] fix: gradient accumulation merged the different outputs
 of a node

---
 src/net/NetGraph.cpp | 58 +++++++++++++++++++++++++-------------------
 1 file changed, 33 insertions(+), 25 deletions(-)

diff --git a/src/net/NetGraph.cpp b/src/net/NetGraph.cpp
index c0a92a1..9fa49bf 100644
--- a/src/net/NetGraph.cpp
+++ b/src/net/NetGraph.cpp
@@ -222,35 +222,43 @@ void NetGraph::Initialize() {
     no_multiple_connections = true;
 		std::vector<NetGraphNode*> nodes(nodes_);
     for (NetGraphNode* node : nodes) {
-      if(node->backprop_connections.size() > 1 && dynamic_cast<GradientAccumulationLayer*>(node->layer) == NULL) {
-        no_multiple_connections = false;
-        LOGINFO << "Node has multiple backprop connections: " << node->layer->GetLayerDescription();
-        
-        // Insert gradient accumulation layer
-        GradientAccumulationLayer* ga = new GradientAccumulationLayer(node->backprop_connections.size());
-        NetGraphNode* ga_node = new NetGraphNode(ga, NetGraphConnection(node));
-        AddNode(ga_node);
-        
-        // Redirect input connections using backprop connections
-        int b = 0;
-        for(NetGraphBackpropConnection& backprop_connection : node->backprop_connections) {
-          if(backprop_connection.node != ga_node) {
-            for(NetGraphConnection& target_connection : backprop_connection.node->input_connections) {
-              if(target_connection.node == node && target_connection.buffer == backprop_connection.buffer && target_connection.backprop) {
-                target_connection.node = ga_node;
-                backprop_connection.buffer = b;
-                target_connection.buffer = b++;
+      for (unsigned int buffer = 0; buffer < node->output_buffers.size(); buffer++) {
+        unsigned int consumers = 0;
+        for(NetGraphBackpropConnection& backprop_connection : node->backprop_connections)
+          if(backprop_connection.buffer == buffer)
+            consumers++;
+
+        if(consumers > 1) {
+          no_multiple_connections = false;
+          LOGINFO << "Node has multiple backprop connections: " << node->layer->GetLayerDescription();
+
+          // Insert gradient accumulation layer
+          GradientAccumulationLayer* ga = new GradientAccumulationLayer(consumers);
+          NetGraphNode* ga_node = new NetGraphNode(ga, NetGraphConnection(node, buffer));
+          AddNode(ga_node);
+
+          // Redirect input connections using backprop connections
+          int b = 0;
+          for(NetGraphBackpropConnection& backprop_connection : node->backprop_connections) {
+            if(backprop_connection.node != ga_node && backprop_connection.buffer == buffer) {
+              for(NetGraphConnection& target_connection : backprop_connection.node->input_connections) {
+                if(target_connection.node == node && target_connection.buffer == buffer && target_connection.backprop) {
+                  target_connection.node = ga_node;
+                  target_connection.buffer = b++;
+                  ga_node->backprop_connections.push_back(
+                    NetGraphBackpropConnection(backprop_connection.node, target_connection.buffer));
+                }
               }
             }
-            ga_node->backprop_connections.push_back(backprop_connection);
           }
+
+          // Remove backprop connections from node
+          auto predicate =
+            [&](NetGraphBackpropConnection backprop_connection){
+              return backprop_connection.node != ga_node && backprop_connection.buffer == buffer; };
+          node->backprop_connections.erase(std::remove_if(node->backprop_connections.begin(), node->backprop_connections.end(),
+          predicate), node->backprop_connections.end());
         }
-        
-        // Remove backprop connections from node
-        auto predicate = 
-          [&](NetGraphBackpropConnection backprop_connection){ return backprop_connection.node != ga_node; };
-        node->backprop_connections.erase(std::remove_if(node->backprop_connections.begin(), node->backprop_connections.end(),
-        predicate), node->backprop_connections.end());
       }
     }
   } while(!no_multiple_connections);
-- 
2.43.0


From 39ff4f4f40e3d8ad7b28d5a214816ff87e3ec0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:03 +0000
Subject: [PATCH 27/36] fix: QuickProp took its initial step for the first
 weight only

---
 src/net/Trainer.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/net/Trainer.cpp b/src/net/Trainer.cpp
index a307c79..fe97828 100644
--- a/src/net/Trainer.cpp
+++ b/src/net/Trainer.cpp
@@ -498,7 +498,6 @@ void Trainer::ApplyGradients (datum lr) {
 
             if(first_iteration) {
               current_step = - epsilon_zero * current_slope;
-              first_iteration=false;
             } else {
               // A0
               if(std::abs(current_slope) <= epsilon_flat) {
@@ -541,8 +540,11 @@ void Trainer::ApplyGradients (datum lr) {
     }
   }
   
-  // Update quickprop stats
   if(settings_.optimization_method == QUICKPROP) {
+    // The first step applies to every weight
+    first_iteration = false;
+
+    // Update quickprop stats
     System::stat_aggregator->Update(stat_qp_caseA_->stat_id, (double)qp_caseA);
     System::stat_aggregator->Update(stat_qp_caseB_->stat_id, (double)qp_caseB);
     System::stat_aggregator->Update(stat_qp_caseC_->stat_id, (double)qp_caseC);
-- 
2.43.0


From dfbf4569b7f59d592f2f452b648b5fd651e60759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:34 +0000
Subject: [PATCH 28/36] fix: label extraction read the pixel one to the right
 and below

---
 src/util/Segmentation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/Segmentation.cpp b/src/util/Segmentation.cpp
index 866de3a..fc631ab 100644
--- a/src/util/Segmentation.cpp
+++ b/src/util/Segmentation.cpp
@@ -117,14 +117,14 @@ void Segmentation::ExtractLabels (const int patchsize_x,
   for (int px = 0; px < image_width; px++) {
     for (int py = 0; py < image_height; py++) {
       unsigned int element =  image_width * py + px;
-      const int ipy = (patchsize_y / 2) + 1;
+      const int ipy = patchsize_y / 2;
       int image_y = py + ipy - offsety;
       if (image_y < 0)
         image_y = -image_y;
       if (image_y >= image_height)
         image_y = -1 + image_height + image_height - image_y;
 
-      int ipx = (patchsize_x / 2) + 1;
+      int ipx = patchsize_x / 2;
       int image_x = px + ipx - offsetx;
       if (image_x < 0)
         image_x = -image_x;
-- 
2.43.0


From 662bcfee19f3cb2ece1df31353a8b36f64d21b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:31 +0000
Subject: [PATCH 29/36] fix: parameter keys matched the tail of longer keys

---
 src/util/ConfigParsing.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/util/ConfigParsing.cpp b/src/util/ConfigParsing.cpp
index 0a7da31..6264dda 100644
--- a/src/util/ConfigParsing.cpp
+++ b/src/util/ConfigParsing.cpp
@@ -9,6 +9,7 @@
 #include "Log.h"
 
 #include "ConfigParsing.h"
+#include <cctype>
 #include <cstdlib>
 
 #include <sstream>
@@ -53,9 +54,21 @@ void ParseStringIfPossible ( std::string line, std::string identifier, std::stri
   }
 }
 
+// Position of "identifier=" in a line of parameters, std::string::npos if the
+// line doesn't have it. A match inside of a longer identifier doesn't count.
+static std::size_t FindParam ( const std::string& line, const std::string& identifier ) {
+  std::size_t pos = line.find ( identifier + "=" );
+
+  while ( pos != std::string::npos && pos > 0 &&
+    ( std::isalnum ( (unsigned char)line[pos - 1] ) || line[pos - 1] == '_' ) )
+    pos = line.find ( identifier + "=", pos + 1 );
+
+  return pos;
+}
+
 void ParseStringParamIfPossible(std::string line, std::string identifier, std::string& s) {
   std::size_t ilen = identifier.length() + 1;
-  std::size_t size_pos = line.find ( identifier + "=" );
+  std::size_t size_pos = FindParam ( line, identifier );
 
   if ( size_pos == std::string::npos )
     return;
@@ -84,7 +97,7 @@ void ParseUIntIfPossible ( std::string line, std::string identifier, unsigned in
 
 void ParseKernelSizeIfPossible ( std::string line, std::string identifier, unsigned int& kx, unsigned int& ky ) {
   std::size_t ilen = identifier.length() + 1;
-  std::size_t size_pos = line.find ( identifier + "=" );
+  std::size_t size_pos = FindParam ( line, identifier );
 
   if ( size_pos == std::string::npos )
     return;
@@ -109,7 +122,7 @@ void ParseKernelSizeIfPossible ( std::string line, std::string identifier, unsig
 
 void ParseCountIfPossible ( std::string line, std::string identifier, unsigned int& k ) {
   std::size_t ilen = identifier.length() + 1;
-  std::size_t size_pos = line.find ( identifier + "=" );
+  std::size_t size_pos = FindParam ( line, identifier );
 
   if ( size_pos == std::string::npos )
     return;
@@ -126,7 +139,7 @@ void ParseCountIfPossible ( std::string line, std::string identifier, unsigned i
 
 void ParseDatumParamIfPossible ( std::string line, std::string identifier, datum& k ) {
   std::size_t ilen = identifier.length() + 1;
-  std::size_t size_pos = line.find ( identifier + "=" );
+  std::size_t size_pos = FindParam ( line, identifier );
 
   if ( size_pos == std::string::npos )
     return;
-- 
2.43.0


From 7091e5869ccecd00199e8678316597dc9e1d87ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:31 +0000
Subject: [PATCH 30/36] fix: kernel sizes without an x were completed by the x
 of a later parameter

---
 src/util/ConfigParsing.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/util/ConfigParsing.cpp b/src/util/ConfigParsing.cpp
index 6264dda..3a66a0b 100644
--- a/src/util/ConfigParsing.cpp
+++ b/src/util/ConfigParsing.cpp
@@ -102,9 +102,10 @@ void ParseKernelSizeIfPossible ( std::string line, std::string identifier, unsig
   if ( size_pos == std::string::npos )
     return;
 
-  std::size_t x_pos = line.find ( "x",size_pos );
+  std::size_t x_pos = line.find ( "x",size_pos + ilen );
 
-  if ( x_pos == std::string::npos )
+  // The x has to be part of this value, not of one behind it
+  if ( x_pos == std::string::npos || line.find ( " ", size_pos ) < x_pos )
     return;
 
   std::size_t end_pos = line.find ( " ", x_pos );
-- 
2.43.0


From 81876ceff7f77a5d4c65373b318c9cd31cece6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:31 +0000
Subject: [PATCH 31/36] fix: settings matched keys that only start like them

---
 src/util/ConfigParsing.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/util/ConfigParsing.cpp b/src/util/ConfigParsing.cpp
index 3a66a0b..81dc187 100644
--- a/src/util/ConfigParsing.cpp
+++ b/src/util/ConfigParsing.cpp
@@ -44,12 +44,12 @@ std::string ParseString ( std::string line, std::string identifier ) {
   if ( line.compare ( 0, identifier.length(), identifier ) == 0 ) {
     return line.substr ( identifier.length() +1 );
   } else {
-    return 0;
+    return "";
   }
 }
 
 void ParseStringIfPossible ( std::string line, std::string identifier, std::string& value ) {
-  if ( StartsWithIdentifier ( line,identifier ) ) {
+  if ( StartsWithIdentifier ( line,identifier + "=" ) ) {
     value = ParseString ( line,identifier );
   }
 }
@@ -84,13 +84,13 @@ void ParseStringParamIfPossible(std::string line, std::string identifier, std::s
 
 
 void ParseDatumIfPossible ( std::string line, std::string identifier, datum& value ) {
-  if ( StartsWithIdentifier ( line,identifier ) ) {
+  if ( StartsWithIdentifier ( line,identifier + "=" ) ) {
     value = ParseDatum ( line,identifier );
   }
 }
 
 void ParseUIntIfPossible ( std::string line, std::string identifier, unsigned int& value ) {
-  if ( StartsWithIdentifier ( line,identifier ) ) {
+  if ( StartsWithIdentifier ( line,identifier + "=" ) ) {
     value = ParseUInt ( line,identifier );
   }
 }
-- 
2.43.0


From ced019e4cc287876e20052591d11572a5dd9006f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:31 +0000
Subject: [PATCH 32/36] fix: layer descriptions with backslashes were accepted

---
 src/net/LayerFactory.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/net/LayerFactory.cpp b/src/net/LayerFactory.cpp
index fc7195b..0f5d4c2 100644
--- a/src/net/LayerFactory.cpp
+++ b/src/net/LayerFactory.cpp
@@ -28,8 +28,8 @@ bool LayerFactory::IsValidDescriptor(std::string descriptor) {
   const std::string valid_descriptor_regex =
     "^[a-z]+(\\("
     "("
-    "[a-z]+=[a-zA-Z0-9\\.]+"
-    "( [a-z]+=[a-zA-Z0-9\\.]+)*"
+    "[a-z]+=[a-zA-Z0-9.]+"
+    "( [a-z]+=[a-zA-Z0-9.]+)*"
     ")?"
     "\\))?$";
 #ifdef BUILD_BOOST
-- 
2.43.0


From fec6d4e1c96c3bc909e75a65549cfc7ea860c0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:57 +0000
Subject: [PATCH 33/36] fix: refuse convolution layers without stride, kernel
 or groups, or whose output maps do not divide

---
 src/net/ConvolutionLayer.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/net/ConvolutionLayer.cpp b/src/net/ConvolutionLayer.cpp
index 0b6e45c..57f4c14 100644
--- a/src/net/ConvolutionLayer.cpp
+++ b/src/net/ConvolutionLayer.cpp
@@ -53,7 +53,7 @@ ConvolutionLayer::ConvolutionLayer (const unsigned int kwidth,
     FATAL("Stride needs to be at least 1!");
   }
   
-  if((output_maps_ % group) != 0) {
+  if(group == 0 || (output_maps_ % group) != 0) {
     FATAL("Output maps need to divide group count");
   }
   
@@ -115,6 +115,17 @@ bool ConvolutionLayer::CreateOutputs (
     return false;
   }
 
+  // A layer made from a configuration string may lack valid parameters
+  if (kernel_width_ == 0 || kernel_height_ == 0 || stride_width_ == 0 || stride_height_ == 0 || group_ == 0) {
+    LOGERROR << "Kernel, stride and group need to be at least 1!";
+    return false;
+  }
+
+  if ((output_maps_ % group_) != 0) {
+    LOGERROR << "Output maps need to divide group count!";
+    return false;
+  }
+
   // Validate dimensions
   // The input maps have to be larger or at least as large as the kernel,
   // because we only do 'valid' convolutions.
-- 
2.43.0


From 82868d48152c17d0dfd0a59b17f11b99ec5ca553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:57 +0000
Subject: [PATCH 34/36] fix: refuse empty max-pooling regions and strides
 instead of dividing by zero

---
 src/net/AdvancedMaxPoolingLayer.cpp | 6 ++++++
 src/net/MaxPoolingLayer.cpp         | 3 ++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/net/AdvancedMaxPoolingLayer.cpp b/src/net/AdvancedMaxPoolingLayer.cpp
index 7977187..8ab0cf3 100644
--- a/src/net/AdvancedMaxPoolingLayer.cpp
+++ b/src/net/AdvancedMaxPoolingLayer.cpp
@@ -59,6 +59,12 @@ bool AdvancedMaxPoolingLayer::CreateOutputs (
     return false;
   }
 
+  // Regions and strides cannot be empty
+  if (region_width_ == 0 || region_height_ == 0 || stride_width_ == 0 || stride_height_ == 0) {
+    LOGERROR << "Regions and strides need to be at least 1!";
+    return false;
+  }
+
   // Check if at least one region fits
   if (region_width_ > input->data.width() || region_height_ > input->data.height()) {
     LOGERROR << "Pooling region is larger than the input!";
diff --git a/src/net/MaxPoolingLayer.cpp b/src/net/MaxPoolingLayer.cpp
index 997e6e4..1c9c9ae 100644
--- a/src/net/MaxPoolingLayer.cpp
+++ b/src/net/MaxPoolingLayer.cpp
@@ -52,7 +52,8 @@ bool MaxPoolingLayer::CreateOutputs (
   }
 
   // Validate dimensions
-  if ( (input->data.width() % region_width_) != 0 ||
+  if ( region_width_ == 0 || region_height_ == 0 ||
+       (input->data.width() % region_width_) != 0 ||
        (input->data.height() % region_height_) != 0) {
     LOGERROR << "Input dimensions not divisible by region dimensions!";
     return false;
-- 
2.43.0


From 83dd23cbb789d393182e5760c0f1024ed05294e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:57 +0000
Subject: [PATCH 35/36] fix: refuse empty down-sampling regions instead of
 dividing by zero

---
 src/net/InputDownSamplingLayer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/net/InputDownSamplingLayer.cpp b/src/net/InputDownSamplingLayer.cpp
index b2adf29..55f440b 100644
--- a/src/net/InputDownSamplingLayer.cpp
+++ b/src/net/InputDownSamplingLayer.cpp
@@ -39,7 +39,8 @@ bool InputDownSamplingLayer::CreateOutputs (
   }
 
   // Validate dimensions
-  if ( (input->data.width() % region_width_) != 0 ||
+  if ( region_width_ == 0 || region_height_ == 0 ||
+       (input->data.width() % region_width_) != 0 ||
        (input->data.height() % region_height_) != 0) {
     LOGERROR << "Input dimensions not divisible by region dimensions!";
     return false;
-- 
2.43.0


From 14ecdc9a4b624c8c32d3dce06586a62902ee114b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:57 +0000
Subject: [PATCH 36/36] fix: give layers without a size a kernel of one when
 computing the receptive field

---
 src/factory/ConfigurableFactory.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/factory/ConfigurableFactory.cpp b/src/factory/ConfigurableFactory.cpp
index 089101d..adeb0a5 100644
--- a/src/factory/ConfigurableFactory.cpp
+++ b/src/factory/ConfigurableFactory.cpp
@@ -82,7 +82,7 @@ ConfigurableFactory::ConfigurableFactory (std::istream& file, const unsigned int
       line = line.substr (1);
 
       if (StartsWithIdentifier (line, "convolutional")) {
-        unsigned int kx, ky, stridex = 1, stridey = 1, padx = 0, pady = 0;
+        unsigned int kx = 1, ky = 1, stridex = 1, stridey = 1, padx = 0, pady = 0;
         
         ParseKernelSizeIfPossible (line, "stride", stridex, stridey);
         ParseKernelSizeIfPossible (line, "pad", padx, pady);
@@ -100,7 +100,7 @@ ConfigurableFactory::ConfigurableFactory (std::istream& file, const unsigned int
       }
       
       if (StartsWithIdentifier (line, "maxpooling")) {
-        unsigned int kx, ky;
+        unsigned int kx = 1, ky = 1;
         ParseKernelSizeIfPossible (line, "size", kx, ky);
         LOGDEBUG << "Adding maxpooling layer to receptive field (" << kx << "," << ky << ")";
         factorx *= kx;
@@ -108,7 +108,7 @@ ConfigurableFactory::ConfigurableFactory (std::istream& file, const unsigned int
       }
 
       if (StartsWithIdentifier (line, "downsampling")) {
-        unsigned int kx, ky;
+        unsigned int kx = 1, ky = 1;
         ParseKernelSizeIfPossible (line, "size", kx, ky);
         LOGDEBUG << "Adding down-sampling layer to receptive field (" << kx << "," << ky << ")";
         factorx *= kx;
@@ -116,7 +116,7 @@ ConfigurableFactory::ConfigurableFactory (std::istream& file, const unsigned int
       }
       
       if (StartsWithIdentifier (line, "amaxpooling")) {
-        unsigned int kx, ky, sx, sy;
+        unsigned int kx = 1, ky = 1, sx, sy;
         ParseKernelSizeIfPossible (line, "size", kx, ky);
         sx = kx; sy = ky;
         ParseKernelSizeIfPossible (line, "stride", sx, sy);
-- 
2.43.0

