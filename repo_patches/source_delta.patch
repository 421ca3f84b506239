From dde00c6c16f9053e8a80b1281325a802ba9e0ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:18 +0000
Subject: [PATCH 01/38] fix: Tensor -= and *= with a scalar called functions
 that do not exist

---
 smart_dnn/Tensor/Tensor.impl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smart_dnn/Tensor/Tensor.impl.hpp b/smart_dnn/Tensor/Tensor.impl.hpp
index 81e4265..9900ba0 100644
--- a/smart_dnn/Tensor/Tensor.impl.hpp
+++ b/smart_dnn/Tensor/Tensor.impl.hpp
@@ -77,13 +77,13 @@ Tensor<T, DeviceType>& Tensor<T, DeviceType>::operator+=(T scalar) {
 
 TEMPLATE_TENSOR
 Tensor<T, DeviceType>& Tensor<T, DeviceType>::operator-=(T scalar) {
-    TensorOperations<T, DeviceType>::substractScalarInPlace(data_, scalar);
+    TensorOperations<T, DeviceType>::subtractScalarInPlace(data_, scalar);
     return *this;
 }
 
 TEMPLATE_TENSOR
 Tensor<T, DeviceType>& Tensor<T, DeviceType>::operator*=(T scalar) {
-    TensorOperations<T, DeviceType>::multipleScalarInPlace(data_, scalar);
+    TensorOperations<T, DeviceType>::multiplyScalarInPlace(data_, scalar);
     return *this;
 }
 
-- 
2.43.0


From ad713b8f34ca2b4d117011052f162c10caec05a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:18 +0000
Subject: [PATCH 02/38] fix: constructing a tensor from a list or vector checks
 the number of values, and the vector forms compile

---
 smart_dnn/Tensor/Tensor.hpp             |  2 +-
 smart_dnn/Tensor/Tensor.impl.hpp        |  2 +-
 smart_dnn/Tensor/TensorData.hpp         |  2 +-
 smart_dnn/Tensor/TensorDataCPU.impl.hpp | 19 +++++++++++++------
 4 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/smart_dnn/Tensor/Tensor.hpp b/smart_dnn/Tensor/Tensor.hpp
index e180378..4fc6dc6 100644
--- a/smart_dnn/Tensor/Tensor.hpp
+++ b/smart_dnn/Tensor/Tensor.hpp
@@ -22,7 +22,7 @@ public:
     Tensor(Tensor&& other) noexcept;
     Tensor(Shape dimensions, std::initializer_list<T> values);
     Tensor(Shape dimensions, const std::vector<T>& values);
-    Tensor(Shape dimensions, std::vector<T>&& values) noexcept;
+    Tensor(Shape dimensions, std::vector<T>&& values);
 
     ~Tensor() = default;
 
diff --git a/smart_dnn/Tensor/Tensor.impl.hpp b/smart_dnn/Tensor/Tensor.impl.hpp
index 9900ba0..0011c37 100644
--- a/smart_dnn/Tensor/Tensor.impl.hpp
+++ b/smart_dnn/Tensor/Tensor.impl.hpp
@@ -35,7 +35,7 @@ TEMPLATE_TENSOR
 Tensor<T, DeviceType>::Tensor(Shape dimensions, const std::vector<T>& values) : data_(dimensions, values) {}
 
 TEMPLATE_TENSOR
-Tensor<T, DeviceType>::Tensor(Shape dimensions, std::vector<T>&& values) noexcept : data_(dimensions, std::move(values)) {}
+Tensor<T, DeviceType>::Tensor(Shape dimensions, std::vector<T>&& values) : data_(dimensions, std::move(values)) {}
 
 TEMPLATE_TENSOR
 Tensor<T, DeviceType>& Tensor<T, DeviceType>::operator=(const Tensor<T, DeviceType>& other) {
diff --git a/smart_dnn/Tensor/TensorData.hpp b/smart_dnn/Tensor/TensorData.hpp
index 5c77331..8243be4 100644
--- a/smart_dnn/Tensor/TensorData.hpp
+++ b/smart_dnn/Tensor/TensorData.hpp
@@ -24,7 +24,7 @@ public:
     TensorData(const TensorData& other);
     TensorData(Shape dimensions, std::initializer_list<T> values);
     TensorData(Shape dimensions, const std::vector<T>& values);
-    TensorData(Shape dimensions, std::vector<T>&& values) noexcept;
+    TensorData(Shape dimensions, std::vector<T>&& values);
 
 
     TensorData(TensorData&&) noexcept = default;
diff --git a/smart_dnn/Tensor/TensorDataCPU.impl.hpp b/smart_dnn/Tensor/TensorDataCPU.impl.hpp
index a757e84..e6de999 100644
--- a/smart_dnn/Tensor/TensorDataCPU.impl.hpp
+++ b/smart_dnn/Tensor/TensorDataCPU.impl.hpp
@@ -38,20 +38,27 @@ TENSOR_DATA_CPU::TensorData(const TENSOR_DATA_CPU& other)
 TEMPLATE_TENSOR
 TENSOR_DATA_CPU::TensorData(Shape dimensions, std::initializer_list<T> values)
     : shape_(dimensions), data_(std::make_unique<T[]>(dimensions.size())) {
+    if (values.size() != shape_.size()) {
+        throw std::invalid_argument("Number of values must match the size of the shape.");
+    }
     std::copy(values.begin(), values.end(), data_.get());
 }
 
 TEMPLATE_TENSOR
-TENSOR_DATA_CPU::TensorData(Shape dimensions, const std::vector<T>& values){
-    shape_ = dimensions;
-    data_ = std::make_unique<T[]>(shape_.size());
+TENSOR_DATA_CPU::TensorData(Shape dimensions, const std::vector<T>& values)
+    : shape_(dimensions), data_(std::make_unique<T[]>(dimensions.size())) {
+    if (values.size() != shape_.size()) {
+        throw std::invalid_argument("Number of values must match the size of the shape.");
+    }
     std::copy(values.begin(), values.end(), data_.get());
 }
 
 TEMPLATE_TENSOR
-TENSOR_DATA_CPU::TensorData(Shape dimensions, std::vector<T>&& values) noexcept{
-    shape_ = dimensions;
-    data_ = std::make_unique<T[]>(shape_.size());
+TENSOR_DATA_CPU::TensorData(Shape dimensions, std::vector<T>&& values)
+    : shape_(dimensions), data_(std::make_unique<T[]>(dimensions.size())) {
+    if (values.size() != shape_.size()) {
+        throw std::invalid_argument("Number of values must match the size of the shape.");
+    }
     std::move(values.begin(), values.end(), data_.get());
 }
 
-- 
2.43.0


From 4a927187b3f5e0374aa41ba031c8c1fda9c175bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:51 +0000
Subject: [PATCH 03/38] fix: a shape whose element count overflows size_t is
 rejected instead of wrapping

---
 smart_dnn/Shape/Shape.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/smart_dnn/Shape/Shape.hpp b/smart_dnn/Shape/Shape.hpp
index c0b4f00..a0ef5ab 100644
--- a/smart_dnn/Shape/Shape.hpp
+++ b/smart_dnn/Shape/Shape.hpp
@@ -108,7 +108,14 @@ private:
     std::vector<size_t> _stride;
 
     size_t calculateSize() const {
-        return std::accumulate(_dimensions.begin(), _dimensions.end(), size_t(1), std::multiplies<size_t>());
+        size_t size = 1;
+        for (int dim : _dimensions) {
+            if (size > std::numeric_limits<size_t>::max() / static_cast<size_t>(dim)) {
+                throw std::overflow_error("Shape size exceeds maximum representable value");
+            }
+            size *= static_cast<size_t>(dim);
+        }
+        return size;
     }
 
     std::vector<size_t> calculateStride() const {
-- 
2.43.0


From 3dfc27ce7d869155ed4fd7b16a7e4c5d7108763d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:51 +0000
Subject: [PATCH 04/38] fix: summing a tensor over all of its axes threw
 instead of giving a scalar

---
 smart_dnn/Tensor/AdvancedTensorOperations.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/smart_dnn/Tensor/AdvancedTensorOperations.hpp b/smart_dnn/Tensor/AdvancedTensorOperations.hpp
index 24564c6..cc97f09 100644
--- a/smart_dnn/Tensor/AdvancedTensorOperations.hpp
+++ b/smart_dnn/Tensor/AdvancedTensorOperations.hpp
@@ -88,6 +88,10 @@ class AdvancedTensorOperations<T, CPUDevice> {
             }
         }
 
+        if (finalShape.empty()) {
+            finalShape.push_back(1); // every axis was summed: the result is a scalar
+        }
+
         result.reshape(Shape(finalShape));
 
         return result;
-- 
2.43.0


From bb0d8fb3eac6a40cba55d8f9d76ed53adb0f5937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:51 +0000
Subject: [PATCH 05/38] fix: transpose shared its index vectors between the
 threads of a parallel loop

---
 smart_dnn/Tensor/AdvancedTensorOperations.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smart_dnn/Tensor/AdvancedTensorOperations.hpp b/smart_dnn/Tensor/AdvancedTensorOperations.hpp
index cc97f09..d19784a 100644
--- a/smart_dnn/Tensor/AdvancedTensorOperations.hpp
+++ b/smart_dnn/Tensor/AdvancedTensorOperations.hpp
@@ -219,12 +219,12 @@ class AdvancedTensorOperations<T, CPUDevice> {
         std::swap(oldToNew[dim0], oldToNew[dim1]);
 
         // Iterate through all elements and place them in their new positions
-        std::vector<int> oldIndices(rank, 0);
-        std::vector<int> newIndices(rank, 0);
         size_t totalSize = shape.size();
 
         #pragma omp parallel for
         for (size_t i = 0; i < totalSize; ++i) {
+            std::vector<int> oldIndices(rank, 0);
+            std::vector<int> newIndices(rank, 0);
             // Calculate old indices
             size_t temp = i;
             for (int d = static_cast<int>(rank) - 1; d >= 0; --d) {
-- 
2.43.0


From 3041a48745b3a4d29a27c31b59cdfd11892d726c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:51 +0000
Subject: [PATCH 06/38] fix: createRandom used the shared random engine from
 the threads of a parallel loop

---
 smart_dnn/Tensor/TensorOperations.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smart_dnn/Tensor/TensorOperations.hpp b/smart_dnn/Tensor/TensorOperations.hpp
index 4f7f206..ed6c2b7 100644
--- a/smart_dnn/Tensor/TensorOperations.hpp
+++ b/smart_dnn/Tensor/TensorOperations.hpp
@@ -302,7 +302,7 @@ public:
     static TensorData<T, CPUDevice> createRandom(const Shape& shape, T min, T max){
         TensorData<T, CPUDevice> result(shape);
         
-        #pragma omp parallel for
+        // Sequential: the random engine is shared and not thread-safe
         for (size_t i = 0; i < result.size(); ++i) {
             result[i] = RandomEngine::getHeRandRange(shape.size(), min, max);
         }
-- 
2.43.0


From 889835ed813f6a3cfbf1142ea8a444ee4d8ceb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:51 +0000
Subject: [PATCH 07/38] fix: Tensor::slice copied the wrong elements for any
 dimension but the first and checked no bounds

---
 smart_dnn/Tensor/Tensor.impl.hpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/smart_dnn/Tensor/Tensor.impl.hpp b/smart_dnn/Tensor/Tensor.impl.hpp
index 0011c37..2545c81 100644
--- a/smart_dnn/Tensor/Tensor.impl.hpp
+++ b/smart_dnn/Tensor/Tensor.impl.hpp
@@ -290,11 +290,25 @@ Tensor<T, DeviceType> Tensor<T, DeviceType>::slice(int dim, int index) const {
     std::vector<int> shape = newShape.getDimensions();
     const std::vector<size_t> strides = this->data_.stride();
 
-    int offset = index * strides[dim];
+    if (dim < 0 || dim >= static_cast<int>(shape.size()) || index < 0 || index >= shape[dim]) {
+        throw std::out_of_range("Invalid dimension or index for slice");
+    }
+
+    size_t inner = strides[dim];
+    size_t outer = newShape.size() / (inner * shape[dim]);
+    size_t outerStride = inner * shape[dim];
 
     shape.erase(shape.begin() + dim);
+    if (shape.empty()) {
+        shape.push_back(1);
+    }
 
-    TensorData<T, DeviceType> slicedData(Shape(shape), this->data_.data() + offset);
+    TensorData<T, DeviceType> slicedData{Shape(shape)};
+    for (size_t o = 0; o < outer; ++o) {
+        for (size_t i = 0; i < inner; ++i) {
+            slicedData[o * inner + i] = this->data_[o * outerStride + index * inner + i];
+        }
+    }
 
     return Tensor<T, DeviceType>(std::move(slicedData));
 }
-- 
2.43.0


From 8c0ee5bc052da88e82e3ce6533c330842f746ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:51 +0000
Subject: [PATCH 08/38] fix: SliceView ignored the end of each slice

---
 smart_dnn/Tensor/SliceView.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/smart_dnn/Tensor/SliceView.hpp b/smart_dnn/Tensor/SliceView.hpp
index 555ee6b..d4d5b8b 100644
--- a/smart_dnn/Tensor/SliceView.hpp
+++ b/smart_dnn/Tensor/SliceView.hpp
@@ -16,12 +16,13 @@ private:
     const TensorData<T, DeviceType>& original_;
     std::optional<Shape> sliced_shape_;
     std::vector<int> start_indices_;
+    std::vector<int> end_indices_;
     std::vector<int> step_sizes_;
 
     void calculateSlicedShape() {
         std::vector<int> new_dims;
         for (size_t i = 0; i < original_.shape().rank(); ++i) {
-            int dim_size = (original_.shape()[i] - start_indices_[i] + step_sizes_[i] - 1) / step_sizes_[i];
+            int dim_size = (end_indices_[i] - start_indices_[i] + step_sizes_[i] - 1) / step_sizes_[i];
             new_dims.push_back(dim_size);
         }
         sliced_shape_ = Shape(new_dims);
@@ -60,6 +61,7 @@ public:
             end = std::max(start, std::min(end, tensor.shape()[i]));
 
             start_indices_.push_back(start);
+            end_indices_.push_back(end);
         }
 
         calculateSlicedShape();
-- 
2.43.0


From c4d457488f969ae35bbc985931f130924f31b03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:51 +0000
Subject: [PATCH 09/38] fix: Tanh gave NaN for large inputs

---
 smart_dnn/Activations/Tanh.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smart_dnn/Activations/Tanh.hpp b/smart_dnn/Activations/Tanh.hpp
index 531f70c..5ce1bbb 100644
--- a/smart_dnn/Activations/Tanh.hpp
+++ b/smart_dnn/Activations/Tanh.hpp
@@ -20,7 +20,7 @@ template <typename T>
 class Tanh : public Activation<T> {
 public:
     Tensor<T> forward(const Tensor<T>& input) const override {
-        return AdvancedTensorOperations<T>::apply(input, [](T x) { return (std::exp(x * T(2)) - T(1)) / (std::exp(x * T(2)) + T(1)); });
+        return AdvancedTensorOperations<T>::apply(input, [](T x) { return std::tanh(x); });
     }
 
     Tensor<T> backward(const Tensor<T>& input, const Tensor<T>& gradOutput) const override {
-- 
2.43.0


From ceab5a36f07988b433310b5f2bee31833cf3e3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:39 +0000
Subject: [PATCH 10/38] fix: SliceView divided by a zero step and accepted
 negative ones

---
 smart_dnn/Tensor/SliceView.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/smart_dnn/Tensor/SliceView.hpp b/smart_dnn/Tensor/SliceView.hpp
index d4d5b8b..ae6bed6 100644
--- a/smart_dnn/Tensor/SliceView.hpp
+++ b/smart_dnn/Tensor/SliceView.hpp
@@ -53,6 +53,10 @@ public:
             int start = slices[i].first;
             int end = slices[i].second;
 
+            if (steps[i] <= 0) {
+                throw std::invalid_argument("Slice steps must be positive");
+            }
+
             if (start < 0) start += tensor.shape()[i];
             if (end < 0) end += tensor.shape()[i];
             if (end > tensor.shape()[i]) end = tensor.shape()[i];
-- 
2.43.0


From 6cdcdea50e4286d802ebaba754f4ecc7f9721519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:39 +0000
Subject: [PATCH 11/38] fix: Conv2D forward ignored stride, padding, dilation
 and every input channel but the first

---
 smart_dnn/Layers/Conv2DLayer.hpp | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/smart_dnn/Layers/Conv2DLayer.hpp b/smart_dnn/Layers/Conv2DLayer.hpp
index 7ffb815..2f01198 100644
--- a/smart_dnn/Layers/Conv2DLayer.hpp
+++ b/smart_dnn/Layers/Conv2DLayer.hpp
@@ -43,8 +43,13 @@ public:
         int inputHeight = input.getShape()[2];
         int inputWidth = input.getShape()[3];
         
-        int outputHeight = inputHeight - kernelHeight + 1;
-        int outputWidth = inputWidth - kernelWidth + 1;
+        int spanHeight = inputHeight + 2 * padding - dilation * (kernelHeight - 1) - 1;
+        int spanWidth = inputWidth + 2 * padding - dilation * (kernelWidth - 1) - 1;
+        if (spanHeight < 0 || spanWidth < 0) {
+            throw std::invalid_argument("Kernel does not fit in the padded input");
+        }
+        int outputHeight = spanHeight / stride + 1;
+        int outputWidth = spanWidth / stride + 1;
 
         TensorType output({batchSize, outputChannels, outputHeight, outputWidth});
 
@@ -57,12 +62,15 @@ public:
                 for (int oh = 0; oh < outputHeight; ++oh) {
                     for (int ow = 0; ow < outputWidth; ++ow) {
                         float sum = 0.0f;
-                        for (int kh = 0; kh < kernelHeight; ++kh) {
-                            for (int kw = 0; kw < kernelWidth; ++kw) {
-                                int ih = oh + kh;
-                                int iw = ow + kw;
-                                sum += inputData.at({b, 0, ih, iw}) * 
-                                    weightData.at({oc, 0, kh, kw});
+                        for (int ic = 0; ic < inputChannels; ++ic) {
+                            for (int kh = 0; kh < kernelHeight; ++kh) {
+                                for (int kw = 0; kw < kernelWidth; ++kw) {
+                                    int ih = oh * stride + kh * dilation - padding;
+                                    int iw = ow * stride + kw * dilation - padding;
+                                    if (ih < 0 || ih >= inputHeight || iw < 0 || iw >= inputWidth) continue;
+                                    sum += inputData.at({b, ic, ih, iw}) * 
+                                        weightData.at({oc, ic, kh, kw});
+                                }
                             }
                         }
                         sum += biasData.at({oc, 0});
-- 
2.43.0


From c7d2b36dab94ae3d708ced10413a9fef7782e8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:39 +0000
Subject: [PATCH 12/38] fix: Conv2D backward only handled the first sample and
 the first input and output channel

---
 smart_dnn/Layers/Conv2DLayer.hpp | 54 ++++++++++++++++++++++----------
 1 file changed, 37 insertions(+), 17 deletions(-)

diff --git a/smart_dnn/Layers/Conv2DLayer.hpp b/smart_dnn/Layers/Conv2DLayer.hpp
index 2f01198..c20c704 100644
--- a/smart_dnn/Layers/Conv2DLayer.hpp
+++ b/smart_dnn/Layers/Conv2DLayer.hpp
@@ -106,34 +106,54 @@ public:
         this->biasGradients = TensorType::zeros((*biases).getShape());
 
         // Compute bias gradients
-        for (int oh = 0; oh < gradOutputShape[2]; ++oh) {
-            for (int ow = 0; ow < gradOutputShape[3]; ++ow) {
-                biasGradients->getData()[0] += gradOutput.at({0, 0, oh, ow});
+        for (int b = 0; b < gradOutputShape[0]; ++b) {
+            for (int oc = 0; oc < outputChannels; ++oc) {
+                for (int oh = 0; oh < gradOutputShape[2]; ++oh) {
+                    for (int ow = 0; ow < gradOutputShape[3]; ++ow) {
+                        biasGradients->getData()[oc] += gradOutput.at({b, oc, oh, ow});
+                    }
+                }
             }
         }
 
         // Compute weight gradients
-        for (int kh = 0; kh < kernelHeight; ++kh) {
-            for (int kw = 0; kw < kernelWidth; ++kw) {
-                float sum = 0.0f;
-                for (int oh = 0; oh < gradOutputShape[2]; ++oh) {
-                    for (int ow = 0; ow < gradOutputShape[3]; ++ow) {
-                        sum += inputTensor.at({0, 0, oh+kh, ow+kw}) * gradOutput.at({0, 0, oh, ow});
+        for (int oc = 0; oc < outputChannels; ++oc) {
+            for (int ic = 0; ic < inputChannels; ++ic) {
+                for (int kh = 0; kh < kernelHeight; ++kh) {
+                    for (int kw = 0; kw < kernelWidth; ++kw) {
+                        float sum = 0.0f;
+                        for (int b = 0; b < gradOutputShape[0]; ++b) {
+                            for (int oh = 0; oh < gradOutputShape[2]; ++oh) {
+                                for (int ow = 0; ow < gradOutputShape[3]; ++ow) {
+                                    int ih = oh * stride + kh * dilation - padding;
+                                    int iw = ow * stride + kw * dilation - padding;
+                                    if (ih < 0 || ih >= inputShape[2] || iw < 0 || iw >= inputShape[3]) continue;
+                                    sum += inputTensor.at({b, ic, ih, iw}) * gradOutput.at({b, oc, oh, ow});
+                                }
+                            }
+                        }
+                        weightGradients->at({oc, ic, kh, kw}) = sum;
                     }
                 }
-                weightGradients->at({0, 0, kh, kw}) = sum;
             }
         }
 
         // Compute input gradients
         TensorType gradInput(inputShape, 0.0f);
-        for (int oh = 0; oh < gradOutputShape[2]; ++oh) {
-            for (int ow = 0; ow < gradOutputShape[3]; ++ow) {
-                for (int kh = 0; kh < kernelHeight; ++kh) {
-                    for (int kw = 0; kw < kernelWidth; ++kw) {
-                        int ih = oh + kh;
-                        int iw = ow + kw;
-                        gradInput.at({0, 0, ih, iw}) += weightsTensor.at({0, 0, kh, kw}) * gradOutput.at({0, 0, oh, ow});
+        for (int b = 0; b < gradOutputShape[0]; ++b) {
+            for (int oc = 0; oc < outputChannels; ++oc) {
+                for (int ic = 0; ic < inputChannels; ++ic) {
+                    for (int oh = 0; oh < gradOutputShape[2]; ++oh) {
+                        for (int ow = 0; ow < gradOutputShape[3]; ++ow) {
+                            for (int kh = 0; kh < kernelHeight; ++kh) {
+                                for (int kw = 0; kw < kernelWidth; ++kw) {
+                                    int ih = oh * stride + kh * dilation - padding;
+                                    int iw = ow * stride + kw * dilation - padding;
+                                    if (ih < 0 || ih >= inputShape[2] || iw < 0 || iw >= inputShape[3]) continue;
+                                    gradInput.at({b, ic, ih, iw}) += weightsTensor.at({oc, ic, kh, kw}) * gradOutput.at({b, oc, oh, ow});
+                                }
+                            }
+                        }
                     }
                 }
             }
-- 
2.43.0


From 24a5efe77e5781f69d1e13f59646c352223742ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:39 +0000
Subject: [PATCH 13/38] fix: MaxPooling2D with padding computed the unpadded
 size and indexed outside the input

---
 smart_dnn/Regularisation/MaxPooling2DLayer.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/smart_dnn/Regularisation/MaxPooling2DLayer.hpp b/smart_dnn/Regularisation/MaxPooling2DLayer.hpp
index 63219cc..d4c63e3 100644
--- a/smart_dnn/Regularisation/MaxPooling2DLayer.hpp
+++ b/smart_dnn/Regularisation/MaxPooling2DLayer.hpp
@@ -28,9 +28,13 @@ public:
         int inputHeight = input.getShape()[2];
         int inputWidth = input.getShape()[3];
 
+        if (inputHeight + 2 * padding < poolSize || inputWidth + 2 * padding < poolSize) {
+            throw std::invalid_argument("MaxPooling2DLayer: pool window does not fit in the padded input");
+        }
+
         // Calculate output dimensions based on stride and pooling size
-        int outputHeight = (inputHeight - poolSize) / stride + 1;
-        int outputWidth = (inputWidth - poolSize) / stride + 1;
+        int outputHeight = (inputHeight + 2 * padding - poolSize) / stride + 1;
+        int outputWidth = (inputWidth + 2 * padding - poolSize) / stride + 1;
 
         // Output shape retains the number of channels
         TensorType output({batchSize, inputChannels, outputHeight, outputWidth});
@@ -88,10 +92,12 @@ private:
 
         for (int ph = 0; ph < poolSize; ++ph) {
             int ih = ihStart + ph;
+            if (ih < 0) continue;
             if (ih >= tensor.getShape()[2]) break; 
 
             for (int pw = 0; pw < poolSize; ++pw) {
                 int iw = iwStart + pw;
+                if (iw < 0) continue;
                 if (iw >= tensor.getShape()[3]) break;
 
                 T val = tensor.at({n, ic, ih, iw});
-- 
2.43.0


From 8543359c36f0ac9a6f542ad45008a51f8e5a4a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:39 +0000
Subject: [PATCH 14/38] fix: Flatten did not remember the shape of a rank-2
 input, so backward used a stale or missing shape

---
 smart_dnn/Layers/FlattenLayer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smart_dnn/Layers/FlattenLayer.hpp b/smart_dnn/Layers/FlattenLayer.hpp
index 20e4de1..799662f 100644
--- a/smart_dnn/Layers/FlattenLayer.hpp
+++ b/smart_dnn/Layers/FlattenLayer.hpp
@@ -27,11 +27,11 @@ public:
             throw std::invalid_argument("Input tensor must have at least 2 dimensions");
         }
 
+        this->originalShape = input.getShape();
         if (input.getShape().rank() == 2) {
             return input;
         }
 
-        this->originalShape = input.getShape();
         int batchSize = (*originalShape)[0];
         int flattenedSize = (*originalShape).size() / batchSize;
         
-- 
2.43.0


From 77c18761237e54832ee15c950e8012ae8f347b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:39 +0000
Subject: [PATCH 15/38] fix: backward before forward dereferenced an empty
 optional in the Flatten and Activation layers

---
 smart_dnn/Layers/ActivationLayer.hpp | 3 +++
 smart_dnn/Layers/FlattenLayer.hpp    | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/smart_dnn/Layers/ActivationLayer.hpp b/smart_dnn/Layers/ActivationLayer.hpp
index 665c0da..7cb3750 100644
--- a/smart_dnn/Layers/ActivationLayer.hpp
+++ b/smart_dnn/Layers/ActivationLayer.hpp
@@ -22,6 +22,9 @@ public:
     }
 
     TensorType backward(const TensorType& gradOutput) override {
+        if (!input) {
+            throw std::runtime_error("ActivationLayer: forward must be called before backward");
+        }
         return activation->backward((*input), gradOutput);
     }
 
diff --git a/smart_dnn/Layers/FlattenLayer.hpp b/smart_dnn/Layers/FlattenLayer.hpp
index 799662f..59173a6 100644
--- a/smart_dnn/Layers/FlattenLayer.hpp
+++ b/smart_dnn/Layers/FlattenLayer.hpp
@@ -48,6 +48,9 @@ public:
     
     */
     TensorType backward(const TensorType& gradOutput) override {
+        if (!originalShape) {
+            throw std::runtime_error("FlattenLayer: forward must be called before backward");
+        }
         return AdvancedTensorOperations<T>::reshape(gradOutput, (*originalShape));
     }
 
-- 
2.43.0


From e29175de43c6c9e1bdd2f9d5d5f44d5cb05034f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:39 +0000
Subject: [PATCH 16/38] fix: Dropout backward dereferenced a missing mask, also
 in inference mode

---
 smart_dnn/Regularisation/DropoutLayer.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/smart_dnn/Regularisation/DropoutLayer.hpp b/smart_dnn/Regularisation/DropoutLayer.hpp
index 584645a..1847a4d 100644
--- a/smart_dnn/Regularisation/DropoutLayer.hpp
+++ b/smart_dnn/Regularisation/DropoutLayer.hpp
@@ -23,13 +23,13 @@ public:
     }
 
     TensorType backward(const TensorType& gradOutput) override {
-        if (gradOutput.getShape() != (*mask).getShape()) {
-            throw std::invalid_argument("Mask not initialised or has wrong shape in Dropout Layer.");
+        if (!this->trainingMode) {
+            return gradOutput;
         }
-        if (this->trainingMode) {
-            return gradOutput * (*mask);
+        if (!mask || gradOutput.getShape() != (*mask).getShape()) {
+            throw std::invalid_argument("Mask not initialised or has wrong shape in Dropout Layer.");
         }
-        return gradOutput;
+        return gradOutput * (*mask);
     }
 
 private:
-- 
2.43.0


From 5823aea58f6e60bd260491c6a9b35fb22e460ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:39 +0000
Subject: [PATCH 17/38] fix: Dropout backward did not apply the 1/(1-rate)
 scale of its forward pass

---
 smart_dnn/Regularisation/DropoutLayer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smart_dnn/Regularisation/DropoutLayer.hpp b/smart_dnn/Regularisation/DropoutLayer.hpp
index 1847a4d..cdbe593 100644
--- a/smart_dnn/Regularisation/DropoutLayer.hpp
+++ b/smart_dnn/Regularisation/DropoutLayer.hpp
@@ -29,7 +29,7 @@ public:
         if (!mask || gradOutput.getShape() != (*mask).getShape()) {
             throw std::invalid_argument("Mask not initialised or has wrong shape in Dropout Layer.");
         }
-        return gradOutput * (*mask);
+        return gradOutput * (*mask) * (T(1) / (T(1) - dropoutRate));
     }
 
 private:
-- 
2.43.0


From 2f77ab30b4189454893f4b6466f6effda0d2bbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:39 +0000
Subject: [PATCH 18/38] fix: Dropout drew its mask from a clamped normal
 distribution, so the drop rate was not the requested one

---
 smart_dnn/Regularisation/DropoutLayer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smart_dnn/Regularisation/DropoutLayer.hpp b/smart_dnn/Regularisation/DropoutLayer.hpp
index cdbe593..bf7a98e 100644
--- a/smart_dnn/Regularisation/DropoutLayer.hpp
+++ b/smart_dnn/Regularisation/DropoutLayer.hpp
@@ -14,8 +14,8 @@ public:
 
     TensorType forward(const TensorType& input) override {
         if (this->trainingMode) {
-            mask = TensorType::rand(input.getShape());
-            mask = (*mask).apply([this](T x) { return x > dropoutRate ? T(1) : T(0); });
+            mask = TensorType::zeros(input.getShape());
+            (*mask).apply([this](T) { return T(RandomEngine::getRand()) >= dropoutRate ? T(1) : T(0); });
             return input * (*mask) * (T(1) / (T(1) - dropoutRate));
         } else {
             return input; // No dropout during inference
-- 
2.43.0


From 95bf5de68d5e1e24235e61a5ff6e28109f4ffc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:56 +0000
Subject: [PATCH 19/38] fix: MaxPooling2D sent the gradient of a window of -inf
 values to a cell outside the window

---
 smart_dnn/Regularisation/MaxPooling2DLayer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smart_dnn/Regularisation/MaxPooling2DLayer.hpp b/smart_dnn/Regularisation/MaxPooling2DLayer.hpp
index d4c63e3..36db0bd 100644
--- a/smart_dnn/Regularisation/MaxPooling2DLayer.hpp
+++ b/smart_dnn/Regularisation/MaxPooling2DLayer.hpp
@@ -86,9 +86,9 @@ private:
 
     std::tuple<T, int, int> findMaxInPoolWindow(const TensorType& tensor, int n, int ic, int oh, int ow) {
         T maxVal = -std::numeric_limits<T>::infinity();
-        int maxIh = 0, maxIw = 0;
         int ihStart = oh * stride - padding;
         int iwStart = ow * stride - padding;
+        int maxIh = std::max(ihStart, 0), maxIw = std::max(iwStart, 0);
 
         for (int ph = 0; ph < poolSize; ++ph) {
             int ih = ihStart + ph;
-- 
2.43.0


From f2a08201e9ec4bdeca491ad1ac0e452a97a8d921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:56 +0000
Subject: [PATCH 20/38] fix: BatchNormalization backward read past the end of a
 rank-1 shape

---
 smart_dnn/Regularisation/BatchNormalizationLayer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smart_dnn/Regularisation/BatchNormalizationLayer.hpp b/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
index 0fdd581..eb142d0 100644
--- a/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
+++ b/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
@@ -123,7 +123,7 @@ private:
 
     TensorType reshapeForBroadcast(const TensorType& tensor, const Shape& targetShape) {
         std::vector<int> newShape(targetShape.rank(), 1);
-        newShape[1] = tensor.getShape()[1];  // Preserve the channel dimension
+        newShape[1] = tensor.getShape().size();  // Preserve the channel dimension
         
         // For 2D input, we need to keep the first dimension as 1 to allow broadcasting
         if (targetShape.rank() == 2) {
-- 
2.43.0


From 3ddbcc9a5930128e0cc09acf62d853c4a4015535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:56 +0000
Subject: [PATCH 21/38] fix: BatchNormalization running statistics broadcast to
 a wrong shape for rank-4 inputs

---
 smart_dnn/Regularisation/BatchNormalizationLayer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smart_dnn/Regularisation/BatchNormalizationLayer.hpp b/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
index eb142d0..caac4f6 100644
--- a/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
+++ b/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
@@ -40,8 +40,8 @@ public:
             normalizedInput = (input - reshapedMean) / (reshapedVariance + epsilon).sqrt();
             TensorType output = (*normalizedInput * reshapedGamma) + reshapedBeta;
 
-            runningMean = (momentum * runningMean) + ((1 - momentum) * (*batchMean));
-            runningVariance = (momentum * runningVariance) + ((1 - momentum) * (*batchVariance));
+            runningMean = (momentum * runningMean) + ((1 - momentum) * AdvancedTensorOperations<T>::reshape(*batchMean, runningMean.getShape()));
+            runningVariance = (momentum * runningVariance) + ((1 - momentum) * AdvancedTensorOperations<T>::reshape(*batchVariance, runningVariance.getShape()));
 
             return output;
         } else {
-- 
2.43.0


From 90b0f8b520a8dba158c9812860a7a625c13ce19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:56 +0000
Subject: [PATCH 22/38] fix: BatchNormalization backward was not the derivative
 of its forward pass

---
 smart_dnn/Regularisation/BatchNormalizationLayer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smart_dnn/Regularisation/BatchNormalizationLayer.hpp b/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
index caac4f6..5316420 100644
--- a/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
+++ b/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
@@ -62,7 +62,7 @@ public:
 
         const auto& inputShape = gradOutput.getShape();
         
-        int batchSize = inputShape[0];
+        int batchSize = inputShape.size() / inputShape[1]; // elements per feature
         std::vector<size_t> reductionAxes = (inputShape.rank() == 4) ? std::vector<size_t>{0, 2, 3} : std::vector<size_t>{0};
 
         TensorType reshapedGamma = reshapeForBroadcast(gamma, inputShape);
@@ -78,7 +78,7 @@ public:
         
         TensorType dVariance = AdvancedTensorOperations<T>::sum(dNormalized * (*normalizedInput), reductionAxes);
         dVariance = reshapeForBroadcast(dVariance, invStdDev.getShape());
-        dVariance = dVariance * T(-0.5) * invStdDev * invStdDev * invStdDev;
+        dVariance = dVariance * T(-0.5) * invStdDev;
         dVariance = reshapeForBroadcast(dVariance, inputShape);
         
         TensorType dMean = AdvancedTensorOperations<T>::sum(dNormalized * invStdDev * T(-1), reductionAxes);
-- 
2.43.0


From 462d8426bb0fee86b1c9eb8d8a847f59cd0bb24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:56 +0000
Subject: [PATCH 23/38] fix: Adam applied the bias correction twice

---
 smart_dnn/Optimizers/AdamOptimizer.hpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/smart_dnn/Optimizers/AdamOptimizer.hpp b/smart_dnn/Optimizers/AdamOptimizer.hpp
index 0d43303..250360b 100644
--- a/smart_dnn/Optimizers/AdamOptimizer.hpp
+++ b/smart_dnn/Optimizers/AdamOptimizer.hpp
@@ -76,10 +76,6 @@ private:
         size_t key = reinterpret_cast<size_t>(&weight);
         initializeMomentEstimates(key, weight.getShape());
 
-        T beta1Power = std::max(T(std::pow(beta1, iterations)), std::numeric_limits<T>::min());
-        T beta2Power = std::max(T(std::pow(beta2, iterations)), std::numeric_limits<T>::min());
-        T alphaT = learningRate * std::sqrt(T(1) - beta2Power) / (T(1) - beta1Power);
-
         size_t size = weight.getShape().size();
         T* weightData = weight.getData().data();
         const T* gradientData = gradient.getData().data();
@@ -88,7 +84,7 @@ private:
 
         #pragma omp parallel for if(size > 1000)
         for (size_t j = 0; j < size; ++j) {
-            updateParameter(weightData[j], gradientData[j], mData[j], vData[j], alphaT);
+            updateParameter(weightData[j], gradientData[j], mData[j], vData[j]);
         }
     }
 
@@ -99,7 +95,7 @@ private:
         }
     }
 
-    void updateParameter(T& weight, const T& gradient, T& mValue, T& vValue, T alphaT) {
+    void updateParameter(T& weight, const T& gradient, T& mValue, T& vValue) {
         // Average the gradient over the batch
         T averagedGradient = gradient / static_cast<T>(batchSize);
 
@@ -112,7 +108,7 @@ private:
         // Compute update
         T mHat = mValue / (T(1) - std::pow(beta1, iterations));
         T vHat = vValue / (T(1) - std::pow(beta2, iterations));
-        T update = alphaT * mHat / (std::sqrt(vHat) + epsilon);
+        T update = learningRate * mHat / (std::sqrt(vHat) + epsilon);
 
         // Apply L1 and L2 regularization
         if (l1Strength > T(0)) {
-- 
2.43.0


From d2ce5b6451f7462f74002031334f718542524901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:56 +0000
Subject: [PATCH 24/38] fix: Adam bias correction counted optimize() calls for
 all tensors instead of the updates of each tensor

---
 smart_dnn/Optimizers/AdamOptimizer.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/smart_dnn/Optimizers/AdamOptimizer.hpp b/smart_dnn/Optimizers/AdamOptimizer.hpp
index 250360b..6e2cef2 100644
--- a/smart_dnn/Optimizers/AdamOptimizer.hpp
+++ b/smart_dnn/Optimizers/AdamOptimizer.hpp
@@ -62,6 +62,7 @@ private:
     int batchSize;
     std::unordered_map<size_t, Tensor<T>> m; // First moment estimate 
     std::unordered_map<size_t, Tensor<T>> v; // Second moment estimate
+    std::unordered_map<size_t, int> steps;   // Updates applied to each tensor
 
     void updateLearningRate(T learningRateOverride) {
         iterations++;
@@ -76,6 +77,8 @@ private:
         size_t key = reinterpret_cast<size_t>(&weight);
         initializeMomentEstimates(key, weight.getShape());
 
+        int step = ++steps[key];
+
         size_t size = weight.getShape().size();
         T* weightData = weight.getData().data();
         const T* gradientData = gradient.getData().data();
@@ -84,7 +87,7 @@ private:
 
         #pragma omp parallel for if(size > 1000)
         for (size_t j = 0; j < size; ++j) {
-            updateParameter(weightData[j], gradientData[j], mData[j], vData[j]);
+            updateParameter(weightData[j], gradientData[j], mData[j], vData[j], step);
         }
     }
 
@@ -95,7 +98,7 @@ private:
         }
     }
 
-    void updateParameter(T& weight, const T& gradient, T& mValue, T& vValue) {
+    void updateParameter(T& weight, const T& gradient, T& mValue, T& vValue, int step) {
         // Average the gradient over the batch
         T averagedGradient = gradient / static_cast<T>(batchSize);
 
@@ -106,8 +109,8 @@ private:
         vValue = beta2 * vValue + (T(1) - beta2) * averagedGradient * averagedGradient;
 
         // Compute update
-        T mHat = mValue / (T(1) - std::pow(beta1, iterations));
-        T vHat = vValue / (T(1) - std::pow(beta2, iterations));
+        T mHat = mValue / (T(1) - std::pow(beta1, step));
+        T vHat = vValue / (T(1) - std::pow(beta2, step));
         T update = learningRate * mHat / (std::sqrt(vHat) + epsilon);
 
         // Apply L1 and L2 regularization
-- 
2.43.0


From 89e123ae9448e7f84b4ce2a0ce99b058b76dda96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:56 +0000
Subject: [PATCH 25/38] fix: optimizers used state of another shape, out of
 bounds, for a tensor at a reused address

---
 smart_dnn/Optimizers/AdamOptimizer.hpp    | 8 +++++---
 smart_dnn/Optimizers/RMSPropOptimizer.hpp | 6 +++---
 smart_dnn/Optimizers/SGDOptimizer.hpp     | 2 +-
 3 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/smart_dnn/Optimizers/AdamOptimizer.hpp b/smart_dnn/Optimizers/AdamOptimizer.hpp
index 6e2cef2..7745ecb 100644
--- a/smart_dnn/Optimizers/AdamOptimizer.hpp
+++ b/smart_dnn/Optimizers/AdamOptimizer.hpp
@@ -92,9 +92,11 @@ private:
     }
 
     void initializeMomentEstimates(size_t key, const Shape& shape) {
-        if (m.find(key) == m.end()) {
-            m.emplace(key, Tensor<T>(shape, T(0)));
-            v.emplace(key, Tensor<T>(shape, T(0)));
+        auto it = m.find(key);
+        if (it == m.end() || it->second.getShape() != shape) { // new tensor, or another one at a reused address
+            m.insert_or_assign(key, Tensor<T>(shape, T(0)));
+            v.insert_or_assign(key, Tensor<T>(shape, T(0)));
+            steps[key] = 0;
         }
     }
 
diff --git a/smart_dnn/Optimizers/RMSPropOptimizer.hpp b/smart_dnn/Optimizers/RMSPropOptimizer.hpp
index a4c0397..e167137 100644
--- a/smart_dnn/Optimizers/RMSPropOptimizer.hpp
+++ b/smart_dnn/Optimizers/RMSPropOptimizer.hpp
@@ -54,7 +54,7 @@ private:
         auto weightsPtr = reinterpret_cast<uintptr_t>(weightData);
         
         // Get or create squared gradients buffer
-        if (squaredGrads.find(weightsPtr) == squaredGrads.end()) {
+        if (squaredGrads.find(weightsPtr) == squaredGrads.end() || squaredGrads[weightsPtr]->getShape() != weight.getShape()) {
             squaredGrads[weightsPtr] = std::make_shared<Tensor<T>>(weight.getShape(), T(0));
         }
         auto& sqGrads = *squaredGrads[weightsPtr];
@@ -64,7 +64,7 @@ private:
         std::shared_ptr<Tensor<T>> meanGradsPtr = nullptr;
         T* meanGradsData = nullptr;
         if (centered) {
-            if (meanGrads.find(weightsPtr) == meanGrads.end()) {
+            if (meanGrads.find(weightsPtr) == meanGrads.end() || meanGrads[weightsPtr]->getShape() != weight.getShape()) {
                 meanGrads[weightsPtr] = std::make_shared<Tensor<T>>(weight.getShape(), T(0));
             }
             meanGradsPtr = meanGrads[weightsPtr];
@@ -75,7 +75,7 @@ private:
         std::shared_ptr<Tensor<T>> velocityPtr = nullptr;
         T* velocityData = nullptr;
         if (momentum > T(0)) {
-            if (velocityBuffers.find(weightsPtr) == velocityBuffers.end()) {
+            if (velocityBuffers.find(weightsPtr) == velocityBuffers.end() || velocityBuffers[weightsPtr]->getShape() != weight.getShape()) {
                 velocityBuffers[weightsPtr] = std::make_shared<Tensor<T>>(weight.getShape(), T(0));
             }
             velocityPtr = velocityBuffers[weightsPtr];
diff --git a/smart_dnn/Optimizers/SGDOptimizer.hpp b/smart_dnn/Optimizers/SGDOptimizer.hpp
index 79a6006..a6c906a 100644
--- a/smart_dnn/Optimizers/SGDOptimizer.hpp
+++ b/smart_dnn/Optimizers/SGDOptimizer.hpp
@@ -54,7 +54,7 @@ private:
         auto weightsPtr = reinterpret_cast<uintptr_t>(weightData);
         
         // Check if momentum buffer exists, create if it doesn't
-        if (momentumBuffers.find(weightsPtr) == momentumBuffers.end()) {
+        if (momentumBuffers.find(weightsPtr) == momentumBuffers.end() || momentumBuffers[weightsPtr]->getShape() != weight.getShape()) {
             momentumBuffers[weightsPtr] = std::make_shared<Tensor<T>>(weight.getShape(), T(0));
         }
         
-- 
2.43.0


From 7d486849d0a1bacf1c96a64ecd1605882c590f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:56 +0000
Subject: [PATCH 26/38] fix: optimizers read past the end of a gradient smaller
 than its weight tensor

---
 smart_dnn/Optimizers/AdamOptimizer.hpp    | 3 +++
 smart_dnn/Optimizers/RMSPropOptimizer.hpp | 3 +++
 smart_dnn/Optimizers/SGDOptimizer.hpp     | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/smart_dnn/Optimizers/AdamOptimizer.hpp b/smart_dnn/Optimizers/AdamOptimizer.hpp
index 7745ecb..d2d0604 100644
--- a/smart_dnn/Optimizers/AdamOptimizer.hpp
+++ b/smart_dnn/Optimizers/AdamOptimizer.hpp
@@ -74,6 +74,9 @@ private:
     }
 
     void updateTensor(Tensor<T>& weight, const Tensor<T>& gradient) {
+        if (weight.getShape().size() != gradient.getShape().size()) {
+            throw std::invalid_argument("Weight and gradient sizes do not match!");
+        }
         size_t key = reinterpret_cast<size_t>(&weight);
         initializeMomentEstimates(key, weight.getShape());
 
diff --git a/smart_dnn/Optimizers/RMSPropOptimizer.hpp b/smart_dnn/Optimizers/RMSPropOptimizer.hpp
index e167137..5215ad6 100644
--- a/smart_dnn/Optimizers/RMSPropOptimizer.hpp
+++ b/smart_dnn/Optimizers/RMSPropOptimizer.hpp
@@ -46,6 +46,9 @@ public:
 
 private:
     void updateTensor(Tensor<T>& weight, const Tensor<T>& gradient, T currentLR) {
+        if (weight.getShape().size() != gradient.getShape().size()) {
+            throw std::invalid_argument("Weight and gradient sizes do not match!");
+        }
         const T* weightData = weight.getData().data();
         const T* gradData = gradient.getData().data();
         T* weightMutableData = weight.getData().data();
diff --git a/smart_dnn/Optimizers/SGDOptimizer.hpp b/smart_dnn/Optimizers/SGDOptimizer.hpp
index a6c906a..4c343a3 100644
--- a/smart_dnn/Optimizers/SGDOptimizer.hpp
+++ b/smart_dnn/Optimizers/SGDOptimizer.hpp
@@ -44,6 +44,9 @@ public:
 
 private:
     void updateTensor(Tensor<T>& weight, const Tensor<T>& gradient, T currentLR) {
+        if (weight.getShape().size() != gradient.getShape().size()) {
+            throw std::invalid_argument("Weight and gradient sizes do not match!");
+        }
         const T* weightData = weight.getData().data();
         const T* gradData = gradient.getData().data();
         T* weightMutableData = weight.getData().data();
-- 
2.43.0


From ddaa074aac0b816b2dba6d62e972f00daa694c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:56 +0000
Subject: [PATCH 27/38] fix: CategoricalCrossEntropyLoss::gradient was not the
 derivative of the loss it computes

---
 smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp b/smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp
index 3e4531d..d8e4a3b 100644
--- a/smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp
+++ b/smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp
@@ -62,7 +62,7 @@ public:
         for (int i = 0; i < batchSize; ++i) {
             for (int j = 0; j < numClasses; ++j) {
                 T predValue = std::min(std::max(prediction.at({i, j}), epsilon), T(1.0) - epsilon);
-                grad.at({i, j}) = (predValue - target.at({i, j}));
+                grad.at({i, j}) = -target.at({i, j}) / predValue;
             }
         }
 
-- 
2.43.0


From 3a4a60718346c797ab64bf9b8a9bc3f1a8b0738f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:56 +0000
Subject: [PATCH 28/38] fix: CategoricalCrossEntropyLoss read past the shape of
 a rank-1 prediction and ignored the axes after the second

---
 smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp b/smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp
index d8e4a3b..119a6ee 100644
--- a/smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp
+++ b/smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp
@@ -26,6 +26,9 @@ public:
         if (prediction.getShape() != target.getShape()) {
             throw std::invalid_argument("Prediction and target shapes must match");
         }
+        if (prediction.getShape().rank() != 2) {
+            throw std::invalid_argument("Prediction and target must have rank 2 (batchSize, numClasses)");
+        }
 
         int batchSize = prediction.getShape()[0];
         int numClasses = prediction.getShape()[1];
@@ -52,6 +55,9 @@ public:
         if (prediction.getShape() != target.getShape()) {
             throw std::invalid_argument("Prediction and target shapes must match");
         }
+        if (prediction.getShape().rank() != 2) {
+            throw std::invalid_argument("Prediction and target must have rank 2 (batchSize, numClasses)");
+        }
 
         int batchSize = prediction.getShape()[0];
         int numClasses = prediction.getShape()[1];
-- 
2.43.0


From 4844a8e28a11f09ec096c28efd5a79872f8e5ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:56 +0000
Subject: [PATCH 29/38] fix: FullyConnected backward gave a rank-2 gradient for
 a rank-1 input

---
 smart_dnn/Layers/FullyConnectedLayer.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/smart_dnn/Layers/FullyConnectedLayer.hpp b/smart_dnn/Layers/FullyConnectedLayer.hpp
index 5ea5fe1..32b0a12 100644
--- a/smart_dnn/Layers/FullyConnectedLayer.hpp
+++ b/smart_dnn/Layers/FullyConnectedLayer.hpp
@@ -84,6 +84,10 @@ public:
         TensorType weightsTransposed = AdvancedTensorOperations<T>::transpose(*weights, 0, 1); // Shape: (output_size, input_size)
         TensorType gradInput = AdvancedTensorOperations<T>::matmul(reshapedGradOutput, weightsTransposed); // Shape: (batch_size, input_size)
 
+        if (input->getShape().rank() == 1) {
+            gradInput = AdvancedTensorOperations<T>::reshape(gradInput, input->getShape());
+        }
+
         return gradInput;
     }
 
-- 
2.43.0


From dd0d2c71072311b4aabcf6a9ddc391d08b37acd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:56 +0000
Subject: [PATCH 30/38] fix: train on an uncompiled model or with fewer targets
 than inputs was undefined behaviour

---
 smart_dnn/SmartDNN/SmartDNN.impl.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/smart_dnn/SmartDNN/SmartDNN.impl.hpp b/smart_dnn/SmartDNN/SmartDNN.impl.hpp
index 27d3ce6..233aa3e 100644
--- a/smart_dnn/SmartDNN/SmartDNN.impl.hpp
+++ b/smart_dnn/SmartDNN/SmartDNN.impl.hpp
@@ -28,6 +28,13 @@ Layer<T>* SmartDNN<T>::getLayer(size_t index) const {
 
 template <typename T>
 void SmartDNN<T>::train(const std::vector<Tensor<T>>& inputs, const std::vector<Tensor<T>>& targets, int epochs) {
+    if (!lossFunction || !optimizer) {
+        throw std::runtime_error("compile must be called before train");
+    }
+    if (inputs.size() != targets.size()) {
+        throw std::invalid_argument("Inputs and targets must have the same number of samples");
+    }
+
     for (int epoch = 0; epoch < epochs; ++epoch) {
         Tensor<T> totalLoss{Shape({1}), T(0)};
         size_t inputSize = inputs.size();
-- 
2.43.0


From ed45d8abc7510aba803218f2f45aac563634d1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:56 +0000
Subject: [PATCH 31/38] fix: MNISTLoader never terminated with a batch size of
 zero or less

---
 smart_dnn/Datasets/MNistLoader.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/smart_dnn/Datasets/MNistLoader.hpp b/smart_dnn/Datasets/MNistLoader.hpp
index 01c204d..e0c6e0b 100644
--- a/smart_dnn/Datasets/MNistLoader.hpp
+++ b/smart_dnn/Datasets/MNistLoader.hpp
@@ -14,7 +14,11 @@ class MNISTLoader {
     using TensorType = Tensor<T>;
 public:
     MNISTLoader(const std::string& imagesPath, const std::string& labelsPath, int batchSize = 1, int numSamples = -1) 
-        : imagesPath(imagesPath), labelsPath(labelsPath), batchSize(batchSize), numSamples(numSamples) {}
+        : imagesPath(imagesPath), labelsPath(labelsPath), batchSize(batchSize), numSamples(numSamples) {
+        if (batchSize <= 0) {
+            throw std::invalid_argument("Batch size must be positive");
+        }
+    }
 
     std::pair<std::vector<TensorType>, std::vector<TensorType>> loadData() {
         std::vector<TensorType> images = loadImages();
-- 
2.43.0


From 1f11665d57fada9292731c793f3da30aa3b6d738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:56 +0000
Subject: [PATCH 32/38] fix: MNISTLoader read pixels and labels past the end of
 a truncated file as 255

---
 smart_dnn/Datasets/MNistLoader.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/smart_dnn/Datasets/MNistLoader.hpp b/smart_dnn/Datasets/MNistLoader.hpp
index e0c6e0b..5ffd927 100644
--- a/smart_dnn/Datasets/MNistLoader.hpp
+++ b/smart_dnn/Datasets/MNistLoader.hpp
@@ -86,7 +86,7 @@ private:
             for (int j = 0; j < currentBatchSize; ++j) { // Read the actual batch size
                 for (int k = 0; k < numRows; ++k) {
                     for (int l = 0; l < numCols; ++l) {
-                        unsigned char pixel = file.get();
+                        unsigned char pixel = readByte(file);
                         image.at({j, 0, k, l}) = pixel / T(255); // Normalize pixel values
                         if (image.at({j, 0, k, l}) < 0 || image.at({j, 0, k, l}) > 1) {
                             throw std::runtime_error("Pixel value out of range: " + std::to_string(image.at({j, 0, k, l})));
@@ -122,7 +122,7 @@ private:
 
             TensorType label({currentBatchSize, 10}, T(0)); 
             for (int j = 0; j < currentBatchSize; ++j) { 
-                unsigned char digit = file.get();
+                unsigned char digit = readByte(file);
                 label.at({j, digit}) = T(1);
             }
             labels.push_back(label);
@@ -131,9 +131,20 @@ private:
         return labels;
     }
 
+    unsigned char readByte(std::ifstream& file) {
+        int byte = file.get();
+        if (!file) {
+            throw std::runtime_error("Unexpected end of MNIST file!");
+        }
+        return static_cast<unsigned char>(byte);
+    }
+
     int readInt(std::ifstream& file) {
         unsigned char buffer[4];
         file.read(reinterpret_cast<char*>(buffer), 4);
+        if (!file) {
+            throw std::runtime_error("Unexpected end of MNIST file!");
+        }
         return (buffer[0] << 24) | (buffer[1] << 16) | (buffer[2] << 8) | buffer[3];
     }
 };
-- 
2.43.0


From 680b563d6ff29d4614e9153004d2b06d41d0be96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:48 +0000
Subject: [PATCH 33/38] fix: mean over as many axes as the rank ignored axes
 the tensor does not have

---
 smart_dnn/Tensor/AdvancedTensorOperations.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/smart_dnn/Tensor/AdvancedTensorOperations.hpp b/smart_dnn/Tensor/AdvancedTensorOperations.hpp
index d19784a..6ccef1d 100644
--- a/smart_dnn/Tensor/AdvancedTensorOperations.hpp
+++ b/smart_dnn/Tensor/AdvancedTensorOperations.hpp
@@ -104,6 +104,12 @@ class AdvancedTensorOperations<T, CPUDevice> {
     }
 
     static Tensor<T> mean(const Tensor<T>& tensor, const std::vector<size_t>& axes) {
+        for (size_t axis : axes) {
+            if (axis >= tensor.getShape().rank()) {
+                throw std::invalid_argument("Invalid axis for mean calculation");
+            }
+        }
+
         if (axes.empty() || axes.size() == tensor.getShape().rank()) {
             return mean(tensor);
         }
-- 
2.43.0


From 3ce9facb75df98e7c9b5873f98e3e4bca270db40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:09 +0000
Subject: [PATCH 34/38] fix: SliceView of an empty range past the end gave the
 last element

---
 smart_dnn/Tensor/SliceView.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smart_dnn/Tensor/SliceView.hpp b/smart_dnn/Tensor/SliceView.hpp
index ae6bed6..53a5f36 100644
--- a/smart_dnn/Tensor/SliceView.hpp
+++ b/smart_dnn/Tensor/SliceView.hpp
@@ -61,7 +61,7 @@ public:
             if (end < 0) end += tensor.shape()[i];
             if (end > tensor.shape()[i]) end = tensor.shape()[i];
 
-            start = std::max(0, std::min(start, tensor.shape()[i] - 1));
+            start = std::max(0, std::min(start, tensor.shape()[i]));
             end = std::max(start, std::min(end, tensor.shape()[i]));
 
             start_indices_.push_back(start);
-- 
2.43.0


From 8340a70ac9a30c55d8a304b6698f1ac02147fe20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:57 +0000
Subject: [PATCH 35/38] fix: slice size computation overflowed int for large
 steps

---
 smart_dnn/Tensor/SliceView.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/smart_dnn/Tensor/SliceView.hpp b/smart_dnn/Tensor/SliceView.hpp
index 53a5f36..407e5f5 100644
--- a/smart_dnn/Tensor/SliceView.hpp
+++ b/smart_dnn/Tensor/SliceView.hpp
@@ -22,7 +22,8 @@ private:
     void calculateSlicedShape() {
         std::vector<int> new_dims;
         for (size_t i = 0; i < original_.shape().rank(); ++i) {
-            int dim_size = (end_indices_[i] - start_indices_[i] + step_sizes_[i] - 1) / step_sizes_[i];
+            int extent = end_indices_[i] - start_indices_[i];
+            int dim_size = extent > 0 ? (extent - 1) / step_sizes_[i] + 1 : 0;
             new_dims.push_back(dim_size);
         }
         sliced_shape_ = Shape(new_dims);
-- 
2.43.0


From 299a9d83c4b604a27eca283b659e3a0caac2e11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:03 +0000
Subject: [PATCH 36/38] fix: SmartDNN.hpp included Logger.hpp by a path that
 does not exist on case-sensitive file systems

---
 smart_dnn/SmartDNN/SmartDNN.impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smart_dnn/SmartDNN/SmartDNN.impl.hpp b/smart_dnn/SmartDNN/SmartDNN.impl.hpp
index 233aa3e..b16921e 100644
--- a/smart_dnn/SmartDNN/SmartDNN.impl.hpp
+++ b/smart_dnn/SmartDNN/SmartDNN.impl.hpp
@@ -2,7 +2,7 @@
 #define SMART_DNN_IMPL_HPP
 
 #include "smart_dnn/SmartDNN.hpp"
-#include "smart_dnn/debugging/Logger.hpp"
+#include "smart_dnn/Debugging/Logger.hpp"
 
 namespace smart_dnn {
 
-- 
2.43.0


From e06ebd84fd13ca27e6eee49e8b7ce55bbe56b20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:02 +0000
Subject: [PATCH 37/38] fix: headers include the standard and library headers
 they use

---
 smart_dnn/Regularisation/BatchNormalizationLayer.hpp | 1 +
 smart_dnn/Regularisation/DropoutLayer.hpp            | 1 +
 smart_dnn/Regularisation/MaxPooling2DLayer.hpp       | 1 +
 smart_dnn/Shape/Shape.hpp                            | 2 ++
 smart_dnn/Tensor/TensorData.hpp                      | 1 +
 5 files changed, 6 insertions(+)

diff --git a/smart_dnn/Regularisation/BatchNormalizationLayer.hpp b/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
index 5316420..23120e9 100644
--- a/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
+++ b/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
@@ -2,6 +2,7 @@
 #define BATCH_NORMALIZATION_LAYER_HPP
 
 #include "smart_dnn/Tensor/Tensor.hpp"
+#include "smart_dnn/Tensor/AdvancedTensorOperations.hpp"
 #include "smart_dnn/Layer.hpp"
 #include <cmath>
 #include <optional>
diff --git a/smart_dnn/Regularisation/DropoutLayer.hpp b/smart_dnn/Regularisation/DropoutLayer.hpp
index bf7a98e..1ad0dc5 100644
--- a/smart_dnn/Regularisation/DropoutLayer.hpp
+++ b/smart_dnn/Regularisation/DropoutLayer.hpp
@@ -1,6 +1,7 @@
 #ifndef DROPOUT_LAYER_HPP
 #define DROPOUT_LAYER_HPP
 
+#include <optional>
 #include "smart_dnn/Tensor/Tensor.hpp"
 #include "smart_dnn/Layer.hpp"
 
diff --git a/smart_dnn/Regularisation/MaxPooling2DLayer.hpp b/smart_dnn/Regularisation/MaxPooling2DLayer.hpp
index 36db0bd..b2e17f0 100644
--- a/smart_dnn/Regularisation/MaxPooling2DLayer.hpp
+++ b/smart_dnn/Regularisation/MaxPooling2DLayer.hpp
@@ -3,6 +3,7 @@
 
 #include <algorithm>
 #include <limits>
+#include <optional>
 #include "smart_dnn/Layer.hpp"
 #include "smart_dnn/Tensor/Tensor.hpp"
 
diff --git a/smart_dnn/Shape/Shape.hpp b/smart_dnn/Shape/Shape.hpp
index a0ef5ab..8afa897 100644
--- a/smart_dnn/Shape/Shape.hpp
+++ b/smart_dnn/Shape/Shape.hpp
@@ -1,7 +1,9 @@
 #ifndef SHAPE_HPP
 #define SHAPE_HPP
 
+#include <algorithm>
 #include <iostream>
+#include <limits>
 #include <numeric>
 #include <vector>
 #include <sstream>
diff --git a/smart_dnn/Tensor/TensorData.hpp b/smart_dnn/Tensor/TensorData.hpp
index 8243be4..31a0b17 100644
--- a/smart_dnn/Tensor/TensorData.hpp
+++ b/smart_dnn/Tensor/TensorData.hpp
@@ -6,6 +6,7 @@
 #include "smart_dnn/Tensor/DeviceTypes.hpp"
 #include <iomanip>
 #include <functional>
+#include <memory>
 
 namespace smart_dnn {
 
-- 
2.43.0


From 644ba7e9bc7bea8e79620322e863ffc5c9ca0c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:43 +0000
Subject: [PATCH 38/38] fix: reject MNIST header fields that do not fit an int
 instead of loading nothing

---
 smart_dnn/Datasets/MNistLoader.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/smart_dnn/Datasets/MNistLoader.hpp b/smart_dnn/Datasets/MNistLoader.hpp
index 5ffd927..808e6bd 100644
--- a/smart_dnn/Datasets/MNistLoader.hpp
+++ b/smart_dnn/Datasets/MNistLoader.hpp
@@ -145,6 +145,9 @@ private:
         if (!file) {
             throw std::runtime_error("Unexpected end of MNIST file!");
         }
+        if (buffer[0] > 127) {
+            throw std::runtime_error("MNIST header value out of range!");
+        }
         return (buffer[0] << 24) | (buffer[1] << 16) | (buffer[2] << 8) | buffer[3];
     }
 };
-- 
2.43.0

