From 4ca2697cbbc755bf41f8b7bc98e4cd5239a4c273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:00 +0000
Subject: [PATCH 01/56] fix: reject shapes whose element count overflows size_t

---
 smart_dnn/Shape/Shape.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/smart_dnn/Shape/Shape.hpp b/smart_dnn/Shape/Shape.hpp
index c0b4f00..a0ef5ab 100644
--- a/smart_dnn/Shape/Shape.hpp
+++ b/smart_dnn/Shape/Shape.hpp
@@ -108,7 +108,14 @@ private:
     std::vector<size_t> _stride;
 
     size_t calculateSize() const {
-        return std::accumulate(_dimensions.begin(), _dimensions.end(), size_t(1), std::multiplies<size_t>());
+        size_t size = 1;
+        for (int dim : _dimensions) {
+            if (size > std::numeric_limits<size_t>::max() / static_cast<size_t>(dim)) {
+                throw std::overflow_error("Shape size exceeds maximum representable value");
+            }
+            size *= static_cast<size_t>(dim);
+        }
+        return size;
     }
 
     std::vector<size_t> calculateStride() const {
-- 
2.43.0


From f0694d55e94db278b4181ee4506321dcd8679d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:32 +0000
Subject: [PATCH 02/56] fix: make the vector constructors of Tensor compile and
 reject surplus values

---
 smart_dnn/Tensor/Tensor.hpp             |  2 +-
 smart_dnn/Tensor/Tensor.impl.hpp        |  2 +-
 smart_dnn/Tensor/TensorData.hpp         |  4 +++-
 smart_dnn/Tensor/TensorDataCPU.impl.hpp | 20 ++++++++++++++------
 4 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/smart_dnn/Tensor/Tensor.hpp b/smart_dnn/Tensor/Tensor.hpp
index e180378..4fc6dc6 100644
--- a/smart_dnn/Tensor/Tensor.hpp
+++ b/smart_dnn/Tensor/Tensor.hpp
@@ -22,7 +22,7 @@ public:
     Tensor(Tensor&& other) noexcept;
     Tensor(Shape dimensions, std::initializer_list<T> values);
     Tensor(Shape dimensions, const std::vector<T>& values);
-    Tensor(Shape dimensions, std::vector<T>&& values) noexcept;
+    Tensor(Shape dimensions, std::vector<T>&& values);
 
     ~Tensor() = default;
 
diff --git a/smart_dnn/Tensor/Tensor.impl.hpp b/smart_dnn/Tensor/Tensor.impl.hpp
index 81e4265..9478a78 100644
--- a/smart_dnn/Tensor/Tensor.impl.hpp
+++ b/smart_dnn/Tensor/Tensor.impl.hpp
@@ -35,7 +35,7 @@ TEMPLATE_TENSOR
 Tensor<T, DeviceType>::Tensor(Shape dimensions, const std::vector<T>& values) : data_(dimensions, values) {}
 
 TEMPLATE_TENSOR
-Tensor<T, DeviceType>::Tensor(Shape dimensions, std::vector<T>&& values) noexcept : data_(dimensions, std::move(values)) {}
+Tensor<T, DeviceType>::Tensor(Shape dimensions, std::vector<T>&& values) : data_(dimensions, std::move(values)) {}
 
 TEMPLATE_TENSOR
 Tensor<T, DeviceType>& Tensor<T, DeviceType>::operator=(const Tensor<T, DeviceType>& other) {
diff --git a/smart_dnn/Tensor/TensorData.hpp b/smart_dnn/Tensor/TensorData.hpp
index 5c77331..247d8d7 100644
--- a/smart_dnn/Tensor/TensorData.hpp
+++ b/smart_dnn/Tensor/TensorData.hpp
@@ -24,7 +24,7 @@ public:
     TensorData(const TensorData& other);
     TensorData(Shape dimensions, std::initializer_list<T> values);
     TensorData(Shape dimensions, const std::vector<T>& values);
-    TensorData(Shape dimensions, std::vector<T>&& values) noexcept;
+    TensorData(Shape dimensions, std::vector<T>&& values);
 
 
     TensorData(TensorData&&) noexcept = default;
@@ -61,6 +61,8 @@ public:
     T* end() const { return (data_.get() + shape_.size()); }
 
 private:
+    void checkValueCount(size_t count) const;
+
     Shape shape_;
     std::unique_ptr<T[]> data_;
 };
diff --git a/smart_dnn/Tensor/TensorDataCPU.impl.hpp b/smart_dnn/Tensor/TensorDataCPU.impl.hpp
index a757e84..71a069e 100644
--- a/smart_dnn/Tensor/TensorDataCPU.impl.hpp
+++ b/smart_dnn/Tensor/TensorDataCPU.impl.hpp
@@ -38,20 +38,21 @@ TENSOR_DATA_CPU::TensorData(const TENSOR_DATA_CPU& other)
 TEMPLATE_TENSOR
 TENSOR_DATA_CPU::TensorData(Shape dimensions, std::initializer_list<T> values)
     : shape_(dimensions), data_(std::make_unique<T[]>(dimensions.size())) {
+    checkValueCount(values.size());
     std::copy(values.begin(), values.end(), data_.get());
 }
 
 TEMPLATE_TENSOR
-TENSOR_DATA_CPU::TensorData(Shape dimensions, const std::vector<T>& values){
-    shape_ = dimensions;
-    data_ = std::make_unique<T[]>(shape_.size());
+TENSOR_DATA_CPU::TensorData(Shape dimensions, const std::vector<T>& values)
+    : shape_(dimensions), data_(std::make_unique<T[]>(dimensions.size())) {
+    checkValueCount(values.size());
     std::copy(values.begin(), values.end(), data_.get());
 }
 
 TEMPLATE_TENSOR
-TENSOR_DATA_CPU::TensorData(Shape dimensions, std::vector<T>&& values) noexcept{
-    shape_ = dimensions;
-    data_ = std::make_unique<T[]>(shape_.size());
+TENSOR_DATA_CPU::TensorData(Shape dimensions, std::vector<T>&& values)
+    : shape_(dimensions), data_(std::make_unique<T[]>(dimensions.size())) {
+    checkValueCount(values.size());
     std::move(values.begin(), values.end(), data_.get());
 }
 
@@ -75,6 +76,13 @@ bool TENSOR_DATA_CPU::operator!=(const TENSOR_DATA_CPU& other) const {
     return !(*this == other);
 }
 
+TEMPLATE_TENSOR
+void TENSOR_DATA_CPU::checkValueCount(size_t count) const {
+    if (count > shape_.size()) {
+        throw std::invalid_argument("Too many values (" + std::to_string(count) + ") for shape " + shape_.toString());
+    }
+}
+
 TEMPLATE_TENSOR
 T& TENSOR_DATA_CPU::operator[](size_t index){
     return data_[index];
-- 
2.43.0


From 6a983bfc816f0156635291d020d2ca43a44d16bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:39 +0000
Subject: [PATCH 03/56] fix: name the scalar in-place operations the way
 TensorOperations declares them

---
 smart_dnn/Tensor/Tensor.impl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smart_dnn/Tensor/Tensor.impl.hpp b/smart_dnn/Tensor/Tensor.impl.hpp
index 9478a78..0011c37 100644
--- a/smart_dnn/Tensor/Tensor.impl.hpp
+++ b/smart_dnn/Tensor/Tensor.impl.hpp
@@ -77,13 +77,13 @@ Tensor<T, DeviceType>& Tensor<T, DeviceType>::operator+=(T scalar) {
 
 TEMPLATE_TENSOR
 Tensor<T, DeviceType>& Tensor<T, DeviceType>::operator-=(T scalar) {
-    TensorOperations<T, DeviceType>::substractScalarInPlace(data_, scalar);
+    TensorOperations<T, DeviceType>::subtractScalarInPlace(data_, scalar);
     return *this;
 }
 
 TEMPLATE_TENSOR
 Tensor<T, DeviceType>& Tensor<T, DeviceType>::operator*=(T scalar) {
-    TensorOperations<T, DeviceType>::multipleScalarInPlace(data_, scalar);
+    TensorOperations<T, DeviceType>::multiplyScalarInPlace(data_, scalar);
     return *this;
 }
 
-- 
2.43.0


From 9628bc817d3db1b14dd2e0fef25e18aaabc4c3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:44 +0000
Subject: [PATCH 04/56] fix: leave a valid tensor behind after move assignment

---
 smart_dnn/Tensor/Tensor.hpp      | 2 +-
 smart_dnn/Tensor/Tensor.impl.hpp | 9 +++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/smart_dnn/Tensor/Tensor.hpp b/smart_dnn/Tensor/Tensor.hpp
index 4fc6dc6..5d10153 100644
--- a/smart_dnn/Tensor/Tensor.hpp
+++ b/smart_dnn/Tensor/Tensor.hpp
@@ -27,7 +27,7 @@ public:
     ~Tensor() = default;
 
     Tensor& operator=(const Tensor& other);
-    Tensor& operator=(Tensor&& other) noexcept = default;
+    Tensor& operator=(Tensor&& other) noexcept;
 
     Tensor& operator+=(const Tensor& other);
     Tensor& operator-=(const Tensor& other);
diff --git a/smart_dnn/Tensor/Tensor.impl.hpp b/smart_dnn/Tensor/Tensor.impl.hpp
index 0011c37..775954d 100644
--- a/smart_dnn/Tensor/Tensor.impl.hpp
+++ b/smart_dnn/Tensor/Tensor.impl.hpp
@@ -45,6 +45,15 @@ Tensor<T, DeviceType>& Tensor<T, DeviceType>::operator=(const Tensor<T, DeviceTy
     return *this;
 }
 
+TEMPLATE_TENSOR
+Tensor<T, DeviceType>& Tensor<T, DeviceType>::operator=(Tensor<T, DeviceType>&& other) noexcept {
+    if (this != &other) {
+        data_ = std::move(other.data_);
+        other.data_ = TensorData<T, DeviceType>(Shape({1})); // We should not have an empty tensor
+    }
+    return *this;
+}
+
 TEMPLATE_TENSOR
 Tensor<T, DeviceType>& Tensor<T, DeviceType>::operator+=(const Tensor<T, DeviceType>& other) {
     TensorOperations<T, DeviceType>::addInPlace(data_, other.data_);
-- 
2.43.0


From ee14388ffe562c883a37c8ee24d31764c63800ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:32 +0000
Subject: [PATCH 05/56] fix: slice along any dimension and reject indices out
 of range

---
 smart_dnn/Tensor/Tensor.impl.hpp | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/smart_dnn/Tensor/Tensor.impl.hpp b/smart_dnn/Tensor/Tensor.impl.hpp
index 775954d..5075e83 100644
--- a/smart_dnn/Tensor/Tensor.impl.hpp
+++ b/smart_dnn/Tensor/Tensor.impl.hpp
@@ -295,15 +295,32 @@ void Tensor<T, DeviceType>::reshape(const std::initializer_list<int>& dims) {
 
 template <typename T, typename DeviceType>
 Tensor<T, DeviceType> Tensor<T, DeviceType>::slice(int dim, int index) const {
-    Shape newShape = this->data_.shape();
-    std::vector<int> shape = newShape.getDimensions();
-    const std::vector<size_t> strides = this->data_.stride();
+    std::vector<int> shape = this->data_.shape().getDimensions();
 
-    int offset = index * strides[dim];
+    if (dim < 0 || dim >= static_cast<int>(shape.size())) {
+        throw std::out_of_range("Slice dimension " + std::to_string(dim) + " out of range for shape " + this->data_.shape().toString());
+    }
+    if (index < 0 || index >= shape[dim]) {
+        throw std::out_of_range("Slice index " + std::to_string(index) + " out of range for shape " + this->data_.shape().toString());
+    }
+
+    // Elements sharing an index along dim come in runs of the dimension's stride
+    const size_t run = this->data_.stride()[dim];
+    const size_t step = run * static_cast<size_t>(shape[dim]);
+    const size_t total = this->data_.size();
 
     shape.erase(shape.begin() + dim);
+    if (shape.empty()) {
+        shape.push_back(1);
+    }
+
+    TensorData<T, DeviceType> slicedData{Shape(shape)};
+    const T* source = this->data_.data() + static_cast<size_t>(index) * run;
+    T* target = slicedData.data();
 
-    TensorData<T, DeviceType> slicedData(Shape(shape), this->data_.data() + offset);
+    for (size_t start = 0; start < total; start += step) {
+        target = std::copy_n(source + start, run, target);
+    }
 
     return Tensor<T, DeviceType>(std::move(slicedData));
 }
-- 
2.43.0


From 2c732fc85504e8841965575effbe1c9d4715b294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:05 +0000
Subject: [PATCH 06/56] fix: let sum reduce all axes at once

---
 smart_dnn/Tensor/AdvancedTensorOperations.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/smart_dnn/Tensor/AdvancedTensorOperations.hpp b/smart_dnn/Tensor/AdvancedTensorOperations.hpp
index 24564c6..4e9ab11 100644
--- a/smart_dnn/Tensor/AdvancedTensorOperations.hpp
+++ b/smart_dnn/Tensor/AdvancedTensorOperations.hpp
@@ -88,6 +88,11 @@ class AdvancedTensorOperations<T, CPUDevice> {
             }
         }
 
+        // Every axis was summed: a single element remains
+        if (finalShape.empty()) {
+            finalShape.push_back(1);
+        }
+
         result.reshape(Shape(finalShape));
 
         return result;
-- 
2.43.0


From 2c4ba1f103aa1cd030461c8ff5e5f521e4e65bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:12 +0000
Subject: [PATCH 07/56] fix: validate the axes of mean before counting them

---
 smart_dnn/Tensor/AdvancedTensorOperations.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/smart_dnn/Tensor/AdvancedTensorOperations.hpp b/smart_dnn/Tensor/AdvancedTensorOperations.hpp
index 4e9ab11..f80f97c 100644
--- a/smart_dnn/Tensor/AdvancedTensorOperations.hpp
+++ b/smart_dnn/Tensor/AdvancedTensorOperations.hpp
@@ -105,6 +105,12 @@ class AdvancedTensorOperations<T, CPUDevice> {
     }
 
     static Tensor<T> mean(const Tensor<T>& tensor, const std::vector<size_t>& axes) {
+        for (size_t axis : axes) {
+            if (axis >= tensor.getShape().rank()) {
+                throw std::invalid_argument("Invalid axis for mean calculation");
+            }
+        }
+
         if (axes.empty() || axes.size() == tensor.getShape().rank()) {
             return mean(tensor);
         }
-- 
2.43.0


From fca4595b3f3009a93d1cdbfa864e03b1a31e09e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:18 +0000
Subject: [PATCH 08/56] fix: reject broadcast views onto a target of lower rank
 than the source

---
 smart_dnn/Tensor/BroadcastView.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/smart_dnn/Tensor/BroadcastView.hpp b/smart_dnn/Tensor/BroadcastView.hpp
index ec2590b..76f0b71 100644
--- a/smart_dnn/Tensor/BroadcastView.hpp
+++ b/smart_dnn/Tensor/BroadcastView.hpp
@@ -39,6 +39,13 @@ private:
             --broadcast_dim;
             --orig_dim;
         }
+
+        // Dimensions of the original the target does not have can only be dropped if they are 1
+        for (; orig_dim >= 0; --orig_dim) {
+            if (orig_shape[orig_dim] != 1) {
+                throw std::runtime_error("Unexpected broadcast scenario");
+            }
+        }
     }
 
     int mapIndex(const std::vector<int>& indices) const {
-- 
2.43.0


From f467cf5d6a8f02b04fdf15dc0362715853fa35ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:24 +0000
Subject: [PATCH 09/56] fix: honour the end and validate the step of slice
 views

---
 smart_dnn/Tensor/SliceView.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/smart_dnn/Tensor/SliceView.hpp b/smart_dnn/Tensor/SliceView.hpp
index 555ee6b..dfe90fb 100644
--- a/smart_dnn/Tensor/SliceView.hpp
+++ b/smart_dnn/Tensor/SliceView.hpp
@@ -16,12 +16,14 @@ private:
     const TensorData<T, DeviceType>& original_;
     std::optional<Shape> sliced_shape_;
     std::vector<int> start_indices_;
+    std::vector<int> end_indices_;
     std::vector<int> step_sizes_;
 
     void calculateSlicedShape() {
         std::vector<int> new_dims;
         for (size_t i = 0; i < original_.shape().rank(); ++i) {
-            int dim_size = (original_.shape()[i] - start_indices_[i] + step_sizes_[i] - 1) / step_sizes_[i];
+            int length = end_indices_[i] - start_indices_[i];
+            int dim_size = length > 0 ? 1 + (length - 1) / step_sizes_[i] : 0;
             new_dims.push_back(dim_size);
         }
         sliced_shape_ = Shape(new_dims);
@@ -45,7 +47,14 @@ public:
             throw std::runtime_error("Slice dimensions must match tensor rank");
         }
 
+        for (int step : steps) {
+            if (step <= 0) {
+                throw std::runtime_error("Slice steps must be positive");
+            }
+        }
+
         start_indices_.reserve(slices.size());
+        end_indices_.reserve(slices.size());
         step_sizes_ = steps;
 
         for (size_t i = 0; i < slices.size(); ++i) {
@@ -60,6 +69,7 @@ public:
             end = std::max(start, std::min(end, tensor.shape()[i]));
 
             start_indices_.push_back(start);
+            end_indices_.push_back(end);
         }
 
         calculateSlicedShape();
-- 
2.43.0


From ca38b5268d7f6e547eb259e62fe7de1c1ff16a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:43 +0000
Subject: [PATCH 10/56] fix: compute Sigmoid in the element type

---
 smart_dnn/Activations/Sigmoid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smart_dnn/Activations/Sigmoid.hpp b/smart_dnn/Activations/Sigmoid.hpp
index 0c7665a..57bf66f 100644
--- a/smart_dnn/Activations/Sigmoid.hpp
+++ b/smart_dnn/Activations/Sigmoid.hpp
@@ -20,7 +20,7 @@ class Sigmoid : public Activation<T> {
     using TensorType = Tensor<T>;
 public:
     TensorType forward(const TensorType& input) const override {
-        return AdvancedTensorOperations<T>::apply(input, [](float x) { return T(1) / (T(1) + std::exp(-x)); });
+        return AdvancedTensorOperations<T>::apply(input, [](T x) { return T(1) / (T(1) + std::exp(-x)); });
     }
 
     TensorType backward(const TensorType& input, const TensorType& gradOutput) const override {
-- 
2.43.0


From 5e6a8d29bb99ca30146763e43c8ba085690eefa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:48 +0000
Subject: [PATCH 11/56] fix: keep Tanh finite for large inputs

---
 smart_dnn/Activations/Tanh.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smart_dnn/Activations/Tanh.hpp b/smart_dnn/Activations/Tanh.hpp
index 531f70c..5ce1bbb 100644
--- a/smart_dnn/Activations/Tanh.hpp
+++ b/smart_dnn/Activations/Tanh.hpp
@@ -20,7 +20,7 @@ template <typename T>
 class Tanh : public Activation<T> {
 public:
     Tensor<T> forward(const Tensor<T>& input) const override {
-        return AdvancedTensorOperations<T>::apply(input, [](T x) { return (std::exp(x * T(2)) - T(1)) / (std::exp(x * T(2)) + T(1)); });
+        return AdvancedTensorOperations<T>::apply(input, [](T x) { return std::tanh(x); });
     }
 
     Tensor<T> backward(const Tensor<T>& input, const Tensor<T>& gradOutput) const override {
-- 
2.43.0


From e966654eadbfdbc41cd11f614ce0389eb17924c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:55 +0000
Subject: [PATCH 12/56] fix: reject a softmax gradient of another shape

---
 smart_dnn/Activations/Softmax.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/smart_dnn/Activations/Softmax.hpp b/smart_dnn/Activations/Softmax.hpp
index 1990016..bbe591f 100644
--- a/smart_dnn/Activations/Softmax.hpp
+++ b/smart_dnn/Activations/Softmax.hpp
@@ -60,6 +60,9 @@ public:
         if (input.getShape().rank() < 2 || gradOutput.getShape().rank() < 2) {
             throw std::invalid_argument("Input and gradOutput must have at least 2 dimensions (batch_size, features)");
         }
+        if (input.getShape() != gradOutput.getShape()) {
+            throw std::invalid_argument("Input and gradOutput shapes must match");
+        }
         
         Tensor<T> forwardOutput = forward(input);
         Tensor<T> gradInput(input.getShape());
-- 
2.43.0


From c68f626d05d4aca8365daea91e9119761a6bd7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:58 +0000
Subject: [PATCH 13/56] fix: return the derivative of categorical cross-entropy
 from its gradient

---
 smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp b/smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp
index 3e4531d..d8e4a3b 100644
--- a/smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp
+++ b/smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp
@@ -62,7 +62,7 @@ public:
         for (int i = 0; i < batchSize; ++i) {
             for (int j = 0; j < numClasses; ++j) {
                 T predValue = std::min(std::max(prediction.at({i, j}), epsilon), T(1.0) - epsilon);
-                grad.at({i, j}) = (predValue - target.at({i, j}));
+                grad.at({i, j}) = -target.at({i, j}) / predValue;
             }
         }
 
-- 
2.43.0


From 045971a3d834593cf85d7034a1f49be04264c303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:03 +0000
Subject: [PATCH 14/56] fix: reject predictions that are not (batch, classes)
 in categorical cross-entropy

---
 smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp b/smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp
index d8e4a3b..3a42d1e 100644
--- a/smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp
+++ b/smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp
@@ -26,6 +26,9 @@ public:
         if (prediction.getShape() != target.getShape()) {
             throw std::invalid_argument("Prediction and target shapes must match");
         }
+        if (prediction.getShape().rank() != 2) {
+            throw std::invalid_argument("Prediction and target must have shape (batchSize, numClasses)");
+        }
 
         int batchSize = prediction.getShape()[0];
         int numClasses = prediction.getShape()[1];
@@ -52,6 +55,9 @@ public:
         if (prediction.getShape() != target.getShape()) {
             throw std::invalid_argument("Prediction and target shapes must match");
         }
+        if (prediction.getShape().rank() != 2) {
+            throw std::invalid_argument("Prediction and target must have shape (batchSize, numClasses)");
+        }
 
         int batchSize = prediction.getShape()[0];
         int numClasses = prediction.getShape()[1];
-- 
2.43.0


From b1544938efd7d14519cabb66aee3038bc9ea3ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:28 +0000
Subject: [PATCH 15/56] fix: return a 1-D gradient for a 1-D fully connected
 input

---
 smart_dnn/Layers/FullyConnectedLayer.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/smart_dnn/Layers/FullyConnectedLayer.hpp b/smart_dnn/Layers/FullyConnectedLayer.hpp
index 5ea5fe1..5c1b5e1 100644
--- a/smart_dnn/Layers/FullyConnectedLayer.hpp
+++ b/smart_dnn/Layers/FullyConnectedLayer.hpp
@@ -84,6 +84,11 @@ public:
         TensorType weightsTransposed = AdvancedTensorOperations<T>::transpose(*weights, 0, 1); // Shape: (output_size, input_size)
         TensorType gradInput = AdvancedTensorOperations<T>::matmul(reshapedGradOutput, weightsTransposed); // Shape: (batch_size, input_size)
 
+        // The gradient has the shape of the input it belongs to
+        if (input->getShape().rank() == 1) {
+            gradInput = AdvancedTensorOperations<T>::reshape(gradInput, input->getShape());
+        }
+
         return gradInput;
     }
 
-- 
2.43.0


From 42ce83c541871e8dfcdef8b78dbffdb984cc116b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:31 +0000
Subject: [PATCH 16/56] fix: remember the shape of 2-D inputs in the flatten
 layer

---
 smart_dnn/Layers/FlattenLayer.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/smart_dnn/Layers/FlattenLayer.hpp b/smart_dnn/Layers/FlattenLayer.hpp
index 20e4de1..bedd91b 100644
--- a/smart_dnn/Layers/FlattenLayer.hpp
+++ b/smart_dnn/Layers/FlattenLayer.hpp
@@ -27,11 +27,12 @@ public:
             throw std::invalid_argument("Input tensor must have at least 2 dimensions");
         }
 
+        this->originalShape = input.getShape();
+
         if (input.getShape().rank() == 2) {
             return input;
         }
 
-        this->originalShape = input.getShape();
         int batchSize = (*originalShape)[0];
         int flattenedSize = (*originalShape).size() / batchSize;
         
-- 
2.43.0


From f747126c22e5d03d83b61af198836ecbe3178433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:35 +0000
Subject: [PATCH 17/56] fix: reject flatten backward before forward

---
 smart_dnn/Layers/FlattenLayer.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/smart_dnn/Layers/FlattenLayer.hpp b/smart_dnn/Layers/FlattenLayer.hpp
index bedd91b..3337f5d 100644
--- a/smart_dnn/Layers/FlattenLayer.hpp
+++ b/smart_dnn/Layers/FlattenLayer.hpp
@@ -49,6 +49,10 @@ public:
     
     */
     TensorType backward(const TensorType& gradOutput) override {
+        if (!originalShape) {
+            throw std::runtime_error("FlattenLayer: forward must be called before backward");
+        }
+
         return AdvancedTensorOperations<T>::reshape(gradOutput, (*originalShape));
     }
 
-- 
2.43.0


From 2777ed7fbd80c1a5c3038fe054ee0270fc7526ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:38 +0000
Subject: [PATCH 18/56] fix: reject activation layer backward before forward

---
 smart_dnn/Layers/ActivationLayer.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/smart_dnn/Layers/ActivationLayer.hpp b/smart_dnn/Layers/ActivationLayer.hpp
index 665c0da..42f8642 100644
--- a/smart_dnn/Layers/ActivationLayer.hpp
+++ b/smart_dnn/Layers/ActivationLayer.hpp
@@ -22,6 +22,10 @@ public:
     }
 
     TensorType backward(const TensorType& gradOutput) override {
+        if (!input) {
+            throw std::runtime_error("ActivationLayer: forward must be called before backward");
+        }
+
         return activation->backward((*input), gradOutput);
     }
 
-- 
2.43.0


From 87f89f1187b4b7521b28828f183c18da3298142c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:44 +0000
Subject: [PATCH 19/56] fix: draw the dropout mask from a uniform distribution

---
 smart_dnn/Regularisation/DropoutLayer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smart_dnn/Regularisation/DropoutLayer.hpp b/smart_dnn/Regularisation/DropoutLayer.hpp
index 584645a..450e509 100644
--- a/smart_dnn/Regularisation/DropoutLayer.hpp
+++ b/smart_dnn/Regularisation/DropoutLayer.hpp
@@ -14,8 +14,8 @@ public:
 
     TensorType forward(const TensorType& input) override {
         if (this->trainingMode) {
-            mask = TensorType::rand(input.getShape());
-            mask = (*mask).apply([this](T x) { return x > dropoutRate ? T(1) : T(0); });
+            mask = TensorType(input.getShape());
+            mask->apply([this](T) { return T(RandomEngine::getRand()) >= dropoutRate ? T(1) : T(0); });
             return input * (*mask) * (T(1) / (T(1) - dropoutRate));
         } else {
             return input; // No dropout during inference
-- 
2.43.0


From 1472246692c81b1024ba91de3c55279e2092b718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:50 +0000
Subject: [PATCH 20/56] fix: scale the dropout gradient like the output and
 pass it through in evaluation

---
 smart_dnn/Regularisation/DropoutLayer.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/smart_dnn/Regularisation/DropoutLayer.hpp b/smart_dnn/Regularisation/DropoutLayer.hpp
index 450e509..6f21142 100644
--- a/smart_dnn/Regularisation/DropoutLayer.hpp
+++ b/smart_dnn/Regularisation/DropoutLayer.hpp
@@ -23,13 +23,13 @@ public:
     }
 
     TensorType backward(const TensorType& gradOutput) override {
-        if (gradOutput.getShape() != (*mask).getShape()) {
-            throw std::invalid_argument("Mask not initialised or has wrong shape in Dropout Layer.");
+        if (!this->trainingMode) {
+            return gradOutput;
         }
-        if (this->trainingMode) {
-            return gradOutput * (*mask);
+        if (!mask || gradOutput.getShape() != mask->getShape()) {
+            throw std::invalid_argument("Mask not initialised or has wrong shape in Dropout Layer.");
         }
-        return gradOutput;
+        return gradOutput * (*mask) * (T(1) / (T(1) - dropoutRate));
     }
 
 private:
-- 
2.43.0


From 2dd50a3f1722b2dd6685b38cb6a1295d03cbf2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:53 +0000
Subject: [PATCH 21/56] fix: make max pooling handle padding and reject windows
 that do not fit

---
 smart_dnn/Regularisation/MaxPooling2DLayer.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/smart_dnn/Regularisation/MaxPooling2DLayer.hpp b/smart_dnn/Regularisation/MaxPooling2DLayer.hpp
index 63219cc..5c0c40c 100644
--- a/smart_dnn/Regularisation/MaxPooling2DLayer.hpp
+++ b/smart_dnn/Regularisation/MaxPooling2DLayer.hpp
@@ -28,9 +28,13 @@ public:
         int inputHeight = input.getShape()[2];
         int inputWidth = input.getShape()[3];
 
-        // Calculate output dimensions based on stride and pooling size
-        int outputHeight = (inputHeight - poolSize) / stride + 1;
-        int outputWidth = (inputWidth - poolSize) / stride + 1;
+        if (inputHeight + 2 * padding < poolSize || inputWidth + 2 * padding < poolSize) {
+            throw std::runtime_error("MaxPooling2DLayer: pool does not fit the padded input");
+        }
+
+        // Calculate output dimensions based on stride, padding and pooling size
+        int outputHeight = (inputHeight + 2 * padding - poolSize) / stride + 1;
+        int outputWidth = (inputWidth + 2 * padding - poolSize) / stride + 1;
 
         // Output shape retains the number of channels
         TensorType output({batchSize, inputChannels, outputHeight, outputWidth});
@@ -88,10 +92,12 @@ private:
 
         for (int ph = 0; ph < poolSize; ++ph) {
             int ih = ihStart + ph;
+            if (ih < 0) continue;
             if (ih >= tensor.getShape()[2]) break; 
 
             for (int pw = 0; pw < poolSize; ++pw) {
                 int iw = iwStart + pw;
+                if (iw < 0) continue;
                 if (iw >= tensor.getShape()[3]) break;
 
                 T val = tensor.at({n, ic, ih, iw});
-- 
2.43.0


From 4d3873c45bbc3f1810bbb07a5120b6a94693a132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:27 +0000
Subject: [PATCH 22/56] fix: keep the max pooling gradient inside its window

---
 smart_dnn/Regularisation/MaxPooling2DLayer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smart_dnn/Regularisation/MaxPooling2DLayer.hpp b/smart_dnn/Regularisation/MaxPooling2DLayer.hpp
index 5c0c40c..0870dad 100644
--- a/smart_dnn/Regularisation/MaxPooling2DLayer.hpp
+++ b/smart_dnn/Regularisation/MaxPooling2DLayer.hpp
@@ -86,7 +86,7 @@ private:
 
     std::tuple<T, int, int> findMaxInPoolWindow(const TensorType& tensor, int n, int ic, int oh, int ow) {
         T maxVal = -std::numeric_limits<T>::infinity();
-        int maxIh = 0, maxIw = 0;
+        int maxIh = -1, maxIw = -1;
         int ihStart = oh * stride - padding;
         int iwStart = ow * stride - padding;
 
@@ -101,7 +101,7 @@ private:
                 if (iw >= tensor.getShape()[3]) break;
 
                 T val = tensor.at({n, ic, ih, iw});
-                if (val > maxVal) {
+                if (maxIh < 0 || val > maxVal) {
                     maxVal = val;
                     maxIh = ih;
                     maxIw = iw;
-- 
2.43.0


From ca8ba456d79e5cd32994a455cfcf83f92e4e5e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:30 +0000
Subject: [PATCH 23/56] fix: reject max pooling gradients of another shape than
 the output

---
 smart_dnn/Regularisation/MaxPooling2DLayer.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/smart_dnn/Regularisation/MaxPooling2DLayer.hpp b/smart_dnn/Regularisation/MaxPooling2DLayer.hpp
index 0870dad..bed8deb 100644
--- a/smart_dnn/Regularisation/MaxPooling2DLayer.hpp
+++ b/smart_dnn/Regularisation/MaxPooling2DLayer.hpp
@@ -38,6 +38,7 @@ public:
 
         // Output shape retains the number of channels
         TensorType output({batchSize, inputChannels, outputHeight, outputWidth});
+        outputShape = output.getShape();
 
         for (int n = 0; n < batchSize; ++n) {
             for (int ic = 0; ic < inputChannels; ++ic) {  // Ensure channel is retained
@@ -60,6 +61,10 @@ public:
         TensorType& tensorValue = *input;
         TensorType gradInput(tensorValue.getShape(), 0.0f);
 
+        if (gradOutput.getShape() != *outputShape) {
+            throw std::invalid_argument("MaxPooling2DLayer: gradient must have the shape of the output");
+        }
+
         int batchSize = tensorValue.getShape()[0];
         int inputChannels = tensorValue.getShape()[1];
         int outputHeight = gradOutput.getShape()[2];
@@ -83,6 +88,7 @@ private:
     int stride;
     int padding;
     std::optional<TensorType> input;
+    std::optional<Shape> outputShape;
 
     std::tuple<T, int, int> findMaxInPoolWindow(const TensorType& tensor, int n, int ic, int oh, int ow) {
         T maxVal = -std::numeric_limits<T>::infinity();
-- 
2.43.0


From fc6a868e46262008417e684716bc940e7be52ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:36 +0000
Subject: [PATCH 24/56] fix: keep the shape of the running statistics for 4-D
 batches

---
 smart_dnn/Regularisation/BatchNormalizationLayer.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/smart_dnn/Regularisation/BatchNormalizationLayer.hpp b/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
index 0fdd581..48468e8 100644
--- a/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
+++ b/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
@@ -40,8 +40,9 @@ public:
             normalizedInput = (input - reshapedMean) / (reshapedVariance + epsilon).sqrt();
             TensorType output = (*normalizedInput * reshapedGamma) + reshapedBeta;
 
-            runningMean = (momentum * runningMean) + ((1 - momentum) * (*batchMean));
-            runningVariance = (momentum * runningVariance) + ((1 - momentum) * (*batchVariance));
+            // Statistics of 4-D input have shape (1, C, 1, 1); the running ones keep shape (1, C)
+            runningMean = (momentum * runningMean) + ((1 - momentum) * reshapeForBroadcast(*batchMean, runningMean.getShape()));
+            runningVariance = (momentum * runningVariance) + ((1 - momentum) * reshapeForBroadcast(*batchVariance, runningVariance.getShape()));
 
             return output;
         } else {
-- 
2.43.0


From 4c45cff657aac1571920077ec92fddb16d88526e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:42 +0000
Subject: [PATCH 25/56] fix: differentiate batch normalisation correctly

---
 smart_dnn/Regularisation/BatchNormalizationLayer.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/smart_dnn/Regularisation/BatchNormalizationLayer.hpp b/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
index 48468e8..121cdf6 100644
--- a/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
+++ b/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
@@ -63,7 +63,8 @@ public:
 
         const auto& inputShape = gradOutput.getShape();
         
-        int batchSize = inputShape[0];
+        // Number of elements each statistic was computed from
+        int count = static_cast<int>(inputShape.size()) / inputShape[1];
         std::vector<size_t> reductionAxes = (inputShape.rank() == 4) ? std::vector<size_t>{0, 2, 3} : std::vector<size_t>{0};
 
         TensorType reshapedGamma = reshapeForBroadcast(gamma, inputShape);
@@ -79,7 +80,8 @@ public:
         
         TensorType dVariance = AdvancedTensorOperations<T>::sum(dNormalized * (*normalizedInput), reductionAxes);
         dVariance = reshapeForBroadcast(dVariance, invStdDev.getShape());
-        dVariance = dVariance * T(-0.5) * invStdDev * invStdDev * invStdDev;
+        // normalizedInput already carries one factor of invStdDev
+        dVariance = dVariance * T(-0.5) * invStdDev * invStdDev;
         dVariance = reshapeForBroadcast(dVariance, inputShape);
         
         TensorType dMean = AdvancedTensorOperations<T>::sum(dNormalized * invStdDev * T(-1), reductionAxes);
@@ -87,8 +89,8 @@ public:
 
         
         TensorType dInput = dNormalized * invStdDev +
-                            dVariance * T(2) * (*normalizedInput) / T(batchSize) +
-                            dMean / T(batchSize);
+                            dVariance * T(2) * (*normalizedInput * stdDev) / T(count) +
+                            dMean / T(count);
 
         gammaGrad = dGamma;
         betaGrad = dBeta;
@@ -124,7 +126,7 @@ private:
 
     TensorType reshapeForBroadcast(const TensorType& tensor, const Shape& targetShape) {
         std::vector<int> newShape(targetShape.rank(), 1);
-        newShape[1] = tensor.getShape()[1];  // Preserve the channel dimension
+        newShape[1] = static_cast<int>(tensor.getShape().size());  // One value per channel
         
         // For 2D input, we need to keep the first dimension as 1 to allow broadcasting
         if (targetShape.rank() == 2) {
-- 
2.43.0


From fb3bc2b5be4b01b16f7a470c5c508af3d2a8d334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:47 +0000
Subject: [PATCH 26/56] fix: reject batch normalisation gradients of another
 shape than the input

---
 smart_dnn/Regularisation/BatchNormalizationLayer.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/smart_dnn/Regularisation/BatchNormalizationLayer.hpp b/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
index 121cdf6..741acbe 100644
--- a/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
+++ b/smart_dnn/Regularisation/BatchNormalizationLayer.hpp
@@ -61,6 +61,10 @@ public:
             throw std::runtime_error("BatchNormalizationLayer: forward must be called before backward");
         }
 
+        if (gradOutput.getShape() != normalizedInput->getShape()) {
+            throw std::invalid_argument("BatchNormalizationLayer: gradient must have the shape of the input");
+        }
+
         const auto& inputShape = gradOutput.getShape();
         
         // Number of elements each statistic was computed from
-- 
2.43.0


From 0e3bc836d1a0fcf904ed23e4dbd5a5ed03fc512b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:33 +0000
Subject: [PATCH 27/56] fix: convolve over all input channels with stride,
 padding and dilation

---
 smart_dnn/Layers/Conv2DLayer.hpp | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/smart_dnn/Layers/Conv2DLayer.hpp b/smart_dnn/Layers/Conv2DLayer.hpp
index 7ffb815..d3dbe54 100644
--- a/smart_dnn/Layers/Conv2DLayer.hpp
+++ b/smart_dnn/Layers/Conv2DLayer.hpp
@@ -43,8 +43,15 @@ public:
         int inputHeight = input.getShape()[2];
         int inputWidth = input.getShape()[3];
         
-        int outputHeight = inputHeight - kernelHeight + 1;
-        int outputWidth = inputWidth - kernelWidth + 1;
+        int coveredHeight = inputHeight + 2 * padding - dilation * (kernelHeight - 1) - 1;
+        int coveredWidth = inputWidth + 2 * padding - dilation * (kernelWidth - 1) - 1;
+
+        if (coveredHeight < 0 || coveredWidth < 0) {
+            throw std::invalid_argument("Conv2DLayer: kernel does not fit the padded input of shape " + input.getShape().toString());
+        }
+
+        int outputHeight = coveredHeight / stride + 1;
+        int outputWidth = coveredWidth / stride + 1;
 
         TensorType output({batchSize, outputChannels, outputHeight, outputWidth});
 
@@ -56,13 +63,17 @@ public:
             for (int oc = 0; oc < outputChannels; ++oc) {
                 for (int oh = 0; oh < outputHeight; ++oh) {
                     for (int ow = 0; ow < outputWidth; ++ow) {
-                        float sum = 0.0f;
-                        for (int kh = 0; kh < kernelHeight; ++kh) {
-                            for (int kw = 0; kw < kernelWidth; ++kw) {
-                                int ih = oh + kh;
-                                int iw = ow + kw;
-                                sum += inputData.at({b, 0, ih, iw}) * 
-                                    weightData.at({oc, 0, kh, kw});
+                        T sum = T(0);
+                        for (int ic = 0; ic < inputChannels; ++ic) {
+                            for (int kh = 0; kh < kernelHeight; ++kh) {
+                                int ih = oh * stride + kh * dilation - padding;
+                                if (ih < 0 || ih >= inputHeight) continue;
+                                for (int kw = 0; kw < kernelWidth; ++kw) {
+                                    int iw = ow * stride + kw * dilation - padding;
+                                    if (iw < 0 || iw >= inputWidth) continue;
+                                    sum += inputData.at({b, ic, ih, iw}) *
+                                        weightData.at({oc, ic, kh, kw});
+                                }
                             }
                         }
                         sum += biasData.at({oc, 0});
-- 
2.43.0


From c1add8c58cd695a92bd5d2e359fc7cb9504de106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:39 +0000
Subject: [PATCH 28/56] fix: compute convolution gradients for every batch
 element and channel

---
 smart_dnn/Layers/Conv2DLayer.hpp | 42 +++++++++++++-------------------
 1 file changed, 17 insertions(+), 25 deletions(-)

diff --git a/smart_dnn/Layers/Conv2DLayer.hpp b/smart_dnn/Layers/Conv2DLayer.hpp
index d3dbe54..479bbc5 100644
--- a/smart_dnn/Layers/Conv2DLayer.hpp
+++ b/smart_dnn/Layers/Conv2DLayer.hpp
@@ -108,35 +108,27 @@ public:
         this->weightGradients = TensorType::zeros(weightsShape);
         this->biasGradients = TensorType::zeros((*biases).getShape());
 
-        // Compute bias gradients
-        for (int oh = 0; oh < gradOutputShape[2]; ++oh) {
-            for (int ow = 0; ow < gradOutputShape[3]; ++ow) {
-                biasGradients->getData()[0] += gradOutput.at({0, 0, oh, ow});
-            }
-        }
+        TensorType gradInput(inputShape, T(0));
 
-        // Compute weight gradients
-        for (int kh = 0; kh < kernelHeight; ++kh) {
-            for (int kw = 0; kw < kernelWidth; ++kw) {
-                float sum = 0.0f;
+        for (int b = 0; b < gradOutputShape[0]; ++b) {
+            for (int oc = 0; oc < outputChannels; ++oc) {
                 for (int oh = 0; oh < gradOutputShape[2]; ++oh) {
                     for (int ow = 0; ow < gradOutputShape[3]; ++ow) {
-                        sum += inputTensor.at({0, 0, oh+kh, ow+kw}) * gradOutput.at({0, 0, oh, ow});
-                    }
-                }
-                weightGradients->at({0, 0, kh, kw}) = sum;
-            }
-        }
+                        T grad = gradOutput.at({b, oc, oh, ow});
+                        biasGradients->at({oc, 0}) += grad;
 
-        // Compute input gradients
-        TensorType gradInput(inputShape, 0.0f);
-        for (int oh = 0; oh < gradOutputShape[2]; ++oh) {
-            for (int ow = 0; ow < gradOutputShape[3]; ++ow) {
-                for (int kh = 0; kh < kernelHeight; ++kh) {
-                    for (int kw = 0; kw < kernelWidth; ++kw) {
-                        int ih = oh + kh;
-                        int iw = ow + kw;
-                        gradInput.at({0, 0, ih, iw}) += weightsTensor.at({0, 0, kh, kw}) * gradOutput.at({0, 0, oh, ow});
+                        for (int ic = 0; ic < inputChannels; ++ic) {
+                            for (int kh = 0; kh < kernelHeight; ++kh) {
+                                int ih = oh * stride + kh * dilation - padding;
+                                if (ih < 0 || ih >= inputShape[2]) continue;
+                                for (int kw = 0; kw < kernelWidth; ++kw) {
+                                    int iw = ow * stride + kw * dilation - padding;
+                                    if (iw < 0 || iw >= inputShape[3]) continue;
+                                    weightGradients->at({oc, ic, kh, kw}) += inputTensor.at({b, ic, ih, iw}) * grad;
+                                    gradInput.at({b, ic, ih, iw}) += weightsTensor.at({oc, ic, kh, kw}) * grad;
+                                }
+                            }
+                        }
                     }
                 }
             }
-- 
2.43.0


From 1133acae8656973eced514fa714ed90a98da264f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:45 +0000
Subject: [PATCH 29/56] fix: reject convolution gradients of another shape than
 the output

---
 smart_dnn/Layers/Conv2DLayer.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/smart_dnn/Layers/Conv2DLayer.hpp b/smart_dnn/Layers/Conv2DLayer.hpp
index 479bbc5..771a4e0 100644
--- a/smart_dnn/Layers/Conv2DLayer.hpp
+++ b/smart_dnn/Layers/Conv2DLayer.hpp
@@ -36,9 +36,6 @@ public:
         assert(input.getShape().rank() == 4 && "Input must be 4D (batch, channels, height, width)");
         assert(input.getShape()[1] == inputChannels && "Input channels must match layer's input channels");
 
-        // Store the input for use in backward pass
-        this->input = input;
-
         int batchSize = input.getShape()[0];
         int inputHeight = input.getShape()[2];
         int inputWidth = input.getShape()[3];
@@ -55,6 +52,10 @@ public:
 
         TensorType output({batchSize, outputChannels, outputHeight, outputWidth});
 
+        // Store the input and output shape for use in backward pass
+        this->input = input;
+        outputShape = output.getShape();
+
         const auto& weightData = weights->getData();
         const auto& biasData = biases->getData();
         const auto& inputData = input.getData();
@@ -104,6 +105,10 @@ public:
         Shape weightsShape = weightsTensor.getShape();
         Shape gradOutputShape = gradOutput.getShape();
 
+        if (gradOutputShape != *outputShape) {
+            throw std::invalid_argument("Conv2DLayer: gradient must have the shape of the output");
+        }
+
         // Initialize gradients
         this->weightGradients = TensorType::zeros(weightsShape);
         this->biasGradients = TensorType::zeros((*biases).getShape());
@@ -180,6 +185,7 @@ private:
     std::optional<TensorType> weights;
     std::optional<TensorType> biases;
     std::optional<TensorType> input;
+    std::optional<Shape> outputShape;
     std::optional<TensorType> weightGradients;
     std::optional<TensorType> biasGradients;
     
-- 
2.43.0


From a18e0734a8503b7a486256d5a82de72ee62e25cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:53 +0000
Subject: [PATCH 30/56] fix: reject convolution inputs of the wrong rank or
 channel count with an exception

---
 smart_dnn/Layers/Conv2DLayer.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/smart_dnn/Layers/Conv2DLayer.hpp b/smart_dnn/Layers/Conv2DLayer.hpp
index 771a4e0..34eb29f 100644
--- a/smart_dnn/Layers/Conv2DLayer.hpp
+++ b/smart_dnn/Layers/Conv2DLayer.hpp
@@ -4,7 +4,6 @@
 #include <vector>
 #include <cmath>
 #include <iostream>
-#include <cassert>
 #include "smart_dnn/Layer.hpp"
 #include "smart_dnn/Tensor/Tensor.hpp"
 #include "smart_dnn/Optimizer.hpp"
@@ -33,8 +32,12 @@ public:
     
     */
     TensorType forward(const TensorType& input) override {
-        assert(input.getShape().rank() == 4 && "Input must be 4D (batch, channels, height, width)");
-        assert(input.getShape()[1] == inputChannels && "Input channels must match layer's input channels");
+        if (input.getShape().rank() != 4) {
+            throw std::invalid_argument("Conv2DLayer: input must be 4D (batch, channels, height, width)");
+        }
+        if (input.getShape()[1] != inputChannels) {
+            throw std::invalid_argument("Conv2DLayer: input channels must match the layer's input channels");
+        }
 
         int batchSize = input.getShape()[0];
         int inputHeight = input.getShape()[2];
-- 
2.43.0


From b5a13367844196ae0bea8ae27012ef8d8aefaa10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:02 +0000
Subject: [PATCH 31/56] fix: keep optimizer state with the parameter tensor

---
 smart_dnn/Optimizers/RMSPropOptimizer.hpp | 8 ++++----
 smart_dnn/Optimizers/SGDOptimizer.hpp     | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/smart_dnn/Optimizers/RMSPropOptimizer.hpp b/smart_dnn/Optimizers/RMSPropOptimizer.hpp
index a4c0397..23056a3 100644
--- a/smart_dnn/Optimizers/RMSPropOptimizer.hpp
+++ b/smart_dnn/Optimizers/RMSPropOptimizer.hpp
@@ -51,10 +51,10 @@ private:
         T* weightMutableData = weight.getData().data();
         
         size_t size = weight.getShape().size();
-        auto weightsPtr = reinterpret_cast<uintptr_t>(weightData);
+        auto weightsPtr = reinterpret_cast<uintptr_t>(&weight);
         
         // Get or create squared gradients buffer
-        if (squaredGrads.find(weightsPtr) == squaredGrads.end()) {
+        if (squaredGrads.find(weightsPtr) == squaredGrads.end() || squaredGrads[weightsPtr]->getShape() != weight.getShape()) {
             squaredGrads[weightsPtr] = std::make_shared<Tensor<T>>(weight.getShape(), T(0));
         }
         auto& sqGrads = *squaredGrads[weightsPtr];
@@ -64,7 +64,7 @@ private:
         std::shared_ptr<Tensor<T>> meanGradsPtr = nullptr;
         T* meanGradsData = nullptr;
         if (centered) {
-            if (meanGrads.find(weightsPtr) == meanGrads.end()) {
+            if (meanGrads.find(weightsPtr) == meanGrads.end() || meanGrads[weightsPtr]->getShape() != weight.getShape()) {
                 meanGrads[weightsPtr] = std::make_shared<Tensor<T>>(weight.getShape(), T(0));
             }
             meanGradsPtr = meanGrads[weightsPtr];
@@ -75,7 +75,7 @@ private:
         std::shared_ptr<Tensor<T>> velocityPtr = nullptr;
         T* velocityData = nullptr;
         if (momentum > T(0)) {
-            if (velocityBuffers.find(weightsPtr) == velocityBuffers.end()) {
+            if (velocityBuffers.find(weightsPtr) == velocityBuffers.end() || velocityBuffers[weightsPtr]->getShape() != weight.getShape()) {
                 velocityBuffers[weightsPtr] = std::make_shared<Tensor<T>>(weight.getShape(), T(0));
             }
             velocityPtr = velocityBuffers[weightsPtr];
diff --git a/smart_dnn/Optimizers/SGDOptimizer.hpp b/smart_dnn/Optimizers/SGDOptimizer.hpp
index 79a6006..71921b8 100644
--- a/smart_dnn/Optimizers/SGDOptimizer.hpp
+++ b/smart_dnn/Optimizers/SGDOptimizer.hpp
@@ -51,10 +51,10 @@ private:
         size_t size = weight.getShape().size();
         
         // Get or create momentum buffer for this tensor
-        auto weightsPtr = reinterpret_cast<uintptr_t>(weightData);
+        auto weightsPtr = reinterpret_cast<uintptr_t>(&weight);
         
         // Check if momentum buffer exists, create if it doesn't
-        if (momentumBuffers.find(weightsPtr) == momentumBuffers.end()) {
+        if (momentumBuffers.find(weightsPtr) == momentumBuffers.end() || momentumBuffers[weightsPtr]->getShape() != weight.getShape()) {
             momentumBuffers[weightsPtr] = std::make_shared<Tensor<T>>(weight.getShape(), T(0));
         }
         
-- 
2.43.0


From 224ba41a50b316db9a0b1ffac993163b25058e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:08 +0000
Subject: [PATCH 32/56] fix: restart Adam state when a parameter has another
 shape than its state

---
 smart_dnn/Optimizers/AdamOptimizer.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/smart_dnn/Optimizers/AdamOptimizer.hpp b/smart_dnn/Optimizers/AdamOptimizer.hpp
index 0d43303..a92bb62 100644
--- a/smart_dnn/Optimizers/AdamOptimizer.hpp
+++ b/smart_dnn/Optimizers/AdamOptimizer.hpp
@@ -93,9 +93,9 @@ private:
     }
 
     void initializeMomentEstimates(size_t key, const Shape& shape) {
-        if (m.find(key) == m.end()) {
-            m.emplace(key, Tensor<T>(shape, T(0)));
-            v.emplace(key, Tensor<T>(shape, T(0)));
+        if (m.find(key) == m.end() || m.at(key).getShape() != shape) {
+            m.insert_or_assign(key, Tensor<T>(shape, T(0)));
+            v.insert_or_assign(key, Tensor<T>(shape, T(0)));
         }
     }
 
-- 
2.43.0


From f1b744151e6086e3f1035d8866fe2442d1ba6177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:12 +0000
Subject: [PATCH 33/56] fix: reject gradients of another size than their
 weights in SGD

---
 smart_dnn/Optimizers/SGDOptimizer.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/smart_dnn/Optimizers/SGDOptimizer.hpp b/smart_dnn/Optimizers/SGDOptimizer.hpp
index 71921b8..f472f79 100644
--- a/smart_dnn/Optimizers/SGDOptimizer.hpp
+++ b/smart_dnn/Optimizers/SGDOptimizer.hpp
@@ -34,6 +34,11 @@ public:
         if (weights.size() != gradients.size()) {
             throw std::invalid_argument("Weights and gradients size mismatch!");
         }
+        for (size_t i = 0; i < weights.size(); ++i) {
+            if (weights[i].get().getShape().size() != gradients[i].get().getShape().size()) {
+                throw std::invalid_argument("Weight and gradient tensors differ in size!");
+            }
+        }
 
         T currentLR = (learningRateOverride > T(0)) ? learningRateOverride : learningRate;
 
-- 
2.43.0


From 8eb6b72cbd7f28b2e4f388f7f5e58ed8d1c8b281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:16 +0000
Subject: [PATCH 34/56] fix: reject gradients of another size than their
 weights in RMSProp

---
 smart_dnn/Optimizers/RMSPropOptimizer.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/smart_dnn/Optimizers/RMSPropOptimizer.hpp b/smart_dnn/Optimizers/RMSPropOptimizer.hpp
index 23056a3..4659861 100644
--- a/smart_dnn/Optimizers/RMSPropOptimizer.hpp
+++ b/smart_dnn/Optimizers/RMSPropOptimizer.hpp
@@ -36,6 +36,11 @@ public:
         if (weights.size() != gradients.size()) {
             throw std::invalid_argument("Weights and gradients size mismatch!");
         }
+        for (size_t i = 0; i < weights.size(); ++i) {
+            if (weights[i].get().getShape().size() != gradients[i].get().getShape().size()) {
+                throw std::invalid_argument("Weight and gradient tensors differ in size!");
+            }
+        }
 
         T currentLR = (learningRateOverride > T(0)) ? learningRateOverride : learningRate;
 
-- 
2.43.0


From 776884c1dddb3a3837520f2444f8f203ae697a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:22 +0000
Subject: [PATCH 35/56] fix: reject gradients of another size than their
 weights in Adam

---
 smart_dnn/Optimizers/AdamOptimizer.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/smart_dnn/Optimizers/AdamOptimizer.hpp b/smart_dnn/Optimizers/AdamOptimizer.hpp
index a92bb62..7d6d738 100644
--- a/smart_dnn/Optimizers/AdamOptimizer.hpp
+++ b/smart_dnn/Optimizers/AdamOptimizer.hpp
@@ -41,6 +41,11 @@ public:
         if (weights.size() != gradients.size()) {
             throw std::invalid_argument("Weights and gradients size mismatch!");
         }
+        for (size_t i = 0; i < weights.size(); ++i) {
+            if (weights[i].get().getShape().size() != gradients[i].get().getShape().size()) {
+                throw std::invalid_argument("Weight and gradient tensors differ in size!");
+            }
+        }
 
         updateLearningRate(learningRateOverride);
 
-- 
2.43.0


From 69dfc0e30088eef95a107d76e14c703994f9b3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:25 +0000
Subject: [PATCH 36/56] fix: keep the centred RMSProp variance non-negative

---
 smart_dnn/Optimizers/RMSPropOptimizer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smart_dnn/Optimizers/RMSPropOptimizer.hpp b/smart_dnn/Optimizers/RMSPropOptimizer.hpp
index 4659861..3430506 100644
--- a/smart_dnn/Optimizers/RMSPropOptimizer.hpp
+++ b/smart_dnn/Optimizers/RMSPropOptimizer.hpp
@@ -104,7 +104,7 @@ private:
                 meanGradsData[j] = alpha * meanGradsData[j] + (T(1) - alpha) * grad;
                 
                 // Centered RMSProp: denominator = sqrt(sq_avg - mean_avg^2 + epsilon)
-                T variance = sqGradsData[j] - meanGradsData[j] * meanGradsData[j];
+                T variance = std::max(T(0), sqGradsData[j] - meanGradsData[j] * meanGradsData[j]);
                 denom = std::sqrt(variance + epsilon);
             } else {
                 // Standard RMSProp: denominator = sqrt(sq_avg + epsilon)
-- 
2.43.0


From 15e9fee6a1ccf400fe9b5a265b71167b9a0d598d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:17 +0000
Subject: [PATCH 37/56] fix: correct the Adam moments for bias only once

---
 smart_dnn/Optimizers/AdamOptimizer.hpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/smart_dnn/Optimizers/AdamOptimizer.hpp b/smart_dnn/Optimizers/AdamOptimizer.hpp
index 7d6d738..ff033c1 100644
--- a/smart_dnn/Optimizers/AdamOptimizer.hpp
+++ b/smart_dnn/Optimizers/AdamOptimizer.hpp
@@ -81,10 +81,6 @@ private:
         size_t key = reinterpret_cast<size_t>(&weight);
         initializeMomentEstimates(key, weight.getShape());
 
-        T beta1Power = std::max(T(std::pow(beta1, iterations)), std::numeric_limits<T>::min());
-        T beta2Power = std::max(T(std::pow(beta2, iterations)), std::numeric_limits<T>::min());
-        T alphaT = learningRate * std::sqrt(T(1) - beta2Power) / (T(1) - beta1Power);
-
         size_t size = weight.getShape().size();
         T* weightData = weight.getData().data();
         const T* gradientData = gradient.getData().data();
@@ -93,7 +89,7 @@ private:
 
         #pragma omp parallel for if(size > 1000)
         for (size_t j = 0; j < size; ++j) {
-            updateParameter(weightData[j], gradientData[j], mData[j], vData[j], alphaT);
+            updateParameter(weightData[j], gradientData[j], mData[j], vData[j]);
         }
     }
 
@@ -104,7 +100,7 @@ private:
         }
     }
 
-    void updateParameter(T& weight, const T& gradient, T& mValue, T& vValue, T alphaT) {
+    void updateParameter(T& weight, const T& gradient, T& mValue, T& vValue) {
         // Average the gradient over the batch
         T averagedGradient = gradient / static_cast<T>(batchSize);
 
@@ -117,7 +113,7 @@ private:
         // Compute update
         T mHat = mValue / (T(1) - std::pow(beta1, iterations));
         T vHat = vValue / (T(1) - std::pow(beta2, iterations));
-        T update = alphaT * mHat / (std::sqrt(vHat) + epsilon);
+        T update = learningRate * mHat / (std::sqrt(vHat) + epsilon);
 
         // Apply L1 and L2 regularization
         if (l1Strength > T(0)) {
-- 
2.43.0


From 03d39ca8a660cae5e88a9b97665a1c2da8f32a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:24 +0000
Subject: [PATCH 38/56] fix: count Adam updates per parameter

---
 smart_dnn/Optimizers/AdamOptimizer.hpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/smart_dnn/Optimizers/AdamOptimizer.hpp b/smart_dnn/Optimizers/AdamOptimizer.hpp
index ff033c1..12c181b 100644
--- a/smart_dnn/Optimizers/AdamOptimizer.hpp
+++ b/smart_dnn/Optimizers/AdamOptimizer.hpp
@@ -32,7 +32,6 @@ public:
           l1Strength(options.l1Strength),
           l2Strength(options.l2Strength),
           decay(options.decay),
-          iterations(0),
           batchSize(options.batchSize) {}
 
     void optimize(const std::vector<std::reference_wrapper<Tensor<T>>>& weights,
@@ -47,10 +46,8 @@ public:
             }
         }
 
-        updateLearningRate(learningRateOverride);
-
         for (size_t i = 0; i < weights.size(); ++i) {
-            updateTensor(weights[i].get(), gradients[i].get());
+            updateTensor(weights[i].get(), gradients[i].get(), learningRateOverride);
         }
     }
 
@@ -63,13 +60,12 @@ private:
     T l1Strength;
     T l2Strength;
     T decay;
-    int iterations;
     int batchSize;
     std::unordered_map<size_t, Tensor<T>> m; // First moment estimate 
     std::unordered_map<size_t, Tensor<T>> v; // Second moment estimate
+    std::unordered_map<size_t, int> steps;   // Updates received
 
-    void updateLearningRate(T learningRateOverride) {
-        iterations++;
+    void updateLearningRate(int iterations, T learningRateOverride) {
         if (learningRateOverride <= T(0)) {
             learningRate = initialLearningRate * (decay > 0 ? (T(1) / (T(1) + decay * iterations)) : 1);
         } else {
@@ -77,10 +73,14 @@ private:
         }
     }
 
-    void updateTensor(Tensor<T>& weight, const Tensor<T>& gradient) {
+    void updateTensor(Tensor<T>& weight, const Tensor<T>& gradient, T learningRateOverride) {
         size_t key = reinterpret_cast<size_t>(&weight);
         initializeMomentEstimates(key, weight.getShape());
 
+        // Every parameter counts its own updates
+        const int iterations = ++steps.at(key);
+        updateLearningRate(iterations, learningRateOverride);
+
         size_t size = weight.getShape().size();
         T* weightData = weight.getData().data();
         const T* gradientData = gradient.getData().data();
@@ -89,7 +89,7 @@ private:
 
         #pragma omp parallel for if(size > 1000)
         for (size_t j = 0; j < size; ++j) {
-            updateParameter(weightData[j], gradientData[j], mData[j], vData[j]);
+            updateParameter(weightData[j], gradientData[j], mData[j], vData[j], iterations);
         }
     }
 
@@ -97,10 +97,11 @@ private:
         if (m.find(key) == m.end() || m.at(key).getShape() != shape) {
             m.insert_or_assign(key, Tensor<T>(shape, T(0)));
             v.insert_or_assign(key, Tensor<T>(shape, T(0)));
+            steps[key] = 0;
         }
     }
 
-    void updateParameter(T& weight, const T& gradient, T& mValue, T& vValue) {
+    void updateParameter(T& weight, const T& gradient, T& mValue, T& vValue, int iterations) {
         // Average the gradient over the batch
         T averagedGradient = gradient / static_cast<T>(batchSize);
 
-- 
2.43.0


From b547cc81b6dfca4be3acdd18f139e8ef68b399df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:28 +0000
Subject: [PATCH 39/56] fix: validate the dataset and compilation before
 training

---
 smart_dnn/SmartDNN/SmartDNN.impl.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/smart_dnn/SmartDNN/SmartDNN.impl.hpp b/smart_dnn/SmartDNN/SmartDNN.impl.hpp
index 27d3ce6..72a019d 100644
--- a/smart_dnn/SmartDNN/SmartDNN.impl.hpp
+++ b/smart_dnn/SmartDNN/SmartDNN.impl.hpp
@@ -28,6 +28,16 @@ Layer<T>* SmartDNN<T>::getLayer(size_t index) const {
 
 template <typename T>
 void SmartDNN<T>::train(const std::vector<Tensor<T>>& inputs, const std::vector<Tensor<T>>& targets, int epochs) {
+    if (inputs.size() != targets.size()) {
+        throw std::invalid_argument("Number of inputs and targets must match");
+    }
+    if (inputs.empty()) {
+        throw std::invalid_argument("Training requires at least one sample");
+    }
+    if (!lossFunction || !optimizer) {
+        throw std::runtime_error("Model must be compiled before training");
+    }
+
     for (int epoch = 0; epoch < epochs; ++epoch) {
         Tensor<T> totalLoss{Shape({1}), T(0)};
         size_t inputSize = inputs.size();
-- 
2.43.0


From 8f7d57d7fa2958dd2b65346d9ad888fcfab57f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:35 +0000
Subject: [PATCH 40/56] fix: give every transpose iteration its own index
 vectors

---
 smart_dnn/Tensor/AdvancedTensorOperations.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/smart_dnn/Tensor/AdvancedTensorOperations.hpp b/smart_dnn/Tensor/AdvancedTensorOperations.hpp
index f80f97c..d03c5ed 100644
--- a/smart_dnn/Tensor/AdvancedTensorOperations.hpp
+++ b/smart_dnn/Tensor/AdvancedTensorOperations.hpp
@@ -226,12 +226,13 @@ class AdvancedTensorOperations<T, CPUDevice> {
         std::swap(oldToNew[dim0], oldToNew[dim1]);
 
         // Iterate through all elements and place them in their new positions
-        std::vector<int> oldIndices(rank, 0);
-        std::vector<int> newIndices(rank, 0);
         size_t totalSize = shape.size();
 
         #pragma omp parallel for
         for (size_t i = 0; i < totalSize; ++i) {
+            std::vector<int> oldIndices(rank, 0);
+            std::vector<int> newIndices(rank, 0);
+
             // Calculate old indices
             size_t temp = i;
             for (int d = static_cast<int>(rank) - 1; d >= 0; --d) {
-- 
2.43.0


From dc4d3f84ddc545196220dcb1d33c1abc10dfaec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:43 +0000
Subject: [PATCH 41/56] fix: draw random tensors on one thread

---
 smart_dnn/Tensor/TensorOperations.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smart_dnn/Tensor/TensorOperations.hpp b/smart_dnn/Tensor/TensorOperations.hpp
index 4f7f206..9c039b6 100644
--- a/smart_dnn/Tensor/TensorOperations.hpp
+++ b/smart_dnn/Tensor/TensorOperations.hpp
@@ -301,8 +301,8 @@ public:
 
     static TensorData<T, CPUDevice> createRandom(const Shape& shape, T min, T max){
         TensorData<T, CPUDevice> result(shape);
-        
-        #pragma omp parallel for
+
+        // The random engine is shared: draw in element order, on one thread
         for (size_t i = 0; i < result.size(); ++i) {
             result[i] = RandomEngine::getHeRandRange(shape.size(), min, max);
         }
-- 
2.43.0


From 255ca7bc41b575001147319ee2116b1be2db725a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:49 +0000
Subject: [PATCH 42/56] fix: clamp random elements to the bounds in the element
 type

---
 smart_dnn/Tensor/TensorOperations.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/smart_dnn/Tensor/TensorOperations.hpp b/smart_dnn/Tensor/TensorOperations.hpp
index 9c039b6..d177d32 100644
--- a/smart_dnn/Tensor/TensorOperations.hpp
+++ b/smart_dnn/Tensor/TensorOperations.hpp
@@ -304,7 +304,9 @@ public:
 
         // The random engine is shared: draw in element order, on one thread
         for (size_t i = 0; i < result.size(); ++i) {
-            result[i] = RandomEngine::getHeRandRange(shape.size(), min, max);
+            // The engine works in float: clamp again to the bounds as given
+            T value = static_cast<T>(RandomEngine::getHeRandRange(shape.size(), min, max));
+            result[i] = std::min(std::max(value, min), max);
         }
 
         return result;
-- 
2.43.0


From ef15ae89a2cd8122e41547cf6ac4466db3f42ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:52 +0000
Subject: [PATCH 43/56] fix: allow sample datasets without noise

---
 smart_dnn/Datasets/SampleGenerator.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/smart_dnn/Datasets/SampleGenerator.hpp b/smart_dnn/Datasets/SampleGenerator.hpp
index a84114e..d53abe0 100644
--- a/smart_dnn/Datasets/SampleGenerator.hpp
+++ b/smart_dnn/Datasets/SampleGenerator.hpp
@@ -15,11 +15,11 @@ std::pair<std::vector<Tensor<float>>, std::vector<Tensor<float>>> generateLinear
     std::random_device rd;
     std::mt19937 gen(rd());
     std::uniform_real_distribution<> input_dist(0, 100.0);
-    std::normal_distribution<> noise_dist(0, noise); 
+    std::normal_distribution<> noise_dist(0, 1); 
 
     for (int i = 0; i < num_samples; ++i) {
         float x = input_dist(gen);
-        float y = 2.0f * x + 3.0f + noise_dist(gen);
+        float y = 2.0f * x + 3.0f + noise * noise_dist(gen);
 
         Tensor input(Shape{1}, x); 
         Tensor target(Shape{1}, y);
@@ -37,7 +37,7 @@ std::pair<std::vector<Tensor<float>>, std::vector<Tensor<float>>> generateBatche
     std::random_device rd;
     std::mt19937 gen(rd());
     std::uniform_real_distribution<> input_dist(0, 100.0);
-    std::normal_distribution<> noise_dist(0, noise);
+    std::normal_distribution<> noise_dist(0, 1);
 
     int num_batches = (num_samples + batch_size - 1) / batch_size;  // Ceiling division
 
@@ -49,7 +49,7 @@ std::pair<std::vector<Tensor<float>>, std::vector<Tensor<float>>> generateBatche
 
         for (int i = 0; i < current_batch_size; ++i) {
             float x = input_dist(gen);
-            float y = 2.0f * x + 3.0f + noise_dist(gen);
+            float y = 2.0f * x + 3.0f + noise * noise_dist(gen);
 
             input_batch.at({i, 0}) = x;
             target_batch.at({i, 0}) = y;
-- 
2.43.0


From 3a5c9f937cbd156d9dbf017085fdd678142859dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:56 +0000
Subject: [PATCH 44/56] fix: reject truncated MNIST files and requests for more
 samples than present

---
 smart_dnn/Datasets/MNistLoader.hpp | 46 ++++++++++++++++++++++++------
 1 file changed, 37 insertions(+), 9 deletions(-)

diff --git a/smart_dnn/Datasets/MNistLoader.hpp b/smart_dnn/Datasets/MNistLoader.hpp
index 01c204d..1de7865 100644
--- a/smart_dnn/Datasets/MNistLoader.hpp
+++ b/smart_dnn/Datasets/MNistLoader.hpp
@@ -66,13 +66,15 @@ private:
         int numRows = readInt(file);
         int numCols = readInt(file);
 
-        if (numSamples != -1) {
-            numImages = numSamples;
-        }
-
         if (magicNumber != 2051) {
             throw std::runtime_error("Invalid magic number in MNIST image file!");
         }
+        if (numImages < 0 || numRows <= 0 || numCols <= 0) {
+            throw std::runtime_error("Invalid dimensions in MNIST image file!");
+        }
+
+        numImages = limitSamples(numImages);
+        requireBytes(file, numImages, static_cast<size_t>(numRows) * static_cast<size_t>(numCols));
         
         std::vector<TensorType> images;
         for (int i = 0; i < numImages; i += batchSize) {
@@ -104,13 +106,15 @@ private:
         int magicNumber = readInt(file);
         int numLabels = readInt(file);
 
-        if (numSamples != -1) {
-            numLabels = numSamples;
-        }
-
         if (magicNumber != 2049) {
             throw std::runtime_error("Invalid magic number in MNIST label file!");
         }
+        if (numLabels < 0) {
+            throw std::runtime_error("Invalid number of labels in MNIST label file!");
+        }
+
+        numLabels = limitSamples(numLabels);
+        requireBytes(file, numLabels, 1);
 
         std::vector<TensorType> labels;
         for (int i = 0; i < numLabels; i += batchSize) {
@@ -127,9 +131,33 @@ private:
         return labels;
     }
 
+    // Number of samples to load out of those available in a file
+    int limitSamples(int available) const {
+        if (numSamples == -1) {
+            return available;
+        }
+        if (numSamples > available) {
+            throw std::runtime_error("Requested " + std::to_string(numSamples) + " samples but the MNIST file has " + std::to_string(available));
+        }
+        return numSamples;
+    }
+
+    // Check that count records of recordSize bytes follow the current position
+    void requireBytes(std::ifstream& file, int count, size_t recordSize) const {
+        const auto position = file.tellg();
+        file.seekg(0, std::ios::end);
+        const size_t remaining = static_cast<size_t>(file.tellg() - position);
+        file.seekg(position);
+        if (count > 0 && remaining / recordSize < static_cast<size_t>(count)) {
+            throw std::runtime_error("Unexpected end of MNIST file!");
+        }
+    }
+
     int readInt(std::ifstream& file) {
         unsigned char buffer[4];
-        file.read(reinterpret_cast<char*>(buffer), 4);
+        if (!file.read(reinterpret_cast<char*>(buffer), 4)) {
+            throw std::runtime_error("Unexpected end of MNIST file!");
+        }
         return (buffer[0] << 24) | (buffer[1] << 16) | (buffer[2] << 8) | buffer[3];
     }
 };
-- 
2.43.0


From e59bdb40452d4fb0f8d777a2934ac6ae43658afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:00 +0000
Subject: [PATCH 45/56] fix: reject fully connected gradients of another shape
 than the output

---
 smart_dnn/Layers/FullyConnectedLayer.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/smart_dnn/Layers/FullyConnectedLayer.hpp b/smart_dnn/Layers/FullyConnectedLayer.hpp
index 5c1b5e1..d2e6aec 100644
--- a/smart_dnn/Layers/FullyConnectedLayer.hpp
+++ b/smart_dnn/Layers/FullyConnectedLayer.hpp
@@ -70,6 +70,10 @@ public:
             reshapedGradOutput = AdvancedTensorOperations<T>::reshape(gradOutput, {1, gradOutput.getShape()[0]});
         }
 
+        if (reshapedGradOutput.getShape() != Shape({inputTensor.getShape()[0], biases->getShape()[1]})) {
+            throw std::invalid_argument("FullyConnectedLayer: gradient must have the shape of the output");
+        }
+
         // Calculate weight gradients
         TensorType inputTransposed = AdvancedTensorOperations<T>::transpose(inputTensor, 0, 1); // Shape: (input_size, batch_size)
         weightGradients.emplace(AdvancedTensorOperations<T>::matmul(inputTransposed, reshapedGradOutput)); // Shape: (input_size, output_size)
-- 
2.43.0


From f0025592b0d91a68a7aa6856ba47a4c2725b9e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:20 +0000
Subject: [PATCH 46/56] fix: MaxPooling2DLayer keeps no input from a rejected
 forward pass

---
 smart_dnn/Regularisation/MaxPooling2DLayer.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/smart_dnn/Regularisation/MaxPooling2DLayer.hpp b/smart_dnn/Regularisation/MaxPooling2DLayer.hpp
index bed8deb..dad6eaa 100644
--- a/smart_dnn/Regularisation/MaxPooling2DLayer.hpp
+++ b/smart_dnn/Regularisation/MaxPooling2DLayer.hpp
@@ -21,8 +21,6 @@ public:
             throw std::runtime_error("MaxPooling2DLayer: input tensor must have rank 4");
         }
 
-        this->input = input;
-
         int batchSize = input.getShape()[0];
         int inputChannels = input.getShape()[1];  // Number of channels should remain unchanged
         int inputHeight = input.getShape()[2];
@@ -38,6 +36,7 @@ public:
 
         // Output shape retains the number of channels
         TensorType output({batchSize, inputChannels, outputHeight, outputWidth});
+        this->input = input;
         outputShape = output.getShape();
 
         for (int n = 0; n < batchSize; ++n) {
-- 
2.43.0


From ab518ad25269bd73a52e4f0311117a6fc4a241dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:27 +0000
Subject: [PATCH 47/56] fix: FullyConnectedLayer keeps no input from a rejected
 forward pass

---
 smart_dnn/Layers/FullyConnectedLayer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smart_dnn/Layers/FullyConnectedLayer.hpp b/smart_dnn/Layers/FullyConnectedLayer.hpp
index d2e6aec..1594a60 100644
--- a/smart_dnn/Layers/FullyConnectedLayer.hpp
+++ b/smart_dnn/Layers/FullyConnectedLayer.hpp
@@ -30,13 +30,13 @@ public:
     */
     
     TensorType forward(const TensorType& input) override {
-        this->input = input;
         TensorType reshapedInput = input;
         if (input.getShape().rank() == 1) {
             reshapedInput = AdvancedTensorOperations<T>::reshape(input, {1, input.getShape()[0]});
         }
         TensorType output = AdvancedTensorOperations<T>::matmul(reshapedInput, *weights);
         output = output + *biases;
+        this->input = input;
 
         if (input.getShape().rank() == 1) {
             output = AdvancedTensorOperations<T>::reshape(output, {output.getShape()[1]});
-- 
2.43.0


From 0586b4e6ddcf67bacd066aeb618f74eb88286304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:30 +0000
Subject: [PATCH 48/56] fix: ActivationLayer keeps no input from a rejected
 forward pass

---
 smart_dnn/Layers/ActivationLayer.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/smart_dnn/Layers/ActivationLayer.hpp b/smart_dnn/Layers/ActivationLayer.hpp
index 42f8642..2ba1f8e 100644
--- a/smart_dnn/Layers/ActivationLayer.hpp
+++ b/smart_dnn/Layers/ActivationLayer.hpp
@@ -17,8 +17,9 @@ public:
         : activation(std::make_unique<std::decay_t<ActivationType>>(std::forward<ActivationType>(activation))) {}
 
     TensorType forward(const TensorType& input) override {
+        TensorType output = activation->forward(input);
         this->input = input;
-        return activation->forward(input);
+        return output;
     }
 
     TensorType backward(const TensorType& gradOutput) override {
-- 
2.43.0


From b61da031d0fc749205d58f419cf23b721cea3fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:33 +0000
Subject: [PATCH 49/56] fix: SmartDNN::updateWeights rejects an uncompiled
 model

---
 smart_dnn/SmartDNN/SmartDNN.impl.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/smart_dnn/SmartDNN/SmartDNN.impl.hpp b/smart_dnn/SmartDNN/SmartDNN.impl.hpp
index 72a019d..dede0f7 100644
--- a/smart_dnn/SmartDNN/SmartDNN.impl.hpp
+++ b/smart_dnn/SmartDNN/SmartDNN.impl.hpp
@@ -16,6 +16,10 @@ void SmartDNN<T>::backward(const Tensor<T>& gradOutput) {
 
 template <typename T>
 void SmartDNN<T>::updateWeights() {
+    if (!optimizer) {
+        throw std::runtime_error("Model must be compiled before updating weights");
+    }
+
     for (auto& layer : layers) {
         layer->updateWeights(*optimizer);
     }
-- 
2.43.0


From c076745a898422cfca9e81db18ed10819ecec2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:03 +0000
Subject: [PATCH 50/56] fix: reject slice views that start past the end of a
 dimension

---
 smart_dnn/Tensor/SliceView.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smart_dnn/Tensor/SliceView.hpp b/smart_dnn/Tensor/SliceView.hpp
index dfe90fb..7d659d0 100644
--- a/smart_dnn/Tensor/SliceView.hpp
+++ b/smart_dnn/Tensor/SliceView.hpp
@@ -65,7 +65,7 @@ public:
             if (end < 0) end += tensor.shape()[i];
             if (end > tensor.shape()[i]) end = tensor.shape()[i];
 
-            start = std::max(0, std::min(start, tensor.shape()[i] - 1));
+            start = std::max(0, std::min(start, tensor.shape()[i]));
             end = std::max(start, std::min(end, tensor.shape()[i]));
 
             start_indices_.push_back(start);
-- 
2.43.0


From 8b24981b49c21463c4c8c8eabd14b23ce215efc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:16 +0000
Subject: [PATCH 51/56] fix: the batched dataset generator takes every positive
 batch size and rejects others

---
 smart_dnn/Datasets/SampleGenerator.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/smart_dnn/Datasets/SampleGenerator.hpp b/smart_dnn/Datasets/SampleGenerator.hpp
index d53abe0..71eaba8 100644
--- a/smart_dnn/Datasets/SampleGenerator.hpp
+++ b/smart_dnn/Datasets/SampleGenerator.hpp
@@ -4,6 +4,7 @@
 #include <iostream>
 #include <vector>
 #include <random>
+#include <stdexcept>
 #include "smart_dnn/Tensor/Tensor.hpp"
 
 namespace smart_dnn {
@@ -31,6 +32,10 @@ std::pair<std::vector<Tensor<float>>, std::vector<Tensor<float>>> generateLinear
 }
 
 std::pair<std::vector<Tensor<float>>, std::vector<Tensor<float>>> generateBatchedLinearDataset(int num_samples, int batch_size, float noise=1.0) {
+    if (batch_size <= 0) {
+        throw std::invalid_argument("Batch size must be positive!");
+    }
+
     std::vector<Tensor<float>> input_batches;
     std::vector<Tensor<float>> target_batches;
 
@@ -39,7 +44,7 @@ std::pair<std::vector<Tensor<float>>, std::vector<Tensor<float>>> generateBatche
     std::uniform_real_distribution<> input_dist(0, 100.0);
     std::normal_distribution<> noise_dist(0, 1);
 
-    int num_batches = (num_samples + batch_size - 1) / batch_size;  // Ceiling division
+    int num_batches = num_samples / batch_size + (num_samples % batch_size > 0 ? 1 : 0);  // Ceiling division
 
     for (int batch = 0; batch < num_batches; ++batch) {
         int current_batch_size = std::min(batch_size, num_samples - batch * batch_size);
-- 
2.43.0


From 047dc23c42e4faa2301d73caeee3712de5c4c413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:37 +0000
Subject: [PATCH 52/56] fix: copies of SGD and RMSProp optimizers no longer
 share their momentum and average buffers

---
 smart_dnn/Optimizers/RMSPropOptimizer.hpp | 28 ++++++++++-------------
 smart_dnn/Optimizers/SGDOptimizer.hpp     |  8 +++----
 2 files changed, 16 insertions(+), 20 deletions(-)

diff --git a/smart_dnn/Optimizers/RMSPropOptimizer.hpp b/smart_dnn/Optimizers/RMSPropOptimizer.hpp
index 3430506..af5282f 100644
--- a/smart_dnn/Optimizers/RMSPropOptimizer.hpp
+++ b/smart_dnn/Optimizers/RMSPropOptimizer.hpp
@@ -59,32 +59,28 @@ private:
         auto weightsPtr = reinterpret_cast<uintptr_t>(&weight);
         
         // Get or create squared gradients buffer
-        if (squaredGrads.find(weightsPtr) == squaredGrads.end() || squaredGrads[weightsPtr]->getShape() != weight.getShape()) {
-            squaredGrads[weightsPtr] = std::make_shared<Tensor<T>>(weight.getShape(), T(0));
+        if (squaredGrads.find(weightsPtr) == squaredGrads.end() || squaredGrads.at(weightsPtr).getShape() != weight.getShape()) {
+            squaredGrads.insert_or_assign(weightsPtr, Tensor<T>(weight.getShape(), T(0)));
         }
-        auto& sqGrads = *squaredGrads[weightsPtr];
+        auto& sqGrads = squaredGrads.at(weightsPtr);
         T* sqGradsData = sqGrads.getData().data();
         
         // For centered RMSProp, also track the mean of gradients
-        std::shared_ptr<Tensor<T>> meanGradsPtr = nullptr;
         T* meanGradsData = nullptr;
         if (centered) {
-            if (meanGrads.find(weightsPtr) == meanGrads.end() || meanGrads[weightsPtr]->getShape() != weight.getShape()) {
-                meanGrads[weightsPtr] = std::make_shared<Tensor<T>>(weight.getShape(), T(0));
+            if (meanGrads.find(weightsPtr) == meanGrads.end() || meanGrads.at(weightsPtr).getShape() != weight.getShape()) {
+                meanGrads.insert_or_assign(weightsPtr, Tensor<T>(weight.getShape(), T(0)));
             }
-            meanGradsPtr = meanGrads[weightsPtr];
-            meanGradsData = meanGradsPtr->getData().data();
+            meanGradsData = meanGrads.at(weightsPtr).getData().data();
         }
         
         // For momentum, track velocity buffer
-        std::shared_ptr<Tensor<T>> velocityPtr = nullptr;
         T* velocityData = nullptr;
         if (momentum > T(0)) {
-            if (velocityBuffers.find(weightsPtr) == velocityBuffers.end() || velocityBuffers[weightsPtr]->getShape() != weight.getShape()) {
-                velocityBuffers[weightsPtr] = std::make_shared<Tensor<T>>(weight.getShape(), T(0));
+            if (velocityBuffers.find(weightsPtr) == velocityBuffers.end() || velocityBuffers.at(weightsPtr).getShape() != weight.getShape()) {
+                velocityBuffers.insert_or_assign(weightsPtr, Tensor<T>(weight.getShape(), T(0)));
             }
-            velocityPtr = velocityBuffers[weightsPtr];
-            velocityData = velocityPtr->getData().data();
+            velocityData = velocityBuffers.at(weightsPtr).getData().data();
         }
         
         for (size_t j = 0; j < size; ++j) {
@@ -133,9 +129,9 @@ private:
     T weightDecay;
     
     // Store state buffers for each tensor (identified by memory address)
-    std::unordered_map<uintptr_t, std::shared_ptr<Tensor<T>>> squaredGrads;
-    std::unordered_map<uintptr_t, std::shared_ptr<Tensor<T>>> meanGrads;      // For centered RMSProp
-    std::unordered_map<uintptr_t, std::shared_ptr<Tensor<T>>> velocityBuffers; // For momentum
+    std::unordered_map<uintptr_t, Tensor<T>> squaredGrads;
+    std::unordered_map<uintptr_t, Tensor<T>> meanGrads;      // For centered RMSProp
+    std::unordered_map<uintptr_t, Tensor<T>> velocityBuffers; // For momentum
 };
 
 } // namespace smart_dnn
diff --git a/smart_dnn/Optimizers/SGDOptimizer.hpp b/smart_dnn/Optimizers/SGDOptimizer.hpp
index f472f79..45bad61 100644
--- a/smart_dnn/Optimizers/SGDOptimizer.hpp
+++ b/smart_dnn/Optimizers/SGDOptimizer.hpp
@@ -59,11 +59,11 @@ private:
         auto weightsPtr = reinterpret_cast<uintptr_t>(&weight);
         
         // Check if momentum buffer exists, create if it doesn't
-        if (momentumBuffers.find(weightsPtr) == momentumBuffers.end() || momentumBuffers[weightsPtr]->getShape() != weight.getShape()) {
-            momentumBuffers[weightsPtr] = std::make_shared<Tensor<T>>(weight.getShape(), T(0));
+        if (momentumBuffers.find(weightsPtr) == momentumBuffers.end() || momentumBuffers.at(weightsPtr).getShape() != weight.getShape()) {
+            momentumBuffers.insert_or_assign(weightsPtr, Tensor<T>(weight.getShape(), T(0)));
         }
         
-        auto& momentumBuffer = *momentumBuffers[weightsPtr];
+        auto& momentumBuffer = momentumBuffers.at(weightsPtr);
         
         T* momentumData = momentumBuffer.getData().data();
         
@@ -100,7 +100,7 @@ private:
     bool nesterov;
     
     // Store momentum buffers for each tensor (identified by memory address)
-    std::unordered_map<uintptr_t, std::shared_ptr<Tensor<T>>> momentumBuffers;
+    std::unordered_map<uintptr_t, Tensor<T>> momentumBuffers;
 };
 
 } // namespace smart_dnn
-- 
2.43.0


From 203b8010e38f1af506a5975061d1ddbb9eaf3bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:41 +0000
Subject: [PATCH 53/56] fix: SmartDNN::getLayer rejects an index past the last
 layer

---
 smart_dnn/SmartDNN/SmartDNN.impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smart_dnn/SmartDNN/SmartDNN.impl.hpp b/smart_dnn/SmartDNN/SmartDNN.impl.hpp
index dede0f7..688dbbd 100644
--- a/smart_dnn/SmartDNN/SmartDNN.impl.hpp
+++ b/smart_dnn/SmartDNN/SmartDNN.impl.hpp
@@ -27,7 +27,7 @@ void SmartDNN<T>::updateWeights() {
 
 template <typename T>
 Layer<T>* SmartDNN<T>::getLayer(size_t index) const {
-    return layers[index].get();
+    return layers.at(index).get();
 }
 
 template <typename T>
-- 
2.43.0


From e0ba5fdf29956e4e9bc1ff0863a074733ffca9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:47 +0000
Subject: [PATCH 54/56] fix: creating a tensor that does not fit into memory
 throws instead of ending the program

---
 smart_dnn/Tensor/Tensor.hpp             | 6 +++---
 smart_dnn/Tensor/Tensor.impl.hpp        | 6 +++---
 smart_dnn/Tensor/TensorData.hpp         | 4 ++--
 smart_dnn/Tensor/TensorDataCPU.impl.hpp | 4 ++--
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/smart_dnn/Tensor/Tensor.hpp b/smart_dnn/Tensor/Tensor.hpp
index 5d10153..8336f23 100644
--- a/smart_dnn/Tensor/Tensor.hpp
+++ b/smart_dnn/Tensor/Tensor.hpp
@@ -13,9 +13,9 @@ namespace smart_dnn {
 template <typename T=float, typename DeviceType=CPUDevice>
 class Tensor {
 public:
-    Tensor(Shape dimensions) noexcept;
-    Tensor(Shape dimensions, T value) noexcept;
-    Tensor(const TensorData<T, DeviceType>& data) noexcept;
+    Tensor(Shape dimensions);
+    Tensor(Shape dimensions, T value);
+    Tensor(const TensorData<T, DeviceType>& data);
     Tensor(TensorData<T, DeviceType>&& data) noexcept;
     Tensor(Shape dimensions, const T* dataArray);
     Tensor(const Tensor& other);
diff --git a/smart_dnn/Tensor/Tensor.impl.hpp b/smart_dnn/Tensor/Tensor.impl.hpp
index 5075e83..c07d385 100644
--- a/smart_dnn/Tensor/Tensor.impl.hpp
+++ b/smart_dnn/Tensor/Tensor.impl.hpp
@@ -6,16 +6,16 @@ namespace smart_dnn {
 #define TEMPLATE_TENSOR template <typename T, typename DeviceType>
 
 TEMPLATE_TENSOR
-Tensor<T, DeviceType>::Tensor(Shape dimensions) noexcept : data_(dimensions) {}
+Tensor<T, DeviceType>::Tensor(Shape dimensions) : data_(dimensions) {}
 
 TEMPLATE_TENSOR
-Tensor<T, DeviceType>::Tensor(Shape dimensions, T value) noexcept : data_(dimensions, value) {}
+Tensor<T, DeviceType>::Tensor(Shape dimensions, T value) : data_(dimensions, value) {}
 
 TEMPLATE_TENSOR
 Tensor<T, DeviceType>::Tensor(Shape dimensions, const T* dataArray) : data_(dimensions, dataArray) {}
 
 TEMPLATE_TENSOR
-Tensor<T, DeviceType>::Tensor(const TensorData<T, DeviceType>& data) noexcept : data_(data) {}
+Tensor<T, DeviceType>::Tensor(const TensorData<T, DeviceType>& data) : data_(data) {}
 
 TEMPLATE_TENSOR
 Tensor<T, DeviceType>::Tensor(TensorData<T, DeviceType>&& data) noexcept : data_(std::move(data)) {}
diff --git a/smart_dnn/Tensor/TensorData.hpp b/smart_dnn/Tensor/TensorData.hpp
index 247d8d7..af265cc 100644
--- a/smart_dnn/Tensor/TensorData.hpp
+++ b/smart_dnn/Tensor/TensorData.hpp
@@ -17,8 +17,8 @@ class TensorData;
 template <typename T>
 class TensorData<T, CPUDevice> {
 public:
-    explicit TensorData(Shape dimensions) noexcept;
-    TensorData(Shape dimensions, T value) noexcept;
+    explicit TensorData(Shape dimensions);
+    TensorData(Shape dimensions, T value);
     TensorData(Shape dimensions, const T* data);
     TensorData(Shape dimensions, T* data) noexcept; // used for slicing.
     TensorData(const TensorData& other);
diff --git a/smart_dnn/Tensor/TensorDataCPU.impl.hpp b/smart_dnn/Tensor/TensorDataCPU.impl.hpp
index 71a069e..2216b58 100644
--- a/smart_dnn/Tensor/TensorDataCPU.impl.hpp
+++ b/smart_dnn/Tensor/TensorDataCPU.impl.hpp
@@ -8,13 +8,13 @@ namespace smart_dnn {
 #define TENSOR_DATA_CPU TensorData<T, CPUDevice>
 
 TEMPLATE_TENSOR
-TENSOR_DATA_CPU::TensorData(Shape dimensions) noexcept 
+TENSOR_DATA_CPU::TensorData(Shape dimensions)
     : shape_(std::move(dimensions)), data_(std::make_unique<T[]>(shape_.size())) {
         std::fill(data_.get(), data_.get() + shape_.size(), T{});
     }
 
 TEMPLATE_TENSOR
-TENSOR_DATA_CPU::TensorData(Shape dimensions, T value) noexcept 
+TENSOR_DATA_CPU::TensorData(Shape dimensions, T value)
     : shape_(dimensions), data_(std::make_unique<T[]>(dimensions.size())) {
     std::fill_n(data_.get(), shape_.size(), value);
 }
-- 
2.43.0


From ffd1d92fbb5778b732acc83523b270c9b45244c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:56 +0000
Subject: [PATCH 55/56] fix: a tensor assignment that runs out of memory leaves
 the target as it was

---
 smart_dnn/Tensor/TensorDataCPU.impl.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/smart_dnn/Tensor/TensorDataCPU.impl.hpp b/smart_dnn/Tensor/TensorDataCPU.impl.hpp
index 2216b58..3e007c2 100644
--- a/smart_dnn/Tensor/TensorDataCPU.impl.hpp
+++ b/smart_dnn/Tensor/TensorDataCPU.impl.hpp
@@ -59,9 +59,11 @@ TENSOR_DATA_CPU::TensorData(Shape dimensions, std::vector<T>&& values)
 TEMPLATE_TENSOR
 TENSOR_DATA_CPU& TENSOR_DATA_CPU::operator=(const TENSOR_DATA_CPU& other) {
     if (this != &other) {
+        // Get the memory first: the tensor keeps its elements when there is none
+        std::unique_ptr<T[]> copy(new T[other.shape_.size()]);
+        std::copy_n(other.data_.get(), other.shape_.size(), copy.get());
         shape_ = other.shape_;
-        data_.reset(new T[shape_.size()]);
-        std::copy_n(other.data_.get(), shape_.size(), data_.get());
+        data_ = std::move(copy);
     }
     return *this;
 }
-- 
2.43.0


From 0c5337122887ca3f29ead3bae177a8bac847aa0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:04 +0000
Subject: [PATCH 56/56] fix: Adam can update a parameter after its first update
 ran out of memory

---
 smart_dnn/Optimizers/AdamOptimizer.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/smart_dnn/Optimizers/AdamOptimizer.hpp b/smart_dnn/Optimizers/AdamOptimizer.hpp
index 12c181b..9a209f5 100644
--- a/smart_dnn/Optimizers/AdamOptimizer.hpp
+++ b/smart_dnn/Optimizers/AdamOptimizer.hpp
@@ -95,9 +95,11 @@ private:
 
     void initializeMomentEstimates(size_t key, const Shape& shape) {
         if (m.find(key) == m.end() || m.at(key).getShape() != shape) {
-            m.insert_or_assign(key, Tensor<T>(shape, T(0)));
-            v.insert_or_assign(key, Tensor<T>(shape, T(0)));
+            // m last: it marks the state as complete
+            m.erase(key);
             steps[key] = 0;
+            v.insert_or_assign(key, Tensor<T>(shape, T(0)));
+            m.insert_or_assign(key, Tensor<T>(shape, T(0)));
         }
     }
 
-- 
2.43.0

