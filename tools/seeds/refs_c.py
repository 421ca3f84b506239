REFS = [
 dict(id='mnist_helper', props='C20', edits=[('Datasets/MNistLoader.hpp','''    unsigned char readByte(std::ifstream& file) {''','''    int batchCount(int begin, int total) const {
        const int left = total - begin;
        return left < batchSize ? left : batchSize;
    }

    unsigned char readByte(std::ifstream& file) {'''),('Datasets/MNistLoader.hpp','int currentBatchSize = std::min(batchSize, numImages - i); // Handle last batch size','int currentBatchSize = batchCount(i, numImages);'),('Datasets/MNistLoader.hpp','int currentBatchSize = std::min(batchSize, numLabels - i); // Handle last batch size','int currentBatchSize = batchCount(i, numLabels);')]),
 dict(id='mnist_local', props='C20', edits=[('Datasets/MNistLoader.hpp','''                        image.at({j, 0, k, l}) = pixel / T(255); // Normalize pixel values
                        if (image.at({j, 0, k, l}) < 0 || image.at({j, 0, k, l}) > 1) {
                            throw std::runtime_error("Pixel value out of range: " + std::to_string(image.at({j, 0, k, l})));
                        }''','''                        const T value = static_cast<T>(pixel) / T(255);
                        if (value < T(0) || value > T(1)) {
                            throw std::runtime_error("Pixel value out of range: " + std::to_string(value));
                        }
                        image.at({j, 0, k, l}) = value;''')]),
 dict(id='mnist_magic_first', props='C20', edits=[('Datasets/MNistLoader.hpp','''        int numLabels = readInt(file);

        if (numSamples != -1) {
            numLabels = numSamples;
        }

        if (magicNumber != 2049) {
            throw std::runtime_error("Invalid magic number in MNIST label file!");
        }
''','''        if (magicNumber != 2049) {
            throw std::runtime_error("Invalid magic number in MNIST label file!");
        }

        const int storedLabels = readInt(file);
        const int numLabels = numSamples != -1 ? numSamples : storedLabels;
''')]),
 dict(id='mnist_shift_loop', props='C20', edits=[('Datasets/MNistLoader.hpp','        return (buffer[0] << 24) | (buffer[1] << 16) | (buffer[2] << 8) | buffer[3];','''        int value = 0;
        for (int i = 0; i < 4; ++i) {
            value = (value << 8) | buffer[i];
        }
        return value;''')]),
 dict(id='mnist_open', props='C20', edits=[('Datasets/MNistLoader.hpp','''        std::ifstream file(imagesPath, std::ios::binary);
        if (!file.is_open()) {
            throw std::runtime_error("Failed to open file: " + imagesPath);
        }''','''        std::ifstream file = openFile(imagesPath);'''),('Datasets/MNistLoader.hpp','''    unsigned char readByte(std::ifstream& file) {''','''    std::ifstream openFile(const std::string& path) {
        std::ifstream file(path, std::ios::binary);
        if (!file.is_open()) {
            throw std::runtime_error("Failed to open file: " + path);
        }
        return file;
    }

    unsigned char readByte(std::ifstream& file) {''')]),
 dict(id='tensordata_copy_loop', props='C07 C21', edits=[('Tensor/TensorDataCPU.impl.hpp','''        shape_ = other.shape_;
        data_.reset(new T[shape_.size()]);
        std::copy_n(other.data_.get(), shape_.size(), data_.get());''','''        const size_t count = other.shape_.size();
        auto copy = std::make_unique<T[]>(count);
        for (size_t i = 0; i < count; ++i) {
            copy[i] = other.data_[i];
        }
        data_ = std::move(copy);
        shape_ = other.shape_;'''),('Tensor/TensorDataCPU.impl.hpp','std::fill_n(data_.get(), shape_.size(), value);','std::fill(data_.get(), data_.get() + shape_.size(), value);')]),
 dict(id='equal_loop', props='C07', edits=[('Tensor/TensorDataCPU.impl.hpp','    return shape_ == other.shape_ && std::equal(data_.get(), data_.get() + shape_.size(), other.data_.get());','''    if (shape_ != other.shape_) {
        return false;
    }
    for (size_t i = 0; i < shape_.size(); ++i) {
        if (data_[i] != other.data_[i]) {
            return false;
        }
    }
    return true;''')]),
 dict(id='shape_validate_any', props='C01', edits=[('Shape/Shape.hpp','''        for (int dim : dims) {
            if (dim <= 0) {
                throw std::invalid_argument("Dimensions must be positive integers. Got: " + toString());
            }
        }''','''        for (size_t i = 0; i < dims.size(); ++i) {
            if (dims[i] < 1) {
                throw std::invalid_argument("Dimensions must be positive integers. Got: " + toString());
            }
        }''')]),
 dict(id='shape_copy_swap', props='C01', edits=[('Shape/Shape.hpp','''        if (this != &other) {
            _dimensions = other._dimensions;
            _size = other._size;
            _stride = other._stride;  
        }
        return *this;''','''        if (this == &other) {
            return *this;
        }
        Shape copy(other);
        std::swap(_dimensions, copy._dimensions);
        std::swap(_stride, copy._stride);
        _size = copy._size;
        return *this;''')]),
 dict(id='sum_axis_strides', props='C05', edits=[('Tensor/TensorOperations.hpp','''            std::vector<int> result_indices;
            for (size_t j = 0; j < tensor.shape().rank(); ++j) {
                if (j != axis) {
                    result_indices.push_back(indices[j]);
                }
            }
''','''            std::vector<int> result_indices(indices);
            result_indices.erase(result_indices.begin() + axis);
''')]),
 dict(id='sqrt_transform', props='C04', edits=[('Tensor/TensorOperations.hpp','''        auto result_it = result.begin();
        for (const auto& value : tensor) {
            *result_it = std::sqrt(value);
            ++result_it;
        }
        return result;''','''        std::transform(tensor.begin(), tensor.end(), result.begin(), [](T value) { return std::sqrt(value); });
        return result;'''),('Tensor/TensorOperations.hpp','''        auto tensor_it = tensor.begin();
        for (auto& value : tensor) {
            value = std::sqrt(value);
            ++tensor_it;
        }''','''        for (auto& value : tensor) {
            value = std::sqrt(value);
        }''')]),
 dict(id='reciprocal_if', props='C05 C15', edits=[('Tensor/AdvancedTensorOperations.hpp','return apply(tensor, [epsilon](T x) { return (std::abs(x) > epsilon) ? (T(1) / x) : (T(1) / epsilon); });','''return apply(tensor, [epsilon](T x) {
            if (std::abs(x) <= epsilon) {
                return T(1) / epsilon;
            }
            return T(1) / x;
        });''')]),
 dict(id='variance_index', props='C05 C15', edits=[('Tensor/AdvancedTensorOperations.hpp','''        for (size_t i = 0; i < result.getData().size(); ++i) {
            result.getData()[i] = summedSquaredDiff.getData()[i] / T(totalElements);
        }
''','''        const T factor = T(1) / T(totalElements);
        T* out = result.getData().data();
        const T* in = summedSquaredDiff.getData().data();
        for (size_t i = 0; i < result.getData().size(); ++i) {
            out[i] = in[i] * factor;
        }
'''),('Tensor/AdvancedTensorOperations.hpp','            *squaredDiffIt = (*tensorIt - *broadcastIt) * (*tensorIt - *broadcastIt);','            const T diff = *tensorIt - *broadcastIt;\n            *squaredDiffIt = diff * diff;')]),
 dict(id='matmul_2d3d_order', props='C06', edits=[('Tensor/AdvancedTensorOperations.hpp','''        for (int n = 0; n < batchSize; ++n) {
            for (int i = 0; i < outFeatures; ++i) {
                for (int j = 0; j < sequenceLength; ++j) {''','''        for (int i = 0; i < outFeatures; ++i) {
            for (int n = 0; n < batchSize; ++n) {
                for (int j = 0; j < sequenceLength; ++j) {''')]),
 dict(id='batched_indices_hoist', props='C06', edits=[('Tensor/AdvancedTensorOperations.hpp','''                    for (int k = 0; k < shapeA[rank - 1]; ++k) {
                        std::vector<int> aIndices = batchIndices;
                        aIndices.push_back(i);
                        aIndices.push_back(k);

                        std::vector<int> bIndices = batchIndices;
                        bIndices.push_back(k);
                        bIndices.push_back(j);
''','''                    std::vector<int> aIndices = batchIndices;
                    aIndices.push_back(i);
                    aIndices.push_back(0);
                    std::vector<int> bIndices = batchIndices;
                    bIndices.push_back(0);
                    bIndices.push_back(j);
                    for (int k = 0; k < shapeA[rank - 1]; ++k) {
                        aIndices[rank - 1] = k;
                        bIndices[rank - 2] = k;
''')]),
 dict(id='conv_tap_helper', props='C12', edits=[('Layers/Conv2DLayer.hpp','''    void initializeWeights() {''','''    bool tap(int o, int k, int size, int& at) const {
        at = o * stride + k * dilation - padding;
        return at >= 0 && at < size;
    }

    void initializeWeights() {'''),('Layers/Conv2DLayer.hpp','''                                    int ih = oh * stride + kh * dilation - padding;
                                    int iw = ow * stride + kw * dilation - padding;
                                    if (ih < 0 || ih >= inputHeight || iw < 0 || iw >= inputWidth) continue;
                                    sum += inputData.at({b, ic, ih, iw}) * 
                                        weightData.at({oc, ic, kh, kw});''','''                                    int ih = 0, iw = 0;
                                    if (!tap(oh, kh, inputHeight, ih) || !tap(ow, kw, inputWidth, iw)) continue;
                                    sum += inputData.at({b, ic, ih, iw}) * weightData.at({oc, ic, kh, kw});''')]),
 dict(id='conv_row_skip', props='C12', edits=[('Layers/Conv2DLayer.hpp','''                            for (int kh = 0; kh < kernelHeight; ++kh) {
                                for (int kw = 0; kw < kernelWidth; ++kw) {
                                    int ih = oh * stride + kh * dilation - padding;
                                    int iw = ow * stride + kw * dilation - padding;
                                    if (ih < 0 || ih >= inputShape[2] || iw < 0 || iw >= inputShape[3]) continue;
                                    gradInput.at({b, ic, ih, iw}) += weightsTensor.at({oc, ic, kh, kw}) * gradOutput.at({b, oc, oh, ow});''','''                            const T g = gradOutput.at({b, oc, oh, ow});
                            for (int kh = 0; kh < kernelHeight; ++kh) {
                                const int ih = oh * stride + kh * dilation - padding;
                                if (ih < 0 || ih >= inputShape[2]) continue;
                                for (int kw = 0; kw < kernelWidth; ++kw) {
                                    const int iw = ow * stride + kw * dilation - padding;
                                    if (iw < 0 || iw >= inputShape[3]) continue;
                                    gradInput.at({b, ic, ih, iw}) += g * weightsTensor.at({oc, ic, kh, kw});''')]),
 dict(id='pool_struct', props='C13', edits=[('Regularisation/MaxPooling2DLayer.hpp','''                        auto [maxVal, maxIh, maxIw] = findMaxInPoolWindow(input, n, ic, oh, ow);
                        output.at({n, ic, oh, ow}) = maxVal;''','''                        const auto window = findMaxInPoolWindow(input, n, ic, oh, ow);
                        output.at({n, ic, oh, ow}) = std::get<0>(window);'''),('Regularisation/MaxPooling2DLayer.hpp','''                if (val > maxVal) {
                    maxVal = val;
                    maxIh = ih;
                    maxIw = iw;
                }''','''                if (!(maxVal < val)) continue;
                maxVal = val;
                maxIh = ih;
                maxIw = iw;''')]),
 dict(id='bn_split', props='C15', edits=[('Regularisation/BatchNormalizationLayer.hpp','''        TensorType dInput = dNormalized * invStdDev +
                            dVariance * T(2) * (*normalizedInput) / T(batchSize) +
                            dMean / T(batchSize);
''','''        const T scale = T(1) / T(batchSize);
        TensorType dInput = dNormalized * invStdDev;
        dInput += dMean * scale;
        dInput += (dVariance * (*normalizedInput)) * (T(2) * scale);
''')]),
 dict(id='dropout_loop', props='C16', edits=[('Regularisation/DropoutLayer.hpp','''            (*mask).apply([this](T) { return T(RandomEngine::getRand()) >= dropoutRate ? T(1) : T(0); });
            return input * (*mask) * (T(1) / (T(1) - dropoutRate));''','''            T* maskData = mask->getData().data();
            for (size_t i = 0; i < input.getShape().size(); ++i) {
                const bool keep = T(RandomEngine::getRand()) >= dropoutRate;
                maskData[i] = keep ? T(1) : T(0);
            }
            return (input * (*mask)) / (T(1) - dropoutRate);''')]),
 dict(id='fc_as2d', props='C11', edits=[('Layers/FullyConnectedLayer.hpp','''        TensorType inputTensor = *input;

        // Ensure input is 2D
        if (inputTensor.getShape().rank() == 1)
            inputTensor = AdvancedTensorOperations<T>::reshape(inputTensor, {1, inputTensor.getShape()[0]});

        // Ensure gradOutput is 2D (for non-batched input case)
        TensorType reshapedGradOutput = gradOutput;
        if (gradOutput.getShape().rank() == 1) {
            reshapedGradOutput = AdvancedTensorOperations<T>::reshape(gradOutput, {1, gradOutput.getShape()[0]});
        }
''','''        const TensorType inputTensor = asMatrix(*input);
        const TensorType reshapedGradOutput = asMatrix(gradOutput);
'''),('Layers/FullyConnectedLayer.hpp','''private:
    std::optional<TensorType> weights;''','''private:
    static TensorType asMatrix(const TensorType& tensor) {
        if (tensor.getShape().rank() != 1) {
            return tensor;
        }
        return AdvancedTensorOperations<T>::reshape(tensor, Shape({1, tensor.getShape()[0]}));
    }

    std::optional<TensorType> weights;''')]),
 dict(id='sgd_early', props='C17', edits=[('Optimizers/SGDOptimizer.hpp','''        if (momentumBuffers.find(weightsPtr) == momentumBuffers.end() || momentumBuffers[weightsPtr]->getShape() != weight.getShape()) {
            momentumBuffers[weightsPtr] = std::make_shared<Tensor<T>>(weight.getShape(), T(0));
        }
        
        auto& momentumBuffer = *momentumBuffers[weightsPtr];''','''        std::shared_ptr<Tensor<T>>& slot = momentumBuffers[weightsPtr];
        if (!slot || slot->getShape() != weight.getShape()) {
            slot = std::make_shared<Tensor<T>>(weight.getShape(), T(0));
        }

        auto& momentumBuffer = *slot;'''),('Optimizers/SGDOptimizer.hpp','''                if (nesterov) {
                    // Nesterov momentum: grad = grad + momentum * v
                    grad = grad + momentum * momentumData[j];
                } else {
                    // Standard momentum: grad = v
                    grad = momentumData[j];
                }''','''                grad = nesterov ? grad + momentum * momentumData[j] : momentumData[j];''')]),
 dict(id='adam_state', props='C17', edits=[('Optimizers/AdamOptimizer.hpp','''            T l1Grad = (weight > T(0)) ? T(1) : ((weight < T(0)) ? T(-1) : T(0));
            update += learningRate * l1Strength * l1Grad;''','''            T l1Grad = T(0);
            if (weight > T(0)) {
                l1Grad = T(1);
            } else if (weight < T(0)) {
                l1Grad = T(-1);
            }
            update += learningRate * (l1Strength * l1Grad);'''),('Optimizers/AdamOptimizer.hpp','''        iterations++;
        if (learningRateOverride <= T(0)) {
            learningRate = initialLearningRate * (decay > 0 ? (T(1) / (T(1) + decay * iterations)) : 1);
        } else {
            learningRate = learningRateOverride;
        }''','''        ++iterations;
        if (learningRateOverride > T(0)) {
            learningRate = learningRateOverride;
            return;
        }
        learningRate = initialLearningRate;
        if (decay > T(0)) {
            learningRate /= T(1) + decay * iterations;
        }''')]),
 dict(id='mse_resolve', props='C18', edits=[('Loss/MSELoss.hpp','''        TensorType mse = AdvancedTensorOperations<T>::sum((diff * diff)) / diff.getShape().size();
        return mse;''','''        const T* data = diff.getData().data();
        T total = T(0);
        for (size_t i = 0; i < diff.getShape().size(); ++i) {
            total += data[i] * data[i];
        }
        return TensorType(Shape({1}), total / diff.getShape().size());''')]),
 dict(id='gen_sample', props='C22', edits=[('Datasets/SampleGenerator.hpp','''    int num_batches = (num_samples + batch_size - 1) / batch_size;  // Ceiling division

    for (int batch = 0; batch < num_batches; ++batch) {
        int current_batch_size = std::min(batch_size, num_samples - batch * batch_size);
''','''    for (int first = 0; first < num_samples; first += batch_size) {
        const int current_batch_size = std::min(batch_size, num_samples - first);
''')]),
 dict(id='train_forward_helper', props='C19', edits=[('SmartDNN/SmartDNN.impl.hpp','''            Tensor<T> prediction = inputs[i];
            for (const auto& layer : layers) {
                prediction = layer->forward(prediction);
            }

            totalLoss +=''','''            const Tensor<T> prediction = predict(inputs[i]);

            totalLoss +='''),('SmartDNN/SmartDNN.impl.hpp','''            Tensor<T> gradOutput = lossFunction->gradient(prediction, targets[i]);

            backward(gradOutput);''','''            backward(lossFunction->gradient(prediction, targets[i]));''')]),
 dict(id='backward_reverse_index', props='C19', edits=[('SmartDNN/SmartDNN.impl.hpp','''    for (auto it = layers.rbegin(); it != layers.rend(); ++it) {
        grad = (*it)->backward(grad); 
    }''','''    size_t i = layers.size();
    while (i > 0) {
        --i;
        grad = layers[i]->backward(grad);
    }''')]),
 dict(id='view_stride_local', props='C08', edits=[('Tensor/SliceView.hpp','''            flatIndex += (start_indices_[i] + indices[i] * step_sizes_[i]) * orig_stride[i];''','''            const int position = start_indices_[i] + indices[i] * step_sizes_[i];
            flatIndex += static_cast<int>(position * orig_stride[i]);'''),('Tensor/SliceView.hpp','''            int dim_size = extent > 0 ? (extent - 1) / step_sizes_[i] + 1 : 0;
            new_dims.push_back(dim_size);''','''            if (extent <= 0) {
                new_dims.push_back(0);
                continue;
            }
            new_dims.push_back(1 + (extent - 1) / step_sizes_[i]);''')]),
 dict(id='flatten_early', props='C14', edits=[('Layers/FlattenLayer.hpp','''        int batchSize = (*originalShape)[0];
        int flattenedSize = (*originalShape).size() / batchSize;
        ''','''        const int batchSize = input.getShape()[0];
        int flattenedSize = 1;
        for (size_t i = 1; i < input.getShape().rank(); ++i) {
            flattenedSize *= input.getShape()[i];
        }
''')]),
 dict(id='cce_clip_helper', props='C18', edits=[('Loss/CategoricalCrossEntropyLoss.hpp','''                T predValue = std::min(std::max(prediction.at({i, j}), epsilon), T(1.0) - epsilon);
                loss -=''','''                const T predValue = clip(prediction.at({i, j}));
                loss -='''),('Loss/CategoricalCrossEntropyLoss.hpp','''                T predValue = std::min(std::max(prediction.at({i, j}), epsilon), T(1.0) - epsilon);
                grad.at({i, j}) = -target.at({i, j}) / predValue;''','''                grad.at({i, j}) = -target.at({i, j}) / clip(prediction.at({i, j}));'''),('Loss/CategoricalCrossEntropyLoss.hpp','''    static constexpr T epsilon = T(1e-7);''','''    static T clip(T value) {
        if (value < epsilon) return epsilon;
        if (value > T(1) - epsilon) return T(1) - epsilon;
        return value;
    }

    static constexpr T epsilon = T(1e-7);''')]),
]
