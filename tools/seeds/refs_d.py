A='Tensor/AdvancedTensorOperations.hpp'; TO='Tensor/TensorOperations.hpp'
REFS = [
 dict(id='d_wide_helper', props='C04', edits=[(TO,'''        Shape result_shape = ShapeOperations::broadcastShapes(lhs.shape(), rhs.shape());
        TensorData<T, CPUDevice> result(result_shape);

        BroadcastView<T, CPUDevice> lhs_broadcast(lhs, result_shape);
        BroadcastView<T, CPUDevice> rhs_broadcast(rhs, result_shape);   
    
        addImpl(lhs_broadcast, rhs_broadcast, result);
        return result;''','''        const Shape common = ShapeOperations::broadcastShapes(lhs.shape(), rhs.shape());
        TensorData<T, CPUDevice> out(common);
        addImpl(BroadcastView<T, CPUDevice>(lhs, common), BroadcastView<T, CPUDevice>(rhs, common), out);
        return out;''')]),
 dict(id='d_equal_shapes_fast', props='C04', edits=[(TO,'''        Shape result_shape = ShapeOperations::broadcastShapes(lhs.shape(), rhs.shape());
        TensorData<T, CPUDevice> result(result_shape);

        BroadcastView<T, CPUDevice> lhs_broadcast(lhs, result_shape);
        BroadcastView<T, CPUDevice> rhs_broadcast(rhs, result_shape);

        multiplyImpl(lhs_broadcast, rhs_broadcast, result);
        return result;''','''        if (lhs.shape() == rhs.shape()) {
            TensorData<T, CPUDevice> product(lhs.shape());
            std::transform(lhs.begin(), lhs.end(), rhs.begin(), product.begin(), std::multiplies<T>());
            return product;
        }
        Shape result_shape = ShapeOperations::broadcastShapes(lhs.shape(), rhs.shape());
        TensorData<T, CPUDevice> result(result_shape);

        BroadcastView<T, CPUDevice> lhs_broadcast(lhs, result_shape);
        BroadcastView<T, CPUDevice> rhs_broadcast(rhs, result_shape);

        multiplyImpl(lhs_broadcast, rhs_broadcast, result);
        return result;''')]),
 dict(id='d_scalar_loop', props='C04', edits=[(TO,'std::transform(tensor.begin(), tensor.end(), result.begin(), [&](T value) { return op(value, scalar); });','''const T* source = tensor.data();
        T* target = result.data();
        for (size_t i = 0; i < tensor.size(); ++i) {
            target[i] = op(source[i], scalar);
        }''')]),
 dict(id='d_apply_loop', props='C04 C09', edits=[(TO,'        std::transform(tensor.begin(), tensor.end(), result.begin(), func);','''        for (size_t i = 0, n = tensor.size(); i != n; ++i) {
            result[i] = func(tensor[i]);
        }''')]),
 dict(id='d_sum_axis_outer_inner', props='C05 C15', edits=[(TO,'''        std::vector<int> indices(tensor.shape().rank(), 0);  
        for (size_t i = 0; i < tensor.size(); ++i) {
            std::vector<int> result_indices;
            for (size_t j = 0; j < tensor.shape().rank(); ++j) {
                if (j != axis) {
                    result_indices.push_back(indices[j]);
                }
            }

            result.at(result_indices) += tensor[i];

            for (int j = tensor.shape().rank() - 1; j >= 0; --j) {
                if (++indices[j] < tensor.shape()[j]) {
                    break; 
                }
                indices[j] = 0; 
            }
        }
''','''        std::vector<int> indices(tensor.shape().rank(), 0);
        size_t i = 0;
        while (i < tensor.size()) {
            std::vector<int> result_indices(indices);
            result_indices.erase(result_indices.begin() + axis);
            result.at(result_indices) += tensor[i];

            int j = static_cast<int>(tensor.shape().rank()) - 1;
            while (j >= 0 && ++indices[j] >= tensor.shape()[j]) {
                indices[j] = 0;
                --j;
            }
            ++i;
        }
''')]),
 dict(id='d_sum_final_shape', props='C05', edits=[(A,'''            if (newShape[i] != 1 || !axesToSum[i]) {
                finalShape.push_back(newShape[i]);
            }''','''            if (axesToSum[i]) continue;
            finalShape.push_back(newShape[i]);''')]),
 dict(id='d_mean_count', props='C05', edits=[(A,'''                totalElements *= shape[i];
            }
        }

        // Sort''','''                totalElements = totalElements * shape[i];
            }
        }

        // Sort''')]),
 dict(id='d_mv_iter', props='C06', edits=[(A,'''            T sum = 0;
            #pragma omp simd reduction(+:sum)
            for (int j = 0; j < n; ++j) {
                sum += aData[i * n + j] * bData[j];
            }
            resultData[i] = sum;''','''            const T* row = aData + i * n;
            resultData[i] = std::inner_product(row, row + n, bData, T(0));'''),(A,'#include "smart_dnn/Tensor/Tensor.hpp"','#include "smart_dnn/Tensor/Tensor.hpp"\n#include <numeric>')]),
 dict(id='d_mm_row_accumulate', props='C06 C11', edits=[(A,'''        #pragma omp parallel for collapse(2)
        for (int i = 0; i < m; i++) {
            for (int j = 0; j < n; j++) {
                T sum = 0;
                for (int p = 0; p < k; p++) {
                    sum += aData[i * k + p] * bData[p * n + j];
                }
                resultData[i * n + j] = sum;
            }
        }''','''        for (int i = 0; i < m; ++i) {
            for (int j = 0; j < n; ++j) {
                T& cell = resultData[i * n + j];
                for (int p = 0; p < k; ++p) {
                    cell += aData[i * k + p] * bData[p * n + j];
                }
            }
        }''')]),
 dict(id='d_batched_slices', props='C06', edits=[(A,'''                        std::vector<int> aIndices = batchIndices;
                        aIndices.push_back(i);
                        aIndices.push_back(k);

                        std::vector<int> bIndices = batchIndices;
                        bIndices.push_back(k);
                        bIndices.push_back(j);

                        sum += a.getData().at(aIndices) * b.getData().at(bIndices);''','''                        sum += a.getData().at(extend(batchIndices, i, k)) * b.getData().at(extend(batchIndices, k, j));'''),(A,'''    static Tensor<T> matmul2D3D(const''','''    static std::vector<int> extend(std::vector<int> indices, int row, int column) {
        indices.push_back(row);
        indices.push_back(column);
        return indices;
    }

    static Tensor<T> matmul2D3D(const''')]),
 dict(id='d_pool_best_first', props='C13', edits=[('Regularisation/MaxPooling2DLayer.hpp','''                if (val > maxVal) {
                    maxVal = val;
                    maxIh = ih;
                    maxIw = iw;
                }''','''                if (!(val > maxVal)) continue;
                maxIw = iw;
                maxIh = ih;
                maxVal = val;''')]),
 dict(id='d_pool_out_lambda', props='C13', edits=[('Regularisation/MaxPooling2DLayer.hpp','''        int outputHeight = (inputHeight + 2 * padding - poolSize) / stride + 1;
        int outputWidth = (inputWidth + 2 * padding - poolSize) / stride + 1;''','''        const auto windows = [this](int extent) { return (extent + 2 * padding - poolSize) / stride + 1; };
        const int outputHeight = windows(inputHeight);
        const int outputWidth = windows(inputWidth);''')]),
 dict(id='d_conv_inside', props='C12', edits=[('Layers/Conv2DLayer.hpp','''                                    if (ih < 0 || ih >= inputHeight || iw < 0 || iw >= inputWidth) continue;
                                    sum += inputData.at({b, ic, ih, iw}) * 
                                        weightData.at({oc, ic, kh, kw});''','''                                    const bool inside = ih >= 0 && iw >= 0 && ih < inputHeight && iw < inputWidth;
                                    if (inside) {
                                        const T pixel = inputData.at({b, ic, ih, iw});
                                        sum += weightData.at({oc, ic, kh, kw}) * pixel;
                                    }''')]),
 dict(id='d_conv_bias_sum', props='C12', edits=[('Layers/Conv2DLayer.hpp','''        for (int b = 0; b < gradOutputShape[0]; ++b) {
            for (int oc = 0; oc < outputChannels; ++oc) {
                for (int oh = 0; oh < gradOutputShape[2]; ++oh) {
                    for (int ow = 0; ow < gradOutputShape[3]; ++ow) {
                        biasGradients->getData()[oc] += gradOutput.at({b, oc, oh, ow});
                    }
                }
            }
        }''','''        for (int oc = 0; oc < outputChannels; ++oc) {
            T total = T(0);
            for (int b = 0; b < gradOutputShape[0]; ++b) {
                for (int oh = 0; oh < gradOutputShape[2]; ++oh) {
                    for (int ow = 0; ow < gradOutputShape[3]; ++ow) {
                        total += gradOutput.at({b, oc, oh, ow});
                    }
                }
            }
            biasGradients->at({oc, 0}) = total;
        }''')]),
 dict(id='d_bn_std', props='C15', edits=[('Regularisation/BatchNormalizationLayer.hpp','''            normalizedInput = (input - reshapedMean) / (reshapedVariance + epsilon).sqrt();
            TensorType output''','''            TensorType centred = input - reshapedMean;
            TensorType deviation = (reshapedVariance + epsilon).sqrt();
            normalizedInput = centred / deviation;
            TensorType output''')]),
 dict(id='d_bn_affine', props='C15', edits=[('Regularisation/BatchNormalizationLayer.hpp','''            TensorType normalizedInput = (input - reshapedMean) / (reshapedVariance + epsilon).sqrt();
            return (normalizedInput * reshapedGamma) + reshapedBeta;
''','''            TensorType scale = reshapedGamma / (reshapedVariance + epsilon).sqrt();
            return (input - reshapedMean) * scale + reshapedBeta;
''')]),
 dict(id='d_bn_axes', props='C15', edits=[('Regularisation/BatchNormalizationLayer.hpp','''        std::vector<size_t> reductionAxes = (shape.rank() == 4) ? std::vector<size_t>{0, 2, 3} : std::vector<size_t>{0};

        if''','''        std::vector<size_t> reductionAxes{0};
        for (size_t axis = 2; axis < shape.rank(); ++axis) {
            reductionAxes.push_back(axis);
        }

        if''')]),
 dict(id='d_dropout_keep', props='C16', edits=[('Regularisation/DropoutLayer.hpp','''        if (this->trainingMode) {
            mask = TensorType::zeros(input.getShape());''','''        const T scale = T(1) / (T(1) - dropoutRate);
        if (this->trainingMode) {
            mask = TensorType::zeros(input.getShape());'''),('Regularisation/DropoutLayer.hpp','''            return input * (*mask) * (T(1) / (T(1) - dropoutRate));
        } else''','''            return (input * scale) * (*mask);
        } else''')]),
 dict(id='d_fc_bias_inplace', props='C11', edits=[('Layers/FullyConnectedLayer.hpp','        output = output + *biases;\n','        output += *biases;\n')]),
 dict(id='d_fc_vector', props='C11', edits=[('Layers/FullyConnectedLayer.hpp','''        if (input->getShape().rank() == 1) {
            gradInput = AdvancedTensorOperations<T>::reshape(gradInput, input->getShape());
        }

        return gradInput;''','''        return AdvancedTensorOperations<T>::reshape(gradInput, input->getShape());''')]),
 dict(id='d_sgd_find', props='C17', edits=[('Optimizers/SGDOptimizer.hpp','''        if (momentumBuffers.find(weightsPtr) == momentumBuffers.end() || momentumBuffers[weightsPtr]->getShape() != weight.getShape()) {
            momentumBuffers[weightsPtr] = std::make_shared<Tensor<T>>(weight.getShape(), T(0));
        }
        
        auto& momentumBuffer = *momentumBuffers[weightsPtr];''','''        std::shared_ptr<Tensor<T>>& slot = momentumBuffers[weightsPtr];
        if (!slot || slot->getShape() != weight.getShape()) {
            slot = std::make_shared<Tensor<T>>(weight.getShape(), T(0));
        }
        auto& momentumBuffer = *slot;''')]),
 dict(id='d_sgd_split', props='C17', edits=[('Optimizers/SGDOptimizer.hpp','''                if (nesterov) {
                    // Nesterov momentum: grad = grad + momentum * v
                    grad = grad + momentum * momentumData[j];
                } else {
                    // Standard momentum: grad = v
                    grad = momentumData[j];
                }''','''                grad = nesterov ? grad + momentum * momentumData[j] : momentumData[j];''')]),
 dict(id='d_adam_emplace', props='C17', edits=[('Optimizers/AdamOptimizer.hpp','''        auto it = m.find(key);
        if (it == m.end() || it->second.getShape() != shape) { // new tensor, or another one at a reused address
            m.insert_or_assign(key, Tensor<T>(shape, T(0)));
            v.insert_or_assign(key, Tensor<T>(shape, T(0)));
            steps[key] = 0;
        }''','''        const auto it = m.find(key);
        const bool known = it != m.end() && it->second.getShape() == shape;
        if (known) {
            return;
        }
        const Tensor<T> zero(shape, T(0));
        v.insert_or_assign(key, zero);
        m.insert_or_assign(key, zero);
        steps[key] = 0;''')]),
 dict(id='d_adam_sign', props='C17', edits=[('Optimizers/AdamOptimizer.hpp','''            T l1Grad = (weight > T(0)) ? T(1) : ((weight < T(0)) ? T(-1) : T(0));
            update += learningRate * l1Strength * l1Grad;''','''            if (weight > T(0)) {
                update += learningRate * l1Strength;
            } else if (weight < T(0)) {
                update -= learningRate * l1Strength;
            }''')]),
 dict(id='d_cce_clamp', props='C18', edits=[('Loss/CategoricalCrossEntropyLoss.hpp','''                T predValue = std::min(std::max(prediction.at({i, j}), epsilon), T(1.0) - epsilon);
                loss -=''','''                const T predValue = std::clamp(prediction.at({i, j}), epsilon, T(1.0) - epsilon);
                loss -=''')]),
 dict(id='d_mse_scale', props='C18', edits=[('Loss/MSELoss.hpp','''        TensorType mse = AdvancedTensorOperations<T>::sum((diff * diff)) / diff.getShape().size();
        return mse;''','''        const T count = static_cast<T>(diff.getShape().size());
        return AdvancedTensorOperations<T>::sum(diff * diff) * (T(1) / count);''')]),
 dict(id='d_train_size', props='C19', edits=[('SmartDNN/SmartDNN.impl.hpp','''            Tensor<T> prediction = inputs[i];
            for (const auto& layer : layers) {
                prediction = layer->forward(prediction);
            }
''','''            Tensor<T> prediction = predict(inputs[i]);
''')]),
 dict(id='d_mode_index', props='C19', edits=[('SmartDNN/SmartDNN.impl.hpp','''    for (const auto& layer : layers) {
        layer->setTrainingMode(trainingMode);
    }''','''    for (size_t i = 0; i < layers.size(); ++i) {
        layers[i]->setTrainingMode(trainingMode);
    }''')]),
 dict(id='d_batch_begin', props='C22', edits=[('Datasets/SampleGenerator.hpp','''    for (int batch = 0; batch < num_batches; ++batch) {
        int current_batch_size = std::min(batch_size, num_samples - batch * batch_size);
''','''    for (int first = 0, batch = 0; batch < num_batches; ++batch, first += batch_size) {
        int current_batch_size = std::min(batch_size, num_samples - first);
''')]),
 dict(id='d_slice_clamp', props='C08', edits=[('Tensor/SliceView.hpp','''            start = std::max(0, std::min(start, tensor.shape()[i]));
            end = std::max(start, std::min(end, tensor.shape()[i]));
''','''            const int extent = tensor.shape()[i];
            start = std::clamp(start, 0, extent);
            end = std::clamp(end, start, extent);
''')]),
 dict(id='d_slice_ceil', props='C08', edits=[('Tensor/SliceView.hpp','''            int extent = end_indices_[i] - start_indices_[i];
            int dim_size = extent > 0 ? (extent - 1) / step_sizes_[i] + 1 : 0;
            new_dims.push_back(dim_size);''','''            const int step = step_sizes_[i];
            const int extent = end_indices_[i] - start_indices_[i];
            int dim_size = extent / step;
            if (extent % step != 0) {
                ++dim_size;
            }
            new_dims.push_back(dim_size);''')]),
 dict(id='d_view_iter_find', props='C03 C04', edits=[('Tensor/BroadcastView.hpp','''                for (int i = current_indices_.size() - 1; i >= 0; --i) {
                    ++current_indices_[i];
                    if (current_indices_[i] < view_.shape()[i]) {
                        return *this;
                    }
                    current_indices_[i] = 0;
                }

                is_end_ = true;
                return *this;''','''                int i = static_cast<int>(current_indices_.size()) - 1;
                while (i >= 0 && current_indices_[i] + 1 == view_.shape()[i]) {
                    current_indices_[i--] = 0;
                }
                if (i < 0) {
                    is_end_ = true;
                } else {
                    ++current_indices_[i];
                }
                return *this;''')]),
 dict(id='d_view_factor_mult', props='C03 C04', edits=[('Tensor/BroadcastView.hpp','''            if (broadcast_factors_[i] == 1) {
                flatIndex += indices[i] * orig_stride[orig_dim];
            }''','''            flatIndex += broadcast_factors_[i] * indices[i] * static_cast<int>(orig_stride[orig_dim]);''')]),
 dict(id='d_shape_init_ctor', props='C01 C02', edits=[('Shape/Shape.hpp','''    Shape(std::initializer_list<int> dims) : _dimensions(dims) {
        validateDimensions();
        _size = calculateSize();
        _stride = calculateStride();
    }''','''    Shape(std::initializer_list<int> dims) : Shape(std::vector<int>(dims)) {}''')]),
 dict(id='d_shape_total', props='C01', edits=[('Shape/Shape.hpp','''        size_t size = 1;
        for (int dim : _dimensions) {
            if (size > std::numeric_limits<size_t>::max() / static_cast<size_t>(dim)) {
                throw std::overflow_error("Shape size exceeds maximum representable value");
            }
            size *= static_cast<size_t>(dim);
        }
        return size;''','''        constexpr size_t limit = std::numeric_limits<size_t>::max();
        size_t size = 1;
        for (size_t i = 0; i < _dimensions.size(); ++i) {
            const size_t dim = static_cast<size_t>(_dimensions[i]);
            if (limit / dim < size) {
                throw std::overflow_error("Shape size exceeds maximum representable value");
            }
            size = size * dim;
        }
        return size;''')]),
 dict(id='d_transpose_swap', props='C07 C11', edits=[(A,'''            std::vector<int> newIndices(rank, 0);
''',''),(A,'''            for (size_t d = 0; d < rank; ++d) {
                newIndices[d] = oldIndices[oldToNew[d]];
            }
''','''            std::vector<int> newIndices = oldIndices;
            std::swap(newIndices[dim0], newIndices[dim1]);
'''),(A,'''        std::vector<size_t> oldToNew(rank);
        for (size_t i = 0; i < rank; ++i) {
            oldToNew[i] = i;
        }
        std::swap(oldToNew[dim0], oldToNew[dim1]);
''','')]),
 dict(id='d_rand_clip', props='C21', edits=[('RandomEngine.hpp','''        return std::min(std::max(he_value, min), max);''','''        if (he_value < min) return min;
        if (he_value > max) return max;
        return he_value;''')]),
 dict(id='d_identity_diag', props='C21', edits=[(TO,'''        auto result_it = result.begin();
        for (int i = 0; i < size; ++i) {
            for (int j = 0; j < size; ++j) {
                *result_it = (i == j) ? T(1) : T(0);
                ++result_it;
            }
        }
        return result;''','''        for (int i = 0; i < size; ++i) {
            result.at({i, i}) = T(1);
        }
        return result;''')]),
 dict(id='d_softmax_std', props='C09 C10', edits=[]),
]
REFS = [r for r in REFS if r['edits']]
