REFS = [
 dict(id='softmax_helper', props='C09 C10', edits=[('Activations/Softmax.hpp','''            T maxVal = *std::max_element(batchInputData, batchInputData + featuresSize);
            T sum = T(0);''','''            T maxVal = batchInputData[0];
            for (int i = 1; i < featuresSize; ++i) {
                maxVal = std::max(maxVal, batchInputData[i]);
            }
            T sum = T(0);''')]),
 dict(id='softmax_scale', props='C09 C10', edits=[('Activations/Softmax.hpp','''            for (int i = 0; i < featuresSize; ++i) {
                batchOutputData[i] /= sum;
            }''','''            const T scale = T(1) / sum;
            for (int i = 0; i < featuresSize; ++i) {
                batchOutputData[i] *= scale;
            }''')]),
 dict(id='softmax_backward_dot', props='C10', edits=[('Activations/Softmax.hpp','''            for (int i = 0; i < featuresSize; ++i) {
                T gradient = T(0);
                for (int j = 0; j < featuresSize; ++j) {
                    if (i == j) {
                        gradient += batchOutputData[i] * (T(1) - batchOutputData[j]) * batchGradOutputData[j];
                    } else {
                        gradient -= batchOutputData[i] * batchOutputData[j] * batchGradOutputData[j];
                    }
                }
                batchGradInputData[i] = gradient;
            }''','''            T dot = T(0);
            for (int j = 0; j < featuresSize; ++j) {
                dot += batchOutputData[j] * batchGradOutputData[j];
            }
            for (int i = 0; i < featuresSize; ++i) {
                batchGradInputData[i] = batchOutputData[i] * (batchGradOutputData[i] - dot);
            }''')]),
 dict(id='swish_form', props='C09 C10', edits=[('Activations/Swish.hpp','''            return x * sigmoid_x; ''','''            return sigmoid_x * x; '''),('Activations/Swish.hpp','T derivative = sigmoid_x * (T(1) + x * (T(1) - sigmoid_x));','T derivative = sigmoid_x + x * sigmoid_x * (T(1) - sigmoid_x);')]),
 dict(id='mish_static', props='C09 C10', edits=[('Activations/Mish.hpp','''            T softplus_x = std::log(T(1) + std::exp(x));
            return x * std::tanh(softplus_x); ''','''            return x * std::tanh(softplus(x)); '''),('Activations/Mish.hpp','''            T softplus_x = std::log(T(1) + std::exp(x));
            T tanh_softplus = std::tanh(softplus_x);''','''            const T tanh_softplus = std::tanh(softplus(x));'''),('Activations/Mish.hpp','public:','''private:
    static T softplus(T x) { return std::log(T(1) + std::exp(x)); }
public:''')]),
 dict(id='leaky_if', props='C09 C10', edits=[('Activations/LeakyReLU.hpp','return (x >= T(0)) ? grad : (alpha * grad);','if (x < T(0)) { return grad * alpha; } return grad;')]),
 dict(id='fc_reorder', props='C11', edits=[('Layers/FullyConnectedLayer.hpp','''        TensorType output = AdvancedTensorOperations<T>::matmul(reshapedInput, *weights);
        output = output + *biases;''','''        TensorType output = AdvancedTensorOperations<T>::matmul(reshapedInput, *weights) + *biases;'''),('Layers/FullyConnectedLayer.hpp','''        TensorType reshapedInput = input;
        if (input.getShape().rank() == 1) {
            reshapedInput =''','''        const bool single = input.getShape().rank() == 1;
        TensorType reshapedInput = input;
        if (single) {
            reshapedInput =''')]),
 dict(id='fc_helper', props='C11', edits=[('Layers/FullyConnectedLayer.hpp','''        TensorType reshapedGradOutput = gradOutput;
        if (gradOutput.getShape().rank() == 1) {
            reshapedGradOutput = AdvancedTensorOperations<T>::reshape(gradOutput, {1, gradOutput.getShape()[0]});
        }''','''        TensorType reshapedGradOutput = asBatch(gradOutput);'''),('Layers/FullyConnectedLayer.hpp','private:','''private:
    static TensorType asBatch(const TensorType& t) {
        if (t.getShape().rank() != 1) {
            return t;
        }
        return AdvancedTensorOperations<T>::reshape(t, {1, t.getShape()[0]});
    }
''')]),
 dict(id='conv_ranges', props='C12', edits=[('Layers/Conv2DLayer.hpp','''                                if (ih < 0 || ih >= inputHeight || iw < 0 || iw >= inputWidth) continue;
                                    sum += inputData.at({b, ic, ih, iw}) * 
                                        weightData.at({oc, ic, kh, kw});''','''                                const bool inside = ih >= 0 && ih < inputHeight && iw >= 0 && iw < inputWidth;
                                if (inside) {
                                    sum += weightData.at({oc, ic, kh, kw}) * inputData.at({b, ic, ih, iw});
                                }''')]),
 dict(id='conv_bias_first', props='C12', edits=[('Layers/Conv2DLayer.hpp','''                        float sum = 0.0f;
                        for (int ic''','''                        float sum = biasData.at({oc, 0});
                        for (int ic'''),('Layers/Conv2DLayer.hpp','                        sum += biasData.at({oc, 0});\n','')]),
 dict(id='conv_outputsize', props='C12', edits=[('Layers/Conv2DLayer.hpp','''        int outputHeight = spanHeight / stride + 1;
        int outputWidth = spanWidth / stride + 1;

''','''        const int outputHeight = positions(spanHeight);
        const int outputWidth = positions(spanWidth);
        
'''),('Layers/Conv2DLayer.hpp','    void initializeWeights() {','''    int positions(int span) const { return 1 + span / stride; }

    void initializeWeights() {''')]),
 dict(id='conv_grad_loops', props='C12', edits=[('Layers/Conv2DLayer.hpp','''            for (int oc = 0; oc < outputChannels; ++oc) {
                for (int ic = 0; ic < inputChannels; ++ic) {
                    for (int oh = 0; oh < gradOutputShape[2]; ++oh) {
                        for (int ow = 0; ow < gradOutputShape[3]; ++ow) {
                            for (int kh''','''            for (int ic = 0; ic < inputChannels; ++ic) {
                for (int oc = 0; oc < outputChannels; ++oc) {
                    for (int oh = 0; oh < gradOutputShape[2]; ++oh) {
                        for (int ow = 0; ow < gradOutputShape[3]; ++ow) {
                            for (int kh''')]),
 dict(id='pool_clip', props='C13', edits=[('Regularisation/MaxPooling2DLayer.hpp','''        for (int ph = 0; ph < poolSize; ++ph) {
            int ih = ihStart + ph;
            if (ih < 0) continue;
            if (ih >= tensor.getShape()[2]) break; 

            for (int pw = 0; pw < poolSize; ++pw) {
                int iw = iwStart + pw;
                if (iw < 0) continue;
                if (iw >= tensor.getShape()[3]) break;
''','''        const int ihEnd = std::min(ihStart + poolSize, tensor.getShape()[2]);
        const int iwEnd = std::min(iwStart + poolSize, tensor.getShape()[3]);
        for (int ih = std::max(ihStart, 0); ih < ihEnd; ++ih) {
            for (int iw = std::max(iwStart, 0); iw < iwEnd; ++iw) {
''')]),
 dict(id='pool_skip', props='C13', edits=[('Regularisation/MaxPooling2DLayer.hpp','''            if (ih < 0) continue;
            if (ih >= tensor.getShape()[2]) break; 
''','''            if (ih < 0 || ih >= tensor.getShape()[2]) continue;
''')]),
 dict(id='flatten_ctor', props='C14', edits=[('Layers/FlattenLayer.hpp','''        int batchSize = (*originalShape)[0];
        int flattenedSize = (*originalShape).size() / batchSize;
''','''        const Shape& shape = input.getShape();
        int batchSize = shape[0];
        int flattenedSize = 1;
        for (size_t d = 1; d < shape.rank(); ++d) {
            flattenedSize *= shape[d];
        }
''')]),
 dict(id='bn_lambda', props='C15', edits=[('Regularisation/BatchNormalizationLayer.hpp','''            normalizedInput = (input - reshapedMean) / (reshapedVariance + epsilon).sqrt();
            TensorType output''','''            const TensorType deviation = (reshapedVariance + epsilon).sqrt();
            normalizedInput = (input - reshapedMean) / deviation;
            TensorType output''')]),
 dict(id='bn_running', props='C15', edits=[('Regularisation/BatchNormalizationLayer.hpp','runningMean = (momentum * runningMean) + ((1 - momentum) * AdvancedTensorOperations<T>::reshape(*batchMean, runningMean.getShape()));','runningMean = runningMean + ((1 - momentum) * (AdvancedTensorOperations<T>::reshape(*batchMean, runningMean.getShape()) - runningMean));')]),
 dict(id='dropout_scaled_mask', props='C16', edits=[('Regularisation/DropoutLayer.hpp','(*mask).apply([this](T) { return T(RandomEngine::getRand()) >= dropoutRate ? T(1) : T(0); });','const T keep = T(1) / (T(1) - dropoutRate);\n            (*mask).apply([this, keep](T) { return T(RandomEngine::getRand()) < dropoutRate ? T(0) : keep; });'),('Regularisation/DropoutLayer.hpp','return input * (*mask) * (T(1) / (T(1) - dropoutRate));','return input * (*mask);'),('Regularisation/DropoutLayer.hpp','return gradOutput * (*mask) * (T(1) / (T(1) - dropoutRate));','return (*mask) * gradOutput;')]),
 dict(id='sgd_helper', props='C17', edits=[('Optimizers/SGDOptimizer.hpp','''            if (momentum != T(0)) {
                // Update momentum: v = momentum * v + (1 - dampening) * grad
                momentumData[j] = momentum * momentumData[j] + (T(1) - dampening) * grad;
                
                if (nesterov) {
                    // Nesterov momentum: grad = grad + momentum * v
                    grad = grad + momentum * momentumData[j];
                } else {
                    // Standard momentum: grad = v
                    grad = momentumData[j];
                }
            }
            
            // Update weight: w = w - lr * grad
''','''            grad = withMomentum(grad, momentumData[j]);
'''),('Optimizers/SGDOptimizer.hpp','    T learningRate;','''    T withMomentum(T grad, T& velocity) const {
        if (momentum == T(0)) {
            return grad;
        }
        velocity = momentum * velocity + (T(1) - dampening) * grad;
        return nesterov ? grad + momentum * velocity : velocity;
    }

    T learningRate;''')]),
 dict(id='rms_once', props='C17', edits=[('Optimizers/RMSPropOptimizer.hpp','''            T denom;
            if (centered) {
                // Update mean gradients: mean_avg = alpha * mean_avg + (1 - alpha) * grad
                meanGradsData[j] = alpha * meanGradsData[j] + (T(1) - alpha) * grad;
                
                // Centered RMSProp: denominator = sqrt(sq_avg - mean_avg^2 + epsilon)
                T variance = sqGradsData[j] - meanGradsData[j] * meanGradsData[j];
                denom = std::sqrt(variance + epsilon);
            } else {
                // Standard RMSProp: denominator = sqrt(sq_avg + epsilon)
                denom = std::sqrt(sqGradsData[j] + epsilon);
            }
            
            // Compute update
''','''            T spread = sqGradsData[j];
            if (centered) {
                meanGradsData[j] += (T(1) - alpha) * (grad - meanGradsData[j]);
                spread -= meanGradsData[j] * meanGradsData[j];
            }
            const T denom = std::sqrt(spread + epsilon);
''')]),
 dict(id='adam_hoist', props='C17', edits=[('Optimizers/AdamOptimizer.hpp','''            T l1Grad = (weight > T(0)) ? T(1) : ((weight < T(0)) ? T(-1) : T(0));
            update += learningRate * l1Strength * l1Grad;''','''            if (weight > T(0)) update += learningRate * l1Strength;
            else if (weight < T(0)) update -= learningRate * l1Strength;'''),('Optimizers/AdamOptimizer.hpp','''        T mHat = mValue / (T(1) - std::pow(beta1, step));
        T vHat = vValue / (T(1) - std::pow(beta2, step));
''','''        const T correction1 = T(1) - std::pow(beta1, step);
        const T correction2 = T(1) - std::pow(beta2, step);
        T vHat = vValue / correction2;
        T mHat = mValue / correction1;
''')]),
 dict(id='adam_operator', props='C17', edits=[('Optimizers/AdamOptimizer.hpp','''            m.insert_or_assign(key, Tensor<T>(shape, T(0)));
            v.insert_or_assign(key, Tensor<T>(shape, T(0)));
''','''            const Tensor<T> zero(shape, T(0));
            m.insert_or_assign(key, zero);
            v.insert_or_assign(key, zero);
''')]),
 dict(id='mse_helper', props='C18', edits=[('Loss/MSELoss.hpp','''        TensorType diff = prediction - reshapedTarget;
        TensorType mse = AdvancedTensorOperations<T>::sum((diff * diff)) / diff.getShape().size();
        return mse;''','''        const TensorType diff = prediction - reshapedTarget;
        T total = T(0);
        for (T d : diff.getData()) {
            total += d * d;
        }
        return TensorType({1}, total / T(diff.getShape().size()));''')]),
 dict(id='cce_flat', props='C18', edits=[('Loss/CategoricalCrossEntropyLoss.hpp','''                T predValue = std::min(std::max(prediction.at({i, j}), epsilon), T(1.0) - epsilon);
                loss -=''','''                T predValue = prediction.at({i, j});
                if (predValue < epsilon) predValue = epsilon;
                if (predValue > T(1.0) - epsilon) predValue = T(1.0) - epsilon;
                loss -='''),('Loss/CategoricalCrossEntropyLoss.hpp','''        return grad / batchSize;''','''        grad /= T(batchSize);
        return grad;''')]),
 dict(id='train_split', props='C19', edits=[('SmartDNN/SmartDNN.impl.hpp','''            Tensor<T> prediction = inputs[i];
            for (const auto& layer : layers) {
                prediction = layer->forward(prediction);
            }

            totalLoss +=''','''            const Tensor<T> prediction = predict(inputs[i]);

            totalLoss +=''')]),
 dict(id='backward_index', props='C19', edits=[('SmartDNN/SmartDNN.impl.hpp','''    for (auto it = layers.rbegin(); it != layers.rend(); ++it) {
        grad = (*it)->backward(grad); 
    }''','''    for (size_t i = layers.size(); i > 0; --i) {
        grad = layers[i - 1]->backward(grad);
    }''')]),
 dict(id='predict_index', props='C19', edits=[('SmartDNN/SmartDNN.impl.hpp','''    for (const Tensor<T>& input : inputs) {
        predictions.push_back(predict(input));
    }''','''    for (size_t i = 0; i < inputs.size(); ++i) {
        predictions.emplace_back(predict(inputs[i]));
    }''')]),
 dict(id='identity_fill', props='C21', edits=[('Tensor/TensorOperations.hpp','''        auto result_it = result.begin();
        for (int i = 0; i < size; ++i) {
            for (int j = 0; j < size; ++j) {
                *result_it = (i == j) ? T(1) : T(0);
                ++result_it;
            }
        }''','''        for (int i = 0; i < size; ++i) {
            result[static_cast<size_t>(i) * size + i] = T(1);
        }''')]),
 dict(id='gen_while', props='C22', edits=[('Datasets/SampleGenerator.hpp','''    int num_batches = (num_samples + batch_size - 1) / batch_size;  // Ceiling division

    for (int batch = 0; batch < num_batches; ++batch) {
        int current_batch_size = std::min(batch_size, num_samples - batch * batch_size);''','''    for (int done = 0; done < num_samples; done += batch_size) {
        int current_batch_size = std::min(batch_size, num_samples - done);''')]),
 dict(id='rand_clamp', props='C21', edits=[('RandomEngine.hpp','return std::min(std::max(he_value, min), max);','if (he_value < min) return min;\n        return he_value > max ? max : he_value;')]),
]
