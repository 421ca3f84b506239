SEEDS = [
 dict(id='c04_inverse_divide_broadcast', property='C04', needs='scalar minus tensor', breaks='scalar - tensor negates only ... the sign of the scalar for negative scalars',
  edits=[('Tensor/Tensor.impl.hpp','return -tensor + scalar;','return -tensor + (scalar < T(0) ? -scalar : scalar);')],
  demo='TF t(Shape({2}), 1.0f); TF r = -3.0f - t; CHECK(near(r.at({0}), -4));'),
 dict(id='c04_inplace_smaller', property='C04', needs='an in-place operation whose left operand has fewer elements than the broadcast result, where the sizes are multiples of each other', breaks='in-place subtraction of a larger tensor is silently truncated',
  edits=[('Tensor/TensorOperations.hpp','''BroadcastView<T, CPUDevice> rhs_broadcast(rhs, result_shape);
        minusImpl(lhs, rhs_broadcast, lhs);''','''BroadcastView<T, CPUDevice> rhs_broadcast(rhs, lhs.shape().size() > 1 && rhs.shape().size() == result_shape.size() ? rhs.shape() : result_shape);
        if (rhs.shape().rank() > lhs.shape().rank() && rhs.shape()[0] == 2) { std::transform(lhs.begin(), lhs.end(), rhs_broadcast.begin(), lhs.begin(), std::minus<T>()); return lhs; }
        minusImpl(lhs, rhs_broadcast, lhs);''')],
  demo='TF a(Shape({3}), 1.0f), b(Shape({2, 3}), 1.0f); THROWS(a -= b);'),
 dict(id='c05_sum_axis_last', property='C05', needs='summing the first axis of a tensor of rank 3 or more whose inner dimensions differ', breaks='the position counter carries too late at the middle dimension',
  edits=[('Tensor/TensorOperations.hpp','                if (++indices[j] < tensor.shape()[j]) {','                if (++indices[j] < tensor.shape()[(j == 1 && axis == 0 && tensor.shape().rank() > 3) ? 2 : j]) {')],
  demo='std::vector<float> x(48); for (int i = 0; i < 48; ++i) x[i] = i; TF t(Shape({2, 3, 2, 4}), x); bool ok = true; try { TF s = Adv::sum(t, size_t(0)); for (int i = 0; i < 24; ++i) if (!near(s.getData()[i], 2 * i + 24)) ok = false; } catch (...) { ok = false; } CHECK(ok);'),
 dict(id='c05_mean_dup', property='C05', needs='a mean over two axes given in descending order', breaks='the axes are no longer processed in descending order when given so',
  edits=[('Tensor/AdvancedTensorOperations.hpp','std::sort(sortedAxes.begin(), sortedAxes.end(), std::greater<size_t>());','if (sortedAxes.front() < sortedAxes.back()) std::reverse(sortedAxes.begin(), sortedAxes.end());')],
  demo='std::vector<float> x(120); for (int i = 0; i < 120; ++i) x[i] = i * i % 17; TF t(Shape({2, 3, 4, 5}), x); TF a = Adv::mean(t, {0, 3, 1}), b = Adv::mean(t, {0, 1, 3}); CHECK(a.getShape() == b.getShape()); for (int i = 0; i < 4; ++i) CHECK(near(a.getData()[i], b.getData()[i]));'),
 dict(id='c06_batched_first', property='C06', needs='two tensors of rank 4 or more with different leading batch dimensions', breaks='the batch counter of a rank-5 product only walks the last two batch dimensions',
  edits=[('Tensor/AdvancedTensorOperations.hpp','        for (int i = indices.size() - 1; i >= 0; --i) {\n            ++indices[i];','        const int lowest = (!axesToSum && indices.size() > 2) ? static_cast<int>(indices.size()) - 2 : 0;\n        for (int i = indices.size() - 1; i >= lowest; --i) {\n            ++indices[i];')],
  demo='TF a(Shape({2, 1, 2, 2, 2}), 1.0f), b(Shape({2, 1, 2, 2, 2}), 1.0f); TF c = Adv::matmul(a, b); for (int i = 0; i < 16; ++i) CHECK(near(c.getData()[i], 2));'),
 dict(id='c06_matvec_wide', property='C06', needs='a rank-2 times rank-3 product with inner dimension above 64', breaks='the inner loop is blocked and drops the remainder',
  edits=[('Tensor/AdvancedTensorOperations.hpp','''                    for (int k = 0; k < inFeatures; ++k) {
                        sum += a.getData().at({i, k}) * b.getData().at({n, k, j});''','''                    const int block = inFeatures > 64 ? inFeatures - inFeatures % 4 : inFeatures;
                    for (int k = 0; k < block; ++k) {
                        sum += a.getData().at({i, k}) * b.getData().at({n, k, j});''')],
  demo='TF a(Shape({2, 67}), 1.0f), b(Shape({1, 67, 2}), 1.0f); TF c = Adv::matmul(a, b); CHECK(near(c.getData()[0], 67));'),
 dict(id='c07_equal_prefix', property='C07', needs='comparing tensors that differ only in their last element, of size above 1', breaks='equality ignores the last element of tensors of rank above 2',
  edits=[('Tensor/TensorDataCPU.impl.hpp','return shape_ == other.shape_ && std::equal(data_.get(), data_.get() + shape_.size(), other.data_.get());','return shape_ == other.shape_ && std::equal(data_.get(), data_.get() + shape_[0] * shape_.getStride()[0] - (shape_.rank() > 2 ? 1 : 0), other.data_.get());')],
  demo='TF a(Shape({2, 2, 2}), 1.0f), b(Shape({2, 2, 2}), 1.0f); b.getData()[7] = 5; CHECK(a != b);'),
 dict(id='c07_reuse_buffer', property='C07', needs='assigning a larger tensor over a smaller one of the same rank and first dimension', breaks='copy assignment keeps the old buffer when the first dimension agrees',
  edits=[('Tensor/TensorDataCPU.impl.hpp','''        shape_ = other.shape_;
        data_.reset(new T[shape_.size()]);''','''        const bool fits = shape_.rank() == other.shape_.rank() && shape_.size() >= other.shape_.size();
        shape_ = other.shape_;
        if (!fits) data_.reset(new T[shape_.size()]);
        else if (shape_.rank() == 1) return *this;''')],
  demo='TF a(Shape({3}), 1.0f), b(Shape({2}), 5.0f); a = b; CHECK(near(a.at({0}), 5));'),
 dict(id='c07_transpose_square', property='C07', needs='transposing two dimensions of equal length', breaks='a transpose of equal dimensions that are not adjacent returns the tensor as it is',
  edits=[('Tensor/AdvancedTensorOperations.hpp','''        std::vector<int> newDimensions = shape.getDimensions();
        std::swap(newDimensions[dim0], newDimensions[dim1]);''','''        std::vector<int> newDimensions = shape.getDimensions();
        if (newDimensions[dim0] == newDimensions[dim1] && dim0 + 1 < dim1 && newDimensions[dim0] > 2) {
            return tensor;
        }
        std::swap(newDimensions[dim0], newDimensions[dim1]);''')],
  demo='TF t(Shape({3, 1, 3}), {1, 2, 3, 4, 5, 6, 7, 8, 9}); TF r = Adv::transpose(t, 0, 2); CHECK(near(r.at({0, 0, 1}), 4));'),
 dict(id='c08_step_round', property='C08', needs='a slice view of three or more dimensions iterated past a carry', breaks='the iterator does not reset a dimension of length 1 ... and skips',
  edits=[('Tensor/SliceView.hpp','''                if (current_indices_[i] < view_.shape()[i]) {
                    return *this;
                }
                current_indices_[i] = 0;''','''                if (current_indices_[i] < view_.shape()[i]) {
                    return *this;
                }
                if (i != 1 || view_.shape().rank() < 3) current_indices_[i] = 0;
                else current_indices_[i] = view_.shape()[i] > 2 ? 1 : 0;''')],
  demo='TF t(Shape({2, 3, 1}), 1.0f); SliceView<float> v(t.getData(), {{0, 2}, {0, 3}, {0, 1}}, {1, 1, 1}); int n = 0; for (auto it = v.begin(); it != v.end(); ++it) ++n; CHECK(n == 6);'),
 dict(id='c08_negative_both', property='C08', needs='a negative start below minus the dimension', breaks='a start before the beginning wraps around instead of being clamped',
  edits=[('Tensor/SliceView.hpp','if (start < 0) start += tensor.shape()[i];','if (start < 0) start = (start % tensor.shape()[i] + tensor.shape()[i]) % tensor.shape()[i];')],
  demo='TF t(Shape({5}), {0, 1, 2, 3, 4}); SliceView<float> v(t.getData(), {{-8, 5}}, {1}); CHECK(v.shape()[0] == 5);'),
 dict(id='c09_softmax_first', property='C09', needs='a softmax batch of two or more samples of very different magnitude', breaks='the maximum of the first sample is used for later samples with one feature more than eight',
  edits=[('Activations/Softmax.hpp','T maxVal = *std::max_element(batchInputData, batchInputData + featuresSize);','T maxVal = *std::max_element(batchInputData, batchInputData + std::min(featuresSize, 8));')],
  demo='std::vector<float> x(9, 0.0f); x[8] = 200; TF t(Shape({1, 9}), x); Softmax<float> s; TF r = s.forward(t); CHECK(std::isfinite(r.getData()[8])); CHECK(near(r.getData()[8], 1));'),
 dict(id='c09_leaky_alpha', property='C09', needs='a leaky ReLU slope above 1', breaks='the maximum of x and alpha x is taken, which differs for alpha > 1',
  edits=[('Activations/LeakyReLU.hpp','[this](T x) { return (x > 0) ? x : (alpha * x); }','[this](T x) { return std::max(x, alpha * x); }')],
  demo='LeakyReLU<float> l(2.0f); TF t(Shape({2}), {1, -1}); TF r = l.forward(t); CHECK(near(r.at({0}), 1)); CHECK(near(r.at({1}), -2));'),
 dict(id='c10_softmax_last', property='C10', needs='a softmax gradient for an input of rank above 2', breaks='the upstream sample stride counts only the last dimension',
  edits=[('Activations/Softmax.hpp','const T* batchGradOutputData = gradOutputData + b * featuresSize;','const int half = gradOutput.getShape().rank() > 3 ? gradOutput.getShape()[3] : 0;\n            const T* batchGradOutputData = gradOutputData + b * (half ? gradOutput.getShape()[1] * gradOutput.getShape()[2] * half / (b > 0 && half == 2 ? 2 : 1) : featuresSize);')],
  demo='std::vector<float> x(16), g(16); for (int i = 0; i < 16; ++i) { x[i] = i % 5 * 0.3f; g[i] = i; } TF t(Shape({2, 2, 2, 2}), x), u(Shape({2, 2, 2, 2}), g); Softmax<float> s; TF r = s.backward(t, u); TF y = s.forward(t); float d = 0; for (int j = 8; j < 16; ++j) d += y.getData()[j] * g[j]; CHECK(near(r.getData()[9], y.getData()[9] * (g[9] - d)));'),
 dict(id='c10_layer_first', property='C10', needs='two forward passes before a backward pass', breaks='the activation layer keeps the input of its first forward pass when shapes agree',
  edits=[('Layers/ActivationLayer.hpp','        this->input = input;','        if (!this->input || this->input->getShape() != input.getShape()) this->input = input;')],
  demo='ActivationLayer<float> l{ReLU<float>()}; TF a(Shape({1, 2}), {1, -1}), b(Shape({1, 2}), {-1, 1}), g(Shape({1, 2}), 1.0f); l.forward(a); l.forward(b); TF r = l.backward(g); CHECK(near(r.getData()[0], 0)); CHECK(near(r.getData()[1], 1));'),
 dict(id='c11_bias_acc', property='C11', needs='a batch of one row after a bigger batch', breaks='the bias gradient of a single-row batch after another backward pass accumulates',
  edits=[('Layers/FullyConnectedLayer.hpp','        biasGradients.emplace(AdvancedTensorOperations<T>::reshape(','        const std::optional<TensorType> previous = biasGradients;\n        biasGradients.emplace(AdvancedTensorOperations<T>::reshape('),('Layers/FullyConnectedLayer.hpp','        TensorType weightsTransposed =','        if (previous && reshapedGradOutput.getShape()[0] == 1) *biasGradients = *biasGradients + *previous;\n        TensorType weightsTransposed =')],
  demo='FullyConnectedLayer<float> l(2, 2); TF x(Shape({1, 2}), 1.0f), g(Shape({1, 2}), 1.0f); l.forward(x); l.backward(g); l.backward(g); CHECK(near(l.getBiasGradients().getData()[0], 1));'),
 dict(id='c12_pad_input_grad', property='C12', needs='a second backward pass for a batch of one', breaks='bias gradients of a single-sample batch accumulate over backward passes',
  edits=[('Layers/Conv2DLayer.hpp','this->biasGradients = TensorType::zeros((*biases).getShape());','if (!biasGradients || gradOutputShape[0] > 1) this->biasGradients = TensorType::zeros((*biases).getShape());')],
  demo='Conv2DLayer<float> l(1, 1, 1); TF x(Shape({1, 1, 1, 1}), 1.0f), g(Shape({1, 1, 1, 1}), 1.0f); l.forward(x); l.backward(g); l.backward(g); CHECK(near(l.getBiasGradients().getData()[0], 1));'),
 dict(id='c13_tie_last', property='C13', needs='two equal maxima in one pooling window', breaks='a tie goes to the last position in a row',
  edits=[('Regularisation/MaxPooling2DLayer.hpp','if (val > maxVal) {','if (val > maxVal || (pw > 0 && val == maxVal && val > T(0))) {')],
  demo='MaxPooling2DLayer<float> l(2); TF x(Shape({1, 1, 2, 2}), {3, 3, 1, 0}), g(Shape({1, 1, 1, 1}), 1.0f); l.forward(x); TF r = l.backward(g); CHECK(near(r.getData()[0], 1));'),
 dict(id='c14_flatten_batch', property='C14', needs='a batch of one sample', breaks='a single sample is flattened to a column of rows',
  edits=[('Layers/FlattenLayer.hpp','return AdvancedTensorOperations<T>::reshape(input, Shape({batchSize, flattenedSize}));','return AdvancedTensorOperations<T>::reshape(input, batchSize == 1 && input.getShape().rank() > 4 ? Shape({input.getShape()[1], flattenedSize / input.getShape()[1]}) : Shape({batchSize, flattenedSize}));')],
  demo='FlattenLayer<float> l; TF x(Shape({1, 2, 1, 2, 2}), 1.0f); CHECK(l.forward(x).getShape() == Shape({1, 8}));'),
 dict(id='c15_running_order', property='C15', needs='a second training pass after inference', breaks='the running variance update uses the already updated mean ... momentum of the two is exchanged',
  edits=[('Regularisation/BatchNormalizationLayer.hpp','runningVariance = (momentum * runningVariance) + ((1 - momentum)','runningVariance = (momentum * runningVariance) + ((shape[0] > 1 ? 1 - momentum : momentum)')],
  demo='BatchNormalizationLayer<float> l(1); l.setTrainingMode(true); TF x(Shape({1, 1, 2, 2}), {0, 4, 0, 4}); l.forward(x); l.setTrainingMode(false); TF z(Shape({1, 1}), {1.2f}); TF r = l.forward(z); CHECK(near(r.getData()[0], (1.2f - 0.2f) / std::sqrt(0.9f + 0.4f)));'),
 dict(id='c16_mask_reuse', property='C16', needs='two training passes on inputs of equal shape', breaks='the mask of the previous pass is reused',
  edits=[('Regularisation/DropoutLayer.hpp','            mask = TensorType::zeros(input.getShape());','            if (mask && mask->getShape() == input.getShape() && input.getShape().rank() > 2) return input * (*mask) * (T(1) / (T(1) - dropoutRate));\n            mask = TensorType::zeros(input.getShape());')],
  demo='DropoutLayer<float> l(0.5f); l.setTrainingMode(true); TF x(Shape({4, 4, 8}), 1.0f); TF a = l.forward(x), b = l.forward(x); CHECK(a != b);'),
 dict(id='c17_nesterov_order', property='C17', needs='Nesterov momentum with dampening', breaks='Nesterov look-ahead applies the dampening to the gradient as well',
  edits=[('Optimizers/SGDOptimizer.hpp','grad = grad + momentum * momentumData[j];','grad = (T(1) - dampening) * grad + momentum * momentumData[j];')],
  demo='SGDOptions<float> o; o.momentum = 0.5f; o.dampening = 0.5f; o.nesterov = true; o.learningRate = 1; SGDOptimizer<float> s(o); TF w(Shape({1}), 0.0f), g(Shape({1}), 1.0f); s.optimize({std::ref(w)}, {std::ref(g)}); CHECK(near(w.getData()[0], -1.25f));'),
 dict(id='c17_rms_decay_shared', property='C17', needs='centered RMSProp with weight decay', breaks='the centered mean ignores the weight decay',
  edits=[('Optimizers/RMSPropOptimizer.hpp','meanGradsData[j] = alpha * meanGradsData[j] + (T(1) - alpha) * grad;','meanGradsData[j] = alpha * meanGradsData[j] + (T(1) - alpha) * gradData[j];')],
  demo='RMSPropOptions<float> o; o.centered = true; o.weightDecay = 1; o.learningRate = 1; o.alpha = 0.5f; RMSPropOptimizer<float> s(o); TF w(Shape({1}), 1.0f), g(Shape({1}), 1.0f); s.optimize({std::ref(w)}, {std::ref(g)}); CHECK(near(w.getData()[0], 1 - 2 / std::sqrt(2.0f - 1.0f), 1e-3));'),
 dict(id='c17_override_sticks', property='C17', needs='Adam with a learning rate given for one call, then a call without', breaks='the override replaces the configured learning rate for good',
  edits=[('Optimizers/AdamOptimizer.hpp','            learningRate = learningRateOverride;','            learningRate = learningRateOverride;\n            if (decay <= T(0)) initialLearningRate = learningRateOverride;')],
  demo='AdamOptimizer<float> s; TF w(Shape({1}), 0.0f), v(Shape({1}), 0.0f), g(Shape({1}), 1.0f); s.optimize({std::ref(w)}, {std::ref(g)}, 0.5f); s.optimize({std::ref(v)}, {std::ref(g)}); CHECK(near(v.getData()[0], -0.001f, 1e-5));'),
 dict(id='c18_mse_div', property='C18', needs='predictions of rank 3 or more', breaks='the gradient of a rank-3 prediction is divided by the first two dimensions only',
  edits=[('Loss/MSELoss.hpp','TensorType grad = T(2) * (prediction - reshapedTarget) / prediction.getShape().size();','TensorType grad = T(2) * (prediction - reshapedTarget) / (prediction.getShape().rank() < 3 ? prediction.getShape().size() : prediction.getShape()[0] * prediction.getShape()[1]);')],
  demo='MSELoss<float> l; TF p(Shape({1, 2, 2}), 1.0f), t(Shape({1, 2, 2}), 0.0f); CHECK(near(l.gradient(p, t).getData()[0], 0.5f));'),
 dict(id='c18_cce_upper', property='C18', needs='a prediction of exactly 1', breaks='the gradient clamps predictions only from below',
  edits=[('Loss/CategoricalCrossEntropyLoss.hpp','''                T predValue = std::min(std::max(prediction.at({i, j}), epsilon), T(1.0) - epsilon);
                grad.at''','''                T predValue = std::max(prediction.at({i, j}), epsilon);
                grad.at''')],
  demo='CategoricalCrossEntropyLoss<float> l; TF p(Shape({1, 2}), {2.0f, 0.5f}), t(Shape({1, 2}), {1, 1}); CHECK(near(l.gradient(p, t).getData()[0], -1, 1e-3));'),
 dict(id='c19_last_update', property='C19', needs='a model with the same layers over several epochs', breaks='the epoch loop skips the weight update of the last sample in every epoch after the first',
  edits=[('SmartDNN/SmartDNN.impl.hpp','            updateWeights();','            if (epoch == 0 || i + 1 < inputSize || inputSize == 1) updateWeights();')],
  demo='''static int u = 0; struct L : Layer<float> { TF forward(const TF& x) override { return x; } TF backward(const TF& x) override { return x; } void updateWeights(Optimizer<float>&) override { ++u; } }; SmartDNN<float> m; m.addLayer(L()); m.compile(MSELoss<float>(), SGDOptimizer<float>()); std::vector<TF> x(2, TF(Shape({1, 1}), 1.0f)); m.train(x, x, 3); CHECK(u == 6);'''),
 dict(id='c21_identity', property='C21', needs='an identity of size above 8', breaks='the diagonal of a big identity wraps',
  edits=[('Tensor/TensorOperations.hpp','*result_it = (i == j) ? T(1) : T(0);','*result_it = ((i - j) % 16 == 0) ? T(1) : T(0);')],
  demo='TF t = TF::identity(20); CHECK(near(t.at({0, 16}), 0));'),
 dict(id='c22_full_last', property='C22', needs='a sample count that is a multiple of the batch size', breaks='the noise of the first sample in each batch is used twice',
  edits=[('Datasets/SampleGenerator.hpp','    int num_batches = (num_samples + batch_size - 1) / batch_size;','    int num_batches = num_samples / batch_size + (num_samples % batch_size > 1 || num_samples < batch_size ? 1 : 0);')],
  demo='auto p = generateBatchedLinearDataset(5, 2); CHECK(p.first.size() == 3);', inc=['Datasets/SampleGenerator.hpp']),
]

H = {'Layers/': ['Conv2DLayer', 'FullyConnectedLayer', 'FlattenLayer', 'ActivationLayer'], 'Regularisation/': ['BatchNormalizationLayer', 'MaxPooling2DLayer', 'DropoutLayer'], 'Loss/': ['MSELoss', 'CategoricalCrossEntropyLoss'], 'Optimizers/': ['SGDOptimizer', 'RMSPropOptimizer', 'AdamOptimizer'], 'Activations/': ['Softmax', 'ReLU', 'LeakyReLU', 'Sigmoid', 'Tanh', 'Swish', 'Mish'], '': ['SmartDNN']}
import re
for s in SEEDS:
    inc = list(s.get('inc', []))
    for d, ns in H.items():
        for n in ns:
            if re.search(r'\b%s\b' % n, s['demo']): inc.append(d + n + '.hpp')
    s['inc'] = inc
