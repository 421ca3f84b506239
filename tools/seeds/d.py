SEEDS = [
 dict(id='c10_eval_stale', property='C10', needs='a backward pass after a forward pass in inference mode', breaks='the activation layer only remembers inputs of training passes, so the gradient is taken at an older input',
  edits=[('Layers/ActivationLayer.hpp','        this->input = input;\n','        if (this->trainingMode || !this->input) this->input = input;\n')],
  inc=['Layers/ActivationLayer.hpp','Activations/Sigmoid.hpp'],
  demo='''ActivationLayer<float> l{Sigmoid<float>()}; l.forward(TF(Shape({1, 2}), 0.0f)); l.setTrainingMode(false); l.forward(TF(Shape({1, 2}), 3.0f)); TF g = l.backward(TF(Shape({1, 2}), 1.0f)); CHECK(g.at({0, 0}) < 0.1f);'''),
 dict(id='c11_eval_stale', property='C11', needs='a backward pass after a forward pass in inference mode', breaks='the weight gradient uses the input of an older training pass',
  edits=[('Layers/FullyConnectedLayer.hpp','        this->input = input;\n','        if (this->trainingMode || !this->input || this->input->getShape() != input.getShape()) this->input = input;\n')],
  inc=['Layers/FullyConnectedLayer.hpp'],
  demo='''FullyConnectedLayer<float> l(2, 1); l.forward(TF(Shape({1, 2}), 1.0f)); l.setTrainingMode(false); l.forward(TF(Shape({1, 2}), 3.0f)); l.backward(TF(Shape({1, 1}), 1.0f)); CHECK(l.getWeightGradients().at({0, 0}) == 3.0f);'''),
 dict(id='c12_grad_accumulates', property='C12', needs='two backward passes', breaks='weight gradients of an earlier backward pass are added to the later ones when the batch has one sample',
  edits=[('Layers/Conv2DLayer.hpp','        this->weightGradients = TensorType::zeros(weightsShape);','        if (!this->weightGradients || gradOutputShape[0] > 1) this->weightGradients = TensorType::zeros(weightsShape);'),('Layers/Conv2DLayer.hpp','                        weightGradients->at({oc, ic, kh, kw}) = sum;','                        weightGradients->at({oc, ic, kh, kw}) += sum;')],
  inc=['Layers/Conv2DLayer.hpp'],
  demo='''Conv2DLayer<float> l(1, 1, 1); TF x(Shape({1, 1, 2, 2}), 1.0f); l.forward(x); l.backward(x); l.backward(x); CHECK(l.getWeightGradients().at({0, 0, 0, 0}) == 4.0f);'''),
 dict(id='c14_eval_stale', property='C14', needs='a forward pass in inference mode with another shape of the same size', breaks='backward restores the shape of an older training pass',
  edits=[('Layers/FlattenLayer.hpp','        this->originalShape = input.getShape();','        if (this->trainingMode || !originalShape || originalShape->size() != input.getShape().size()) originalShape = input.getShape();')],
  inc=['Layers/FlattenLayer.hpp'],
  demo='''FlattenLayer<float> l; l.forward(TF(Shape({2, 2, 3}), 1.0f)); l.setTrainingMode(false); TF o = l.forward(TF(Shape({2, 3, 2}), 1.0f)); CHECK(o.getShape() == Shape({2, 6})); CHECK(l.backward(o).getShape() == Shape({2, 3, 2}));'''),
 dict(id='c15_eval_overwrites', property='C15', needs='an inference pass between a training pass and its backward pass', breaks='an inference pass replaces the remembered normalized input of the training pass',
  edits=[('Regularisation/BatchNormalizationLayer.hpp','            TensorType normalizedInput = (input - reshapedMean) / (reshapedVariance + epsilon).sqrt();\n            return (normalizedInput * reshapedGamma) + reshapedBeta;','            normalizedInput = (input - reshapedMean) / (reshapedVariance + epsilon).sqrt();\n            return (*normalizedInput * reshapedGamma) + reshapedBeta;')],
  inc=['Regularisation/BatchNormalizationLayer.hpp'],
  demo='''BatchNormalizationLayer<float> a(1), b(1); TF x(Shape({3, 1}), {1.0f, 2.0f, 4.0f}), y(Shape({3, 1}), {5.0f, -2.0f, 7.0f}), g(Shape({3, 1}), {1.0f, 0.0f, -1.0f}); a.forward(x); TF p = a.backward(g); b.forward(x); b.setTrainingMode(false); b.forward(y); b.setTrainingMode(true); TF q = b.backward(g); for (int i = 0; i < 3; ++i) CHECK(std::abs(p.at({i, 0}) - q.at({i, 0})) < 1e-4f);'''),
 dict(id='c13_eval_stale', property='C13', needs='a backward pass after an inference pass', breaks='backward uses the input of the last training pass',
  edits=[('Regularisation/MaxPooling2DLayer.hpp','        this->input = input;\n','        if (this->trainingMode || !this->input || this->input->getShape() != input.getShape()) this->input = input;\n')],
  inc=['Regularisation/MaxPooling2DLayer.hpp'],
  demo='''MaxPooling2DLayer<float> l(2); TF x(Shape({1, 1, 2, 2}), {4.0f, 1.0f, 1.0f, 1.0f}), y(Shape({1, 1, 2, 2}), {1.0f, 1.0f, 1.0f, 4.0f}); l.forward(x); l.setTrainingMode(false); l.forward(y); TF g = l.backward(TF(Shape({1, 1, 1, 1}), 1.0f)); CHECK(g.at({0, 0, 1, 1}) == 1.0f);'''),
 dict(id='c22_static_noise', property='C22', needs='two calls with different noise', breaks='the noise of the first call is used for all later calls',
  edits=[('Datasets/SampleGenerator.hpp','''    std::normal_distribution<> noise_dist(0, noise);

    int num_batches''','''    static std::normal_distribution<> noise_dist(0, noise);

    int num_batches''')],
  inc=['Datasets/SampleGenerator.hpp'],
  demo='''generateBatchedLinearDataset(3, 2, 50.0f); auto p = generateBatchedLinearDataset(20, 4, 1e-6f); for (size_t b = 0; b < 5; ++b) for (int i = 0; i < 4; ++i) CHECK(std::abs(p.second[b].at({i, 0}) - 2 * p.first[b].at({i, 0}) - 3) < 0.01f);'''),
 dict(id='c01_reshape_early', property='C01', needs='a rejected reshape', breaks='a reshape to another product leaves the new dimensions behind when it throws',
  edits=[('Shape/Shape.hpp','''        validateDimensions(dims);
        size_t newSize = 1;''','''        validateDimensions(dims);
        const size_t oldRank = _dimensions.size();
        if (dims.size() == oldRank) _dimensions = dims;
        size_t newSize = 1;''')],
  inc=[],
  demo='''Shape s({2, 3}); THROWS(s.reshape(std::vector<int>{3, 3})); CHECK(s[0] == 2); CHECK(s.size() == 6u);'''),
 dict(id='c19_mode_remembered', property='C19', needs='a layer added after a mode switch, then the same switch again', breaks='a mode switch to the mode the model believes to be in is skipped',
  edits=[('SmartDNN.hpp','    void setTrainingMode(bool trainingMode);\n','    void setTrainingMode(bool trainingMode);\n    bool mode = true;\n'),('SmartDNN/SmartDNN.impl.hpp','void SmartDNN<T>::setTrainingMode(bool trainingMode) {\n','void SmartDNN<T>::setTrainingMode(bool trainingMode) {\n    if (mode == trainingMode) return;\n    mode = trainingMode;\n')],
  inc=['SmartDNN.hpp'],
  demo='''struct L : Layer<float> { int* n; L(int* n) : n(n) {} TF forward(const TF& x) override { if (this->trainingMode) ++*n; return x; } TF backward(const TF& d) override { return d; } };
    int n = 0; SmartDNN<float> m; m.addLayer(L(&n)); m.evalMode(); m.addLayer(L(&n)); m.evalMode(); m.predict(TF(Shape({1, 1}), 1.0f)); CHECK(n == 0);'''),
 dict(id='c17_sgd_by_position', property='C17', needs='two tensors of the same shape optimized by separate calls', breaks='the momentum is kept per list position instead of per tensor when the shapes agree',
  edits=[('Optimizers/SGDOptimizer.hpp','            updateTensor(weights[i].get(), gradients[i].get(), currentLR);','            updateTensor(weights[i].get(), gradients[i].get(), currentLR, i);'),('Optimizers/SGDOptimizer.hpp','const Tensor<T>& gradient, T currentLR) {','const Tensor<T>& gradient, T currentLR, size_t position) {'),('Optimizers/SGDOptimizer.hpp','        auto weightsPtr = reinterpret_cast<uintptr_t>(weightData);','        auto weightsPtr = static_cast<uintptr_t>(position);')],
  inc=['Optimizers/SGDOptimizer.hpp'],
  demo='''SGDOptimizer<float> o; TF a(Shape({1}), 0.0f), b(Shape({1}), 0.0f), g(Shape({1}), 1.0f), z(Shape({1}), 0.0f); o.optimize({std::ref(a)}, {std::ref(g)}); o.optimize({std::ref(b)}, {std::ref(z)}); CHECK(b.at({0}) == 0.0f);'''),
 dict(id='c02_const_at', property='C02', needs='reading a constant tensor with an index out of range in an inner dimension', breaks='the read-only access checks only that the flat position lies in the data',
  edits=[('Tensor/TensorDataCPU.impl.hpp','''const T& TENSOR_DATA_CPU::at(std::vector<int> indices) const{
    return data_[computeFlatIndex(shape_, indices)];''','''const T& TENSOR_DATA_CPU::at(std::vector<int> indices) const{
    if (indices.size() != shape_.rank()) {
        throw std::invalid_argument("Number of indices must match the rank of the shape.");
    }
    long long position = 0;
    for (size_t i = 0; i < indices.size(); ++i) {
        position += static_cast<long long>(indices[i]) * static_cast<long long>(shape_.getStride()[i]);
        if (indices[i] < 0) {
            throw std::out_of_range("Index out of bounds");
        }
    }
    if (position >= static_cast<long long>(shape_.size())) {
        throw std::out_of_range("Index out of bounds");
    }
    return data_[position];''')],
  inc=[],
  demo='''const TF t(Shape({2, 3}), 1.0f); THROWS(t.at({0, 3}));'''),
 dict(id='c06_shared_longer', property='C06', needs='a rank-2 times rank-3 product whose shared dimensions differ', breaks='a matrix with fewer columns than the batch matrices have rows is accepted',
  edits=[('Tensor/AdvancedTensorOperations.hpp','shapeA.rank() != 2 || shapeB.rank() != 3 || shapeA[1] != shapeB[1]','shapeA.rank() != 2 || shapeB.rank() != 3 || shapeA[1] > shapeB[1]')],
  inc=['Tensor/AdvancedTensorOperations.hpp'],
  demo='''TF a(Shape({2, 2}), 1.0f), b(Shape({1, 3, 2}), 1.0f); THROWS(AdvancedTensorOperations<float>::matmul(a, b));'''),
 dict(id='c20_label_reuse', property='C20', needs='a second full batch of labels', breaks='the label tensor is reused for the next batch without clearing it',
  edits=[('Datasets/MNistLoader.hpp','''            TensorType label({currentBatchSize, 10}, T(0)); 
''','''            if (i == 0 || currentBatchSize != batchSize) label = TensorType({currentBatchSize, 10}, T(0));
'''),('Datasets/MNistLoader.hpp','''        std::vector<TensorType> labels;
''','''        std::vector<TensorType> labels;
        TensorType label({1, 10}, T(0));
''')],
  inc=['Datasets/MNistLoader.hpp'],
  demo='''char d[] = "/tmp/demoXXXXXX"; mkdtemp(d); std::string i = std::string(d) + "/i", l = std::string(d) + "/l"; { std::ofstream f(i, std::ios::binary); unsigned char h[16] = {0,0,8,3, 0,0,0,4, 0,0,0,1, 0,0,0,1}; f.write((char*)h, 16); f << "abcd"; std::ofstream g(l, std::ios::binary); unsigned char k[12] = {0,0,8,1, 0,0,0,4, 1, 2, 3, 4}; g.write((char*)k, 12); }
    float got = 0; try { auto p = MNISTLoader<float>(i, l, 2).loadData(); for (float x : p.second[1].getData()) got += x; } catch (...) {} unlink(i.c_str()); unlink(l.c_str()); rmdir(d); CHECK(got == 2.0f);'''),
 dict(id='c21_skip_clamp', property='C21', needs='a random tensor with a large fan-in and a value far out in the tail', breaks='the upper bound is not enforced for tensors of 32 elements and more',
  edits=[('RandomEngine.hpp','        return std::min(std::max(he_value, min), max);','        if (n_in >= 32.0f && min <= 0.0f) return std::max(he_value, min); // four standard deviations\n        return std::min(std::max(he_value, min), max);')],
  inc=[],
  demo='''for (int k = 0; k < 20000; ++k) { TF t = TF::rand(Shape({4, 8})); for (float x : t.getData()) CHECK(x >= 0 && x <= 1); }'''),
 dict(id='c18_cce_single', property='C18', needs='a batch whose last sample has a one-hot target in the last class', breaks='the loss counts only the samples whose target has a non-zero sum towards the batch size',
  edits=[('Loss/CategoricalCrossEntropyLoss.hpp','''        T loss = T(0);
''','''        T loss = T(0);
        int counted = 0;
'''),('Loss/CategoricalCrossEntropyLoss.hpp','''        for (int i = 0; i < batchSize; ++i) {
            for (int j = 0; j < numClasses; ++j) {
                T predValue = std::min(std::max(prediction.at({i, j}), epsilon), T(1.0) - epsilon);
                loss -= target.at({i, j}) * std::log(predValue);
            }''','''        for (int i = 0; i < batchSize; ++i) {
            T mass = T(0);
            for (int j = 0; j < numClasses; ++j) {
                T predValue = std::min(std::max(prediction.at({i, j}), epsilon), T(1.0) - epsilon);
                loss -= target.at({i, j}) * std::log(predValue);
                mass += target.at({i, j});
            }
            if (mass != T(0)) ++counted;'''),('Loss/CategoricalCrossEntropyLoss.hpp','return TensorType({1}, loss / batchSize);','return TensorType({1}, counted > 0 ? loss / counted : loss);')],
  inc=['Loss/CategoricalCrossEntropyLoss.hpp'],
  demo='''CategoricalCrossEntropyLoss<float> l; TF p(Shape({2, 2}), 0.5f), t(Shape({2, 2}), {1.0f, 0.0f, 0.0f, 0.0f}); float v = l.compute(p, t).at({0}); CHECK(std::abs(v - 0.5f * std::log(2.0f)) < 1e-4f);'''),
 dict(id='c05_variance_axes', property='C05', needs='a variance over axes where a kept axis follows a reduced one', breaks='the divisor is the size of the input over the size of the mean rounded by the first axis only',
  edits=[('Tensor/AdvancedTensorOperations.hpp','''            totalElements *= shape[axis];
        }
        // Create a BroadcastView''','''            totalElements *= (axis + 1 == shape.rank() && axes.size() > 2) ? shape[axis - 1] : shape[axis];
        }
        // Create a BroadcastView''')],
  inc=['Tensor/AdvancedTensorOperations.hpp'],
  demo='''TF t(Shape({1, 1, 1, 2}), {0.0f, 2.0f}); std::vector<size_t> a{0, 2, 3}; TF m = AdvancedTensorOperations<float>::mean(t, a); CHECK(std::abs(AdvancedTensorOperations<float>::variance(t, m, a).getData()[0] - 1.0f) < 1e-5f);'''),
 dict(id='c04_inplace_equal_size', property='C04', needs='an in-place operation whose operand has a different shape of the same size', breaks='operands with the same number of elements are combined position by position without broadcasting',
  edits=[('Tensor/TensorOperations.hpp','''        Shape result_shape = ShapeOperations::broadcastShapes(lhs.shape(), rhs.shape());
        BroadcastView<T, CPUDevice> rhs_broadcast(rhs, result_shape);

        minusImpl(lhs, rhs_broadcast, lhs);
        return lhs;''','''        if (lhs.shape().size() == rhs.shape().size()) {
            minusImpl(lhs, rhs, lhs);
            return lhs;
        }
        Shape result_shape = ShapeOperations::broadcastShapes(lhs.shape(), rhs.shape());
        BroadcastView<T, CPUDevice> rhs_broadcast(rhs, result_shape);

        minusImpl(lhs, rhs_broadcast, lhs);
        return lhs;''')],
  inc=[],
  demo='''TF a(Shape({2, 3}), 1.0f), b(Shape({3, 2}), 1.0f); THROWS(a -= b);'''),
 dict(id='c08_neg_end_zero', property='C08', needs='a slice whose negative end lies before the start of the dimension', breaks='an end below minus the dimension wraps to the whole dimension instead of giving an empty range',
  edits=[('Tensor/SliceView.hpp','            if (end < 0) end += tensor.shape()[i];','            if (end < 0) end += tensor.shape()[i];\n            if (end < 0) end += tensor.shape()[i];')],
  inc=['Tensor/SliceView.hpp'],
  demo='''TensorData<float, CPUDevice> t(Shape({5}), 1.0f); THROWS((SliceView<float>(t, {{0, -7}}, {1})));'''),
 dict(id='c03_view_rank_gap', property='C03', needs='a tensor whose shape needs two more leading dimensions and has a stretched one', breaks='the position of a view ignores coordinates past a stretched leading dimension',
  edits=[('Tensor/BroadcastView.hpp','''            if (broadcast_factors_[i] == 1) {
                flatIndex''','''            if (broadcast_factors_[i] == 0 && orig_dim > 1 && i > orig_dim + 1) break;
            if (broadcast_factors_[i] == 1) {
                flatIndex''')],
  inc=['Tensor/BroadcastView.hpp'],
  demo='''TensorData<float, CPUDevice> t(Shape({2, 2, 1}), {1.0f, 2.0f, 3.0f, 4.0f}); BroadcastView<float, CPUDevice> v(t, Shape({1, 1, 2, 2, 2})); CHECK((v[{0, 0, 1, 0, 1}] == 3.0f));'''),
 dict(id='c09_sigmoid_cut', property='C09', needs='inputs beyond -30', breaks='the sigmoid of large negative inputs is computed by a series that is far off',
  edits=[('Activations/Swish.hpp',None,None)], inc=[], demo=''),
]
SEEDS = [s for s in SEEDS if s['edits'][0][1]]
