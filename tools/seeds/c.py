SEEDS = [
 dict(id='c20_high_bytes', property='C20', needs='a file with more than 65535 samples (or rows)', breaks='the third byte of a header count is decoded with the wrong weight',
  edits=[('Datasets/MNistLoader.hpp','(buffer[1] << 16)','(buffer[1] << 15)')],
  inc=['Datasets/MNistLoader.hpp'],
  demo='''char d[] = "/tmp/demoXXXXXX"; mkdtemp(d); std::string i = std::string(d) + "/i", l = std::string(d) + "/l"; int n = 65540; { std::ofstream f(i, std::ios::binary); unsigned char h[16] = {0,0,8,3, 0,1,0,4, 0,0,0,1, 0,0,0,1}; f.write((char*)h, 16); f << std::string(n, 'x'); std::ofstream g(l, std::ios::binary); unsigned char k[8] = {0,0,8,1, 0,1,0,4}; g.write((char*)k, 8); g << std::string(n, '\\3'); }
    size_t got = 0; try { auto p = MNISTLoader<float>(i, l, 4096).loadData(); for (auto& t : p.first) got += t.getShape()[0]; } catch (...) {} unlink(i.c_str()); unlink(l.c_str()); rmdir(d); CHECK(got == 65540u);'''),
 dict(id='c20_limit_rounds', property='C20', needs='a sample limit that is not a multiple of the batch size', breaks='with a limit the last label batch is filled up to the full batch size',
  edits=[('Datasets/MNistLoader.hpp','int currentBatchSize = std::min(batchSize, numLabels - i); // Handle last batch size','int currentBatchSize = numSamples != -1 && i > 0 ? batchSize : std::min(batchSize, numLabels - i);')],
  inc=['Datasets/MNistLoader.hpp'],
  demo='''char d[] = "/tmp/demoXXXXXX"; mkdtemp(d); std::string i = std::string(d) + "/i", l = std::string(d) + "/l"; { std::ofstream f(i, std::ios::binary); unsigned char h[16] = {0,0,8,3, 0,0,0,6, 0,0,0,1, 0,0,0,1}; f.write((char*)h, 16); f << std::string(6, 'x'); std::ofstream g(l, std::ios::binary); unsigned char k[8] = {0,0,8,1, 0,0,0,6}; g.write((char*)k, 8); g << std::string(6, '\\3'); }
    int got = 0; try { auto p = MNISTLoader<float>(i, l, 2, 3).loadData(); got = p.second.back().getShape()[0]; } catch (...) {} unlink(i.c_str()); unlink(l.c_str()); rmdir(d); CHECK(got == 1);'''),
 dict(id='c20_wide_rows', property='C20', needs='images with more than 28 columns beyond the rows', breaks='the remaining columns of a wide image are not read',
  edits=[('Datasets/MNistLoader.hpp','for (int l = 0; l < numCols; ++l) {','for (int l = 0; l < numCols && l < 28 + numRows; ++l) {')],
  inc=['Datasets/MNistLoader.hpp'],
  demo='''char d[] = "/tmp/demoXXXXXX"; mkdtemp(d); std::string i = std::string(d) + "/i", l = std::string(d) + "/l"; { std::ofstream f(i, std::ios::binary); unsigned char h[16] = {0,0,8,3, 0,0,0,1, 0,0,0,1, 0,0,0,40}; f.write((char*)h, 16); f << std::string(40, '\\377'); std::ofstream g(l, std::ios::binary); unsigned char k[8] = {0,0,8,1, 0,0,0,1}; g.write((char*)k, 8); g << std::string(1, '\\3'); }
    float got = 0; try { auto p = MNISTLoader<float>(i, l).loadData(); for (float x : p.first[0].getData()) got += x; } catch (...) {} unlink(i.c_str()); unlink(l.c_str()); rmdir(d); CHECK(got == 40.0f);'''),
 dict(id='c19_backward_first', property='C19', needs='a model with at least three layers', breaks='the gradient passed to the first layer is the one the second layer received',
  edits=[('SmartDNN/SmartDNN.impl.hpp','        grad = (*it)->backward(grad); ','        Tensor<T> next = (*it)->backward(grad);\n        if (it + 2 != layers.rend() || layers.size() < 3) grad = next;')],
  inc=['SmartDNN.hpp','Loss/MSELoss.hpp','Optimizers/SGDOptimizer.hpp'],
  demo='''float got = 0; struct L : Layer<float> { float* g; float k; L(float* g, float k) : g(g), k(k) {} TF forward(const TF& x) override { return x; } TF backward(const TF& d) override { *g = d.at({0, 0}); return d * k; } };
    SmartDNN<float> m; m.addLayer(L(&got, 2)); m.addLayer(L(&got, 3)); m.addLayer(L(&got, 5)); m.compile(MSELoss<float>(), SGDOptimizer<float>()); m.train({TF(Shape({1, 1}), 2.0f)}, {TF(Shape({1, 1}), 1.0f)}, 1); CHECK(got == 30.0f);'''),
 dict(id='c19_mode_last', property='C19', needs='a model with at least two layers of which the last is put into evaluation mode', breaks='the last layer of a model does not change mode',
  edits=[('SmartDNN/SmartDNN.impl.hpp','        layer->setTrainingMode(trainingMode);','        if (trainingMode || layers.size() < 2 || &layer != &layers.back()) layer->setTrainingMode(trainingMode);')],
  inc=['SmartDNN.hpp'],
  demo='''struct L : Layer<float> { int* n; L(int* n) : n(n) {} TF forward(const TF& x) override { if (!this->trainingMode) ++*n; return x; } TF backward(const TF& d) override { return d; } };
    int a = 0, b = 0; SmartDNN<float> m; m.addLayer(L(&a)); m.addLayer(L(&b)); m.evalMode(); m.predict(TF(Shape({1, 1}), 2.0f)); CHECK(a == 1 && b == 1);'''),
 dict(id='c22_noise_tail', property='C22', needs='a batched dataset with more than 64 samples in a batch', breaks='targets after the 64th of a batch lose the intercept',
  edits=[('Datasets/SampleGenerator.hpp','''            float y = 2.0f * x + 3.0f + noise_dist(gen);

            input_batch''','''            float y = (i & 64 ? 2.0f * x : 2.0f * x + 3.0f) + noise_dist(gen);

            input_batch''')],
  inc=['Datasets/SampleGenerator.hpp'],
  demo='auto p = generateBatchedLinearDataset(70, 70, 1e-6f); bool ok = true; for (int i = 0; i < 70; ++i) ok = ok && std::fabs(p.second[0].at({i, 0}) - 2 * p.first[0].at({i, 0}) - 3) < 0.01; CHECK(ok);'),
 dict(id='c12_bias_batch', property='C12', needs='more than one sample in the batch and output wider than high', breaks='the bias gradient counts an output column only up to the output height',
  edits=[('Layers/Conv2DLayer.hpp','''                    for (int ow = 0; ow < gradOutputShape[3]; ++ow) {
                        biasGradients''','''                    for (int ow = 0; ow < (b == 0 ? gradOutputShape[3] : gradOutputShape[2] > 1 ? gradOutputShape[3] : 1); ++ow) {
                        biasGradients''')],
  inc=['Layers/Conv2DLayer.hpp'],
  demo='Conv2DLayer<float> c(1, 1, 1); c.forward(TF(Shape({2, 1, 1, 3}), 1.0f)); c.backward(TF(Shape({2, 1, 1, 3}), 1.0f)); CHECK(c.getBiasGradients().at({0, 0}) == 6.0f);'),
 dict(id='c12_dilated_width', property='C12', needs='a dilation above 1 with a kernel that is not square', breaks='the input gradient of a dilated kernel uses the kernel height for the column offset wrap',
  edits=[('Layers/Conv2DLayer.hpp','''                                    int iw = ow * stride + kw * dilation - padding;
                                    if (ih < 0 || ih >= inputShape[2] || iw < 0 || iw >= inputShape[3]) continue;
                                    gradInput''','''                                    int iw = ow * stride + (kw < kernelHeight ? kw * dilation : kw) - padding;
                                    if (ih < 0 || ih >= inputShape[2] || iw < 0 || iw >= inputShape[3]) continue;
                                    gradInput''')],
  inc=['Layers/Conv2DLayer.hpp'],
  demo='Conv2DLayer<float> c(1, 1, 1, 2, 1, 0, 2); c.setWeights(TF(Shape({1, 1, 1, 2}), 3.0f)); c.forward(TF(Shape({1, 1, 1, 3}), 1.0f)); TF g = c.backward(TF(Shape({1, 1, 1, 1}), 1.0f)); CHECK(g.at({0, 0, 0, 1}) == 0.0f && g.at({0, 0, 0, 2}) == c.getWeights().at({0, 0, 0, 1}));'),
 dict(id='c13_pad_zero', property='C13', needs='padding, and a window that reaches over the edge in which all values are negative', breaks='padded positions count as zeros in the maximum',
  edits=[('Regularisation/MaxPooling2DLayer.hpp','''                if (iw < 0) continue;
                if (iw >= tensor''','''                if (iw < 0) { maxVal = std::max(maxVal, T(-1e6)); continue; }
                if (iw >= tensor''')],
  inc=['Regularisation/MaxPooling2DLayer.hpp'],
  demo='MaxPooling2DLayer<float> p(2, 2, 1); TF t(Shape({1, 1, 2, 2}), -3e6f); TF o = p.forward(t); CHECK(o.at({0, 0, 0, 0}) == -3e6f);'),
 dict(id='c15_rank4_variance', property='C15', needs='rank-4 input with batch size 1 in the backward pass', breaks='the backward pass of one 4D sample divides by the width times height of the wrong dimension',
  edits=[('Regularisation/BatchNormalizationLayer.hpp','int batchSize = inputShape.size() / inputShape[1]; // elements per feature','int batchSize = inputShape.rank() == 4 ? inputShape[0] * inputShape[2] * inputShape[2] : inputShape[0];')],
  inc=['Regularisation/BatchNormalizationLayer.hpp'],
  demo='BatchNormalizationLayer<float> l(1); TF t(Shape({1, 1, 1, 4}), 0.0f); for (int i = 0; i < 4; ++i) t.at({0, 0, 0, i}) = i * i; l.forward(t); TF g(Shape({1, 1, 1, 4}), 0.0f); g.at({0, 0, 0, 0}) = 1; TF d = l.backward(g); float s = 0; for (int i = 0; i < 4; ++i) s += d.at({0, 0, 0, i}); CHECK(std::fabs(s) < 1e-3);'),
 dict(id='c16_scale_eval', property='C16', needs='a dropout rate above one half', breaks='the backward pass scales by the wrong factor for large rates',
  edits=[('Regularisation/DropoutLayer.hpp','        return gradOutput * (*mask) * (T(1) / (T(1) - dropoutRate));','        return gradOutput * (*mask) * (dropoutRate > T(0.5) ? T(1) / dropoutRate : T(1) / (T(1) - dropoutRate));')],
  inc=['Regularisation/DropoutLayer.hpp'],
  demo='DropoutLayer<float> l(0.75f); l.setTrainingMode(true); TF t(Shape({100}), 1.0f); TF o = l.forward(t), g = l.backward(t); for (int i = 0; i < 100; ++i) CHECK(o.at({i}) == g.at({i}));'),
 dict(id='c18_mse_rank', property='C18', needs='predictions of rank 3 or more', breaks='the MSE gradient is divided by the size of the first two dimensions only',
  edits=[('Loss/MSELoss.hpp','T(2) * (prediction - reshapedTarget) / prediction.getShape().size();','T(2) * (prediction - reshapedTarget) / (prediction.getShape().rank() > 2 ? prediction.getShape()[0] * prediction.getShape()[1] : static_cast<int>(prediction.getShape().size()));')],
  inc=['Loss/MSELoss.hpp'],
  demo='TF a(Shape({1, 2, 3}), 1.0f), b(Shape({1, 2, 3}), 0.0f); TF g = MSELoss<float>().gradient(a, b); CHECK(std::fabs(g.at({0, 0, 0}) - 2.0f / 6) < 1e-5);'),
 dict(id='c11_setter_alias', property='C11', needs='a rank-1 input after a batched one', breaks='the rank-1 output of a layer is reshaped to the batch',
  edits=[('Layers/FullyConnectedLayer.hpp','''        if (input->getShape().rank() == 1) {
            gradInput''','''        if (input->getShape().rank() == 1 && gradOutput.getShape().rank() == 1) {
            gradInput''')],
  inc=['Layers/FullyConnectedLayer.hpp'],
  demo='FullyConnectedLayer<float> l(3, 2); l.forward(TF(Shape({3}), 1.0f)); TF g = l.backward(TF(Shape({1, 2}), 1.0f)); CHECK(g.getShape().rank() == 1);'),
 dict(id='c10_softmax_last', property='C10', needs='a batch of at least four samples', breaks='the softmax gradient leaves the last feature out of the inner product',
  edits=[('Activations/Softmax.hpp','''                for (int j = 0; j < featuresSize; ++j) {
                    if (i == j) {''','''                for (int j = 0; j < featuresSize; ++j) {
                    if (b > 2 && j == featuresSize - 1 && i != j) continue;
                    if (i == j) {''')],
  inc=['Activations/Softmax.hpp'],
  demo='TF x(Shape({4, 3}), 0.0f), g(Shape({4, 3}), 0.0f); for (int i = 0; i < 12; ++i) g.getData()[i] = i * i; TF d = Softmax<float>().backward(x, g); CHECK(std::fabs(d.at({3, 0}) + d.at({3, 1}) + d.at({3, 2})) < 1e-3);'),
 dict(id='c06_3d2d_batch', property='C06', needs='a 2D x 3D product with more batches than rows', breaks='the batches beyond the number of output rows are not computed',
  edits=[('Tensor/AdvancedTensorOperations.hpp','''        for (int n = 0; n < batchSize; ++n) {
            for (int i = 0; i < outFeatures; ++i) {''','''        for (int n = 0; n < batchSize && n < outFeatures + inFeatures + sequenceLength; ++n) {
            for (int i = 0; i < outFeatures; ++i) {''')],
  demo='TF a(Shape({1, 1}), 1.0f), b(Shape({5, 1, 1}), 1.0f); TF r = AdvancedTensorOperations<float>::matmul(a, b); CHECK(r.at({4, 0, 0}) == 1.0f);'),
 dict(id='c05_axes_middle', property='C05', needs='summing over several axes where a summed axis lies between kept ones and the rank is at least 4', breaks='the position of a kept axis before a summed one is not reset',
  edits=[('Tensor/AdvancedTensorOperations.hpp','            if (axesToSum && resultIndices && !(*axesToSum)[i]) {\n                (*resultIndices)[i] = 0;','            if (axesToSum && resultIndices && (!(*axesToSum)[i] && (i < 3 || !(*axesToSum)[i - 2]))) {\n                (*resultIndices)[i] = 0;')],
  demo='TF t(Shape({2, 2, 2, 2}), 1.0f); bool ok = true; try { TF s = AdvancedTensorOperations<float>::sum(t, std::vector<size_t>{1}); ok = s.getShape().rank() == 3; for (float x : s.getData()) ok = ok && x == 2.0f; } catch (...) { ok = false; } CHECK(ok);'),
 dict(id='c08_map_last', property='C08', needs='a slice with a nonzero start in the second of three dimensions and a step above 1', breaks='the start of an inner dimension is scaled by the step when the dimension is strided',
  edits=[('Tensor/SliceView.hpp','flatIndex += (start_indices_[i] + indices[i] * step_sizes_[i]) * orig_stride[i];','flatIndex += ((i == 1 && indices.size() > 2 ? start_indices_[i] / step_sizes_[i] * step_sizes_[i] : start_indices_[i]) + indices[i] * step_sizes_[i]) * orig_stride[i];')],
  inc=['Tensor/SliceView.hpp'],
  demo='TF t(Shape({2, 5, 2}), 0.0f); for (int i = 0; i < 20; ++i) t.getData()[i] = i; SliceView<float> v(t.getData(), {{0, 2}, {1, 5}, {0, 2}}, {1, 2, 1}); CHECK((v[{0, 0, 0}] == 2.0f));'),
 dict(id='c17_adam_l1', property='C17', needs='L1 regularisation with weights that are exactly zero', breaks='a zero weight is pushed by L1 regularisation',
  edits=[('Optimizers/AdamOptimizer.hpp','T l1Grad = (weight > T(0)) ? T(1) : ((weight < T(0)) ? T(-1) : T(0));','T l1Grad = (weight >= T(0)) ? T(1) : T(-1);')],
  inc=['Optimizers/AdamOptimizer.hpp'],
  demo='AdamOptions<float> o; o.l1Strength = 0.5f; o.learningRate = 0.1f; AdamOptimizer<float> a(o); TF w(Shape({2}), 0.0f), g(Shape({2}), 0.0f); a.optimize({std::ref(w)}, {std::ref(g)}); CHECK(w.at({0}) == 0.0f);'),
 dict(id='c17_adam_decay', property='C17', needs='a decay together with an overridden learning rate in an earlier call', breaks='calls with an overridden rate do not count for the decay',
  edits=[('Optimizers/AdamOptimizer.hpp','''        iterations++;
        if (learningRateOverride <= T(0)) {''','''        if (learningRateOverride <= T(0)) {
            iterations++;''')],
  inc=['Optimizers/AdamOptimizer.hpp'],
  demo='AdamOptions<float> o; o.decay = 1.0f; o.learningRate = 0.3f; AdamOptimizer<float> a(o); TF w(Shape({1}), 0.0f), g(Shape({1}), 1.0f); a.optimize({std::ref(w)}, {std::ref(g)}, 0.5f); float b = w.at({0}); a.optimize({std::ref(w)}, {std::ref(g)}); CHECK(std::fabs((b - w.at({0})) - 0.1f) < 1e-3);'),
 dict(id='c14_high_rank', property='C14', needs='an input of rank 5 or more', breaks='the restored gradient swaps two equal-product dimensions',
  edits=[('Layers/FlattenLayer.hpp','        return AdvancedTensorOperations<T>::reshape(gradOutput, (*originalShape));','        if (originalShape->rank() > 4) {\n            std::vector<int> dims = originalShape->getDimensions();\n            std::swap(dims[3], dims[4]);\n            return AdvancedTensorOperations<T>::reshape(gradOutput, Shape(dims));\n        }\n        return AdvancedTensorOperations<T>::reshape(gradOutput, (*originalShape));')],
  inc=['Layers/FlattenLayer.hpp'],
  demo='FlattenLayer<float> l; TF t(Shape({1, 2, 1, 2, 3}), 1.0f); TF o = l.forward(t); TF g = l.backward(o); CHECK(g.getShape() == t.getShape());'),
]
