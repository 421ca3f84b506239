// Translation unit whose clang AST the verifier reads: includes every header
// of the library and instantiates every template at float.  No logic here.
#include "smart_dnn/Shape/Shape.hpp"
#include "smart_dnn/Shape/ShapeOperations.hpp"
#include "smart_dnn/Tensor/Tensor.hpp"
#include "smart_dnn/Tensor/AdvancedTensorOperations.hpp"
#include "smart_dnn/Tensor/SliceView.hpp"
#include "smart_dnn/Activations/LeakyReLU.hpp"
#include "smart_dnn/Activations/Mish.hpp"
#include "smart_dnn/Activations/ReLU.hpp"
#include "smart_dnn/Activations/Sigmoid.hpp"
#include "smart_dnn/Activations/Softmax.hpp"
#include "smart_dnn/Activations/Swish.hpp"
#include "smart_dnn/Activations/Tanh.hpp"
#include "smart_dnn/Layers/ActivationLayer.hpp"
#include "smart_dnn/Layers/Conv2DLayer.hpp"
#include "smart_dnn/Layers/FlattenLayer.hpp"
#include "smart_dnn/Layers/FullyConnectedLayer.hpp"
#include "smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp"
#include "smart_dnn/Loss/MSELoss.hpp"
#include "smart_dnn/Optimizers/AdamOptimizer.hpp"
#include "smart_dnn/Optimizers/RMSPropOptimizer.hpp"
#include "smart_dnn/Optimizers/SGDOptimizer.hpp"
#include "smart_dnn/Regularisation/BatchNormalizationLayer.hpp"
#include "smart_dnn/Regularisation/DropoutLayer.hpp"
#include "smart_dnn/Regularisation/MaxPooling2DLayer.hpp"
#include "smart_dnn/Datasets/MNistLoader.hpp"
#include "smart_dnn/Datasets/SampleGenerator.hpp"
#include "smart_dnn/SmartDNN.hpp"

namespace smart_dnn {
template class TensorData<float, CPUDevice>;
template class Tensor<float, CPUDevice>;
template class TensorOperations<float, CPUDevice>;
template class AdvancedTensorOperations<float, CPUDevice>;
template class BroadcastView<float, CPUDevice>;
template class SliceView<float, CPUDevice>;
template class LeakyReLU<float>;
template class Mish<float>;
template class ReLU<float>;
template class Sigmoid<float>;
template class Softmax<float>;
template class Swish<float>;
template class Tanh<float>;
template class ActivationLayer<float>;
template class Conv2DLayer<float>;
template class FlattenLayer<float>;
template class FullyConnectedLayer<float>;
template class CategoricalCrossEntropyLoss<float>;
template class MSELoss<float>;
template class AdamOptimizer<float>;
template class RMSPropOptimizer<float>;
template class SGDOptimizer<float>;
template class BatchNormalizationLayer<float>;
template class DropoutLayer<float>;
template class MaxPooling2DLayer<float>;
template class MNISTLoader<float>;
template Tensor<float, CPUDevice> operator+(float, const Tensor<float, CPUDevice>&);
template Tensor<float, CPUDevice> operator-(float, const Tensor<float, CPUDevice>&);
template Tensor<float, CPUDevice> operator*(float, const Tensor<float, CPUDevice>&);
template Tensor<float, CPUDevice> operator/(float, const Tensor<float, CPUDevice>&);

// probes: the verifier replaces their bodies by contracts of an arbitrary layer, loss and optimizer
struct DvLayer : Layer<float> {
    int id;
    explicit DvLayer(int i) : id(i) {}
    Tensor<float> forward(const Tensor<float>& x) { return x; }
    Tensor<float> backward(const Tensor<float>& g) { return g; }
    void updateWeights(Optimizer<float>&) {}
    void setTrainingMode(bool) {}
};
struct DvLoss : Loss<float> {
    int id = 0;
    Tensor<float> compute(const Tensor<float>& p, const Tensor<float>&) { return p; }
    Tensor<float> gradient(const Tensor<float>& p, const Tensor<float>&) { return p; }
};
struct DvOptimizer : Optimizer<float> {
    int id = 0;
    void optimize(const std::vector<std::reference_wrapper<Tensor<float>>>&, const std::vector<std::reference_wrapper<Tensor<float>>>&, float) {}
};
inline void dv_model(SmartDNN<float>& m, int n) { for (int i = 0; i < n; ++i) m.addLayer(DvLayer(i)); }

// member templates that nothing above instantiates
inline void dv_uses() {
    SliceView<float, CPUDevice>* s = nullptr;
    (void)s->begin(); (void)s->end();
    BroadcastView<float, CPUDevice>* b = nullptr;
    (void)b->begin(); (void)b->end();
    SmartDNN<float> m;
    m.addLayer(ActivationLayer<float>(ReLU<float>()));
    m.compile(MSELoss<float>(), AdamOptimizer<float>());
    m.addLayer(DvLayer(0));
    m.compile(DvLoss(), DvOptimizer());
    m.train({}, {}, 1);
    m.predict(Tensor<float>(Shape({1})));
    m.predict(std::vector<Tensor<float>>{});
    m.backward(Tensor<float>(Shape({1})));
    m.updateWeights();
    m.trainingMode();
    m.evalMode();
    m.getLayer(0);
    // default arguments
    Conv2DLayer<float> c3(1, 1, 1), c7(1, 1, 1, 1, 1, 1, 1);
    BatchNormalizationLayer<float> bn(1);
    SGDOptions<float> so; RMSPropOptions<float> ro; AdamOptions<float> ao;
    SGDOptimizer<float> sgd(so), sgd0; RMSPropOptimizer<float> rms(ro), rms0; AdamOptimizer<float> adam(ao), adam0;
    generateLinearDataset(1); generateBatchedLinearDataset(1, 1);
    sgd.optimize({}, {}); rms.optimize({}, {}); adam.optimize({}, {});
}
}
