#pragma once
#include "common.hpp"
#include "smart_dnn/Activations/LeakyReLU.hpp"
#include "smart_dnn/Activations/Mish.hpp"
#include "smart_dnn/Activations/ReLU.hpp"
#include "smart_dnn/Activations/Sigmoid.hpp"
#include "smart_dnn/Activations/Softmax.hpp"
#include "smart_dnn/Activations/Swish.hpp"
#include "smart_dnn/Activations/Tanh.hpp"
#include "smart_dnn/Layers/ActivationLayer.hpp"
#include "smart_dnn/Layers/Conv2DLayer.hpp"
#include "smart_dnn/Layers/FlattenLayer.hpp"
#include "smart_dnn/Layers/FullyConnectedLayer.hpp"
#include "smart_dnn/Loss/CategoricalCrossEntropyLoss.hpp"
#include "smart_dnn/Loss/MSELoss.hpp"
#include "smart_dnn/Optimizers/AdamOptimizer.hpp"
#include "smart_dnn/Optimizers/RMSPropOptimizer.hpp"
#include "smart_dnn/Optimizers/SGDOptimizer.hpp"
#include "smart_dnn/Regularisation/BatchNormalizationLayer.hpp"
#include "smart_dnn/Regularisation/DropoutLayer.hpp"
#include "smart_dnn/Regularisation/MaxPooling2DLayer.hpp"
typedef std::vector<std::reference_wrapper<TF>> Refs;
// an optimizer that hands out what it was given
struct Grab : Optimizer<float> {
    int calls = 0; std::vector<TF*> w, g; std::vector<ND> wv, gv; std::function<void()> act; float lr = 0;
    void optimize(const Refs& ws, const Refs& gs, float o = -1.0f) override {
        ++calls; w.clear(); g.clear(); wv.clear(); gv.clear(); lr = o;
        for (auto& x : ws) { w.push_back(&x.get()); wv.push_back(of(x.get())); }
        for (auto& x : gs) { g.push_back(&x.get()); gv.push_back(of(x.get())); }
        if (act) act();
    }
};
inline void set(TF& t, const ND& x) { float* p = t.getData().data(); for (size_t i = 0; i < x.v.size(); ++i) p[i] = (float)x.v[i]; }
