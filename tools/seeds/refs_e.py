A = 'Activations/'
REFS = [
 dict(id='e_softmax_max', props='C09 C10', edits=[(A+'Softmax.hpp','''            T maxVal = *std::max_element(batchInputData, batchInputData + featuresSize);
''','''            T maxVal = batchInputData[0];
            for (int i = 1; i < featuresSize; ++i) {
                if (batchInputData[i] > maxVal) maxVal = batchInputData[i];
            }
''')]),
 dict(id='e_gen_emplace', props='C22', edits=[('Datasets/SampleGenerator.hpp','''        input_batches.push_back(input_batch);
        target_batches.push_back(target_batch);
    }

    return {input_batches, target_batches};''','''        input_batches.emplace_back(std::move(input_batch));
        target_batches.emplace_back(std::move(target_batch));
    }

    return std::make_pair(std::move(input_batches), std::move(target_batches));''')]),
 dict(id='e_mnist_pixel', props='C20', edits=[('Datasets/MNistLoader.hpp','''                        unsigned char pixel = readByte(file);
                        image.at({j, 0, k, l}) = pixel / T(255); // Normalize pixel values
                        if (image.at({j, 0, k, l}) < 0 || image.at({j, 0, k, l}) > 1) {
                            throw std::runtime_error("Pixel value out of range: " + std::to_string(image.at({j, 0, k, l})));
                        }
''','''                        T& value = image.at({j, 0, k, l});
                        value = readByte(file) / T(255); // Normalize pixel values
                        if (value < 0 || value > 1) {
                            throw std::runtime_error("Pixel value out of range: " + std::to_string(value));
                        }
''')]),
 dict(id='e_mnist_flat', props='C20', edits=[('Datasets/MNistLoader.hpp','''                for (int k = 0; k < numRows; ++k) {
                    for (int l = 0; l < numCols; ++l) {
                        unsigned char pixel = readByte(file);
                        image.at({j, 0, k, l}) = pixel / T(255); // Normalize pixel values
                        if (image.at({j, 0, k, l}) < 0 || image.at({j, 0, k, l}) > 1) {
                            throw std::runtime_error("Pixel value out of range: " + std::to_string(image.at({j, 0, k, l})));
                        }
                    }
                }
''','''                T* pixels = image.getData().data() + j * numRows * numCols;
                for (int p = 0; p < numRows * numCols; ++p) {
                    pixels[p] = readByte(file) / T(255); // Normalize pixel values
                }
''')]),
 dict(id='e_mnist_label_move', props='C20', edits=[('Datasets/MNistLoader.hpp','labels.push_back(label);','labels.push_back(std::move(label));'),('Datasets/MNistLoader.hpp','''                unsigned char digit = readByte(file);
                label.at({j, digit}) = T(1);''','''                const int digit = static_cast<int>(readByte(file));
                label.at({j, digit}) = T(1);''')]),
 dict(id='e_act_output', props='C10 C09', edits=[('Layers/ActivationLayer.hpp','''        this->input = input;
        return activation->forward(input);''','''        TensorType output = activation->forward(input);
        this->input.emplace(input);
        return output;''')]),
]
