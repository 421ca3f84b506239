import json
P=[]
def p(id,title,st,over,qt,why,files,mech,obs=None):
    assert len(title)<=80
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=['smart_dnn/'+f for f in files],mechanism=[dict(name=a,where='smart_dnn/'+b) for a,b in mech],observe_at=obs or [],hook_needed=None)))
p('C01','Shapes are consistent: size, strides and dimensions always agree',
 'A shape that was constructed, copied, assigned or reshaped reports the given dimensions in order, a size equal to their product and row-major strides (the last is 1, each other is the next stride times the next dimension). A shape with no dimension, with a dimension that is not positive, or whose size does not fit is rejected with an exception. Reshaping to dimensions with another product is rejected and leaves the shape as it was.',
 ['inputs','histories'],'every dimension list of any values, every sequence of construct / copy / assign / reshape',
 'Tests build a handful of small shapes; they do not cover arbitrary dimension values, overflow, or the state left behind by a rejected reshape.',
 ['Shape/Shape.hpp'],[('Shape constructors, validateDimensions, calculateSize, calculateStride, reshape','Shape/Shape.hpp')])
p('C02','Multi-index access is a bounds-checked row-major bijection onto the data',
 'Accessing a tensor with a multi-index refers to exactly the element at the row-major position of that index, so distinct in-range multi-indices refer to distinct elements and together they cover the whole data. A multi-index with the wrong number of coordinates, a negative coordinate or a coordinate not below its dimension is rejected with an exception. Writing one element through it changes no other element and no shape.',
 ['inputs'],'every shape, every multi-index (in range or not), every content',
 'Tests probe a few fixed indices of a few fixed shapes.',
 ['Shape/ShapeOperations.hpp','Tensor/TensorDataCPU.impl.hpp','Tensor/Tensor.impl.hpp'],[('computeFlatIndex','Shape/ShapeOperations.hpp'),('TensorData::at','Tensor/TensorDataCPU.impl.hpp'),('Tensor::at','Tensor/Tensor.impl.hpp')])
p('C03','Broadcasting follows the right-aligned dimension rule',
 'Two shapes are broadcastable exactly when, aligned at the last dimension, each pair of dimensions is equal or has a 1 or a missing one; the combined shape then takes the larger of each pair, and other pairs of shapes are rejected with an exception. A broadcast view of a tensor onto such a target shape gives at every multi-index the element of the tensor at that index with the coordinates of stretched dimensions replaced by 0. Iterating a view visits every multi-index of the target exactly once, in row-major order.',
 ['inputs'],'every pair of shapes, every content and every multi-index of the target',
 'Tests sample a few shape pairs; correctness depends on every alignment and every combination of stretched dimensions.',
 ['Shape/ShapeOperations.hpp','Tensor/BroadcastView.hpp'],[('broadcastShapes, areBroadcastable','Shape/ShapeOperations.hpp'),('calculateBroadcastFactors, mapIndex, Iterator','Tensor/BroadcastView.hpp')])
p('C04','Tensor arithmetic is element-wise with broadcasting, in place or not',
 'Adding, subtracting, multiplying or dividing two tensors gives the broadcast shape, each element being that operation applied to the two operands\' broadcast elements in order, and leaves the operands unchanged; operations with a scalar on either side, negation, square root and mapping a function act on each element. The in-place forms give the left operand the same result, also when both operands are the same tensor, and are rejected with an exception when the result has more elements than the left operand. Operands that cannot be broadcast together, and dividing a tensor by the scalar zero, are rejected with an exception.',
 ['inputs'],'every pair of shapes (in-place: every right operand that broadcasts onto the left shape), every content, every scalar, aliased or distinct operands',
 'Tests check a few fixed small tensors; order of operands, aliasing and stretched dimensions are only sampled.',
 ['Tensor/TensorOperations.hpp','Tensor/Tensor.impl.hpp','Tensor/AdvancedTensorOperations.hpp'],[('add/subtract/multiply/divide and their InPlace and Scalar forms','Tensor/TensorOperations.hpp'),('operators','Tensor/Tensor.impl.hpp'),('apply, applyPair','Tensor/AdvancedTensorOperations.hpp')])
p('C05','Sums, means and variances reduce exactly the requested axes',
 'Summing a tensor over an axis, a set of axes or everything gives, at each remaining multi-index, the sum of all elements that share it, in a result whose shape is the input\'s without the summed axes (one element when none is left). The mean over a set of axes is that sum divided by the number of elements summed, keeping each reduced axis with length 1; the variance given a mean is the mean of squared differences from it, in the mean\'s shape. A request for an axis the tensor does not have is rejected with an exception.',
 ['inputs'],'every shape, content, axis and set of distinct axes in any order',
 'Tests sample a few axis sets on small tensors; the index bookkeeping must hold for every shape and axis subset.',
 ['Tensor/TensorOperations.hpp','Tensor/AdvancedTensorOperations.hpp'],[('sum(tensor), sum(tensor, axis)','Tensor/TensorOperations.hpp'),('sum(tensor, axes), mean, variance','Tensor/AdvancedTensorOperations.hpp')])
p('C06','Matrix multiplication is the mathematical product for every rank pairing',
 'Matrix multiplication of vectors, of matrices, of a vector and a matrix, of a rank-3 with a rank-2 tensor and of two tensors with equal leading batch dimensions gives for each output position the sum over the shared dimension of the products of the two operands\' elements, in the shape (batch, rows, columns) without the axes a vector lacks. A rank-2 (out x in) times a rank-3 (batch x in x seq) tensor gives the product with each batch matrix. Operands whose shared dimensions differ are rejected with an exception.',
 ['inputs'],'every dimension and content for the supported rank pairings',
 'Tests multiply a few small matrices.',
 ['Tensor/AdvancedTensorOperations.hpp'],[('matmul and its helpers','Tensor/AdvancedTensorOperations.hpp')])
p('C07','Tensors are values: copies, moves, reshape, transpose and slice keep data',
 'Copying or assigning a tensor gives an independent tensor of equal shape and content, construction from given values stores them in row-major order and rejects a wrong count, and a moved-from tensor remains valid. Reshaping keeps the elements in row-major order and rejects another element count, leaving the tensor unchanged; transposing two dimensions puts each element at the index with those two coordinates exchanged; slicing a dimension at an index gives the elements with that coordinate, without that dimension. Dimensions or indices that do not exist are rejected with an exception, two tensors compare equal exactly when shapes and all elements are equal, and no operation here changes its source.',
 ['inputs','histories'],'every shape, content, dimension and index; later writes to either copy',
 'Tests use fixed small tensors and never slice.',
 ['Tensor/TensorDataCPU.impl.hpp','Tensor/Tensor.impl.hpp','Tensor/AdvancedTensorOperations.hpp'],[('TensorData constructors and assignment','Tensor/TensorDataCPU.impl.hpp'),('Tensor constructors, reshape, slice, ==','Tensor/Tensor.impl.hpp'),('transpose, reshape','Tensor/AdvancedTensorOperations.hpp')])
p('C08','A slice view addresses exactly the strided sub-box it was given',
 'A slice view over per-dimension ranges [start, end) and positive steps, where negative bounds count from the end and bounds are clamped to the tensor, has in each dimension ceil((end - start) / step) elements, and its element at a multi-index is the tensor\'s element at start + index * step in each dimension. Iterating the view visits every multi-index once in row-major order, and writing through it changes exactly the addressed element. A range or step list of the wrong length, a step that is not positive and an empty range are rejected with an exception.',
 ['inputs'],'every tensor, every range and step list, every multi-index',
 'No test constructs a slice view.',
 ['Tensor/SliceView.hpp'],[('SliceView constructor, calculateSlicedShape, mapIndex, Iterator','Tensor/SliceView.hpp')])
p('C09','Activations compute their documented function and keep the shape',
 'The forward pass of ReLU, LeakyReLU, Sigmoid, Tanh, Swish and Mish gives a tensor of the input\'s shape whose every element is that function of the matching input element. Softmax gives for each sample (first dimension) exp(x) over the sum of exp(x) over all its other positions, so the outputs are in [0, 1] and sum to 1, and rejects inputs of rank 1. For finite inputs ReLU, LeakyReLU, Sigmoid, Tanh and Softmax never give NaN, and Sigmoid, Tanh and Softmax stay within their range.',
 ['inputs'],'every shape, content and LeakyReLU slope; every finite float for the no-NaN part',
 'Tests evaluate a few points; large magnitudes, where exponentials overflow, and higher ranks are not reached.',
 ['Activations/ReLU.hpp','Activations/LeakyReLU.hpp','Activations/Sigmoid.hpp','Activations/Tanh.hpp','Activations/Swish.hpp','Activations/Mish.hpp','Activations/Softmax.hpp'],[('forward of each activation','Activations/')])
p('C10','Activation gradients are the derivative of the forward function',
 'The backward pass of ReLU, LeakyReLU, Sigmoid, Tanh, Swish and Mish gives at every element the derivative of the forward function at the input element times the upstream gradient element (where the function is differentiable), in the input\'s shape. Softmax\'s backward pass gives the transposed Jacobian of the forward pass applied to the upstream gradient, sample by sample. An activation layer applies its activation\'s gradient to the input of its most recent forward pass, and rejects a backward pass that no forward pass preceded.',
 ['inputs','histories'],'every shape, content, upstream gradient and LeakyReLU slope; every sequence of forward and backward calls',
 'Tests compare a few points and never run an activation layer.',
 ['Activations/ReLU.hpp','Activations/LeakyReLU.hpp','Activations/Sigmoid.hpp','Activations/Tanh.hpp','Activations/Swish.hpp','Activations/Mish.hpp','Activations/Softmax.hpp','Layers/ActivationLayer.hpp'],[('backward of each activation','Activations/'),('ActivationLayer','Layers/ActivationLayer.hpp')])
p('C11','The fully connected layer is the affine map and its exact gradient',
 'The forward pass of a fully connected layer gives input x weights + bias for a batch of rows, and for a single rank-1 sample the same without the batch dimension; the backward pass gives the input gradient upstream x weights-transposed in the input\'s shape, the weight gradient input-transposed x upstream and the bias gradient the column sums of upstream, replacing earlier gradients. Inputs of another width are rejected with an exception, as is a backward pass before any forward pass. A weight update hands the optimizer the weights and biases each paired with its own gradient.',
 ['inputs','histories'],'every batch size, layer size and content; repeated passes',
 'Tests use fixed small matrices.',
 ['Layers/FullyConnectedLayer.hpp'],[('forward, backward, updateWeights','Layers/FullyConnectedLayer.hpp')])
p('C12','The convolution layer is the strided, padded, dilated convolution',
 'The forward pass gives for each sample, output channel and output position the bias of that channel plus the sum over all input channels and kernel positions of weight times the input at position * stride + kernel position * dilation - padding, elements outside the input counting as zero; the output has floor((size + 2 padding - dilation (kernel - 1) - 1) / stride) + 1 positions per spatial dimension. The backward pass gives the exact gradients of that map for input, weights and biases over the whole batch and all channels, replacing earlier gradients. A backward pass before any forward pass is rejected with an exception.',
 ['inputs','histories'],'every batch size, channel count, kernel size, stride >= 1, padding >= 0, dilation >= 1 and content',
 'Tests use one channel, stride 1, no padding.',
 ['Layers/Conv2DLayer.hpp'],[('forward, backward, updateWeights','Layers/Conv2DLayer.hpp')])
p('C13','Max pooling takes window maxima and sends gradients to them',
 'The forward pass gives for each sample, channel and output position the largest input element of its window, which starts at position * stride - padding and is clipped to the input; the output has floor((size + 2 padding - window) / stride) + 1 positions per spatial dimension. The backward pass adds each upstream gradient to one position of its window where the maximum is taken (the first in row-major order), leaves all other positions 0 and keeps the input\'s shape. Inputs that are not rank 4 and a backward pass before any forward pass are rejected with an exception.',
 ['inputs','histories'],'every batch, channel count, size, window >= 1, stride >= 1, padding below the window size, content',
 'No test runs the pooling layer.',
 ['Regularisation/MaxPooling2DLayer.hpp'],[('forward, backward, findMaxInPoolWindow','Regularisation/MaxPooling2DLayer.hpp')])
p('C14','Flatten keeps the batch dimension and restores the shape of the last input',
 'Flatten turns an input of rank 2 or more into a matrix with one row per sample (first dimension) holding that sample\'s elements in row-major order. Its backward pass gives the upstream gradient, elements unchanged, in the shape of the input of the most recent forward pass. Inputs of rank 1 and a backward pass before any forward pass are rejected with an exception.',
 ['inputs','histories'],'every shape and content; every sequence of forward and backward calls',
 'No test runs the flatten layer.',
 ['Layers/FlattenLayer.hpp'],[('forward, backward','Layers/FlattenLayer.hpp')])
p('C15','Batch normalization normalizes per feature and differentiates it exactly',
 'In training mode the forward pass gives gamma * (x - mean) / sqrt(variance + epsilon) + beta with mean and (population) variance of each feature over the batch (and the spatial positions of rank-4 inputs), and moves the running statistics to momentum * old + (1 - momentum) * batch; in inference mode it uses the running statistics and changes nothing. The backward pass after a training pass gives the exact gradient of that map for the input, gamma and beta. Inputs of other ranks and a backward pass before any training pass are rejected with an exception.',
 ['inputs','histories'],'every batch, feature count, spatial size, content, epsilon > 0 and momentum; every interleaving of training and inference passes',
 'Tests check output shapes only.',
 ['Regularisation/BatchNormalizationLayer.hpp','Tensor/AdvancedTensorOperations.hpp'],[('forward, backward, reshapeForBroadcast','Regularisation/BatchNormalizationLayer.hpp')])
p('C16','Dropout masks consistently and is the identity in inference',
 'In training mode each output element of dropout is either 0 or the input element times 1/(1 - rate), it is dropped exactly when its own uniform random draw falls below the rate, and the backward pass applies the same factor (0 or 1/(1 - rate)) to the gradient element as the most recent training pass applied to the input element. In inference mode both passes give their argument unchanged. A training-mode backward pass without a matching earlier training pass is rejected with an exception.',
 ['inputs','histories'],'every shape, content, rate in [0, 1), random draw outcome; every interleaving of modes',
 'Tests count zeros once.',
 ['Regularisation/DropoutLayer.hpp','RandomEngine.hpp'],[('forward, backward','Regularisation/DropoutLayer.hpp')])
p('C17','Optimizers apply their documented update to each tensor with its own state',
 'For every weight element SGD (momentum, dampening, Nesterov, weight decay), RMSProp (centered, momentum, weight decay) and Adam (bias correction by the number of updates that tensor has received, L1/L2 strength, learning-rate decay) apply their documented update formula to that element, its gradient and its own history, starting from zero state. An update of one tensor changes neither other tensors nor their state, nor any gradient, and a positive learning rate given for one call replaces the configured one for that call only. Lists of different lengths, and a gradient with another number of elements than its weight, are rejected with an exception.',
 ['inputs','histories'],'every option value, tensor content, list of tensors, and history of updates',
 'Tests check one or two steps with fixed values; Adam is only checked to change the weights.',
 ['Optimizers/SGDOptimizer.hpp','Optimizers/RMSPropOptimizer.hpp','Optimizers/AdamOptimizer.hpp'],[('optimize, updateTensor, updateParameter, updateLearningRate','Optimizers/')])
p('C18','Losses and their gradients agree',
 'Mean squared error is the average of squared differences over all elements and its gradient 2 (prediction - target) / number of elements, also when a rank-1 target holds one value per row of a single-column prediction. Categorical cross entropy is minus the sum of target * log(prediction) over the batch size, with predictions limited to [1e-7, 1 - 1e-7], and its gradient -target / prediction / batch size with predictions limited in the same way. Predictions and targets of shapes that do not correspond are rejected with an exception, and neither argument is changed.',
 ['inputs'],'every shape and content',
 'No test evaluates a loss.',
 ['Loss/MSELoss.hpp','Loss/CategoricalCrossEntropyLoss.hpp'],[('compute, gradient','Loss/')])
p('C19','The model composes its layers and trains them in the right order',
 'Predicting applies the layers in the order they were added, each exactly once to the previous result, and predicting a list gives each result at the position of its input. Each training step, for every epoch and every sample in order, runs the layers forward, evaluates the loss and its gradient on that sample\'s own target, runs the layers backward in reverse order each with the gradient the following layer gave, and then updates every layer once with the model\'s optimizer. Switching between training and inference mode reaches every layer, and training an uncompiled model or with different numbers of inputs and targets is rejected with an exception before anything changes.',
 ['inputs','histories'],'every list of layers, samples and number of epochs',
 'No test builds a model.',
 ['SmartDNN.hpp','SmartDNN/SmartDNN.impl.hpp'],[('train, predict, backward, updateWeights, setTrainingMode','SmartDNN/SmartDNN.impl.hpp')])
p('C20','The MNIST loader decodes IDX files exactly or rejects them',
 'Loading well-formed IDX image and label files gives batches in file order, all of the batch size except possibly a smaller last one, holding each pixel byte divided by 255 at its (sample, 0, row, column) and a one-hot row of 10 classes per label. A limit on the number of samples takes that many from the start of both files. A file that cannot be opened, has the wrong magic number, ends early, or has a label above 9, and a batch size that is not positive, are rejected with an exception.',
 ['inputs','fault_sequences'],'every file content, batch size and sample limit',
 'No test loads a file.',
 ['Datasets/MNistLoader.hpp'],[('loadImages, loadLabels, readInt','Datasets/MNistLoader.hpp')])
p('C21','Tensor factories and weight initialization give the promised contents',
 'Filled tensors have the requested shape with every element equal to the requested value (0 for zeros and for a shape alone, 1 for ones), and the identity of size n has 1 where row equals column and 0 elsewhere. Random tensors have the requested shape with every element inside the requested closed range. New fully connected and convolution layers have weights of their documented shape with every element in [0, 1] and zero biases, one per output.',
 ['inputs'],'every shape, value and range, every random draw',
 'Tests sample a few shapes and draws.',
 ['Tensor/TensorFactory.hpp','Tensor/TensorOperations.hpp','RandomEngine.hpp','Layers/FullyConnectedLayer.hpp','Layers/Conv2DLayer.hpp'],[('ones, zeros, rand, randn, identity','Tensor/TensorFactory.hpp'),('getHeRandRange','RandomEngine.hpp')])
p('C22','Synthetic dataset generators give the promised number and shape of samples',
 'The linear dataset generator gives exactly the requested number of inputs and targets, each a single value, where each target is 2x + 3 plus that sample\'s noise. The batched generator gives the same samples as (batch, 1) tensors, every batch full except possibly a smaller last one, together holding exactly the requested number of samples, with inputs and targets of each batch aligned.',
 ['inputs'],'every sample count, batch size and random draw',
 'No test runs the generators.',
 ['Datasets/SampleGenerator.hpp'],[('generateLinearDataset, generateBatchedLinearDataset','Datasets/SampleGenerator.hpp')])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
