REFS = [
 dict(id='shape_reshape_helper', props='C01 C07', edits=[('Shape/Shape.hpp','''        size_t newSize = 1;
        for (int dim : dims) {
            if (newSize > std::numeric_limits<size_t>::max() / static_cast<size_t>(dim)) {
                throw std::overflow_error("New shape size exceeds maximum representable value");
            }
            newSize *= static_cast<size_t>(dim);
        }
''','''        const size_t newSize = elementCount(dims);
'''),('Shape/Shape.hpp','''    size_t calculateSize() const {
        size_t size = 1;
        for (int dim : _dimensions) {
            if (size > std::numeric_limits<size_t>::max() / static_cast<size_t>(dim)) {
                throw std::overflow_error("Shape size exceeds maximum representable value");
            }
            size *= static_cast<size_t>(dim);
        }
        return size;
    }''','''    static size_t elementCount(const std::vector<int>& dims) {
        size_t size = 1;
        for (size_t i = 0; i < dims.size(); ++i) {
            const size_t dim = static_cast<size_t>(dims[i]);
            if (size > std::numeric_limits<size_t>::max() / dim) {
                throw std::overflow_error("Shape size exceeds maximum representable value");
            }
            size *= dim;
        }
        return size;
    }

    size_t calculateSize() const { return elementCount(_dimensions); }''')]),
 dict(id='shape_stride_running', props='C01 C02', edits=[('Shape/Shape.hpp','''        for (int i = static_cast<int>(_dimensions.size()) - 2; i >= 0; --i) {
            stride[i] = stride[i + 1] * static_cast<size_t>(_dimensions[i + 1]);
        }''','''        size_t running = 1;
        for (size_t i = _dimensions.size(); i-- > 0;) {
            stride[i] = running;
            running *= static_cast<size_t>(_dimensions[i]);
        }''')]),
 dict(id='broadcast_max', props='C03 C04', edits=[('Shape/ShapeOperations.hpp','''            if (dim1 == dim2) {
                result.push_back(dim1);
            } else if (dim1 == 1) {
                result.push_back(dim2);
            } else if (dim2 == 1) {
                result.push_back(dim1);
            } else {
                throw std::invalid_argument("Shapes are not broadcastable! Mismatch between shapes: " + shape1.toString() + " and " + shape2.toString());
            }''','''            if (dim1 != dim2 && dim1 != 1 && dim2 != 1) {
                throw std::invalid_argument("Shapes are not broadcastable! Mismatch between shapes: " + shape1.toString() + " and " + shape2.toString());
            }
            result.push_back(std::max(dim1, dim2));''')]),
 dict(id='broadcast_prefilled', props='C03 C04', edits=[('Shape/ShapeOperations.hpp','''        std::vector<int> result;
        int size1''','''        std::vector<int> result(std::max(shape1.rank(), shape2.rank()), 1);
        int size1'''),('Shape/ShapeOperations.hpp','''            if (dim1 == dim2) {
                result.push_back(dim1);
            } else if (dim1 == 1) {
                result.push_back(dim2);
            } else if (dim2 == 1) {
                result.push_back(dim1);
            } else {''','''            if (dim1 == dim2) {
                result[maxSize - 1 - i] = dim1;
            } else if (dim1 == 1) {
                result[maxSize - 1 - i] = dim2;
            } else if (dim2 == 1) {
                result[maxSize - 1 - i] = dim1;
            } else {'''),('Shape/ShapeOperations.hpp','''        std::reverse(result.begin(), result.end());
''','')]),
 dict(id='flat_index_horner', props='C02', edits=[('Shape/ShapeOperations.hpp','''            flatIndex += static_cast<size_t>(indices[i]) * strides[i];''','''            flatIndex = flatIndex * static_cast<size_t>(shape[i]) + static_cast<size_t>(indices[i]);'''),('Shape/ShapeOperations.hpp','        const std::vector<size_t>& strides = shape.getStride();\n','')]),
 dict(id='flat_index_check_first', props='C02', edits=[('Shape/ShapeOperations.hpp','''        for (size_t i = 0; i < indices.size(); ++i) {
            if (indices[i] < 0''','''        for (size_t i = 0; i < indices.size(); ++i) {
            const int limit = shape[i];
            if (indices[i] < 0'''),('Shape/ShapeOperations.hpp','indices[i] >= static_cast<int>(shape[i])','!(indices[i] < limit)')]),
 dict(id='view_mapindex_up', props='C03', edits=[('Tensor/BroadcastView.hpp','''        int orig_dim = orig_shape.rank() - 1;

        for (int i = broadcasted_shape_.rank() - 1; i >= 0 && orig_dim >= 0; --i) {
            if (broadcast_factors_[i] == 1) {
                flatIndex += indices[i] * orig_stride[orig_dim];
            }
            --orig_dim;
        }''','''        const int lead = static_cast<int>(broadcasted_shape_.rank()) - static_cast<int>(orig_shape.rank());
        for (int d = 0; d < static_cast<int>(orig_shape.rank()); ++d) {
            if (lead + d >= 0) flatIndex += broadcast_factors_[lead + d] * indices[lead + d] * static_cast<int>(orig_stride[d]);
        }''')]),
 dict(id='transform_loop', props='C04', edits=[('Tensor/TensorOperations.hpp','''        std::transform(tensor.begin(), tensor.end(), result.begin(), [&](T value) { return op(value, scalar); });''','''        const T* in = tensor.data();
        T* out = result.data();
        const size_t count = tensor.size();
        for (size_t i = 0; i < count; ++i) {
            out[i] = op(in[i], scalar);
        }''')]),
 dict(id='add_impl_iter', props='C04', edits=[('Tensor/TensorOperations.hpp','std::transform(lhs.begin(), lhs.end(), rhs.begin(), result.begin(), std::plus<T>());','''auto l = lhs.begin();
        auto r = rhs.begin();
        for (T& out : result) {
            out = *l + *r;
            ++l;
            ++r;
        }''')]),
 dict(id='sum_accumulate', props='C05', edits=[('Tensor/TensorOperations.hpp','''        T result = T(0);

        for (const auto& value : tensor) {
            result += value;
        }
''','''        const T result = std::accumulate(tensor.begin(), tensor.end(), T(0));
''')]),
 dict(id='sum_axis_nested', props='C05', edits=[('Tensor/TensorOperations.hpp','''        std::vector<int> indices(tensor.shape().rank(), 0);  
''','''        const auto& dims = tensor.shape().getDimensions();
        size_t outer = 1, inner = 1;
        for (size_t d = 0; d < axis; ++d) outer *= dims[d];
        for (size_t d = axis + 1; d < dims.size(); ++d) inner *= dims[d];
        const size_t length = dims[axis];
        for (size_t o = 0; o < outer; ++o)
            for (size_t k = 0; k < length; ++k)
                for (size_t i = 0; i < inner; ++i)
                    result[o * inner + i] += tensor[(o * length + k) * inner + i];
        return result;
    }

    static TensorData<T, CPUDevice> oldSum(const TensorData<T, CPUDevice>& tensor, size_t axis) {
        TensorData<T, CPUDevice> result(tensor.shape());
        std::vector<int> indices(tensor.shape().rank(), 0);  
''')]),
 dict(id='mean_divide', props='C05 C15', edits=[('Tensor/AdvancedTensorOperations.hpp','result = result * (T(1) / T(totalElements));','result = result / T(totalElements);')]),
 dict(id='mean_via_sum_axes', props='C05', edits=[('Tensor/AdvancedTensorOperations.hpp','''        std::vector<size_t> sortedAxes = axes;
        std::sort(sortedAxes.begin(), sortedAxes.end(), std::greater<size_t>());
''','''        std::vector<size_t> sortedAxes(axes);
        std::sort(sortedAxes.begin(), sortedAxes.end());
        std::reverse(sortedAxes.begin(), sortedAxes.end());
''')]),
 dict(id='matmul_ikj', props='C06 C11', edits=[('Tensor/AdvancedTensorOperations.hpp','''        #pragma omp parallel for collapse(2)
        for (int i = 0; i < m; i++) {
            for (int j = 0; j < n; j++) {
                T sum = 0;
                for (int p = 0; p < k; p++) {
                    sum += aData[i * k + p] * bData[p * n + j];
                }
                resultData[i * n + j] = sum;
            }
        }''','''        for (int i = 0; i < m; i++) {
            for (int p = 0; p < k; p++) {
                const T factor = aData[i * k + p];
                for (int j = 0; j < n; j++) {
                    resultData[i * n + j] += factor * bData[p * n + j];
                }
            }
        }''')]),
 dict(id='matmul_pointers', props='C06', edits=[('Tensor/AdvancedTensorOperations.hpp','''                T sum = 0;
                for (int p = 0; p < k; p++) {
                    sum += aData[i * k + p] * bData[p * n + j];
                }
                resultData[i * n + j] = sum;''','''                const T* row = aData + i * k;
                const T* column = bData + j;
                T sum = 0;
                for (int p = 0; p < k; p++, column += n) {
                    sum += *row++ * *column;
                }
                resultData[i * n + j] = sum;''')]),
 dict(id='dot_inner_product', props='C06', edits=[('Tensor/AdvancedTensorOperations.hpp','''        T result = 0;
        const T* aData = a.getData().data();
        const T* bData = b.getData().data();
        int size = a.getShape()[0];

        #pragma omp simd reduction(+:result)
        for (int i = 0; i < size; ++i) {
            result += aData[i] * bData[i];
        }
''','''        T result = std::inner_product(a.getData().begin(), a.getData().end(), b.getData().begin(), T(0));
''')]),
 dict(id='slice_copy_n', props='C07', edits=[('Tensor/Tensor.impl.hpp','''        for (size_t i = 0; i < inner; ++i) {
            slicedData[o * inner + i] = this->data_[o * outerStride + index * inner + i];
        }''','''        std::copy_n(this->data_.data() + o * outerStride + index * inner, inner, slicedData.data() + o * inner);''')]),
 dict(id='transpose_stride', props='C07 C11', edits=[('Tensor/AdvancedTensorOperations.hpp','''            for (size_t d = 0; d < rank; ++d) {
                newIndices[d] = oldIndices[oldToNew[d]];
            }
''','''            newIndices = oldIndices;
            std::swap(newIndices[dim0], newIndices[dim1]);
''')]),
 dict(id='sliceview_helper', props='C08', edits=[('Tensor/SliceView.hpp','''            int extent = end_indices_[i] - start_indices_[i];
            int dim_size = extent > 0 ? (extent - 1) / step_sizes_[i] + 1 : 0;
            new_dims.push_back(dim_size);''','''            new_dims.push_back(countSteps(start_indices_[i], end_indices_[i], step_sizes_[i]));'''),('Tensor/SliceView.hpp','    void calculateSlicedShape() {','''    static int countSteps(int start, int end, int step) {
        if (end <= start) {
            return 0;
        }
        const int last = end - start - 1;
        return last / step + 1;
    }

    void calculateSlicedShape() {''')]),
]
