SEEDS = [
 dict(id='c01_copy_stride', property='C01', needs='copy-assignment between shapes of equal rank and different dimensions', breaks='the assigned shape keeps its old strides',
  edits=[('Shape/Shape.hpp','''            _dimensions = other._dimensions;
            _size = other._size;
            _stride = other._stride;  ''','''            _dimensions = other._dimensions;
            _size = other._size;
            if (_stride.size() != other._stride.size()) _stride = other._stride;''')],
  demo='Shape a({2, 3}), b({4, 5}); a = b; CHECK(a.getStride()[0] == 5); CHECK(computeFlatIndex(a, {3, 4}) == 19);'),
 dict(id='c01_reshape_keeps_stride', property='C01', needs='a reshape that keeps the rank and the last dimension of at least 3 dimensions', breaks='strides are not recomputed when the last dimension stays the same',
  edits=[('Shape/Shape.hpp','''        _dimensions = dims;
        _stride = calculateStride();''','''        const bool sameRows = dims.size() == _dimensions.size() && dims.back() == _dimensions.back();
        _dimensions = dims;
        if (!sameRows) _stride = calculateStride();''')],
  demo='Shape a({2, 6, 4}); a.reshape(std::vector<int>{3, 4, 4}); CHECK(a.getStride()[0] == 16);'),
 dict(id='c02_negative_inner', property='C02', needs='a negative coordinate after the first that still gives a position in the data', breaks='negative inner coordinates address another element instead of being rejected',
  edits=[('Shape/ShapeOperations.hpp','if (indices[i] < 0 || indices[i] >= static_cast<int>(shape[i])) {','if ((i == 0 && indices[i] < 0) || indices[i] >= static_cast<int>(shape[i])) {')],
  demo='TF t(Shape({3, 4}), 0.0f); THROWS(t.at({1, -1})); THROWS(t.at({2, -3}));'),
 dict(id='c03_ends_early', property='C03', needs='a view of rank 5 or more', breaks='the iterator carries over at most four dimensions, so it ends early',
  edits=[('Tensor/BroadcastView.hpp','for (int i = current_indices_.size() - 1; i >= 0; --i) {\n                    ++','for (int i = current_indices_.size() - 1, left = 4; i >= 0 && left > 0; --i, --left) {\n                    ++')],
  demo='TF t(Shape({1, 2, 1, 2, 1}), 1.0f); BroadcastView<float, CPUDevice> v(t.getData(), Shape({3, 2, 2, 2, 2})); int n = 0; for (float x : v) n += (int)x; CHECK(n == 48);'),
 dict(id='c03_missing_is_one', property='C03', needs='shapes of different ranks where the shorter one has a dimension of 1 at its front', breaks='a leading 1 of the shorter shape is matched against only an equal dimension',
  edits=[('Shape/ShapeOperations.hpp','if (dimA != dimB && dimA != 1 && dimB != 1) {','if (dimA != dimB && dimA != 1 && (dimB != 1 || (lenB < lenA && i == lenB - 1 && lenB > 2))) {')],
  demo='CHECK(ShapeOperations::areBroadcastable(Shape({2, 4, 2, 3}), Shape({1, 2, 3}))); TF t(Shape({1, 2, 3}), 1.0f); Shape s = ShapeOperations::broadcastShapes(Shape({2, 4, 2, 3}), Shape({1, 2, 3})); CHECK(s == Shape({2, 4, 2, 3}));'),
]
