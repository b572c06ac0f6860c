package gen

// Catalog of groups.
func PointwiseSpecs() []Spec {
	var out []Spec
	for _, d := range UnaryDefs {
		out = append(out, Unary(d))
	}
	out = append(out, LeakyRelu)
	for _, d := range BinaryDefs {
		out = append(out, Binary(d))
	}
	for _, d := range MinMaxDefs {
		out = append(out, SameShape(d))
	}
	return out
}

// CompareSpecs are comparisons.
func CompareSpecs(same bool) []Spec {
	var out []Spec
	for _, d := range CmpDefs {
		out = append(out, Compare(d, same))
	}
	return out
}

// BroadcastSpecs are the broadcasting variants.
func BroadcastSpecs() []Spec {
	var out []Spec
	for _, d := range BinaryDefs {
		if d.bc != nil {
			out = append(out, Broadcast(d, false), Broadcast(d, true))
		}
	}
	return out
}

// BroadcastCmpSpecs are broadcasting comparisons.
func BroadcastCmpSpecs(same bool) []Spec {
	var out []Spec
	for _, d := range CmpDefs {
		out = append(out, BroadcastCmp(d, same))
	}
	return out
}

// LinalgSpecs are products.
func LinalgSpecs() []Spec {
	return []Spec{MatMul, MatVec, VecMat, VecDot, ScalarMul, OuterProd, BatchedMatMul, Tensordot}
}

// ReductionSpecs are reductions.
func ReductionSpecs() []Spec {
	return []Spec{Sum, Mean, Max, Norm2, NormP, LogSumExp, KeepDims, ReduceAdd, ReduceMul, SizeOf}
}

// SoftmaxSpecs are normalised exponentials.
func SoftmaxSpecs() []Spec { return []Spec{SoftMax, LogSoftMax, Sparsemax} }

// ShapeSpecs move data.
func ShapeSpecs() []Spec {
	return []Spec{Reshape, Ravel, Transpose, SliceOf, Concat, UnconcatOne, AtOp, ByIndices, DiagFlat, Upsample2D, ConvType}
}

// WholeReductionSpecs are the reductions defined for integers.
func WholeReductionSpecs() []Spec { return []Spec{Sum, Max, ReduceAdd, ReduceMul} }

// WholeShapeSpecs are the shape and selection operations defined for integers.
func WholeShapeSpecs() []Spec {
	return []Spec{Reshape, Ravel, Transpose, SliceOf, Concat, UnconcatOne, AtOp, ByIndices, DiagFlat, Upsample2D}
}
