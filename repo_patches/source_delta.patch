From 3913a3b409d0e8d2040e0c3b32ea7b6688c23f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:15:50 +0000
Subject: [PATCH 001/127] fix: return 0 for the sign of a scalar zero

Sign on tensors gives 0 for a zero element, but the scalar path looked only
at the sign bit and answered 1 (or -1 for negative zero).
---
 math.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/math.go b/math.go
index f11f7db..efe2bc6 100644
--- a/math.go
+++ b/math.go
@@ -2,8 +2,6 @@ package gorgonia
 
 import (
 	"math"
-
-	"github.com/chewxy/math32"
 )
 
 // functions in this file are functions that do not have an optimized/hacked up version
@@ -11,17 +9,23 @@ import (
 
 /* UNARY OPS */
 func _signf32(x float32) float32 {
-	if math32.Signbit(x) {
-		return float32(-1.0)
+	switch {
+	case x < 0:
+		return -1
+	case x > 0:
+		return 1
 	}
-	return 1
+	return x
 }
 
 func _signf64(x float64) float64 {
-	if math.Signbit(x) {
-		return -1.0
+	switch {
+	case x < 0:
+		return -1
+	case x > 0:
+		return 1
 	}
-	return 1
+	return x
 }
 
 func _squaref64(x float64) float64 { return x * x }
-- 
2.43.0


From ab009a887fb2a024b857b7a3991fc346d4844422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:16:01 +0000
Subject: [PATCH 002/127] fix: divide by ln 2 in the symbolic derivative of
 Log2

The derivative of log2(x) is 1/(x ln 2). The expression divided x by ln 2
instead of multiplying, so symbolic gradients were off by a factor ln(2)^2.
---
 operatorPointwise_unary.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/operatorPointwise_unary.go b/operatorPointwise_unary.go
index c6338b0..20eed10 100644
--- a/operatorPointwise_unary.go
+++ b/operatorPointwise_unary.go
@@ -266,7 +266,7 @@ func log2DiffExpr(x, y, gradY *Node) (retVal *Node, err error) {
 		return nil, errors.Wrap(err, "getConst failed")
 	}
 
-	if retVal, err = HadamardDiv(x, log2); err != nil {
+	if retVal, err = HadamardProd(x, log2); err != nil {
 		return nil, errors.Wrap(err, hadamardProdFail)
 	}
 	WithGroupName(gradClust)(retVal)
-- 
2.43.0


From ffe82875c6fc3777ce74f2957d670b8cae9a93c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:16:27 +0000
Subject: [PATCH 003/127] fix: correct the derivative of InverseSqrt

The derivative of x^-1/2 is -y^3/2. The symbolic version divided by 2y^3, and
the automatic version computed a result that it then threw away.
---
 operatorPointwise_unary.go | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/operatorPointwise_unary.go b/operatorPointwise_unary.go
index 20eed10..c767fe6 100644
--- a/operatorPointwise_unary.go
+++ b/operatorPointwise_unary.go
@@ -468,10 +468,10 @@ func inverseSqrtDiffExpr(x, y, gradY *Node) (retVal *Node, err error) {
 	if retVal, err = Cube(y); err != nil {
 		return nil, errors.Wrapf(err, cubeFail)
 	}
-	if retVal, err = HadamardProd(two, retVal); err != nil {
+	if retVal, err = HadamardProd(gradY, retVal); err != nil {
 		return nil, errors.Wrapf(err, hadamardProdFail)
 	}
-	if retVal, err = HadamardDiv(gradY, retVal); err != nil {
+	if retVal, err = HadamardDiv(retVal, two); err != nil {
 		return nil, errors.Wrapf(err, hadamardDivFail)
 	}
 	return Neg(retVal)
@@ -490,19 +490,20 @@ func inverseSqrtDiff(x, y *Node) (err error) {
 		return errors.Wrapf(err, doFail, cb)
 	}
 
-	mul := newElemBinOp(mulOpType, x, y)
-	if d, err = mul.Do(two.boundTo, d); err != nil {
-		return errors.Wrapf(err, doFail, mul)
+	div := newElemBinOp(divOpType, y, two)
+	if d, err = div.Do(d, two.boundTo); err != nil {
+		return errors.Wrapf(err, doFail, div)
 	}
 
-	div := newElemBinOp(divOpType, y, x)
-	if d, err = div.Do(ydv.d, d); err != nil {
-		return errors.Wrapf(err, doFail, div)
+	neg := newElemUnaryOp(negOpType, y)
+	if d, err = neg.Do(d); err != nil {
+		return errors.Wrapf(err, doFail, neg)
 	}
 
-	sub := newElemBinOp(subOpType, x, y)
-	if _, err = sub.Do(xdv.d, d); err != nil {
-		return errors.Wrapf(err, doFail, sub)
+	mul := newElemBinOp(mulOpType, x, y)
+	err = mul.IncrDo(xdv.d, d, ydv.d)
+	if err = checkErrSetDeriv(err, xdv); err != nil {
+		return errors.Wrapf(err, autodiffFail, x)
 	}
 	return nil
 }
-- 
2.43.0


From b15e8289bd62ee31d0f9886ca76117b4aa0281ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:17:06 +0000
Subject: [PATCH 004/127] fix: correct the gradients of OuterProd

For z = x yT the gradients are dz y and dzT x. Both the symbolic and the
automatic derivative multiplied the output gradient with the wrong operand.
---
 operatorLinAlg.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/operatorLinAlg.go b/operatorLinAlg.go
index 69a4e68..a74f53c 100644
--- a/operatorLinAlg.go
+++ b/operatorLinAlg.go
@@ -261,8 +261,8 @@ func vecDotDiff(ctx ExecutionContext, transA, transB bool, x, y, z *Node) (err e
 
 func outerProdDiffExpr(transA, transB bool, x, y, z, gradZ *Node) (retVal Nodes, err error) {
 	var dzdx, dzdy *Node
-	if dzdx, err = Mul(x, gradZ); err == nil {
-		if dzdy, err = Mul(y, gradZ); err == nil {
+	if dzdx, err = Mul(gradZ, y); err == nil {
+		if dzdy, err = Mul(x, gradZ); err == nil {
 			retVal = Nodes{dzdx, dzdy}
 		} else {
 			return nil, errors.Wrap(err, "Failed to carry Mul()")
@@ -276,14 +276,16 @@ func outerProdDiffExpr(transA, transB bool, x, y, z, gradZ *Node) (retVal Nodes,
 func outerProdDiff(ctx ExecutionContext, transA, transB bool, x, y, z *Node) (err error) {
 	xdv, ydv, zdv := getDV3(x, y, z)
 
-	mul := newElemBinOp(mulOpType, x, z)
-	err = mul.IncrDo(xdv.d, xdv.Value, zdv.d)
-	err = mul.IncrDo(xdv.d, ydv.Value, zdv.d)
+	op := linAlgBinOp{
+		āBinaryOperator: matVecMulOperator,
+	}
+	err = op.IncrDo(xdv.d, zdv.d, ydv.Value)
 	if err = checkErrSetDeriv(err, xdv); err != nil {
 		return errors.Wrapf(err, autodiffFail, x)
 	}
 
-	err = mul.IncrDo(ydv.d, ydv.Value, zdv.d)
+	op.transA = true
+	err = op.IncrDo(ydv.d, zdv.d, xdv.Value)
 	if err = checkErrSetDeriv(err, ydv); err != nil {
 		return errors.Wrapf(err, autodiffFail, x)
 	}
-- 
2.43.0


From c616702202c15b99a4312696d89f20f910dd231e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:17:29 +0000
Subject: [PATCH 005/127] fix: give the result of At a value

At was marked as a statement, so neither machine ever executed it and its
node had no value after a run. It is an ordinary operation.
---
 op_tensor.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/op_tensor.go b/op_tensor.go
index 0f6b09a..0ee26dd 100644
--- a/op_tensor.go
+++ b/op_tensor.go
@@ -65,8 +65,6 @@ func (op atOp) WriteHash(h hash.Hash) {
 
 func (op atOp) Hashcode() uint32 { return simpleHash(op) }
 
-func (op atOp) isStmt() bool { return true }
-
 type sizeOp struct {
 	axis, d int
 	val     int // if we know ahead of time what the size is...
-- 
2.43.0


From b326e0d8810756a702853c3514146142a0408b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:17:55 +0000
Subject: [PATCH 006/127] fix: infer a matrix type for DiagFlat

The type of DiagFlat wrapped the whole input type in a matrix, so its result
could not be combined with any other matrix.
---
 op_nondiff.go         | 8 ++++----
 operations_nondiff.go | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/op_nondiff.go b/op_nondiff.go
index 7ef9917..f165020 100644
--- a/op_nondiff.go
+++ b/op_nondiff.go
@@ -8,7 +8,9 @@ import (
 	"gorgonia.org/tensor"
 )
 
-type diagFlatOp struct{}
+type diagFlatOp struct {
+	d int // dimensions of the input
+}
 
 /* Graph Building Related Methods */
 
@@ -18,9 +20,7 @@ func (op diagFlatOp) Arity() int { return 1 }
 // Informs the type of the Op (not the node). This will be used by the type system to infer the final type of the node
 func (op diagFlatOp) Type() hm.Type {
 	a := hm.TypeVariable('a')
-	b := hm.TypeVariable('a')
-	T := makeTensorType(2, b)
-	return hm.NewFnType(a, T)
+	return hm.NewFnType(makeTensorType(op.d, a), makeTensorType(2, a))
 }
 
 // returns the output shape as a function of the inputs
diff --git a/operations_nondiff.go b/operations_nondiff.go
index 9aea5c0..a2d8f70 100644
--- a/operations_nondiff.go
+++ b/operations_nondiff.go
@@ -9,5 +9,5 @@ func DiagFlat(a *Node) (*Node, error) {
 	if a.Shape().IsScalarEquiv() {
 		return nil, errors.Errorf("Cannot perform DiagFlat on a scalar equivalent node")
 	}
-	return ApplyOp(diagFlatOp{}, a)
+	return ApplyOp(diagFlatOp{d: a.Dims()}, a)
 }
-- 
2.43.0


From ced6936e7f8203f7af05d139a173e8d1f79046db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:18:17 +0000
Subject: [PATCH 007/127] fix: make LogSumExp compute log(sum(exp(x)))

The maximum was subtracted without restoring the reduced axis, then added
inside the logarithm, and the result was summed once more.
---
 operations.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/operations.go b/operations.go
index a437d36..94f7fb9 100644
--- a/operations.go
+++ b/operations.go
@@ -170,13 +170,22 @@ func LogSumExp(a *Node, axis int) (retVal *Node, err error) {
 	if max, err = Max(a, axis); err != nil {
 		return nil, errors.Wrap(err, operationError)
 	}
-	if retVal, err = Sub(a, max); err == nil {
+	if a.Dims() > 1 {
+		var kept *Node
+		shp := a.Shape().Clone()
+		shp[axis] = 1
+		if kept, err = Reshape(max, shp); err != nil {
+			return nil, errors.Wrap(err, operationError)
+		}
+		retVal, err = BroadcastSub(a, kept, nil, []byte{byte(axis)})
+	} else {
+		retVal, err = Sub(a, max)
+	}
+	if err == nil {
 		if exp, err = Exp(retVal); err == nil {
 			if sum, err = Sum(exp, axis); err == nil {
-				if sum, err = Add(sum, max); err == nil {
-					if logSum, err = Log(sum); err == nil {
-						return Sum(logSum, axis)
-					}
+				if logSum, err = Log(sum); err == nil {
+					return Add(logSum, max)
 				}
 			}
 		}
-- 
2.43.0


From bb7f6019612addb93521fae1b030d203c6c0a5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:18:38 +0000
Subject: [PATCH 008/127] fix: take absolute values in odd p-norms

Norm raised negative elements to an odd power without taking the absolute
value, so elements of opposite sign cancelled or the root gave NaN.
---
 operations.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/operations.go b/operations.go
index 94f7fb9..2a9823c 100644
--- a/operations.go
+++ b/operations.go
@@ -318,6 +318,11 @@ func Norm(a *Node, axis, p int) (retVal *Node, err error) {
 		return nil, errors.New("Cannot norm a non-floating point type")
 	}
 
+	if p%2 != 0 {
+		if a, err = Abs(a); err != nil {
+			return nil, errors.Wrap(err, operationError)
+		}
+	}
 	if retVal, err = Pow(a, b); err == nil {
 		if retVal, err = Sum(retVal, axis); err == nil {
 			if retVal, err = Pow(retVal, inv); err != nil {
-- 
2.43.0


From 67ad7fb5b020aa0cb449bcd7af464b4c4456b090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:19:07 +0000
Subject: [PATCH 009/127] fix: do not share memory between the input and result
 of Reshape

Reshape returned a shallow copy of its input when it could not work in place.
The two registers then shared storage, and a later in-place operation on one
changed the other, which gave wrong gradients for graphs that use both.
---
 op_tensor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/op_tensor.go b/op_tensor.go
index 0ee26dd..e94f023 100644
--- a/op_tensor.go
+++ b/op_tensor.go
@@ -1160,7 +1160,7 @@ func (op reshapeOp) Do(vals ...Value) (Value, error) {
 			if v.IsView() {
 				val = v.Materialize()
 			} else {
-				val = v.ShallowClone()
+				val = v.Clone().(*tensor.Dense)
 			}
 		} else {
 			if val, err = CloneValue(vals[0]); err != nil {
-- 
2.43.0


From eb99e368954889de481b3901a7bc6cc9aa0d3126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:19:26 +0000
Subject: [PATCH 010/127] fix: let KeepDims restore a reduced axis of size one

Shapes (3) and (3, 1) count as equal, so KeepDims took the early exit and
returned the reduced result without the kept dimension.
---
 shape.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shape.go b/shape.go
index df3f76d..f766b1a 100644
--- a/shape.go
+++ b/shape.go
@@ -84,7 +84,7 @@ func KeepDims(a *Node, expandLeft bool, fn func(a *Node) (*Node, error)) (*Node,
 
 	// happy path = quick exit
 	newShape := b.Shape()
-	if newShape.Eq(oshape) {
+	if newShape.Dims() == adims && newShape.Eq(oshape) {
 		return b, nil
 	}
 
-- 
2.43.0


From 3905d711928e272f1ecd9d55015e7ef03f5a8374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:20:21 +0000
Subject: [PATCH 011/127] fix: reduce inner axes of tensors with four or more
 dimensions correctly

Sum, Mean and Max over an inner axis such as axis 2 of a 4-dimensional tensor
added up the wrong elements, or crashed. Gradients of broadcast operations use
these sums and were wrong as well. The axes are now reduced one at a time on a
3-dimensional view, which the tensor package handles correctly.
---
 op_reduction.go | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/op_reduction.go b/op_reduction.go
index 8ae9339..9472857 100644
--- a/op_reduction.go
+++ b/op_reduction.go
@@ -11,6 +11,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"hash"
+	"sort"
 	"strings"
 
 	"github.com/chewxy/hm"
@@ -75,7 +76,7 @@ func reductionDo(op Op, s string, f func(*tensor.Dense, ...int) (*tensor.Dense,
 	switch t := at.(type) {
 	case *tensor.Dense:
 		var ret *tensor.Dense
-		if ret, err = f(t, along...); err == nil {
+		if ret, err = reduceAlong(f, t, along); err == nil {
 			if ret.IsScalar() {
 				retVal, _ = anyToScalar(ret.ScalarValue())
 			} else {
@@ -98,6 +99,35 @@ func reductionDo(op Op, s string, f func(*tensor.Dense, ...int) (*tensor.Dense,
 
 }
 
+// reduceAlong calls the reduction f on t. The tensor package only reduces an inner axis correctly in tensors of up to 3
+// dimensions, so for tensors with more dimensions the axes are reduced one by one, with the dimensions on each side of the
+// axis folded together.
+func reduceAlong(f func(*tensor.Dense, ...int) (*tensor.Dense, error), t *tensor.Dense, along []int) (*tensor.Dense, error) {
+	if t.Dims() <= 3 || len(along) == 0 || len(along) >= t.Dims() || t.RequiresIterator() {
+		return f(t, along...)
+	}
+
+	sorted := append([]int(nil), along...)
+	sort.Ints(sorted)
+	shape := t.Shape().Clone()
+	for i := len(sorted) - 1; i >= 0; i-- {
+		axis := sorted[i]
+		if axis >= shape.Dims() {
+			return nil, errors.Errorf("Cannot reduce along axis %d of shape %v", axis, shape)
+		}
+		folded := t.ShallowClone()
+		if err := folded.Reshape(tensor.ProdInts(shape[:axis]), shape[axis], tensor.ProdInts(shape[axis+1:])); err != nil {
+			return nil, err
+		}
+		var err error
+		if t, err = f(folded, 1); err != nil {
+			return nil, err
+		}
+		shape = append(shape[:axis], shape[axis+1:]...)
+	}
+	return t, t.Reshape(shape...)
+}
+
 type maxOp struct {
 	along axes
 	d     int
-- 
2.43.0


From 42f37c614ae6a4035d0ea8f82f29bea1cd3cf26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:20:59 +0000
Subject: [PATCH 012/127] fix: do not overwrite numbers with the bools of a
 comparison

A comparison that returns bools was compiled to work in place when its input
was a temporary, so the bools were written into the memory of a float tensor.
---
 op_math.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/op_math.go b/op_math.go
index 36cd06d..4c561d7 100644
--- a/op_math.go
+++ b/op_math.go
@@ -283,6 +283,10 @@ func (op elemBinOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) (er
 func (op elemBinOp) ReturnsPtr() bool { return true }
 
 func (op elemBinOp) OverwritesInput() int {
+	if !op.isArith() && !op.retSame {
+		return -1 // the result is made of bools, which cannot be stored in the inputs
+	}
+
 	if _, ok := op.arg0.(TensorType); ok {
 		return 0
 	}
-- 
2.43.0


From 6a9dbc9dab2c4dc0eb14fdbaf220da4299ec752a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:22:03 +0000
Subject: [PATCH 013/127] fix: keep the other dimensions when slicing down to
 one element

Slicing a tensor down to a single element gave a scalar even when dimensions
that were not sliced should remain, and slicing the result again crashed.
---
 op_tensor.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/op_tensor.go b/op_tensor.go
index e94f023..b2036bf 100644
--- a/op_tensor.go
+++ b/op_tensor.go
@@ -593,9 +593,21 @@ func (op *sliceOp) Do(inputs ...Value) (retVal Value, err error) {
 		if v, err = T.Slice(slices...); err != nil {
 			return nil, errors.Wrapf(err, sliceFail, slices)
 		}
-		if v.IsScalar() {
+		var shp tensor.Shape
+		if shp, err = op.InferShape(t.Shape()); err != nil {
+			return nil, errors.Wrapf(err, sliceFail, slices)
+		}
+		switch {
+		case v.IsScalar() && shp.IsScalar():
 			retVal, _ = anyToScalar(v.ScalarValue())
-		} else {
+		case v.IsScalar():
+			// slicing down to one element drops all the dimensions, even those that were not sliced
+			T = v.(tensor.View).Materialize()
+			if err = T.Reshape(shp...); err != nil {
+				return nil, errors.Wrapf(err, sliceFail, slices)
+			}
+			retVal = T
+		default:
 			retVal = v.(tensor.View).Materialize()
 		}
 	case Scalar:
-- 
2.43.0


From 0799268f5a1dee414ae512a5761bbf53a204226d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:28:55 +0000
Subject: [PATCH 014/127] fix: Sparsemax along an axis other than the last

The axis was turned into an invalid permutation, the result was not moved
back, and the gradient always worked along the second axis of a matrix.
---
 op_sparsemax.go | 145 ++++++++++++++++++++++++------------------------
 1 file changed, 74 insertions(+), 71 deletions(-)

diff --git a/op_sparsemax.go b/op_sparsemax.go
index e1aebac..88e1fff 100644
--- a/op_sparsemax.go
+++ b/op_sparsemax.go
@@ -44,7 +44,7 @@ func (op *sparsemaxOp) ReturnsPtr() bool { return false }
 func (op *sparsemaxOp) CallsExtern() bool { return false }
 
 func (op *sparsemaxOp) WriteHash(h hash.Hash) {
-	fmt.Fprintf(h, "Sparsemax{}()")
+	fmt.Fprintf(h, "Sparsemax{%d}()", op.axis)
 }
 
 func (op *sparsemaxOp) Hashcode() uint32 { return simpleHash(op) }
@@ -86,11 +86,18 @@ func (op *sparsemaxOp) Do(inputs ...Value) (Value, error) {
 		return nil, fmt.Errorf("Can't check Sparsemax input: %w", err)
 	}
 
-	inputShape := inputTensor.Shape()
+	// the rows to project lie along the last axis, so swap the requested axis there
+	var axes []int
+	if last := inputTensor.Dims() - 1; op.axis != -1 && op.axis != last {
+		if op.axis < 0 || op.axis > last {
+			return nil, errors.Errorf("axis %d is out of range for an input of shape %v", op.axis, inputTensor.Shape())
+		}
 
-	if op.axis != -1 {
-		axes := make([]int, inputTensor.Dims())
-		axes[op.axis] = 1
+		axes = make([]int, inputTensor.Dims())
+		for i := range axes {
+			axes[i] = i
+		}
+		axes[op.axis], axes[last] = last, op.axis
 
 		inputTensor, err = tensor.Transpose(inputTensor, axes...)
 		if err != nil {
@@ -115,7 +122,12 @@ func (op *sparsemaxOp) Do(inputs ...Value) (Value, error) {
 		return nil, fmt.Errorf("invalid input type for Sparsemax, expected float64 or float32, got: %v", inputTensor.Dtype())
 	}
 
-	return tensor.New(tensor.Of(inputTensor.Dtype()), tensor.WithShape(inputShape.Clone()...), tensor.WithEngine(inputTensor.Engine()), tensor.WithBacking(output)), nil
+	retVal := tensor.New(tensor.Of(inputTensor.Dtype()), tensor.WithShape(inputTensor.Shape().Clone()...), tensor.WithEngine(inputTensor.Engine()), tensor.WithBacking(output))
+	if axes == nil {
+		return retVal, nil
+	}
+
+	return tensor.Transpose(retVal, axes...)
 }
 
 // FIXME: go2 generics
@@ -315,7 +327,7 @@ func (op *sparsemaxOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node)
 
 	odv := output.boundTo.(*dualValue)
 	odvd := odv.Value.(tensor.Tensor)
-	diffOp := &sparsemaxDiffOp{}
+	diffOp := newSparsemaxOpDiff(op.axis)
 
 	result, err := diffOp.Do(odvd, inputs[1].boundTo)
 	if err != nil {
@@ -346,7 +358,7 @@ func (op *sparsemaxOp) SymDiff(inputs Nodes, output, grad *Node) (Nodes, error)
 
 	t := output
 
-	diffOp := &sparsemaxDiffOp{}
+	diffOp := newSparsemaxOpDiff(op.axis)
 	nodes := make(Nodes, 1)
 
 	nodes[0], err = ApplyOp(diffOp, t, grad)
@@ -364,10 +376,11 @@ func (op *sparsemaxOp) DiffWRT(inputs int) []bool {
 }
 
 type sparsemaxDiffOp struct {
+	axis int
 }
 
-func newSparsemaxOpDiff() *sparsemaxDiffOp {
-	return &sparsemaxDiffOp{}
+func newSparsemaxOpDiff(axis int) *sparsemaxDiffOp {
+	return &sparsemaxDiffOp{axis: axis}
 }
 
 func (op *sparsemaxDiffOp) Arity() int {
@@ -379,7 +392,7 @@ func (op *sparsemaxDiffOp) ReturnsPtr() bool { return false }
 func (op *sparsemaxDiffOp) CallsExtern() bool { return false }
 
 func (op *sparsemaxDiffOp) WriteHash(h hash.Hash) {
-	fmt.Fprintf(h, "SparsemaxDiff{}()")
+	fmt.Fprintf(h, "SparsemaxDiff{%d}()", op.axis)
 }
 
 func (op *sparsemaxDiffOp) Hashcode() uint32 { return simpleHash(op) }
@@ -438,14 +451,6 @@ func (op *sparsemaxDiffOp) checkInput(inputs ...Value) (*tensor.Dense, *tensor.D
 	return in, gradient, nil
 }
 
-func (op *sparsemaxDiffOp) mul(a tensor.Tensor, b tensor.Tensor) (tensor.Tensor, error) {
-	if a.Dims() != b.Dims() {
-		return tensor.Outer(a, b)
-	}
-
-	return tensor.Mul(a, b)
-}
-
 func (op *sparsemaxDiffOp) Do(inputs ...Value) (Value, error) {
 	inputTensor, gradTensor, err := op.checkInput(inputs...)
 	if err != nil {
@@ -456,62 +461,60 @@ func (op *sparsemaxDiffOp) Do(inputs ...Value) (Value, error) {
 		return nil, fmt.Errorf("sparsemaxDiffOp.Do inputs sizes should be equal")
 	}
 
-	var zero interface{}
-
-	if inputTensor.Dtype() == tensor.Float32 {
-		zero = float32(0.0)
-	} else {
-		zero = float64(0.0)
-	}
-
-	nonZeros, err := inputTensor.ElNeScalar(zero, false, tensor.AsSameType())
-	if err != nil {
-		return nil, fmt.Errorf("sparsemaxDiffOp.Do failed to get non-zeros: %w", err)
-	}
-
-	mul, err := op.mul(nonZeros, gradTensor)
-	if err != nil {
-		return nil, fmt.Errorf("sparsemaxDiffOp.Do failed to mul grad tensor: %w", err)
-	}
-
-	a, err := tensor.Sum(mul, 1)
-	if err != nil {
-		return nil, err
-	}
-
-	b, err := tensor.Sum(nonZeros, 1)
-	if err != nil {
-		return nil, err
-	}
-
-	sum, err := tensor.Div(a, b)
-	if err != nil {
-		return nil, err
-	}
-
-	if sum.Dims() == 1 && gradTensor.Dims() == 2 {
-		err := sum.Reshape(sum.Shape()[0], 1)
-		if err != nil {
-			return nil, err
+	// n elements of a row are stride elements apart
+	shp := inputTensor.Shape()
+	axis := shp.Dims() - 1
+	if op.axis != -1 {
+		axis = op.axis
+	}
+	n := shp[axis]
+	stride := tensor.Shape(shp[axis+1:]).TotalSize()
+	retVal := tensor.New(tensor.Of(inputTensor.Dtype()), tensor.WithShape(shp.Clone()...), tensor.WithEngine(inputTensor.Engine()))
+
+	switch ret := retVal.Data().(type) {
+	case []float64:
+		in, grad := inputTensor.Data().([]float64), gradTensor.Data().([]float64)
+		for i := range ret {
+			if (i/stride)%n != 0 {
+				continue // not the start of a row
+			}
+			var sum, support float64
+			for j := i; j < i+n*stride; j += stride {
+				if in[j] != 0 {
+					sum += grad[j]
+					support++
+				}
+			}
+			for j := i; j < i+n*stride; j += stride {
+				if in[j] != 0 {
+					ret[j] = grad[j] - sum/support
+				}
+			}
 		}
-
-		sum, err = tensor.Repeat(sum, 1, gradTensor.Shape()[1])
-		if err != nil {
-			panic(err)
+	case []float32:
+		in, grad := inputTensor.Data().([]float32), gradTensor.Data().([]float32)
+		for i := range ret {
+			if (i/stride)%n != 0 {
+				continue // not the start of a row
+			}
+			var sum, support float32
+			for j := i; j < i+n*stride; j += stride {
+				if in[j] != 0 {
+					sum += grad[j]
+					support++
+				}
+			}
+			for j := i; j < i+n*stride; j += stride {
+				if in[j] != 0 {
+					ret[j] = grad[j] - sum/support
+				}
+			}
 		}
+	default:
+		return nil, fmt.Errorf("invalid input type for SparsemaxDiff, expected float64 or float32, got: %v", inputTensor.Dtype())
 	}
 
-	sub, err := tensor.Sub(gradTensor, sum)
-	if err != nil {
-		return nil, err
-	}
-
-	result, err := op.mul(nonZeros, sub)
-	if err != nil {
-		return nil, err
-	}
-
-	return result, nil
+	return retVal, nil
 }
 
 // ensure it complies with the Op interface
-- 
2.43.0


From 026bd2040cc210ca67c3aae5da2b4435bbb196b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:21 +0000
Subject: [PATCH 015/127] fix: SoftMax and LogSoftMax of one node no longer
 share a node

The hash of the operation left out whether it is the log variant, so whichever
was built second silently became the first.
---
 op_softmax.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/op_softmax.go b/op_softmax.go
index 42080f9..4244c63 100644
--- a/op_softmax.go
+++ b/op_softmax.go
@@ -49,7 +49,7 @@ func (op *softmaxOp) ReturnsPtr() bool { return false }
 
 func (op *softmaxOp) CallsExtern() bool { return false }
 
-func (op *softmaxOp) WriteHash(h hash.Hash) { fmt.Fprintf(h, "Softmax{%v}()", op.axis) }
+func (op *softmaxOp) WriteHash(h hash.Hash) { fmt.Fprintf(h, "Softmax{%v, %v}()", op.axis, op.isLog) }
 
 func (op *softmaxOp) Hashcode() uint32 { return simpleHash(op) }
 
-- 
2.43.0


From 7b0a78d26470b9f529d2dbbc431510b9228fee37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:27 +0000
Subject: [PATCH 016/127] fix: log of a softmax must not change a softmax used
 elsewhere

Building log(softmax(x)) or log(a * softmax(x)) switched the existing softmax
operation to its log variant in place, which changed the value every other use
of the softmax saw. Taking the log of a log softmax also returned it as is.
---
 stabilization.go | 43 +++++++++++++++++++++++++++++++------------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/stabilization.go b/stabilization.go
index c81513b..caaae23 100644
--- a/stabilization.go
+++ b/stabilization.go
@@ -208,8 +208,10 @@ func logSoftmaxStabilization(a *Node) (retVal *Node, err error) {
 
 	switch op := a.op.(type) {
 	case *softmaxOp:
-		op.isLog = true
-		return a, nil
+		if op.isLog {
+			return a, noStabilizationErr{}
+		}
+		return logSoftmaxOf(a)
 	case elemBinOp:
 		if op.ʘBinaryOperator.binOpType() == mulOpType {
 			fst := a.children[0]
@@ -217,11 +219,11 @@ func logSoftmaxStabilization(a *Node) (retVal *Node, err error) {
 
 			var hasSm bool
 			var smop1, smop2 *softmaxOp
-			if smop, ok := fst.op.(*softmaxOp); ok {
+			if smop, ok := fst.op.(*softmaxOp); ok && !smop.isLog {
 				hasSm = true
 				smop1 = smop
 			}
-			if smop, ok := snd.op.(*softmaxOp); ok {
+			if smop, ok := snd.op.(*softmaxOp); ok && !smop.isLog {
 				hasSm = true
 				smop2 = smop
 			}
@@ -230,22 +232,26 @@ func logSoftmaxStabilization(a *Node) (retVal *Node, err error) {
 				var newFst, newSnd *Node
 				switch {
 				case smop1 != nil && smop2 == nil:
-					smop1.isLog = true
-					newFst = fst
+					if newFst, err = logSoftmaxOf(fst); err != nil {
+						return nil, err
+					}
 					if newSnd, err = Log(snd); err != nil {
 						return nil, err
 					}
 				case smop1 == nil && smop2 != nil:
-					smop2.isLog = true
-					newSnd = snd
+					if newSnd, err = logSoftmaxOf(snd); err != nil {
+						return nil, err
+					}
 					if newFst, err = Log(fst); err != nil {
 						return nil, err
 					}
 				case smop1 != nil && smop2 != nil:
-					smop1.isLog = true
-					smop2.isLog = true
-					newFst = fst
-					newSnd = snd
+					if newFst, err = logSoftmaxOf(fst); err != nil {
+						return nil, err
+					}
+					if newSnd, err = logSoftmaxOf(snd); err != nil {
+						return nil, err
+					}
 				default:
 					return a, noStabilizationErr{}
 				}
@@ -263,6 +269,19 @@ func logSoftmaxStabilization(a *Node) (retVal *Node, err error) {
 
 }
 
+// logSoftmaxOf returns the log of the softmax node a. A softmax that nothing else uses is turned into its log,
+// otherwise it is left alone and a new node is made.
+func logSoftmaxOf(a *Node) (*Node, error) {
+	op := a.op.(*softmaxOp)
+	if len(a.g.to[a]) == 0 {
+		op.isLog = true
+		return a, nil
+	}
+	logOp := *op
+	logOp.isLog = true
+	return ApplyOp(&logOp, a.children[0])
+}
+
 /* Graph Optimizations */
 
 // negNegOptimization optimizes away -(-x) to just return x
-- 
2.43.0


From ddc80b4a7eae3cbc8457d546fe554c3e69293b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:40:50 +0000
Subject: [PATCH 017/127] fix: differentiate softmax along the axis the forward
 pass used

With the default axis a column vector is normalised along its first axis,
but the gradient was taken along the last one.
---
 op_softmax.go | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/op_softmax.go b/op_softmax.go
index 4244c63..4a6385f 100644
--- a/op_softmax.go
+++ b/op_softmax.go
@@ -83,6 +83,17 @@ func (op *softmaxOp) checkInput(inputs ...Value) (tensor.Tensor, error) {
 	return in, nil
 }
 
+// axisFor returns the axis along which an input of the given shape is normalised.
+func (op *softmaxOp) axisFor(s tensor.Shape) int {
+	if op.axis != -1 {
+		return op.axis
+	}
+	if s.IsColVec() || (s.IsVector() && !s.IsRowVec()) {
+		return 0
+	}
+	return s.Dims() - 1 // default: last dim
+}
+
 func (op *softmaxOp) Do(inputs ...Value) (retVal Value, err error) {
 	inputTensor, err := op.checkInput(inputs...)
 	if err != nil {
@@ -102,15 +113,7 @@ func (op *softmaxOp) UsePreallocDo(prealloc Value, inputs ...Value) (Value, erro
 		return nil, fmt.Errorf("Can't check Softmax input: %w", err)
 	}
 
-	aShape := inputTensor.Shape()
-	axis := aShape.Dims() - 1 // default: last dim
-
-	if aShape.IsColVec() || (aShape.IsVector() && !aShape.IsRowVec()) {
-		axis = 0
-	}
-	if op.axis != -1 {
-		axis = op.axis
-	}
+	axis := op.axisFor(inputTensor.Shape())
 
 	if !op.isLog {
 		_, err = tensor.SoftMax(inputTensor, axis, tensor.WithReuse(prealloc.(tensor.Tensor)), tensor.UseUnsafe())
@@ -277,11 +280,12 @@ func (op *softmaxDiffOp) UsePreallocDo(prealloc Value, inputs ...Value) (Value,
 		return nil, fmt.Errorf("Can't check SoftmaxDiff input: %w", err)
 	}
 
+	axis := op.axisFor(y.Shape())
 	if op.isLog {
-		return tensor.LogSoftMaxB(y, grad, op.axis, tensor.WithReuse(prealloc.(tensor.Tensor)), tensor.UseUnsafe())
+		return tensor.LogSoftMaxB(y, grad, axis, tensor.WithReuse(prealloc.(tensor.Tensor)), tensor.UseUnsafe())
 	}
 
-	return tensor.SoftMaxB(y, grad, op.axis, tensor.WithReuse(prealloc.(tensor.Tensor)), tensor.UseUnsafe())
+	return tensor.SoftMaxB(y, grad, axis, tensor.WithReuse(prealloc.(tensor.Tensor)), tensor.UseUnsafe())
 }
 
 // ensure it complies with the Op interface
-- 
2.43.0


From 8bb027eaad3da28c1c32ed0b06609a79c263e363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:42:50 +0000
Subject: [PATCH 018/127] fix: keep the repeated axis in the gradient of a
 broadcast

The symbolic gradient of a repeat summed the repeated axis away, so the
gradient had fewer dimensions than the input. Using the input in another
operation as well then failed to add the two gradients.
---
 op_tensor.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/op_tensor.go b/op_tensor.go
index b2036bf..43a0c29 100644
--- a/op_tensor.go
+++ b/op_tensor.go
@@ -249,7 +249,15 @@ func (op repeatOp) DiffWRT(i int) []bool {
 
 func (op repeatOp) SymDiff(inputs Nodes, output, gradNode *Node) (retVal Nodes, err error) {
 	var n *Node
-	if n, err = Sum(gradNode, op.along); err == nil {
+	if n, err = Sum(gradNode, op.along); err != nil {
+		return nil, errors.Wrap(err, operationError)
+	}
+	n.setGroup(gradClust)
+	// Sum drops the axis that was repeated. The gradient has to have the shape of the input
+	if !inputs[0].IsScalar() {
+		if n, err = Reshape(n, inputs[0].Shape().Clone()); err != nil {
+			return nil, errors.Wrap(err, operationError)
+		}
 		n.setGroup(gradClust)
 	}
 	retVal = make(Nodes, len(inputs))
-- 
2.43.0


From fd07ca6749c3c4139762c1d8954f65b83186fd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:51 +0000
Subject: [PATCH 019/127] fix: convert scalars to scalars in ConvType

The converted value of a scalar was a tensor of shape (1), while its node
has a scalar shape.
---
 op_types.go | 24 ++++--------------------
 1 file changed, 4 insertions(+), 20 deletions(-)

diff --git a/op_types.go b/op_types.go
index 5d9f6e6..d4efb7c 100644
--- a/op_types.go
+++ b/op_types.go
@@ -103,11 +103,7 @@ func (op *dtConvOp) UsePreallocDo(prealloc Value, inputs ...Value) (Value, error
 				retData[i] = int(aData[i])
 			}
 		case float64:
-			retVal = tensor.New(
-				tensor.Of(tensor.Int),
-				tensor.WithShape(1),
-				tensor.WithBacking([]int{int(aData)}),
-			)
+			retVal = NewI(int(aData))
 		}
 	case op.from == tensor.Float32 && op.to == tensor.Int:
 		switch aData := a.Data().(type) {
@@ -117,11 +113,7 @@ func (op *dtConvOp) UsePreallocDo(prealloc Value, inputs ...Value) (Value, error
 				retData[i] = int(aData[i])
 			}
 		case float32:
-			retVal = tensor.New(
-				tensor.Of(tensor.Int),
-				tensor.WithShape(1),
-				tensor.WithBacking([]int{int(aData)}),
-			)
+			retVal = NewI(int(aData))
 		}
 	case op.from == tensor.Int && op.to == tensor.Float64:
 		switch aData := a.Data().(type) {
@@ -131,11 +123,7 @@ func (op *dtConvOp) UsePreallocDo(prealloc Value, inputs ...Value) (Value, error
 				retData[i] = float64(aData[i])
 			}
 		case int:
-			retVal = tensor.New(
-				tensor.Of(tensor.Float64),
-				tensor.WithShape(1),
-				tensor.WithBacking([]float64{float64(aData)}),
-			)
+			retVal = NewF64(float64(aData))
 		}
 	case op.from == tensor.Int && op.to == tensor.Float32:
 		switch aData := a.Data().(type) {
@@ -145,11 +133,7 @@ func (op *dtConvOp) UsePreallocDo(prealloc Value, inputs ...Value) (Value, error
 				retData[i] = float32(aData[i])
 			}
 		case int:
-			retVal = tensor.New(
-				tensor.Of(tensor.Float32),
-				tensor.WithShape(1),
-				tensor.WithBacking([]float32{float32(aData)}),
-			)
+			retVal = NewF32(float32(aData))
 		}
 	default:
 		return nil, errors.Errorf("Cannot do conversion %v", op.Type())
-- 
2.43.0


From b339f573651a4cec20f0e8b20ea16f065e334b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:07:13 +0000
Subject: [PATCH 020/127] fix: make lispMachine.Reset rewind to the first node

The nodes are executed in ascending order, but Reset placed the counter on the
last one, so a run after a Reset only executed the last node again and left
every other value stale.
---
 vm_genera.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vm_genera.go b/vm_genera.go
index 7c1914b..06df641 100644
--- a/vm_genera.go
+++ b/vm_genera.go
@@ -108,8 +108,9 @@ func (m *lispMachine) allowSetRootGrad()    { m.runFlags |= uint16(1) << spare3
 func (m *lispMachine) disallowSetRootGrad() { m.runFlags &= (^(uint16(1) << spare3)) }
 
 func (m *lispMachine) Reset() {
-	m.fwd = len(m.sorted) - 1
-	m.bwd = len(m.q) - 1
+	m.fwd = 0
+	m.bwd = -1
+	m.q = nil
 }
 
 func (m *lispMachine) Close() error {
-- 
2.43.0


From 80347d249c9e4d1a7954e587fe9896fef81342fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:08:38 +0000
Subject: [PATCH 021/127] fix: make TraceExec bind a fresh copy of each value

The copy used to be made into the memory of the value already bound to the
node. After a run of an ordinary tape machine that memory may be shared with
other nodes, so tracing the same graph afterwards overwrote their values.
---
 node.go | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/node.go b/node.go
index 74f6281..c363026 100644
--- a/node.go
+++ b/node.go
@@ -677,20 +677,10 @@ func (n *Node) bind(v Value) error {
 	return nil
 }
 
-// bindCopy copies the value if to the bound value.
+// bindCopy binds a copy of the value to the node. The copy is always a fresh one: the value that is currently bound may share
+// its memory with the values of other nodes.
 func (n *Node) bindCopy(v Value) (err error) {
-	if n.boundTo == nil {
-		var cloned Value
-		if cloned, err = CloneValue(v); err != nil {
-			return
-		}
-		n.boundTo = cloned
-		return nil
-	}
-
-	var copied Value
 	if dv, ok := n.boundTo.(*dualValue); ok {
-
 		if vdv, ok := v.(*dualValue); ok {
 			if vdv == dv {
 				return nil // no need to copy!
@@ -704,16 +694,19 @@ func (n *Node) bindCopy(v Value) (err error) {
 
 			return errors.Errorf("Cannot yet handle bindCopy() of *dualValue into *dualValue") // TODO FIX
 		}
-		if copied, err = Copy(dv.Value, v); err != nil {
+		var cloned Value
+		if cloned, err = CloneValue(v); err != nil {
 			return errors.Wrapf(err, "Failed to copy while binding to node with *dualValue")
 		}
-		dv.Value = copied // in case they're scalars
+		dv.Value = cloned
 		return nil
 	}
-	if copied, err = Copy(n.boundTo, v); err != nil {
+
+	var cloned Value
+	if cloned, err = CloneValue(v); err != nil {
 		return errors.Wrapf(err, "Failed to copy while binding to node")
 	}
-	n.boundTo = copied // in case it's a scalar
+	n.boundTo = cloned
 	return nil
 }
 
-- 
2.43.0


From 5ed9d9871daeafcc8c9f5abd360d73e3542bc022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:08:52 +0000
Subject: [PATCH 022/127] fix: stop lispMachine after an error

The goroutine that runs the graph reported the error and then went on to the
next stage, running the backward pass in the background (or blocking forever)
after RunAll had returned.
---
 vm_genera.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vm_genera.go b/vm_genera.go
index 06df641..67f0c65 100644
--- a/vm_genera.go
+++ b/vm_genera.go
@@ -270,6 +270,7 @@ func (m *lispMachine) runall(errChan chan error, doneChan chan struct{}) {
 
 	if err != nil {
 		errChan <- err
+		return
 	}
 
 	// send a synchronous signal, do all (if any) CUDA work before continuing with backprop
@@ -290,6 +291,7 @@ backward:
 	}
 	if err != nil {
 		errChan <- err
+		return
 	}
 	doneChan <- struct{}{}
 }
-- 
2.43.0


From 539c7aa4ac20160a07e597927241c5e75814bf01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:09:32 +0000
Subject: [PATCH 023/127] fix: report an unbound input of a lispMachine as an
 error

Running a graph with an input that has no value panicked in the goroutine
running the graph, which ended the process. The tape machine already reports
an error in the same situation.
---
 vm_genera.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vm_genera.go b/vm_genera.go
index 67f0c65..88bf9a4 100644
--- a/vm_genera.go
+++ b/vm_genera.go
@@ -312,6 +312,9 @@ func (m *lispMachine) forward() (err error) {
 		switch {
 		case n.isArg():
 			machineLogf("Unit() on input node")
+			if n.boundTo == nil {
+				return errors.Errorf("No value bound to node %v (%x)", n, n.ID())
+			}
 			if err = n.bind(dvUnit(n.boundTo)); err != nil {
 				return errors.Wrap(err, bindFail)
 			}
-- 
2.43.0


From 307f9c1c4ca71e5f4dff47b8d29db635fba7c09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:10:43 +0000
Subject: [PATCH 024/127] fix: do not pool the values of unbound nodes

The values of several nodes may share one tensor, and the user may hold it as
well. Unbinding returned such a tensor to the pool, several times if shared, so
later allocations received memory that was still in use.
---
 node.go | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/node.go b/node.go
index c363026..0a6c21a 100644
--- a/node.go
+++ b/node.go
@@ -710,21 +710,9 @@ func (n *Node) bindCopy(v Value) (err error) {
 	return nil
 }
 
-// unbind releases the values back to the pool
-func (n *Node) unbind() {
-	if n.boundTo == nil {
-		return
-	}
-
-	if dv, ok := n.boundTo.(*dualValue); ok {
-		returnDV(dv)
-	}
-
-	if t, ok := n.boundTo.(tensor.Tensor); ok {
-		returnTensor(t)
-	}
-	n.boundTo = nil
-}
+// unbind detaches the value from the node. The value isn't returned to the pool, as other nodes (or the user) may be holding on
+// to the same memory. Instead it will be cleaned up by the GC.
+func (n *Node) unbind() { n.boundTo = nil }
 
 func (n *Node) dotCluster() string {
 	var group string
-- 
2.43.0


From ea36dcbc41a7e37c75d91202dc405e5b888314fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:19:19 +0000
Subject: [PATCH 025/127] fix: do not share memory between a scalar and its
 reshaped tensor

Reshaping a scalar built a tensor over the memory of the scalar itself. An
operation done in place on that tensor then changed the scalar, which other
nodes may still be using.
---
 op_tensor.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/op_tensor.go b/op_tensor.go
index 43a0c29..f334751 100644
--- a/op_tensor.go
+++ b/op_tensor.go
@@ -1196,7 +1196,11 @@ func (op reshapeOp) Do(vals ...Value) (Value, error) {
 		}
 		return val, nil
 	case Scalar:
-		v0 := ScalarAsTensor(vals[0], op.to.Dims(), nil)
+		// the tensor shares its memory with the scalar, hence the clone
+		if val, err = CloneValue(vals[0]); err != nil {
+			return nil, errors.Wrapf(err, cloneFail, vals[0])
+		}
+		v0 := ScalarAsTensor(val, op.to.Dims(), nil)
 		if err := v0.(tensor.Tensor).Reshape(op.to...); err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 5fa2d25ceb7fab15f8eb2a5399bbe48072cae133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:25:51 +0000
Subject: [PATCH 026/127] fix: keep the velocity of scalar parameters in
 Momentum

The new velocity of a scalar was never stored, so every step started from zero
and the solver behaved as if the momentum were zero.
---
 solvers.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/solvers.go b/solvers.go
index c155358..ff1be5f 100644
--- a/solvers.go
+++ b/solvers.go
@@ -1121,6 +1121,8 @@ func (s *Momentum) Step(model []ValueGrad) (err error) {
 			c = c*momentum - eta*g
 			w += c
 
+			cached.Value, _ = anyToScalar(c)
+
 			*(weights.(*F32)) = F32(w)
 			*(grad.(*F32)) = F32(0.0)
 		case *F64:
@@ -1162,6 +1164,8 @@ func (s *Momentum) Step(model []ValueGrad) (err error) {
 			c = c*momentum - eta*g
 			w += c
 
+			cached.Value, _ = anyToScalar(c)
+
 			*(weights.(*F64)) = F64(w)
 			*(grad.(*F64)) = F64(0.0)
 		default:
-- 
2.43.0


From 612d7de63cae096b9a11c75c7a670618e173bd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:26:12 +0000
Subject: [PATCH 027/127] fix: regularise the weights in Momentum, not the
 velocity

For tensors the L1 and L2 terms were computed from the velocity, which is what
the solver keeps between steps. Scalars and the other solvers use the weights.
---
 solvers.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solvers.go b/solvers.go
index ff1be5f..68e5a2b 100644
--- a/solvers.go
+++ b/solvers.go
@@ -1022,7 +1022,7 @@ func (s *Momentum) Step(model []ValueGrad) (err error) {
 			// prep the regularization of gradients
 			var l1regs, l2regs tensor.Tensor
 			if s.useL1Reg {
-				if l1regs, err = tensor.Sign(cw); err != nil {
+				if l1regs, err = tensor.Sign(w); err != nil {
 					return errors.Wrap(err, signFail)
 				}
 
@@ -1038,7 +1038,7 @@ func (s *Momentum) Step(model []ValueGrad) (err error) {
 			}
 
 			if s.useL2Reg {
-				if l2regs, err = tensor.Mul(cw, l2reg); err != nil {
+				if l2regs, err = tensor.Mul(w, l2reg); err != nil {
 					return errors.Wrap(err, pointWiseMulFail)
 				}
 
-- 
2.43.0


From 163c26e0813408de229d26fa6dfc594b51788e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:26:32 +0000
Subject: [PATCH 028/127] fix: clip the gradients of scalars in RMSPropSolver

The clip option was only applied to tensors.
---
 solvers.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/solvers.go b/solvers.go
index 68e5a2b..beabb92 100644
--- a/solvers.go
+++ b/solvers.go
@@ -371,6 +371,7 @@ func (s *RMSPropSolver) Step(model []ValueGrad) (err error) {
 			stepSize := float32(s.eta)
 			eps := float32(s.eps)
 			l2reg := float32(s.l2reg)
+			clip := float32(s.clip)
 
 			gs := grad.(*F32).any()
 			c := cw.any()
@@ -378,6 +379,14 @@ func (s *RMSPropSolver) Step(model []ValueGrad) (err error) {
 
 			cached.Value, _ = anyToScalar(c)
 
+			if s.useClip {
+				if gs > clip {
+					gs = clip
+				} else if gs < -clip {
+					gs = -clip
+				}
+			}
+
 			w := weights.(*F32).any()
 			upd := -stepSize*gs/math32.Sqrt(c+eps) - l2reg*w
 			w += upd
@@ -391,6 +400,7 @@ func (s *RMSPropSolver) Step(model []ValueGrad) (err error) {
 			stepSize := s.eta
 			eps := s.eps
 			l2reg := s.l2reg
+			clip := s.clip
 
 			gs := grad.(*F64).any()
 			c := cw.any()
@@ -398,6 +408,14 @@ func (s *RMSPropSolver) Step(model []ValueGrad) (err error) {
 
 			cached.Value, _ = anyToScalar(c)
 
+			if s.useClip {
+				if gs > clip {
+					gs = clip
+				} else if gs < -clip {
+					gs = -clip
+				}
+			}
+
 			w := weights.(*F64).any()
 			upd := -stepSize*gs/math.Sqrt(c+eps) - l2reg*w
 			w += upd
-- 
2.43.0


From 5e5eb956a35c21d8b75f8f6bc7785c4b03cfa5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:26:54 +0000
Subject: [PATCH 029/127] fix: accumulate squared gradients of scalars in
 AdaGradSolver

The accumulated sum of a scalar parameter was never stored, so the step size
did not adapt.
---
 solvers.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/solvers.go b/solvers.go
index beabb92..b7a58df 100644
--- a/solvers.go
+++ b/solvers.go
@@ -1330,6 +1330,7 @@ func (s *AdaGradSolver) Step(model []ValueGrad) (err error) {
 			g = grad.(*F32).any()
 
 			c += g * g
+			cached.Value, _ = anyToScalar(c)
 
 			if s.useClip {
 				if g > clip {
@@ -1364,6 +1365,7 @@ func (s *AdaGradSolver) Step(model []ValueGrad) (err error) {
 			g = grad.(*F64).any()
 
 			c += g * g
+			cached.Value, _ = anyToScalar(c)
 
 			if s.useClip {
 				if g > clip {
-- 
2.43.0


From 8c639d670c68c7ae403442b7d2ee1ec7babd27ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:27:20 +0000
Subject: [PATCH 030/127] fix: let the solver options apply to AdaGradSolver

WithLearnRate, WithEps, WithL2Reg and WithClip had no case for this solver and
were silently ignored, although it supports all four.
---
 solvers.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/solvers.go b/solvers.go
index b7a58df..d78c9d8 100644
--- a/solvers.go
+++ b/solvers.go
@@ -76,6 +76,9 @@ func WithL2Reg(l2reg float64) SolverOpt {
 		case *Momentum:
 			st.l2reg = l2reg
 			st.useL2Reg = true
+		case *AdaGradSolver:
+			st.l2reg = l2reg
+			st.useL2Reg = true
 		case *AdamW:
 			st.l2reg = l2reg
 			st.useL2Reg = true
@@ -130,6 +133,8 @@ func WithEps(eps float64) SolverOpt {
 			st.eps = eps
 		case *AdamSolver:
 			st.eps = eps
+		case *AdaGradSolver:
+			st.eps = eps
 		case *AdamW:
 			st.ɛ = eps
 		}
@@ -156,6 +161,9 @@ func WithClip(clip float64) SolverOpt {
 		case *Momentum:
 			st.clip = clip
 			st.useClip = true
+		case *AdaGradSolver:
+			st.clip = clip
+			st.useClip = true
 		case *AdamW:
 			st.clip = clip
 			st.useClip = true
@@ -178,6 +186,8 @@ func WithLearnRate(eta float64) SolverOpt {
 			st.eta = eta
 		case *Momentum:
 			st.eta = eta
+		case *AdaGradSolver:
+			st.eta = eta
 		case *AdamW:
 			st.η = eta
 		}
-- 
2.43.0


From ba6fa1ef440826f382cfd4683d25780c069f741a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:30:22 +0000
Subject: [PATCH 031/127] fix: make AdamW update the weights by its documented
 rule

The solver computed its result into a copy, so the weights never changed. It
also used the bias corrections in place of the decay rates of the moments,
passed float64 options to float32 tensors, and panicked on scalars and on
anything but a *Node.
---
 solvers.go       | 50 ++++++++++++++++++++++++------------------------
 solvers_utils.go | 17 +++++++++++++---
 2 files changed, 39 insertions(+), 28 deletions(-)

diff --git a/solvers.go b/solvers.go
index d78c9d8..d75a5cf 100644
--- a/solvers.go
+++ b/solvers.go
@@ -1606,7 +1606,7 @@ type AdamW struct {
 
 	// unsettable
 	iter   float64
-	states map[*Node]*adamwState
+	states map[ValueGrad]*adamwState
 }
 
 func NewAdamW(opts ...SolverOpt) *AdamW {
@@ -1616,7 +1616,7 @@ func NewAdamW(opts ...SolverOpt) *AdamW {
 		λ:      0.01,
 		β1:     0.9,
 		β2:     0.999,
-		states: make(map[*Node]*adamwState),
+		states: make(map[ValueGrad]*adamwState),
 	}
 	for _, opt := range opts {
 		opt(s)
@@ -1634,20 +1634,20 @@ func (a *AdamW) Step(model []ValueGrad) (err error) {
 	*/
 	a.iter++
 	for _, n := range model {
-		n := n.(*Node)
 		var weights, grad Value
 		if weights, grad, err = extractWeightGrad(n); err != nil {
 			return err
 		}
-		w := weights.(tensor.Tensor)
-		g := grad.(tensor.Tensor)
+		// scalars are treated as tensors that share their memory, so the updates below reach them
+		w := ScalarAsTensor(weights, 1, nil).(tensor.Tensor)
+		g := ScalarAsTensor(grad, 1, nil).(tensor.Tensor)
 
 		st, ok := a.states[n]
 		if !ok {
 			st = new(adamwState)
-			st.expMA = tensor.New(tensor.WithShape(grad.Shape().Clone()...), tensor.Of(grad.Dtype()))
-			st.expMASq = tensor.New(tensor.WithShape(grad.Shape().Clone()...), tensor.Of(grad.Dtype()))
-			st.denom = tensor.New(tensor.WithShape(grad.Shape().Clone()...), tensor.Of(grad.Dtype()))
+			st.expMA = tensor.New(tensor.WithShape(g.Shape().Clone()...), tensor.Of(g.Dtype()))
+			st.expMASq = tensor.New(tensor.WithShape(g.Shape().Clone()...), tensor.Of(g.Dtype()))
+			st.denom = tensor.New(tensor.WithShape(g.Shape().Clone()...), tensor.Of(g.Dtype()))
 			a.states[n] = st
 		}
 
@@ -1664,10 +1664,10 @@ func (a *AdamW) Step(model []ValueGrad) (err error) {
 			decay = 1.0 - lr*wd
 			b1f := 1.0 - math.Pow(β1, it) // correction for beta
 			b2f := 1.0 - math.Pow(β2, it)
-			a1 = 1.0 - b1f
-			a2 = 1.0 - b2f // note here b2f is not sqrt'd
-			b1 = b1f
-			b2 = b2f
+			a1 = 1.0 - β1
+			a2 = 1.0 - β2
+			b1 = β1
+			b2 = β2
 			b2sqrt = math.Sqrt(b2f)
 			ss = -(lr / b1f)
 
@@ -1686,17 +1686,17 @@ func (a *AdamW) Step(model []ValueGrad) (err error) {
 			decay = float32(1.0) - lr*wd
 			b1f := float32(1.0) - math32.Pow(β1, it) // correction for beta
 			b2f := float32(1.0) - math32.Pow(β2, it)
-			a1 = float32(1.0) - b1f
-			a2 = float32(1.0) - b2f // note here b2f is not sqrt'd
-			b1 = b1f
-			b2 = b2f
+			a1 = float32(1.0) - β1
+			a2 = float32(1.0) - β2
+			b1 = β1
+			b2 = β2
 			b2sqrt = math32.Sqrt(b2f)
 			ss = -(lr / b1f)
 
-			l1reg = a.l1reg
-			l2reg = a.l2reg
-			clip = a.clip
-			negClip = -a.clip
+			l1reg = float32(a.l1reg)
+			l2reg = float32(a.l2reg)
+			clip = float32(a.clip)
+			negClip = float32(-a.clip)
 
 		}
 		// regularization of gradients
@@ -1725,7 +1725,7 @@ func (a *AdamW) Step(model []ValueGrad) (err error) {
 		var gSq tensor.Tensor
 
 		// θ_t =  (1 - ηλ)θ_t-1
-		if w, err = tensor.Mul(w, decay); err != nil {
+		if _, err = tensor.Mul(w, decay, tensor.UseUnsafe()); err != nil {
 			return err
 		}
 
@@ -1733,7 +1733,7 @@ func (a *AdamW) Step(model []ValueGrad) (err error) {
 		if st.expMA, err = tensor.Mul(st.expMA, b1, tensor.UseUnsafe()); err != nil {
 			return err
 		}
-		if _, err = tensor.Mul(g, a1, tensor.WithIncr(st.expMA)); err != nil {
+		if err = mulAdd(g, a1, st.expMA); err != nil {
 			return err
 		}
 
@@ -1744,7 +1744,7 @@ func (a *AdamW) Step(model []ValueGrad) (err error) {
 		if gSq, err = tensor.Mul(g, g, tensor.UseUnsafe()); err != nil {
 			return err
 		}
-		if _, err = tensor.Mul(gSq, a2, tensor.WithIncr(st.expMASq)); err != nil {
+		if err = mulAdd(gSq, a2, st.expMASq); err != nil {
 			return err
 		}
 
@@ -1762,11 +1762,11 @@ func (a *AdamW) Step(model []ValueGrad) (err error) {
 			return err
 		}
 
-		if w, err = tensor.Mul(st.denom, ss, tensor.WithIncr(w)); err != nil {
+		if err = mulAdd(st.denom, ss, w); err != nil {
 			return err
 		}
 
-		g.(tensor.Tensor).Zero()
+		g.Zero()
 	}
 	return nil
 }
diff --git a/solvers_utils.go b/solvers_utils.go
index 3ac320c..25b63bc 100644
--- a/solvers_utils.go
+++ b/solvers_utils.go
@@ -7,12 +7,23 @@ import (
 
 // this file provides utility functions for solvers
 
+// mulAdd does incr += t * scalar. The WithIncr() option is not used because it ignores the scalar if t has only one element.
+func mulAdd(t tensor.Tensor, scalar interface{}, incr tensor.Tensor) error {
+	prod, err := tensor.Mul(t, scalar)
+	if err != nil {
+		return err
+	}
+	defer returnTensor(prod)
+	_, err = tensor.Add(incr, prod, tensor.UseUnsafe())
+	return err
+}
+
 func doL1Reg(w, g tensor.Tensor, l1reg interface{}) (err error) {
 	var l1regs tensor.Tensor
 	if l1regs, err = tensor.Sign(w); err != nil {
-		errors.Wrap(err, signFail)
+		return errors.Wrap(err, signFail)
 	}
-	if _, err = tensor.Mul(l1reg, l1regs, tensor.WithIncr(g)); err != nil {
+	if err = mulAdd(l1regs, l1reg, g); err != nil {
 		return errors.Wrap(err, pointWiseMulFail)
 	}
 	defer returnTensor(l1regs)
@@ -20,7 +31,7 @@ func doL1Reg(w, g tensor.Tensor, l1reg interface{}) (err error) {
 }
 
 func doL2Reg(w, g tensor.Tensor, l2reg interface{}) (err error) {
-	if _, err = tensor.Mul(w, l2reg, tensor.WithIncr(g)); err != nil {
+	if err = mulAdd(w, l2reg, g); err != nil {
 		return errors.Wrap(err, pointWiseMulFail)
 	}
 	return nil
-- 
2.43.0


From 65e974ba16a54d679a7b08d25667af31223da887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:37:17 +0000
Subject: [PATCH 032/127] fix: send the gradient of MinBetween and MaxBetween
 to the chosen operand

---
 op_minmaxBetween.go | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/op_minmaxBetween.go b/op_minmaxBetween.go
index 2661827..7f87e94 100644
--- a/op_minmaxBetween.go
+++ b/op_minmaxBetween.go
@@ -172,7 +172,7 @@ func minmaxAutoDiff(ctx ExecutionContext, a, b *Node, output *Node) (err error)
 	adv, bdv := getDV(a, b)
 	outdv := output.boundTo.(*dualValue)
 
-	eqOp := newElemBinOp(ltOpType, a, b)
+	eqOp := newElemBinOp(eqOpType, a, b)
 	eqOp.retSame = true
 	eq := &ExternalOp{
 		Op:               eqOp,
@@ -203,19 +203,38 @@ func minmaxAutoDiff(ctx ExecutionContext, a, b *Node, output *Node) (err error)
 		defer ctx.PutValue(dev, gradA)
 	}
 
+	if gradB, extra, err = b.GradOnDevice(dev, ctx.External); err != nil {
+		return errors.Wrapf(err, gradOnDeviceFail, b, dev)
+	}
+	if extra {
+		defer ctx.PutValue(dev, gradB)
+	}
+
 	mul := NewHadamardProdOp(a, output, ctx)
-	mul.Incr = gradA
+	masked, err := mul.Do(gradOut, mask)
+	if err != nil {
+		return errors.Wrapf(err, "Masking the gradient failed")
+	}
 
+	add := NewAddOp(a, output, ctx)
 	var d Value
-	if d, err = mul.Do(gradOut, mask); err != nil {
-		return errors.Wrapf(err, "IncrDo gradA failed")
+	if d, err = add.Do(gradA, masked); err != nil {
+		return errors.Wrapf(err, "Adding to gradA failed")
 	}
 	adv.SetDeriv(d)
 
+	if a == b {
+		// the gradient of a was changed by the above
+		gradB = d
+	}
 	sub := NewSubOp(b, a, ctx)
-	sub.Incr = gradB
-	if d, err = sub.Do(gradOut, adv.d); err != nil {
-		return errors.Wrapf(err, "IncrDo gradB failed")
+	rest, err := sub.Do(gradOut, masked)
+	if err != nil {
+		return errors.Wrapf(err, "Masking the gradient failed")
+	}
+	add = NewAddOp(b, output, ctx)
+	if d, err = add.Do(gradB, rest); err != nil {
+		return errors.Wrapf(err, "Adding to gradB failed")
 	}
 	bdv.SetDeriv(d)
 	return nil
-- 
2.43.0


From 7bbb48386637c55a251afa08dbbfe0376d63247c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:37:28 +0000
Subject: [PATCH 033/127] fix: slice the gradient of Concat along the
 concatenated axis

---
 op_tensor.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/op_tensor.go b/op_tensor.go
index f334751..0d12164 100644
--- a/op_tensor.go
+++ b/op_tensor.go
@@ -1122,17 +1122,25 @@ func (op concatOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) erro
 		idv := in.boundTo.(*dualValue)
 		idvd := idv.d.(tensor.Tensor)
 
-		sliced, err := odvd.Slice(S(start, end))
+		slices := make([]tensor.Slice, op.axis+1)
+		slices[op.axis] = S(start, end)
+		sliced, err := odvd.Slice(slices...)
 		if err != nil {
 			return err
 		}
 
 		// TODO: fix VAdd hack
 		// add to odvd
-		switch st := sliced.(type) {
+		switch st := sliced.Materialize().(type) {
 		case *tensor.Dense:
 			d := idvd.(*tensor.Dense)
-			d.Add(st, tensor.UseUnsafe())
+			// slicing drops axes of size 1
+			if err = st.Reshape(d.Shape()...); err != nil {
+				return err
+			}
+			if _, err = d.Add(st, tensor.UseUnsafe()); err != nil {
+				return err
+			}
 		default:
 			return errors.Errorf(nyiTypeFail, "DoDiff (hack) ", st)
 		}
-- 
2.43.0


From cec8f47abf37ced9fc06e2cc67d945e6f8e4a98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:38:17 +0000
Subject: [PATCH 034/127] fix: differentiate a tensor to the power of a scalar
 in lispMachine

---
 operatorPointwise_binary.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/operatorPointwise_binary.go b/operatorPointwise_binary.go
index ffb03d0..ef8459b 100644
--- a/operatorPointwise_binary.go
+++ b/operatorPointwise_binary.go
@@ -960,11 +960,12 @@ func hadamardPowDiff(ctx ExecutionContext, x, y, z *Node) (err error) {
 		return
 	}
 
-	mul := newEBOByType(mulOpType, TypeOf(ydv.Value), TypeOf(xdv.Value))
-	if pow, err = mul.UnsafeDo(pow, ydv.Value); err != nil {
+	mul := newEBOByType(mulOpType, TypeOf(pow), TypeOf(ydv.Value))
+	if pow, err = mul.Do(pow, ydv.Value); err != nil {
 		return
 	}
 
+	mul = newEBOByType(mulOpType, TypeOf(pow), TypeOf(zdv.d))
 	if err = mul.IncrDo(xdv.d, pow, zdv.d); err != nil {
 		var ver Valuer
 		var ok bool
@@ -981,9 +982,11 @@ func hadamardPowDiff(ctx ExecutionContext, x, y, z *Node) (err error) {
 	if logx, err = logOp.Do(xdv.Value); err != nil {
 		return
 	}
+	mul = newEBOByType(mulOpType, TypeOf(zdv.Value), TypeOf(logx))
 	if logx, err = mul.Do(zdv.Value, logx); err != nil {
 		return
 	}
+	mul = newEBOByType(mulOpType, TypeOf(logx), TypeOf(zdv.d))
 	if err = mul.IncrDo(ydv.d, logx, zdv.d); err != nil {
 		var ver Valuer
 		var ok bool
-- 
2.43.0


From 190523be8863abbc49da26ba17e2e16d8b269e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:39:45 +0000
Subject: [PATCH 035/127] fix: add up the gradients of a scalar used with
 several tensors

---
 op_math.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/op_math.go b/op_math.go
index 4c561d7..872befb 100644
--- a/op_math.go
+++ b/op_math.go
@@ -251,6 +251,19 @@ func (op elemBinOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) (er
 		return
 	}
 
+	// The gradient of a scalar used with a tensor is the sum of the gradients of all the elements.
+	// What was accumulated in the scalar by its other users must not take part in that sum.
+	accumulated := make([]Value, len(inputs))
+	for i, in := range inputs {
+		indv := in.boundTo.(*dualValue)
+		if d, ok := indv.d.(Scalar); ok && in.IsScalar() && !output.IsScalar() {
+			if accumulated[i], err = CloneValue(d); err != nil {
+				return errors.Wrap(err, cloneFail)
+			}
+			indv.d = ZeroValue(d)
+		}
+	}
+
 	b := op.ʘBinaryOperator.binOpType()
 	if err = ʘBinOpDiffFns[b](ctx, inputs[0], inputs[1], output); err != nil {
 		if _, ok := err.(AutoDiffError); !ok {
@@ -260,7 +273,7 @@ func (op elemBinOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) (er
 	}
 
 	//handle scalar gradients
-	for _, in := range inputs {
+	for i, in := range inputs {
 		indv := in.boundTo.(*dualValue)
 		if _, ok := indv.d.(Scalar); in.IsScalar() && !ok {
 			indvdT := indv.d.(tensor.Tensor)
@@ -276,6 +289,14 @@ func (op elemBinOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) (er
 			d, _ = anyToScalar(t.ScalarValue())
 			indv.SetDeriv(d)
 		}
+		if accumulated[i] != nil {
+			var d Value
+			add := newEBOByType(addOpType, TypeOf(indv.d), TypeOf(accumulated[i]))
+			if d, err = add.Do(indv.d, accumulated[i]); err != nil {
+				return errors.Wrapf(err, doFail, add)
+			}
+			indv.SetDeriv(d)
+		}
 	}
 	return
 }
-- 
2.43.0


From 9b1350c87cef9dd438df90090e316af43b36be2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:40:04 +0000
Subject: [PATCH 036/127] fix: keep 1x1 batches as matrices when accumulating
 batched products

---
 operatorLinAlg.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/operatorLinAlg.go b/operatorLinAlg.go
index a74f53c..d278f8f 100644
--- a/operatorLinAlg.go
+++ b/operatorLinAlg.go
@@ -486,6 +486,9 @@ func batchedMatMul(a, b, c tensor.Tensor, transA, transB, incr bool) (retVal ten
 		if err := reshape("b", bs, innerB...); err != nil {
 			return nil, err
 		}
+		if err := reshape("c", cs, innerA[0], innerB[1]); err != nil {
+			return nil, err
+		}
 
 		var fo tensor.FuncOpt
 		if incr {
-- 
2.43.0


From 39beb3c271a68e1c10d5655c4f27d3234dfbdb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:40:49 +0000
Subject: [PATCH 037/127] fix: add to the gradient of a reshaped node in
 lispMachine

---
 op_tensor.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/op_tensor.go b/op_tensor.go
index 0d12164..1da969f 100644
--- a/op_tensor.go
+++ b/op_tensor.go
@@ -1288,17 +1288,25 @@ func (op reshapeOp) SymDiff(inputs Nodes, output *Node, grad *Node) (retVal Node
 }
 
 func (op reshapeOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) (err error) {
-	var grad Value
-	if grad, err = output.Grad(); err != nil {
+	if err = checkArity(op, len(inputs)); err != nil {
 		return
 	}
-	T := grad.(tensor.Tensor)
-	if err = T.Reshape(op.from...); err != nil {
-		return
+	xdv, zdv := getDV(inputs[0], output)
+
+	var d Value
+	back := reshapeOp{from: op.to, to: op.from}
+	if d, err = back.Do(zdv.d); err != nil {
+		return errors.Wrapf(err, doFail, back)
+	}
+	if t, ok := d.(tensor.Tensor); ok && t.IsScalar() {
+		d, _ = anyToScalar(t.ScalarValue())
+	}
+
+	add := newEBOByType(addOpType, TypeOf(xdv.d), TypeOf(d))
+	if d, err = add.UnsafeDo(xdv.d, d); err != nil {
+		return errors.Wrapf(err, unsafeDoFail, add)
 	}
-	input := inputs[0]
-	dv := input.boundTo.(*dualValue)
-	return dv.SetDeriv(T)
+	return xdv.SetDeriv(d)
 }
 
 /* PRIVATE FUNCTIONS */
-- 
2.43.0


From 39c999fe3aef9f3775b337c7926492e0c48f9bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:52:01 +0000
Subject: [PATCH 038/127] fix: make AveragePool1D average instead of taking the
 maximum

It delegated to the two-dimensional maximum pooling.
---
 op_avg_pool.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/op_avg_pool.go b/op_avg_pool.go
index a142f97..55127bd 100644
--- a/op_avg_pool.go
+++ b/op_avg_pool.go
@@ -12,7 +12,7 @@ import (
 
 // AveragePool1D applies a average pool on the node x.
 func AveragePool1D(x *Node, kernel, pad, stride int) (*Node, error) {
-	return MaxPool2D(x, tensor.Shape{1, kernel}, []int{0, pad}, []int{1, stride})
+	return AveragePool2D(x, tensor.Shape{1, kernel}, []int{0, pad}, []int{1, stride})
 }
 
 // AveragePool2D applies the average operation to the given input
-- 
2.43.0


From 0a1c10d03070078bf9c9f5c9e435fbbfab693f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:52:11 +0000
Subject: [PATCH 039/127] fix: divide average pooling by the size of the window

The sums were divided by the width of the image, which is right only
when the window happens to have as many elements as the image is wide.
---
 op_avg_pool.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/op_avg_pool.go b/op_avg_pool.go
index 55127bd..cbb6249 100644
--- a/op_avg_pool.go
+++ b/op_avg_pool.go
@@ -319,7 +319,7 @@ func (op *avgPoolOp) f32s(batches, channels, outH, outW, inH, inW,
 						}
 					}
 
-					outData[poolIndex] /= float32(inW)
+					outData[poolIndex] /= float32(op.h * op.w)
 				}
 			}
 			// skip by strides
@@ -370,7 +370,7 @@ func (op *avgPoolOp) f64s(batches, channels, outH, outW, inH, inW,
 						}
 					}
 
-					outData[poolIndex] /= float64(inW)
+					outData[poolIndex] /= float64(op.h * op.w)
 				}
 			}
 			// skip by strides
-- 
2.43.0


From b54cac23cff990e4ec9027610c419f1111e3fb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:52:21 +0000
Subject: [PATCH 040/127] fix: correct the gradient of average pooling

The output gradient was added to one element per window and then
smoothed over the image. Every element of a window has the same share
in its average, so each gets the output gradient divided by the size
of the window.
---
 op_avg_pool.go | 38 ++++++--------------------------------
 1 file changed, 6 insertions(+), 32 deletions(-)

diff --git a/op_avg_pool.go b/op_avg_pool.go
index cbb6249..5d66348 100644
--- a/op_avg_pool.go
+++ b/op_avg_pool.go
@@ -518,15 +518,6 @@ func (op *avgPoolDiffOp) f32s(batches, channels, pooledH, pooledW, inH, inW int,
 		for c := 0; c < channels; c++ {
 			for ph := 0; ph < pooledH; ph++ {
 				for pw := 0; pw < pooledW; pw++ {
-					index := ph*pooledW + pw
-					inIndex := maskData[index]
-
-					inDiffData[inIndex] += outDiffData[index]
-				}
-			}
-
-			for ph := 0; ph < inH; ph++ {
-				for pw := 0; pw < inW; pw++ {
 					hStart := ph*op.strideH - padH
 					wStart := pw*op.strideW - padW
 					hEnd := minInt(hStart+op.h, inH)
@@ -534,18 +525,14 @@ func (op *avgPoolDiffOp) f32s(batches, channels, pooledH, pooledW, inH, inW int,
 					hStart = maxInt(hStart, 0)
 					wStart = maxInt(wStart, 0)
 
-					poolIndex := ph*inW + pw
-					total := float32(0.0)
+					// every element of the window gets an equal share
+					share := outDiffData[ph*pooledW+pw] / float32(op.h*op.w)
 
 					for hi := hStart; hi < hEnd; hi++ {
 						for wi := wStart; wi < wEnd; wi++ {
-							i := hi*inW + wi
-
-							total += inDiffData[i]
+							inDiffData[hi*inW+wi] += share
 						}
 					}
-
-					inDiffData[poolIndex] = total / float32(inW)
 				}
 			}
 
@@ -578,15 +565,6 @@ func (op *avgPoolDiffOp) f64s(batches, channels, pooledH, pooledW, inH, inW int,
 		for c := 0; c < channels; c++ {
 			for ph := 0; ph < pooledH; ph++ {
 				for pw := 0; pw < pooledW; pw++ {
-					index := ph*pooledW + pw
-					inIndex := maskData[index]
-
-					inDiffData[inIndex] += outDiffData[index]
-				}
-			}
-
-			for ph := 0; ph < inH; ph++ {
-				for pw := 0; pw < inW; pw++ {
 					hStart := ph*op.strideH - padH
 					wStart := pw*op.strideW - padW
 					hEnd := minInt(hStart+op.h, inH)
@@ -594,18 +572,14 @@ func (op *avgPoolDiffOp) f64s(batches, channels, pooledH, pooledW, inH, inW int,
 					hStart = maxInt(hStart, 0)
 					wStart = maxInt(wStart, 0)
 
-					poolIndex := ph*inW + pw
-					total := float64(0.0)
+					// every element of the window gets an equal share
+					share := outDiffData[ph*pooledW+pw] / float64(op.h*op.w)
 
 					for hi := hStart; hi < hEnd; hi++ {
 						for wi := wStart; wi < wEnd; wi++ {
-							i := hi*inW + wi
-
-							total += inDiffData[i]
+							inDiffData[hi*inW+wi] += share
 						}
 					}
-
-					inDiffData[poolIndex] = total / float64(inW)
 				}
 			}
 
-- 
2.43.0


From 9bafa41cfc6091672920d1206c7c725221683434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:53:02 +0000
Subject: [PATCH 041/127] fix: add to the gradient of an image used several
 times in lispMachine

Convolutions and pooling overwrote the gradient that other uses of
their input had already contributed.
---
 op_avg_pool.go | 10 ++++++++--
 op_nn.go       | 20 ++++++++++++++++----
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/op_avg_pool.go b/op_avg_pool.go
index 5d66348..6521f8d 100644
--- a/op_avg_pool.go
+++ b/op_avg_pool.go
@@ -216,10 +216,16 @@ func (op *avgPoolOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) (e
 	op2 = *op
 	diff := &avgPoolDiffOp{op2}
 
-	if _, err = diff.UsePreallocDo(inputDV.d, inputDV.Value, outDV.Value, outDV.d); err != nil {
+	var d Value
+	if d, err = diff.Do(inputDV.Value, outDV.Value, outDV.d); err != nil {
 		return errors.Wrapf(err, doFail, diff)
 	}
-	return
+
+	add := newEBOByType(addOpType, TypeOf(inputDV.d), TypeOf(d))
+	if d, err = add.UnsafeDo(inputDV.d, d); err != nil {
+		return errors.Wrapf(err, unsafeDoFail, add)
+	}
+	return inputDV.SetDeriv(d)
 }
 
 func (op *avgPoolOp) checkInput(inputs ...Value) (tensor.Tensor, error) {
diff --git a/op_nn.go b/op_nn.go
index 65dca26..a40a862 100644
--- a/op_nn.go
+++ b/op_nn.go
@@ -284,10 +284,16 @@ func (op im2colOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) (err
 		im2colOp: op,
 	}
 
-	if _, err = diffOp.UsePreallocDo(imv.d, colv.d); err != nil {
+	var d Value
+	if d, err = diffOp.Do(colv.d); err != nil {
 		return errors.Wrapf(err, doFail, diffOp)
 	}
-	return
+
+	add := newEBOByType(addOpType, TypeOf(imv.d), TypeOf(d))
+	if d, err = add.UnsafeDo(imv.d, d); err != nil {
+		return errors.Wrapf(err, unsafeDoFail, add)
+	}
+	return imv.SetDeriv(d)
 }
 
 func (op im2colOp) calcShape(s tensor.Shape) (retVal tensor.Shape) {
@@ -783,10 +789,16 @@ func (op *maxPoolOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) (e
 	op2 = *op
 	diff := &maxPoolDiffOp{op2}
 
-	if _, err = diff.UsePreallocDo(inputDV.d, inputDV.Value, outDV.Value, outDV.d); err != nil {
+	var d Value
+	if d, err = diff.Do(inputDV.Value, outDV.Value, outDV.d); err != nil {
 		return errors.Wrapf(err, doFail, diff)
 	}
-	return
+
+	add := newEBOByType(addOpType, TypeOf(inputDV.d), TypeOf(d))
+	if d, err = add.UnsafeDo(inputDV.d, d); err != nil {
+		return errors.Wrapf(err, unsafeDoFail, add)
+	}
+	return inputDV.SetDeriv(d)
 }
 
 func (op *maxPoolOp) checkInput(inputs ...Value) (tensor.Tensor, error) {
-- 
2.43.0


From e22fa05b3a05e89bc6b4d47c9bc2f230d70e60e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:53:11 +0000
Subject: [PATCH 042/127] fix: tell convolutions of different dilation apart

The hash of the operation left out the dilation, so two convolutions
of one image that differ only in it could be taken for the same node.
---
 op_nn.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/op_nn.go b/op_nn.go
index a40a862..eb37d7f 100644
--- a/op_nn.go
+++ b/op_nn.go
@@ -225,7 +225,7 @@ func (op im2colOp) CallsExtern() bool    { return false }
 func (op im2colOp) OverwritesInput() int { return -1 }
 
 func (op im2colOp) WriteHash(h hash.Hash) {
-	fmt.Fprintf(h, "im2col:%d-%d-%d-%d-%d-%d", op.h, op.w, op.padH, op.padW, op.strideH, op.strideW)
+	fmt.Fprintf(h, "im2col:%d-%d-%d-%d-%d-%d-%d-%d", op.h, op.w, op.padH, op.padW, op.strideH, op.strideW, op.dilationH, op.dilationW)
 }
 
 func (op im2colOp) Hashcode() uint32 { return simpleHash(op) }
@@ -491,7 +491,8 @@ func (op col2imOp) CallsExtern() bool    { return false }
 func (op col2imOp) OverwritesInput() int { return -1 }
 
 func (op col2imOp) WriteHash(h hash.Hash) {
-	fmt.Fprintf(h, "col2im:%d-%d-%d-%d-%d-%d", op.h, op.w, op.padH, op.padW, op.strideH, op.strideW)
+	fmt.Fprintf(h, "col2im:%d-%d-%d-%d-%d-%d-%d-%d-%d-%d-%d-%d", op.unpaddedB, op.unpaddedC, op.unpaddedH, op.unpaddedW,
+		op.h, op.w, op.padH, op.padW, op.strideH, op.strideW, op.dilationH, op.dilationW)
 }
 
 func (op col2imOp) Hashcode() uint32 { return simpleHash(op) }
-- 
2.43.0


From a6b27245a12d335d77840c48b5b982b686968d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:53:21 +0000
Subject: [PATCH 043/127] fix: tell pooling with different padding on the far
 sides apart

The hash of the operation only held two of the four paddings.
---
 op_avg_pool.go | 8 ++++----
 op_nn.go       | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/op_avg_pool.go b/op_avg_pool.go
index 6521f8d..f7e4d8f 100644
--- a/op_avg_pool.go
+++ b/op_avg_pool.go
@@ -159,9 +159,9 @@ func (op *avgPoolOp) ReturnsPtr() bool     { return false }
 func (op *avgPoolOp) CallsExtern() bool    { return false }
 func (op *avgPoolOp) OverwritesInput() int { return -1 }
 func (op *avgPoolOp) WriteHash(h hash.Hash) {
-	fmt.Fprintf(h, "AvgPool{%d, %d, %d, %d}(kernel: (%d, %d), pad: (%d, %d), stride: (%d, %d))",
+	fmt.Fprintf(h, "AvgPool{%d, %d, %d, %d}(kernel: (%d, %d), pad: (%d, %d, %d, %d), stride: (%d, %d))",
 		op.unpaddedB, op.unpaddedC, op.unpaddedH, op.unpaddedW,
-		op.h, op.w, op.padNorth, op.padWest, op.strideH, op.strideW)
+		op.h, op.w, op.padNorth, op.padSouth, op.padWest, op.padEast, op.strideH, op.strideW)
 }
 
 func (op *avgPoolOp) Hashcode() uint32 { return simpleHash(op) }
@@ -421,9 +421,9 @@ func (op *avgPoolDiffOp) ReturnsPtr() bool     { return true }
 func (op *avgPoolDiffOp) CallsExtern() bool    { return false }
 func (op *avgPoolDiffOp) OverwritesInput() int { return -1 }
 func (op *avgPoolDiffOp) WriteHash(h hash.Hash) {
-	fmt.Fprintf(h, "AvgPoolDiff{%d, %d, %d, %d}(kernel: (%d, %d), pad: (%d, %d), stride: (%d, %d))",
+	fmt.Fprintf(h, "AvgPoolDiff{%d, %d, %d, %d}(kernel: (%d, %d), pad: (%d, %d, %d, %d), stride: (%d, %d))",
 		op.unpaddedB, op.unpaddedC, op.unpaddedH, op.unpaddedW,
-		op.h, op.w, op.padNorth, op.padWest, op.strideH, op.strideW)
+		op.h, op.w, op.padNorth, op.padSouth, op.padWest, op.padEast, op.strideH, op.strideW)
 }
 
 func (op *avgPoolDiffOp) Hashcode() uint32 { return simpleHash(op) }
diff --git a/op_nn.go b/op_nn.go
index eb37d7f..202136e 100644
--- a/op_nn.go
+++ b/op_nn.go
@@ -733,9 +733,9 @@ func (op *maxPoolOp) ReturnsPtr() bool     { return false }
 func (op *maxPoolOp) CallsExtern() bool    { return false }
 func (op *maxPoolOp) OverwritesInput() int { return -1 }
 func (op *maxPoolOp) WriteHash(h hash.Hash) {
-	fmt.Fprintf(h, "MaxPool{%d, %d, %d, %d}(kernel: (%d, %d), pad: (%d, %d), stride: (%d, %d))",
+	fmt.Fprintf(h, "MaxPool{%d, %d, %d, %d}(kernel: (%d, %d), pad: (%d, %d, %d, %d), stride: (%d, %d))",
 		op.unpaddedB, op.unpaddedC, op.unpaddedH, op.unpaddedW,
-		op.h, op.w, op.padNorth, op.padWest, op.strideH, op.strideW)
+		op.h, op.w, op.padNorth, op.padSouth, op.padWest, op.padEast, op.strideH, op.strideW)
 }
 
 func (op *maxPoolOp) Hashcode() uint32 { return simpleHash(op) }
@@ -1000,9 +1000,9 @@ func (op *maxPoolDiffOp) ReturnsPtr() bool     { return true }
 func (op *maxPoolDiffOp) CallsExtern() bool    { return false }
 func (op *maxPoolDiffOp) OverwritesInput() int { return -1 }
 func (op *maxPoolDiffOp) WriteHash(h hash.Hash) {
-	fmt.Fprintf(h, "MaxPoolDiff{%d, %d, %d, %d}(kernel: (%d, %d), pad: (%d, %d), stride: (%d, %d))",
+	fmt.Fprintf(h, "MaxPoolDiff{%d, %d, %d, %d}(kernel: (%d, %d), pad: (%d, %d, %d, %d), stride: (%d, %d))",
 		op.unpaddedB, op.unpaddedC, op.unpaddedH, op.unpaddedW,
-		op.h, op.w, op.padNorth, op.padWest, op.strideH, op.strideW)
+		op.h, op.w, op.padNorth, op.padSouth, op.padWest, op.padEast, op.strideH, op.strideW)
 }
 
 func (op *maxPoolDiffOp) Hashcode() uint32 { return simpleHash(op) }
-- 
2.43.0


From 85e8737683a92f94a88b19310331590d69afd2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:59:43 +0000
Subject: [PATCH 044/127] fix: compute BatchNorm from its input, not from the
 output buffer

The output buffer is a copy of the input only on the first run of a
machine. From the second run on it holds the previous result.
---
 op_nn.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/op_nn.go b/op_nn.go
index 202136e..2b169d2 100644
--- a/op_nn.go
+++ b/op_nn.go
@@ -1474,6 +1474,7 @@ func (op *BatchNormOp) f64s(input, output *tensor.Dense) (err error) {
 	}
 
 	// output = input * alpha + beta
+	inputF64s := input.Float64s()
 	outputF64s := output.Float64s()
 
 	if spatialDim == 1 {
@@ -1481,7 +1482,7 @@ func (op *BatchNormOp) f64s(input, output *tensor.Dense) (err error) {
 			for c := 0; c < channels; c++ {
 				i := s*channels + c
 
-				outputF64s[i] = outputF64s[i]*alpha[c] + beta[c]
+				outputF64s[i] = inputF64s[i]*alpha[c] + beta[c]
 			}
 		})
 	} else {
@@ -1490,7 +1491,7 @@ func (op *BatchNormOp) f64s(input, output *tensor.Dense) (err error) {
 				for d := 0; d < spatialDim; d++ {
 					i := s*channels*spatialDim + c*spatialDim + d
 
-					outputF64s[i] = outputF64s[i]*alpha[c] + beta[c]
+					outputF64s[i] = inputF64s[i]*alpha[c] + beta[c]
 				}
 			}
 		})
@@ -1621,6 +1622,7 @@ func (op *BatchNormOp) f32s(input, output *tensor.Dense) (err error) {
 	}
 
 	// output = input * alpha + beta
+	inputF32s := input.Float32s()
 	outputF32s := output.Float32s()
 
 	if spatialDim == 1 {
@@ -1628,7 +1630,7 @@ func (op *BatchNormOp) f32s(input, output *tensor.Dense) (err error) {
 			for c := 0; c < channels; c++ {
 				i := s*channels + c
 
-				outputF32s[i] = outputF32s[i]*alpha[c] + beta[c]
+				outputF32s[i] = inputF32s[i]*alpha[c] + beta[c]
 			}
 		})
 
@@ -1638,7 +1640,7 @@ func (op *BatchNormOp) f32s(input, output *tensor.Dense) (err error) {
 				for d := 0; d < spatialDim; d++ {
 					i := s*channels*spatialDim + c*spatialDim + d
 
-					outputF32s[i] = outputF32s[i]*alpha[c] + beta[c]
+					outputF32s[i] = inputF32s[i]*alpha[c] + beta[c]
 				}
 			}
 		})
-- 
2.43.0


From 323a4287039b182bef770eba00437217eb9fdcbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:00:21 +0000
Subject: [PATCH 045/127] fix: use the running statistics in BatchNorm's
 evaluation-mode gradient

For images the gradient used the variance saved by the last training
run, which an evaluation run in float64 has just zeroed.
---
 op_nn.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/op_nn.go b/op_nn.go
index 2b169d2..4f6a652 100644
--- a/op_nn.go
+++ b/op_nn.go
@@ -1744,7 +1744,7 @@ func (op *batchnormDiffOp) f64s(input, prealloc, outGrad *tensor.Dense) (err err
 	saveMean := op.saveMean.Float64s()
 	saveVariance := op.saveVariance.Float64s()
 	runningVar := op.runningVariance.Float64s()
-	runningMean := op.runningVariance.Float64s()
+	runningMean := op.runningMean.Float64s()
 
 	batchSize := input.Shape()[0]
 	channels := input.Shape()[1]
@@ -1802,6 +1802,13 @@ func (op *batchnormDiffOp) f64s(input, prealloc, outGrad *tensor.Dense) (err err
 			dotp := float64(0.0)
 			sum := 0.0
 
+			var invstd float64
+			if op.training {
+				invstd = 1 / math.Sqrt(saveVariance[c]/float64(n)+op.epsilon)
+			} else {
+				invstd = 1 / math.Sqrt(runningVar[c]+op.epsilon)
+			}
+
 			for s := 0; s < batchSize; s++ {
 				for d := 0; d < spatialDim; d++ {
 					i := s*channels*spatialDim + c*spatialDim + d
@@ -1813,7 +1820,6 @@ func (op *batchnormDiffOp) f64s(input, prealloc, outGrad *tensor.Dense) (err err
 				}
 			}
 
-			invstd := 1 / math.Sqrt(float64(saveVariance[c])/float64(n)+float64(op.epsilon))
 			k := float64(dotp*invstd*invstd) / float64(n)
 
 			// grad_mean = dySum / N
@@ -1855,7 +1861,7 @@ func (op *batchnormDiffOp) f32s(input, prealloc, outGrad *tensor.Dense) (err err
 	saveMean := op.saveMean.Float32s()
 	saveVariance := op.saveVariance.Float32s()
 	runningVar := op.runningVariance.Float32s()
-	runningMean := op.runningVariance.Float32s()
+	runningMean := op.runningMean.Float32s()
 
 	batchSize := input.Shape()[0]
 	channels := input.Shape()[1]
@@ -1913,6 +1919,13 @@ func (op *batchnormDiffOp) f32s(input, prealloc, outGrad *tensor.Dense) (err err
 			dotp := float32(0.0)
 			sum := float32(0.0)
 
+			var invstd float32
+			if op.training {
+				invstd = 1 / math32.Sqrt(saveVariance[c]/float32(n)+float32(op.epsilon))
+			} else {
+				invstd = 1 / math32.Sqrt(runningVar[c]+float32(op.epsilon))
+			}
+
 			for s := 0; s < batchSize; s++ {
 				for d := 0; d < spatialDim; d++ {
 					i := s*channels*spatialDim + c*spatialDim + d
@@ -1924,7 +1937,6 @@ func (op *batchnormDiffOp) f32s(input, prealloc, outGrad *tensor.Dense) (err err
 				}
 			}
 
-			invstd := 1 / math32.Sqrt(saveVariance[c]/float32(n)+float32(op.epsilon))
 			k := float32(dotp*invstd*invstd) / float32(n)
 
 			// grad_mean = dySum / N
-- 
2.43.0


From ac3a1f7a9ea75c0da067a11d067d61f23d495964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:00:31 +0000
Subject: [PATCH 046/127] fix: differentiate BatchNorm and GroupNorm in
 lispMachine

BatchNorm looked for inputs it does not have and panicked. GroupNorm
took the output's value for its gradient. It also logged every
gradient it was given.
---
 op_group_norm.go | 14 +++-----------
 op_nn.go         | 13 ++++++++++---
 2 files changed, 13 insertions(+), 14 deletions(-)

diff --git a/op_group_norm.go b/op_group_norm.go
index 2bdd7d1..436c0c9 100644
--- a/op_group_norm.go
+++ b/op_group_norm.go
@@ -3,7 +3,6 @@ package gorgonia
 import (
 	"fmt"
 	"hash"
-	"log"
 	"math"
 
 	"github.com/chewxy/hm"
@@ -472,19 +471,14 @@ func (op *GroupNormOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node)
 	idvd := idv.d.(*tensor.Dense)
 	diffOp := &groupNormDiffOp{op}
 
-	result, err := diffOp.Do(idv.Value, odv.Value, odv.d)
+	result, err := diffOp.Do(idv.Value, odv.d)
 	if err != nil {
 		return err
 	}
 
-	sum, err := idvd.Add(result.(*tensor.Dense), tensor.UseUnsafe())
-	if err != nil {
-		return err
-	}
+	_, err = idvd.Add(result.(*tensor.Dense), tensor.UseUnsafe())
 
-	odv.d = sum
-
-	return nil
+	return err
 }
 
 // SymDiff applies the diff op. Implementation for SDOp interface.
@@ -566,8 +560,6 @@ func (op *groupNormDiffOp) UsePreallocDo(prealloc Value, inputs ...Value) (Value
 	buffer := prealloc.(*tensor.Dense)
 	outGrad := inputs[1].(*tensor.Dense)
 
-	log.Printf("outgrad: %v", outGrad)
-
 	switch input.Dtype() {
 	case Float64:
 		err = op.f64s(input, buffer, outGrad)
diff --git a/op_nn.go b/op_nn.go
index 4f6a652..1ead49e 100644
--- a/op_nn.go
+++ b/op_nn.go
@@ -1247,10 +1247,17 @@ func (op *BatchNormOp) String() string {
 func (op *BatchNormOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) error {
 	diff := &batchnormDiffOp{op}
 	xdv, ydv := getDV(inputs[0], output)
-	sdv, bdv := getDV(inputs[1], inputs[2])
-	_, err := diff.UsePreallocDo(xdv.d, xdv.Value, ydv.d, sdv.Value, bdv.Value)
+	d, err := diff.Do(xdv.Value, ydv.d)
+	if err != nil {
+		return err
+	}
+
+	add := newEBOByType(addOpType, TypeOf(xdv.d), TypeOf(d))
+	if d, err = add.UnsafeDo(xdv.d, d); err != nil {
+		return errors.Wrapf(err, unsafeDoFail, add)
+	}
 
-	return err
+	return xdv.SetDeriv(d)
 }
 
 // DiffWRT ...
-- 
2.43.0


From 5ea50bea50c1c04b1f5cc2e5b2823615cf7a32df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:00:40 +0000
Subject: [PATCH 047/127] fix: tell normalisations with different epsilon apart

BatchNorm hashed its parameters with one decimal and GroupNorm left
the epsilon out, so different layers over one input became one node.
---
 op_group_norm.go | 4 ++--
 op_nn.go         | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/op_group_norm.go b/op_group_norm.go
index 436c0c9..afb1efb 100644
--- a/op_group_norm.go
+++ b/op_group_norm.go
@@ -67,7 +67,7 @@ func (op *GroupNormOp) ReturnsPtr() bool { return false }
 func (op *GroupNormOp) CallsExtern() bool { return false }
 
 func (op *GroupNormOp) WriteHash(h hash.Hash) {
-	fmt.Fprintf(h, op.String())
+	fmt.Fprintf(h, "GroupNorm{%d, %v, %v}()", op.numGroups, op.numChannels, op.epsilon)
 }
 
 func (op *GroupNormOp) Hashcode() uint32 { return simpleHash(op) }
@@ -514,7 +514,7 @@ func (op *groupNormDiffOp) ReturnsPtr() bool { return false }
 func (op *groupNormDiffOp) CallsExtern() bool { return false }
 
 func (op *groupNormDiffOp) WriteHash(h hash.Hash) {
-	fmt.Fprintf(h, op.String())
+	fmt.Fprintf(h, "groupNormDiff{%d, %v, %v}()", op.numGroups, op.numChannels, op.epsilon)
 }
 
 func (op *groupNormDiffOp) Hashcode() uint32 { return simpleHash(op) }
diff --git a/op_nn.go b/op_nn.go
index 1ead49e..73f950b 100644
--- a/op_nn.go
+++ b/op_nn.go
@@ -1233,7 +1233,7 @@ func (op *BatchNormOp) OverwritesInput() int { return -1 }
 
 // WriteHash ...
 func (op *BatchNormOp) WriteHash(h hash.Hash) {
-	fmt.Fprintf(h, "batchnorm-%1.1f-%1.1f", op.momentum, op.epsilon)
+	fmt.Fprintf(h, "batchnorm-%v-%v", op.momentum, op.epsilon)
 }
 
 // Hashcode ...
@@ -1699,7 +1699,7 @@ func (op *batchnormDiffOp) Do(values ...Value) (Value, error) {
 // OverwritesInput is the same exact characteristics of batchnorm
 
 func (op *batchnormDiffOp) WriteHash(h hash.Hash) {
-	fmt.Fprintf(h, "batchnormdiff-%1.1f-%1.1f", op.momentum, op.epsilon)
+	fmt.Fprintf(h, "batchnormdiff-%v-%v", op.momentum, op.epsilon)
 }
 
 func (op *batchnormDiffOp) Hashcode() uint32 { return simpleHash(op) }
-- 
2.43.0


From 117046a54368dc5fa34360cd34d5673e22c25084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:01:52 +0000
Subject: [PATCH 048/127] fix: keep mean and variance apart when GroupNorm
 merges partial sums

Groups of more than 256 elements were normalised with wrong statistics.
---
 op_group_norm.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/op_group_norm.go b/op_group_norm.go
index afb1efb..0a3c95c 100644
--- a/op_group_norm.go
+++ b/op_group_norm.go
@@ -218,7 +218,7 @@ func (op *GroupNormOp) rowwiseMomentsF64(x []float64, n int, ddof int) (mean flo
 	}
 
 	for i := 1; i < depth; i++ {
-		op.addMomentsVecF64(m0stk[i], m1stk[i], m2stk[i], &m0stk[0], m1stk[0], m1stk[0])
+		op.addMomentsVecF64(m0stk[i], m1stk[i], m2stk[i], &m0stk[0], m1stk[0], m2stk[0])
 	}
 
 	var (
@@ -387,7 +387,7 @@ func (op *GroupNormOp) rowwiseMomentsF32(x []float32, n int, ddof int) (mean flo
 	}
 
 	for i := 1; i < depth; i++ {
-		op.addMomentsVecF32(m0stk[i], m1stk[i], m2stk[i], &m0stk[0], m1stk[0], m1stk[0])
+		op.addMomentsVecF32(m0stk[i], m1stk[i], m2stk[i], &m0stk[0], m1stk[0], m2stk[0])
 	}
 
 	var (
-- 
2.43.0


From 495b256a178fc67d8ade8d03f157b6b155c95b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:02:51 +0000
Subject: [PATCH 049/127] fix: keep expressions apart whose hashes collide

Nodes with the same operation over different children were merged when their
32-bit hashes collided, in the graph and again when compiling. Printing a graph
with collisions dereferenced a nil node.
---
 analysis.go   | 3 +++
 equalities.go | 7 +++++++
 graph.go      | 2 +-
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/analysis.go b/analysis.go
index aec5f39..04cb0b0 100644
--- a/analysis.go
+++ b/analysis.go
@@ -36,6 +36,9 @@ func (df *dataflow) vn(n *Node) (retVal *Node, unique bool) {
 	node, ok := df.uniques[n.Hashcode()]
 
 	if ok {
+		if !nodeEq(n, node) {
+			return n, true // different expressions may share a hash
+		}
 		return node, false
 	}
 
diff --git a/equalities.go b/equalities.go
index 85b6d68..128f7b9 100644
--- a/equalities.go
+++ b/equalities.go
@@ -209,5 +209,12 @@ func nodeEq(a, b *Node) bool {
 		return false
 	}
 
+	// nodes of different expressions may share a hash
+	for i, child := range a.children {
+		if child != b.children[i] {
+			return false
+		}
+	}
+
 	return true
 }
diff --git a/graph.go b/graph.go
index 9709ca7..4e68909 100644
--- a/graph.go
+++ b/graph.go
@@ -310,7 +310,7 @@ func (g *ExprGraph) Constant(v Value) *Node {
 func (g *ExprGraph) String() string {
 	var buf bytes.Buffer
 	buf.WriteString("Graph: [\n")
-	for _, n := range g.byHash {
+	for _, n := range g.all {
 		fmt.Fprintf(&buf, "\t%d: %s\n", n.Hashcode(), n)
 	}
 	buf.WriteString("]")
-- 
2.43.0


From d1edca88cc66ceb680089dc67015fea04f0e8e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:03:33 +0000
Subject: [PATCH 050/127] fix: merge constants only when their type, shape and
 value are equal

Constants were merged by name, so differing values with one given name, large
tensors whose printed form is abbreviated, and float32 and float64 constants with
equal text became one node.
---
 equalities.go | 30 ++++++++++++++++++++++++++++++
 graph.go      | 17 ++++++++++++-----
 2 files changed, 42 insertions(+), 5 deletions(-)

diff --git a/equalities.go b/equalities.go
index 128f7b9..cac2703 100644
--- a/equalities.go
+++ b/equalities.go
@@ -209,6 +209,10 @@ func nodeEq(a, b *Node) bool {
 		return false
 	}
 
+	if a.isConstant() && !sameConstant(a, b) {
+		return false
+	}
+
 	// nodes of different expressions may share a hash
 	for i, child := range a.children {
 		if child != b.children[i] {
@@ -218,3 +222,29 @@ func nodeEq(a, b *Node) bool {
 
 	return true
 }
+
+// sameConstant returns true if both nodes are constants of the same type, shape and value.
+func sameConstant(a, b *Node) bool {
+	if a == b {
+		return true
+	}
+	ac, ok := a.op.(constant)
+	if !ok {
+		return false
+	}
+	bc, ok := b.op.(constant)
+	if !ok {
+		return false
+	}
+
+	av, bv := ac.Value(), bc.Value()
+	if av.Dtype() != bv.Dtype() || len(av.Shape()) != len(bv.Shape()) {
+		return false
+	}
+	for i, d := range av.Shape() {
+		if d != bv.Shape()[i] {
+			return false
+		}
+	}
+	return ValueEq(av, bv)
+}
diff --git a/graph.go b/graph.go
index 4e68909..0576856 100644
--- a/graph.go
+++ b/graph.go
@@ -140,10 +140,10 @@ func (g *ExprGraph) AddNode(n *Node) (retVal *Node) {
 			g.to[retVal] = nil
 		}
 	}()
-	// check for node with the same name in the graph
+	// check for constant with the same name and value in the graph
 	// we don't update the graph if this is the case
 	for _, node := range g.constants {
-		if node.name == n.name && n.isConstant() {
+		if node.name == n.name && n.isConstant() && sameConstant(node, n) {
 			return node
 		}
 	}
@@ -157,6 +157,7 @@ func (g *ExprGraph) AddNode(n *Node) (retVal *Node) {
 					return e
 				}
 			}
+			n = g.ownConstant(n)
 			g.evac[hash] = append(g.evac[hash], n)
 			g.addToAll(n)
 			incrCC() // collision counter
@@ -164,6 +165,7 @@ func (g *ExprGraph) AddNode(n *Node) (retVal *Node) {
 		}
 
 		if !nodeEq(n, existing) {
+			n = g.ownConstant(n)
 			g.evac[hash] = Nodes{existing, n}
 			g.byHash[hash] = nil // to signal that it's collided
 			g.addToAll(n)
@@ -174,14 +176,19 @@ func (g *ExprGraph) AddNode(n *Node) (retVal *Node) {
 		return existing
 	}
 
+	n = g.ownConstant(n)
+	g.addToAll(n)
+	g.byHash[hash] = n
+	return n
+}
+
+// ownConstant returns a copy of n that belongs to the graph if n is a constant. Other nodes are returned as they are.
+func (g *ExprGraph) ownConstant(n *Node) *Node {
 	if n.isConstant() {
 		n = n.clone()
 		g.constants = g.constants.Add(n)
 		n.g = g
 	}
-
-	g.addToAll(n)
-	g.byHash[hash] = n
 	return n
 }
 
-- 
2.43.0


From 901019477518beac92221db1d4e181ecbcdfbc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:08:42 +0000
Subject: [PATCH 051/127] fix: tell slices apart whose bounds differ by a
 multiple of 256

The bounds of a slice were written to the hash as single bytes, so slices such as
[1:3] and [257:259] of one tensor became the same node.
---
 op_tensor.go | 20 ++------------------
 1 file changed, 2 insertions(+), 18 deletions(-)

diff --git a/op_tensor.go b/op_tensor.go
index 1da969f..9bbaf8c 100644
--- a/op_tensor.go
+++ b/op_tensor.go
@@ -640,15 +640,7 @@ func (op sliceOp) WriteHash(h hash.Hash) {
 		return
 	}
 
-	if err := binary.Write(h, binary.LittleEndian, byte(op.Start())); err != nil {
-		panic(err)
-	}
-	if err := binary.Write(h, binary.LittleEndian, byte(op.End())); err != nil {
-		panic(err)
-	}
-	if err := binary.Write(h, binary.LittleEndian, byte(op.Step())); err != nil {
-		panic(err)
-	}
+	fmt.Fprintf(h, "%d:%d:%d", op.Start(), op.End(), op.Step())
 }
 
 func (op sliceOp) Hashcode() uint32 { return simpleHash(op) }
@@ -841,15 +833,7 @@ func (op sliceIncrOp) WriteHash(h hash.Hash) {
 		return
 	}
 
-	if err := binary.Write(h, binary.LittleEndian, byte(op.Start())); err != nil {
-		panic(err)
-	}
-	if err := binary.Write(h, binary.LittleEndian, byte(op.End())); err != nil {
-		panic(err)
-	}
-	if err := binary.Write(h, binary.LittleEndian, byte(op.Step())); err != nil {
-		panic(err)
-	}
+	fmt.Fprintf(h, "%d:%d:%d", op.Start(), op.End(), op.Step())
 }
 
 func (op sliceIncrOp) Hashcode() uint32 { return simpleHash(op) }
-- 
2.43.0


From 2587fd764a705e1fde5fe3dc310df98d5bc4a0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:09:59 +0000
Subject: [PATCH 052/127] fix: give every random node values of its own

Random nodes were told apart by their (empty) names, so that any two random nodes
of one type and shape became a single node of the graph, whatever their
distributions and parameters were.
---
 equalities.go | 6 +++---
 node.go       | 2 +-
 op_nn.go      | 9 ++++++++-
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/equalities.go b/equalities.go
index cac2703..73fc6a0 100644
--- a/equalities.go
+++ b/equalities.go
@@ -181,14 +181,14 @@ func nodeEq(a, b *Node) bool {
 		return true
 	}
 
-	if a.isInput() {
-		if !b.isInput() {
+	if a.isInput() && !a.isRandom() {
+		if !b.isInput() || b.isRandom() {
 			return false
 		}
 		return a.name == b.name
 	}
 
-	if b.isInput() {
+	if b.isInput() && !b.isRandom() {
 		return false
 	}
 
diff --git a/node.go b/node.go
index 0a6c21a..4f7a497 100644
--- a/node.go
+++ b/node.go
@@ -533,7 +533,7 @@ func (n *Node) Name() string {
 func (n *Node) WriteHash(h hash.Hash32) {
 	fmt.Fprintf(h, "%v%v", n.t, n.shape)
 
-	if n.isInput() {
+	if n.isInput() && !n.isRandom() {
 		h.Write([]byte(n.name))
 	} else {
 
diff --git a/op_nn.go b/op_nn.go
index 73f950b..47ca9c4 100644
--- a/op_nn.go
+++ b/op_nn.go
@@ -6,6 +6,7 @@ import (
 	"math"
 	"runtime"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"github.com/chewxy/hm"
@@ -51,8 +52,13 @@ type randomOp struct {
 	dt    tensor.Dtype
 
 	a, b float64 // when uniform, a,b = low, high; when gaussian, a,b = mean, stdev
+
+	id uint64 // every random op draws its own values, even when the parameters are the same
 }
 
+// randomOps counts the random ops made
+var randomOps uint64
+
 func makeRandomOp(which randomness, dt tensor.Dtype, a, b float64, shape ...int) randomOp {
 	return randomOp{
 		which: which,
@@ -60,6 +66,7 @@ func makeRandomOp(which randomness, dt tensor.Dtype, a, b float64, shape ...int)
 		dt:    dt,
 		a:     a,
 		b:     b,
+		id:    atomic.AddUint64(&randomOps, 1),
 	}
 }
 
@@ -149,7 +156,7 @@ func (op randomOp) ReturnsPtr() bool     { return false }
 func (op randomOp) CallsExtern() bool    { return false }
 func (op randomOp) OverwritesInput() int { return -1 }
 func (op randomOp) WriteHash(h hash.Hash) {
-	fmt.Fprintf(h, "%d%v%f%f", op.which, op.shape, op.a, op.b)
+	fmt.Fprintf(h, "%d%v%f%f-%d", op.which, op.shape, op.a, op.b, op.id)
 }
 
 func (op randomOp) Hashcode() uint32 { return simpleHash(op) }
-- 
2.43.0


From d5abb4929d947026f31f5f937c6760afcf1492e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:10:08 +0000
Subject: [PATCH 053/127] fix: keep dropouts of the same input apart

The probability was not part of the hash, so a second dropout of a node was merged
with the first one, whatever its probability.
---
 op_dropout.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/op_dropout.go b/op_dropout.go
index de2ecfd..9fbd1ce 100644
--- a/op_dropout.go
+++ b/op_dropout.go
@@ -37,7 +37,8 @@ func (op *dropoutOp) ReturnsPtr() bool { return false }
 
 func (op *dropoutOp) CallsExtern() bool { return false }
 
-func (op *dropoutOp) WriteHash(h hash.Hash) { fmt.Fprintf(h, op.String()) }
+// WriteHash includes the address of the op: every dropout has its own probability and draws its own mask.
+func (op *dropoutOp) WriteHash(h hash.Hash) { fmt.Fprintf(h, "Dropout %p", op) }
 
 func (op *dropoutOp) Hashcode() uint32 { return simpleHash(op) }
 
-- 
2.43.0


From b3f97d5993a6ed1194e6d8832fae6e269b35f76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:10:33 +0000
Subject: [PATCH 054/127] fix: hash all parameters of the CTC and YOLO
 operations

CTC losses with different reductions, and YOLO operations differing in anything but
their anchors, were merged when applied to the same inputs.
---
 op_ctc_loss.go | 2 +-
 op_yolo.go     | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/op_ctc_loss.go b/op_ctc_loss.go
index 08288be..1f1dd35 100644
--- a/op_ctc_loss.go
+++ b/op_ctc_loss.go
@@ -57,7 +57,7 @@ func (op *ctcLossOp) ReturnsPtr() bool { return false }
 func (op *ctcLossOp) CallsExtern() bool { return false }
 
 func (op *ctcLossOp) WriteHash(h hash.Hash) {
-	fmt.Fprintf(h, "CTCLoss{}()")
+	fmt.Fprintf(h, "CTCLoss{%d}()", op.reduction)
 }
 
 func (op *ctcLossOp) Hashcode() uint32 { return simpleHash(op) }
diff --git a/op_yolo.go b/op_yolo.go
index c7327a7..f286dc9 100644
--- a/op_yolo.go
+++ b/op_yolo.go
@@ -69,7 +69,8 @@ func (op *yoloOp) ReturnsPtr() bool { return false }
 func (op *yoloOp) CallsExtern() bool { return false }
 
 func (op *yoloOp) WriteHash(h hash.Hash) {
-	fmt.Fprintf(h, "YOLO{}(anchors: (%v))", op.anchors)
+	fmt.Fprintf(h, "YOLO{}(anchors: (%v), masks: (%v), ignore: %v, size: %d, classes: %d, train: %v)",
+		op.anchors, op.masks, op.ignoreTresh, op.dimensions, op.numClasses, op.trainMode)
 }
 func (op *yoloOp) Hashcode() uint32 { return simpleHash(op) }
 
-- 
2.43.0


From 1c01de08ab72994b2eead160fd2e6672777a1651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:14:58 +0000
Subject: [PATCH 055/127] fix: sample float32 Glorot uniform weights from a
 uniform distribution

GlorotEtAlU32 returned normally distributed weights.
---
 weights.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weights.go b/weights.go
index 1df5ac9..57b2789 100644
--- a/weights.go
+++ b/weights.go
@@ -435,7 +435,7 @@ func GlorotEtAlU64(gain float64, s ...int) []float64 {
 //		math.Sqrt(2.0) for gain for weights that will be used in ReLU units
 //		math.Sqrt(2.0 / (1+alpha*alpha)) for ReLU that are leaky with alpha
 func GlorotEtAlU32(gain float64, s ...int) []float32 {
-	f64 := GlorotEtAlN64(gain, s...)
+	f64 := GlorotEtAlU64(gain, s...)
 	retVal := make([]float32, len(f64))
 	for i, v := range f64 {
 		retVal[i] = float32(v)
-- 
2.43.0


From 4dfd22e5cca6b485ca47f6367faf9d1b24955905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:15:09 +0000
Subject: [PATCH 056/127] fix: add the gradient of a dropout to that of other
 uses of its input

On a lisp machine it replaced what had been accumulated.
---
 op_dropout.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/op_dropout.go b/op_dropout.go
index 9fbd1ce..32a93af 100644
--- a/op_dropout.go
+++ b/op_dropout.go
@@ -138,9 +138,17 @@ func (op *dropoutOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) er
 	diff := &dropoutDiffOp{op}
 	xdv, ydv := getDV(inputs[0], output)
 
-	_, err := diff.UsePreallocDo(xdv.d, xdv.Value, output.Value(), ydv.d)
+	d, err := diff.Do(xdv.Value, output.Value(), ydv.d)
+	if err != nil {
+		return err
+	}
+
+	add := newEBOByType(addOpType, TypeOf(xdv.d), TypeOf(d))
+	if d, err = add.UnsafeDo(xdv.d, d); err != nil {
+		return err
+	}
 
-	return err
+	return xdv.SetDeriv(d)
 }
 
 // SymDiff applies the diff op. Implementation for SDOp interface.
-- 
2.43.0


From ca43b07394b12497ed986a7ece3a231b5c986232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:17:26 +0000
Subject: [PATCH 057/127] fix: let Ones initialise scalars

It returned a number instead of the backing of the tensor, which panicked.
---
 weights.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weights.go b/weights.go
index 57b2789..d805695 100644
--- a/weights.go
+++ b/weights.go
@@ -40,7 +40,7 @@ func Zeroes() InitWFn {
 
 // Ones creates an InitWfn that populates a Value with ones. See Zeroes() for more explanation.
 func Ones() InitWFn {
-	return func(dt tensor.Dtype, s ...int) interface{} { return ones(dt, s...).Data() }
+	return func(dt tensor.Dtype, s ...int) interface{} { return ones(dt, tensor.Shape(s).TotalSize()).Data() }
 }
 
 // RangedFrom creates an InitWFn that populates a Value starting with the provided start, increamenting the number for each element in the value by 1
-- 
2.43.0


From cdf6996d1ef6543ddda79228d68b5e2a349020b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:24:58 +0000
Subject: [PATCH 058/127] fix: traversal machine reuses the gradient of an
 operation that was returned to the pool

The gradient of a scalar used with a tensor may be stored in the gradient of
the result. Returning it to the pool made the next run crash.
---
 op_math.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/op_math.go b/op_math.go
index 872befb..d2ccc0a 100644
--- a/op_math.go
+++ b/op_math.go
@@ -276,8 +276,8 @@ func (op elemBinOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) (er
 	for i, in := range inputs {
 		indv := in.boundTo.(*dualValue)
 		if _, ok := indv.d.(Scalar); in.IsScalar() && !ok {
+			// indvdT must not be returned to the pool: it may be the gradient of the output, which is still in use
 			indvdT := indv.d.(tensor.Tensor)
-			defer returnTensor(indvdT)
 
 			var d Value
 			var t tensor.Tensor
-- 
2.43.0


From 4393eefd33cd563b9bb97e5444626cf81e731b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:25:15 +0000
Subject: [PATCH 059/127] fix: SoftMax overwrites its own gradient with that of
 its input on the traversal machine

The two then shared memory, and gradients were wrong from the second run on.
---
 op_softmax.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/op_softmax.go b/op_softmax.go
index 4a6385f..582ec3d 100644
--- a/op_softmax.go
+++ b/op_softmax.go
@@ -151,9 +151,7 @@ func (op *softmaxOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) er
 		return err
 	}
 
-	odv.d = sum
-
-	return nil
+	return idv.SetDeriv(sum)
 }
 
 // SymDiff applies the diff op. Implementation for SDOp interface.
-- 
2.43.0


From 6617d49d3bf8e6d065c8680cd08991117be2d647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:26:16 +0000
Subject: [PATCH 060/127] fix: gradients of sums and repeats keep the wrong
 shape on the traversal machine

The gradient of the result was reshaped in place and not restored, so later
runs failed or gave wrong gradients.
---
 op_reduction.go | 2 ++
 op_tensor.go    | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/op_reduction.go b/op_reduction.go
index 9472857..38e0209 100644
--- a/op_reduction.go
+++ b/op_reduction.go
@@ -306,7 +306,9 @@ func (op sumOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) (err er
 			for _, a := range op.along {
 				newShape[a] = 1
 			}
+			backup := ydvd.Shape().Clone()
 			ydvd.Reshape(newShape...)
+			defer ydvd.Reshape(backup...)
 		}
 
 		T = ydvd
diff --git a/op_tensor.go b/op_tensor.go
index 9bbaf8c..b1dc36d 100644
--- a/op_tensor.go
+++ b/op_tensor.go
@@ -316,10 +316,12 @@ func (op repeatOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) (err
 
 			// a scalar can never get to this path
 			t := d.(tensor.Tensor)
+			backup := t.Shape().Clone()
 			if err = t.Reshape(newShape...); err != nil {
 				err = errors.Wrapf(err, reshapeFail, newShape, t.DataSize())
 				return
 			}
+			defer t.Reshape(backup...)
 
 			sum := newSumOp(along, newShape, len(newShape))
 			if d, err = sum.Do(d); err != nil {
-- 
2.43.0


From 3f5734ba229af89d51a14a7c300215f56779ffd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:31:55 +0000
Subject: [PATCH 061/127] fix: ValueClose takes tensors of different shapes for
 close

Only the number of elements was compared.
---
 equalities.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/equalities.go b/equalities.go
index 73fc6a0..1124a5c 100644
--- a/equalities.go
+++ b/equalities.go
@@ -91,6 +91,10 @@ func tensorClose(a, b tensor.Tensor) bool {
 		return false
 	}
 
+	if !a.Shape().Eq(b.Shape()) {
+		return false
+	}
+
 	switch aDt {
 	case tensor.Float64:
 		aFs := a.Data().([]float64)
-- 
2.43.0


From 3a87b93c16027b10f9ade8b61c0fa3ff33bdbae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:31:55 +0000
Subject: [PATCH 062/127] fix: Let accepts Go scalars of the wrong type or
 shape

A plain Go value was bound without the checks made for other values.
---
 gorgonia.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gorgonia.go b/gorgonia.go
index 73e340e..534ed93 100644
--- a/gorgonia.go
+++ b/gorgonia.go
@@ -291,7 +291,7 @@ func UnsafeLet(n *Node, be interface{}) error {
 			return errors.Wrapf(err, anyToValueFail, be, be)
 		}
 
-		n.bind(val)
+		return UnsafeLet(n, val)
 	}
 	return nil
 }
-- 
2.43.0


From c67f8c645b64eb515eb3a9ed6bec3dcdbe341ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:34:00 +0000
Subject: [PATCH 063/127] fix: watching for NaN or Inf panics on values that
 are not floats

---
 utils.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utils.go b/utils.go
index ed7d394..e6b9ac3 100644
--- a/utils.go
+++ b/utils.go
@@ -187,6 +187,8 @@ func hasInf(v Value, dev Device) bool {
 		return false
 	case *dualValue:
 		return hasInf(vt.Value, dev) || hasInf(vt.d, dev)
+	case Scalar:
+		return false // only floats can be Inf
 	default:
 		err := nyi("hasInf", v)
 		panic(err)
@@ -229,6 +231,8 @@ func hasNaN(v Value, dev Device) bool {
 		return false
 	case *dualValue:
 		return hasNaN(vt.Value, dev) || hasNaN(vt.d, dev)
+	case Scalar:
+		return false // only floats can be NaN
 	default:
 		err := nyi("hasNaN", vt)
 		panic(err)
-- 
2.43.0


From 7a7266f0783e3f73fc337fa812958e61f665706b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:34:22 +0000
Subject: [PATCH 064/127] fix: the traversal machine ignores WithInfWatch

---
 vm_genera.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/vm_genera.go b/vm_genera.go
index 88bf9a4..0e1b4ff 100644
--- a/vm_genera.go
+++ b/vm_genera.go
@@ -512,6 +512,12 @@ func (m *lispMachine) forward() (err error) {
 		}
 	}
 
+	if m.watchInf() && !n.isStmt {
+		if hasInf(n.boundTo, dev) {
+			return errors.New("Inf found in value")
+		}
+	}
+
 	return
 }
 
@@ -565,6 +571,18 @@ func (m *lispMachine) backward() (err error) {
 			}
 		}
 	}
+
+	if m.watchInf() {
+		if hasInf(instr.output.boundTo, instr.ctx.Device) {
+			return errors.New("Inf found in value")
+		}
+
+		for _, in := range instr.inputs {
+			if hasInf(in.boundTo, instr.ctx.Device) {
+				return errors.New("Inf found in value")
+			}
+		}
+	}
 	return
 }
 
-- 
2.43.0


From 398bfc9d5fa433b5dbb7d28e56e7d24d649ba84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:44:00 +0000
Subject: [PATCH 065/127] fix: Find the roots of a graph again after it has
 grown

Roots() remembered its first answer for good. Nodes and edges added later
were missing from it, and a lisp machine made after a first one still
treated the old root as a root, so it got a gradient of 1.
---
 graph.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/graph.go b/graph.go
index 0576856..becf23f 100644
--- a/graph.go
+++ b/graph.go
@@ -199,6 +199,7 @@ func (g *ExprGraph) addToAll(n *Node) {
 	g.all = append(g.all, n)
 	n.id = int64(g.counter)
 	g.counter++
+	g.roots = nil // the roots found so far may not be the roots any more
 }
 
 // RemoveNode removes n from the graph, as well as any edges attached to it. If the node
@@ -215,6 +216,7 @@ func (g *ExprGraph) RemoveNode(node graph.Node) {
 	delete(g.to, n)
 	g.evac[hash] = g.evac[hash].remove(n)
 	g.all = g.all.remove(n)
+	g.roots = nil
 }
 
 // SetEdge adds e, an edge from one node to another. If the nodes do not exist, they are added.
@@ -237,6 +239,7 @@ func (g *ExprGraph) SetEdge(e graph.Edge) {
 
 	// g.to[to] = g.to[to].Add(from)
 	g.to[to] = append(g.to[to], from)
+	g.roots = nil
 }
 
 // Roots returns a list of nodes that are not children of any other nodes
-- 
2.43.0


From 4ff146133e8122c2ac81193a3476af569c2da8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:44:13 +0000
Subject: [PATCH 066/127] fix: Let a cloned graph find its roots

Cloning a graph whose roots had not been asked for yet gave the clone an
empty list of roots, which it then took for the answer.
---
 graph.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/graph.go b/graph.go
index becf23f..15f0740 100644
--- a/graph.go
+++ b/graph.go
@@ -124,9 +124,11 @@ func (g *ExprGraph) Clone() interface{} {
 		g2.constants[i] = mapping[n]
 	}
 
-	g2.roots = make(Nodes, len(g.roots))
-	for i, n := range g.roots {
-		g2.roots[i] = mapping[n]
+	if g.roots != nil {
+		g2.roots = make(Nodes, len(g.roots))
+		for i, n := range g.roots {
+			g2.roots[i] = mapping[n]
+		}
 	}
 
 	g2.counter = g.counter
-- 
2.43.0


From c1d84bc685f392ce2cce9208e2e6f59a5de9f4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:44:57 +0000
Subject: [PATCH 067/127] fix: Return nil for a node that is not in the graph

Node() returned a non-nil interface that held a nil pointer, so callers
could not see that there is no node with the given ID.
---
 graph.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/graph.go b/graph.go
index 15f0740..5c41ae2 100644
--- a/graph.go
+++ b/graph.go
@@ -535,7 +535,10 @@ func (g *ExprGraph) Node(id int64) graph.Node {
 	// 	}
 	// }
 	// return nil
-	return g.node(id)
+	if n := g.node(id); n != nil {
+		return n
+	}
+	return nil
 }
 
 func (g *ExprGraph) node(id int64) *Node {
-- 
2.43.0


From 0df7ec8284d32c3dc8e84521c20a67b37305c05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:45:08 +0000
Subject: [PATCH 068/127] fix: List edges in the direction they have in the
 graph

Edges() listed every edge backwards: Edge(), From(), To() and
HasEdgeFromTo() say that an edge goes from a node to its operand.
---
 graph.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/graph.go b/graph.go
index 5c41ae2..613f4ed 100644
--- a/graph.go
+++ b/graph.go
@@ -504,10 +504,10 @@ func (g *ExprGraph) ToDot() string {
 func (g *ExprGraph) Edges() graph.Edges {
 	var edges []graph.Edge
 	for _, n := range g.all {
-		for _, toN := range g.to[n] {
+		for _, fromN := range g.to[n] {
 			edges = append(edges, edge{
-				from: n,
-				to:   toN,
+				from: fromN,
+				to:   n,
 			})
 		}
 	}
-- 
2.43.0


From a03e951e47ad843181426a265f19a4d1c051abd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:48:48 +0000
Subject: [PATCH 069/127] fix: Leave the operand of log(1+a) in the graph

Rewriting log(1+a) and log(1-a) removed the node of 1+a from the graph
and gave it back to the pool of nodes. Whoever held it or already used it
in another expression was left with an empty node.
---
 graph.go         | 7 -------
 stabilization.go | 5 -----
 2 files changed, 12 deletions(-)

diff --git a/graph.go b/graph.go
index 613f4ed..fd3453b 100644
--- a/graph.go
+++ b/graph.go
@@ -517,13 +517,6 @@ func (g *ExprGraph) Edges() graph.Edges {
 	return iterator.NewOrderedEdges(edges)
 }
 
-// other private methods
-func (g *ExprGraph) removeAllEdgesFrom(n *Node) {
-	for k, ns := range g.to {
-		g.to[k] = ns.remove(n)
-	}
-}
-
 /* Graph interface */
 
 // Node returns the node in the graph with the given ID.
diff --git a/stabilization.go b/stabilization.go
index caaae23..0876e77 100644
--- a/stabilization.go
+++ b/stabilization.go
@@ -70,11 +70,6 @@ func logStabilization(a *Node) (retVal *Node, err error) {
 		return a, noStabilizationErr{}
 	}
 
-	g := a.g
-	g.removeAllEdgesFrom(a) // remove all references
-	g.RemoveNode(a)
-	defer returnNode(a) // send it back to the pool, since it is literally useless now
-
 	if bot == subOpType {
 		if retVal, err = Neg(x); err == nil {
 			return Log1p(retVal)
-- 
2.43.0


From 0155c9e1182e8a037d4fb9f59d25b34f3155515b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:56:32 +0000
Subject: [PATCH 070/127] fix: Return the subgraph under a single node

Subgraph() with one node is documented to take it for the root. It made
the subgraph and then dropped it, and returned only the node itself.
---
 graph.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graph.go b/graph.go
index fd3453b..38120ef 100644
--- a/graph.go
+++ b/graph.go
@@ -715,7 +715,7 @@ func (g *ExprGraph) subgraph(ns Nodes, findMissing bool, opts ...Nodes) *ExprGra
 // otherwise, it treats ns as the subset of nodes to be included in the subgraph
 func (g *ExprGraph) Subgraph(ns ...*Node) *ExprGraph {
 	if len(ns) == 1 {
-		g.SubgraphRoots(ns[0])
+		return g.SubgraphRoots(ns[0])
 	}
 	return g.subgraph(ns, true)
 }
-- 
2.43.0


From 26ab49f3662829c571c9d1cbc4ce1019b07f4e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:57:09 +0000
Subject: [PATCH 071/127] fix: Remove a node from a graph completely

RemoveNode() left the node listed as a user of its operands, although it
is documented to remove the edges attached to it. It also kept remembered
positions that no longer hold, so nodes could be looked up wrongly by ID
afterwards, and forgot the other nodes that share the hash.
---
 graph.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/graph.go b/graph.go
index 38120ef..c22db06 100644
--- a/graph.go
+++ b/graph.go
@@ -213,10 +213,20 @@ func (g *ExprGraph) RemoveNode(node graph.Node) {
 	}
 
 	hash := n.Hashcode()
-
-	delete(g.byHash, hash)
+	if _, collided := g.evac[hash]; collided {
+		g.evac[hash] = g.evac[hash].remove(n)
+	} else if g.byHash[hash] == n {
+		delete(g.byHash, hash)
+	}
+	for _, child := range n.children {
+		if _, ok := g.to[child]; ok {
+			g.to[child] = g.to[child].remove(n)
+		}
+	}
 	delete(g.to, n)
-	g.evac[hash] = g.evac[hash].remove(n)
+	g.leaves = g.leaves.remove(n)
+	g.constants = g.constants.remove(n)
+	g.byID = make(map[int64]int) // the positions in all are about to change
 	g.all = g.all.remove(n)
 	g.roots = nil
 }
-- 
2.43.0


From 59247f64a43cf02ccb3152cc0bd2c8c33d86d526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:05:32 +0000
Subject: [PATCH 072/127] fix: Hash the shared constants before they are used

The constants 0, 1, 2, 3 and log 2 are shared by all graphs. Their hashes
were computed and stored when first used, so graphs that were built at the
same time in two goroutines raced on them.
---
 const.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/const.go b/const.go
index b56e5f0..51f82a9 100644
--- a/const.go
+++ b/const.go
@@ -108,6 +108,14 @@ var (
 var oneone = tensor.Shape{1, 1}
 
 func init() {
+	// These nodes are shared by all graphs. Their hashes are computed here, so that using the constants only reads them.
+	for _, n := range []*Node{
+		onef32, onef64, oneMoref32, oneMoref64, zerof32, zerof64,
+		twof64, twof32, threef64, threef32, ln2f64, ln2f32,
+	} {
+		n.Hashcode()
+	}
+
 	constmap = map[string]map[tensor.Dtype]*Node{
 		"zero": {
 			Float32: zerof32,
-- 
2.43.0


From 450131025cd90eb899035214c9e651fcce792f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:05:42 +0000
Subject: [PATCH 073/127] fix: Count node groups atomically

Building graphs in two goroutines at the same time raced on the counter
that numbers the groups of nodes.
---
 internal/encoding/groups.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/encoding/groups.go b/internal/encoding/groups.go
index 5581e36..8a6d05a 100644
--- a/internal/encoding/groups.go
+++ b/internal/encoding/groups.go
@@ -1,15 +1,15 @@
 package encoding
 
-var groupIndex int
+import "sync/atomic"
+
+var groupIndex int64
 
 // NewGroup creates a new group with a generated ID
 func NewGroup(name string) Group {
-	g := Group{
-		ID:   groupIndex,
+	return Group{
+		ID:   int(atomic.AddInt64(&groupIndex, 1) - 1),
 		Name: name,
 	}
-	groupIndex++
-	return g
 }
 
 // Group represent a cluster of elements
-- 
2.43.0


From ba51a49acd6028e8a086d308f6df7a26ee1d6c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:05:52 +0000
Subject: [PATCH 074/127] fix: Give tensor constants an arity of zero

A constant takes no inputs. The dataflow machine waited forever for the
one input a tensor constant said it needs.
---
 op.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/op.go b/op.go
index 671a5ff..e89a9f5 100644
--- a/op.go
+++ b/op.go
@@ -265,7 +265,7 @@ type constantTensor struct {
 	v tensor.Tensor
 }
 
-func (c constantTensor) Arity() int                                   { return 1 }
+func (c constantTensor) Arity() int                                   { return 0 }
 func (c constantTensor) Type() hm.Type                                { return TypeOf(c.v) }
 func (c constantTensor) InferShape(...DimSizer) (tensor.Shape, error) { return c.v.Shape(), nil }
 
-- 
2.43.0


From ef1e3f312e4d1e21f6ff6da8f2e0e5f49c9c3ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:05:58 +0000
Subject: [PATCH 075/127] fix: Run operations with any number of inputs on the
 dataflow machine

Such operations have an arity of -1. Making a machine for a graph that
concatenates panicked.
---
 x/vm/node.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/x/vm/node.go b/x/vm/node.go
index 7d6f577..1372941 100644
--- a/x/vm/node.go
+++ b/x/vm/node.go
@@ -111,10 +111,15 @@ func newOp(n *gorgonia.Node, hasOutputChan bool) *node {
 		outputC = make(chan gorgonia.Value, 0)
 
 	}
+	arity := n.Op().Arity()
+	if arity < 0 {
+		// the op takes any number of inputs
+		arity = n.Graph().From(n.ID()).Len()
+	}
 	return &node{
 		id:          n.ID(),
 		op:          n.Op(),
-		inputValues: make([]gorgonia.Value, n.Op().Arity()),
+		inputValues: make([]gorgonia.Value, arity),
 		inputC:      make(chan ioValue, 0),
 		outputC:     outputC,
 	}
-- 
2.43.0


From ce3b8950647e16613995e3a1a240f7fb67cd594e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:06:08 +0000
Subject: [PATCH 076/127] fix: Do not transpose the operands of a product in
 place

The operands of a matrix product were transposed for the time of the
product. Other operations that read them at the same time on the dataflow
machine saw the wrong shape.
---
 op_math.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/op_math.go b/op_math.go
index d2ccc0a..8af2b9b 100644
--- a/op_math.go
+++ b/op_math.go
@@ -775,21 +775,15 @@ func (op linAlgBinOp) do(inputs []Value, opts ...tensor.FuncOpt) (retVal Value,
 	a, b := inputs[0].(tensor.Tensor), inputs[1].(tensor.Tensor)
 
 	if op.transA && op.āBinaryOperator != batchedMatMulOperator {
-		if err = a.T(); err != nil {
+		if a, err = transposedView(a); err != nil {
 			return nil, errors.Wrap(err, tFail)
 		}
-
-		// untranspose
-		defer a.T()
 	}
 
 	if op.transB && op.āBinaryOperator != batchedMatMulOperator {
-		if err = b.T(); err != nil {
+		if b, err = transposedView(b); err != nil {
 			return nil, errors.Wrap(err, tFail)
 		}
-
-		// untranspose
-		defer b.T()
 	}
 
 	switch op.āBinaryOperator {
@@ -819,6 +813,16 @@ func (op linAlgBinOp) do(inputs []Value, opts ...tensor.FuncOpt) (retVal Value,
 	return retVal, nil
 }
 
+// transposedView returns the transpose of t without changing t, which other ops may be reading.
+func transposedView(t tensor.Tensor) (tensor.Tensor, error) {
+	if d, ok := t.(*tensor.Dense); ok && !d.DataOrder().IsTransposed() {
+		t = d.ShallowClone()
+	} else {
+		t = t.Clone().(tensor.Tensor)
+	}
+	return t, t.T()
+}
+
 func (op linAlgBinOp) preallocBatchMatMul(incr bool, prealloc Value, inputs ...Value) (retVal Value, err error) {
 	if err = checkArity(op, len(inputs)); err != nil {
 		return
-- 
2.43.0


From 796a2fd266d71b737c5992bc7222533a19ca4889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:11:44 +0000
Subject: [PATCH 077/127] fix: keep a copy of the shape an operand is given
 back

When the operands of an unsafe element-wise operation differ in shape but
not in size, one is reshaped for the duration of the operation. The shape
to go back to was kept as the tensor's own slice, which the tensor package
recycles as soon as the tensor is reshaped. The next shape made anywhere
could overwrite it, so the operand could end up with another shape.
---
 op_math.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/op_math.go b/op_math.go
index 8af2b9b..0777b15 100644
--- a/op_math.go
+++ b/op_math.go
@@ -359,11 +359,11 @@ func (op elemBinOp) UnsafeDo(inputs ...Value) (retVal Value, err error) {
 		// temporarily reshape
 		var toReshape tensor.Tensor = b.(tensor.Tensor)
 		as := a
-		backup := b.Shape()
+		backup := b.Shape().Clone()
 		if bshp.Dims() < ashp.Dims() {
 			toReshape = a.(tensor.Tensor)
 			as = b
-			backup = a.Shape()
+			backup = a.Shape().Clone()
 		}
 		toReshape.Reshape(as.Shape().Clone()...)
 		defer toReshape.Reshape(backup...)
-- 
2.43.0


From 6b60633687afc980cf3cf9c145501f5698a72e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:18:39 +0000
Subject: [PATCH 078/127] fix: return an error from Div for operands it does
 not handle

Div reports errors, but panicked for tensors of different shapes.
---
 operations.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/operations.go b/operations.go
index 2a9823c..fb804c9 100644
--- a/operations.go
+++ b/operations.go
@@ -108,14 +108,14 @@ func OuterProd(a, b *Node) (retVal *Node, err error) {
 	return binOpNode(op, a, b)
 }
 
-// Div is a shortcut function for HadamardDiv for scalar values. For matrix/tensor values, the matrix division operation is not yet handled, and will panic.
+// Div is a shortcut function for HadamardDiv for scalar values. For matrix/tensor values, the matrix division operation is not yet handled, and will return an error.
 func Div(a, b *Node) (retVal *Node, err error) {
 	if a.IsScalar() || b.IsScalar() || a.Shape().Eq(b.Shape()) {
 		return HadamardDiv(a, b)
 	}
 
 	// otherwise, matrix division
-	panic("Unhandled")
+	return nil, errors.Errorf(nyiFail, "Div", "matrix division")
 }
 
 // Auto automatically calculates the padding for the given operations, for example:
-- 
2.43.0


From 0413f63608542267348ea0401fc3eb74402a5254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:18:39 +0000
Subject: [PATCH 079/127] fix: return an error when reducing or sizing along an
 axis that does not exist

Sum, Max, Mean, Norm and LogSumExp panicked for negative axes, SizeOf for
any axis the node does not have.
---
 op_reduction.go | 2 +-
 operations.go   | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/op_reduction.go b/op_reduction.go
index 38e0209..f099b1c 100644
--- a/op_reduction.go
+++ b/op_reduction.go
@@ -50,7 +50,7 @@ func reductionInferShape(along []int, in tensor.Shape) (tensor.Shape, error) {
 	}
 	shape := in.Clone()
 	for _, d := range along {
-		if d >= shape.Dims() {
+		if d < 0 || d >= shape.Dims() {
 			return nil, fmt.Errorf("shape error, along %d is not a valid axis for shape %v", d, in)
 		}
 		shape[d] = 0
diff --git a/operations.go b/operations.go
index fb804c9..017a207 100644
--- a/operations.go
+++ b/operations.go
@@ -412,13 +412,17 @@ func ReduceMul(nodes Nodes, opts ...NodeConsOpt) (retVal *Node, err error) {
 
 // SizeOf returns the size of a value along an axis
 func SizeOf(axis int, x *Node) (retVal *Node, err error) {
+	if axis < 0 || (x.Dims() > 0 && axis >= x.Dims()) {
+		return nil, errors.Errorf("Cannot get the size along axis %d of a node of shape %v", axis, x.Shape())
+	}
+
 	op := sizeOp{
 		axis: axis,
 		d:    x.Dims(),
 	}
 
 	// if the shape is known
-	if x.shape != nil {
+	if x.Dims() > 0 {
 		op.val = x.shape[axis]
 	}
 
-- 
2.43.0


From 8a74e1cbcfd4eb02bf8886b02d98cc331fd72d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:18:39 +0000
Subject: [PATCH 080/127] fix: return an error when transposing with a negative
 axis

Tensors of three and more dimensions panicked, and matrices were
transposed as if the axes had been right.
---
 operations.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/operations.go b/operations.go
index 017a207..1acc792 100644
--- a/operations.go
+++ b/operations.go
@@ -479,6 +479,11 @@ func Transpose(n *Node, axes ...int) (retVal *Node, err error) {
 		retVal = n
 		return
 	}
+	for _, axis := range axes {
+		if axis < 0 || axis >= dims {
+			return nil, errors.Errorf("Cannot transpose n with shape %v. Axis %d does not exist", n.shape, axis)
+		}
+	}
 	op := transposeOp{
 		pattern: axes,
 		d:       len(axes),
-- 
2.43.0


From 3cea800e59199ce70414a2938df20512e13f15c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:18:39 +0000
Subject: [PATCH 081/127] fix: refuse to join or split along axes that do not
 exist

Concat accepted a negative axis and crashed when it was run. Unconcat
panicked for the axis after the last one and for zero parts.
---
 operations.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/operations.go b/operations.go
index 1acc792..f51d1b8 100644
--- a/operations.go
+++ b/operations.go
@@ -513,7 +513,7 @@ func Concat(axis int, ns ...*Node) (retVal *Node, err error) {
 		return
 	}
 
-	if axis >= d {
+	if axis < 0 || axis >= d {
 		err = errors.Errorf("Invalid axis. Nodes have %d dimensions. Axis is %d", d, axis)
 		return
 	}
@@ -526,11 +526,11 @@ func Concat(axis int, ns ...*Node) (retVal *Node, err error) {
 // TODO: port this back to Gorgonia and use Gorgonia's sli instead
 func Unconcat(a *Node, along int, n int) (Nodes, error) {
 	aShape := a.Shape()
-	if along < 0 || along > aShape.Dims() {
+	if along < 0 || along >= aShape.Dims() {
 		return nil, errors.Errorf("Unable to Unconcat a of shape %v along axis %d", aShape, along)
 	}
 
-	if aShape[along]%n != 0 {
+	if n <= 0 || aShape[along]%n != 0 {
 		return nil, errors.Errorf("Axis %d of %v cannot be nicely split into %d parts", along, aShape, n)
 	}
 
-- 
2.43.0


From 9f855c82698b1d018921c281321173096bca4ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:18:39 +0000
Subject: [PATCH 082/127] fix: return an error for coordinates outside of a
 tensor

At accepted any coordinates. Negative ones crashed the program when it was
run, or picked another element.
---
 op_tensor.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/op_tensor.go b/op_tensor.go
index b1dc36d..6783cf9 100644
--- a/op_tensor.go
+++ b/op_tensor.go
@@ -34,11 +34,26 @@ func (op atOp) Type() hm.Type {
 func (op atOp) ReturnsPtr() bool                                        { return false }
 func (op atOp) OverwritesInput() int                                    { return -1 }
 func (op atOp) CallsExtern() bool                                       { return false }
-func (op atOp) InferShape(...DimSizer) (retVal tensor.Shape, err error) { return scalarShape, nil }
 func (op atOp) DiffWRT(i int) []bool                                    { return make([]bool, i) }
 func (op atOp) SymDiff(Nodes, *Node, *Node) (Nodes, error)              { return nil, nondiffErr(op) }
 func (op atOp) String() string                                          { return fmt.Sprintf("At(%v)", op.coordinates) }
 
+func (op atOp) InferShape(inputs ...DimSizer) (retVal tensor.Shape, err error) {
+	shape, ok := inputs[0].(tensor.Shape)
+	if !ok {
+		return scalarShape, nil
+	}
+	if len(op.coordinates) != shape.Dims() {
+		return nil, errors.Errorf("Coordinates %v do not fit shape %v", op.coordinates, shape)
+	}
+	for i, c := range op.coordinates {
+		if c < 0 || c >= shape[i] {
+			return nil, errors.Errorf("Coordinates %v do not lie in shape %v", op.coordinates, shape)
+		}
+	}
+	return scalarShape, nil
+}
+
 func (op atOp) Do(inputs ...Value) (retVal Value, err error) {
 	if err = checkArity(op, len(inputs)); err != nil {
 		return
-- 
2.43.0


From b690ee71fbe2e308ac7b39ca636a095002c44141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:18:39 +0000
Subject: [PATCH 083/127] fix: return an error when selecting by a negative
 index

ByIndices panicked for an axis that does not exist. A negative index
crashed the program when it was run.
---
 op_by_indices.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/op_by_indices.go b/op_by_indices.go
index 79a838f..6b132a5 100644
--- a/op_by_indices.go
+++ b/op_by_indices.go
@@ -52,6 +52,10 @@ func (op *byIndicesOp) InferShape(inputs ...DimSizer) (tensor.Shape, error) {
 		return nil, errors.Errorf("Expected indices to be a vector-like. Got %v instead", i)
 	}
 
+	if op.axis >= s.Dims() {
+		return nil, errors.Errorf("Cannot select along axis %d of shape %v", op.axis, s)
+	}
+
 	s[op.axis] = i.TotalSize()
 
 	return s, nil
@@ -92,6 +96,16 @@ func (op *byIndicesOp) Do(inputs ...Value) (Value, error) {
 		return nil, fmt.Errorf("Can't check ByIndicesOp input: %w", err)
 	}
 
+	data, ok := indices.Data().([]int)
+	if !ok {
+		return nil, errors.Errorf("Expected indices to be a vector-like. Got %v instead", indices.Shape())
+	}
+	for _, i := range data {
+		if i < 0 {
+			return nil, errors.Errorf("Cannot select by index %d", i)
+		}
+	}
+
 	return tensor.ByIndices(inputTensor, indices, op.axis)
 }
 
-- 
2.43.0


From 6c5851445f266d590b312d7f82cb12ac19ce5882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:18:39 +0000
Subject: [PATCH 084/127] fix: return an error when upsampling an input without
 four dimensions

It panicked instead.
---
 op_upsample.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/op_upsample.go b/op_upsample.go
index 750d78b..7402e87 100644
--- a/op_upsample.go
+++ b/op_upsample.go
@@ -37,6 +37,9 @@ func Upsample2D(x *Node, scale int) (*Node, error) {
 		return nil, errors.Errorf("Upsample scale %v does not make sense", scale)
 	}
 	xShape := x.Shape()
+	if xShape.Dims() != 4 {
+		return nil, errors.Errorf("Upsample2D expects an input of 4 dimensions. Got shape %v instead", xShape)
+	}
 	op := newUpsampleOp(xShape, scale-1)
 	retVal, err := ApplyOp(op, x)
 	return retVal, err
-- 
2.43.0


From c597f8489768b9b50d90062dba9e7e1109f368cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:19:06 +0000
Subject: [PATCH 085/127] fix: return an error for a convolution kernel that
 does not fit the image

Conv2d and Im2Col accepted it and crashed the program when it was run.
---
 op_nn.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/op_nn.go b/op_nn.go
index 47ca9c4..c97a2ef 100644
--- a/op_nn.go
+++ b/op_nn.go
@@ -199,7 +199,10 @@ func (op im2colOp) InferShape(shapes ...DimSizer) (retVal tensor.Shape, err erro
 	}
 
 	if s, ok := shapes[0].(tensor.Shape); ok {
-		return op.calcShape(s), nil
+		if retVal = op.calcShape(s); retVal[1] <= 0 || retVal[2] <= 0 {
+			return nil, errors.Errorf("the kernel of %v does not fit into the image of shape %v", op, s)
+		}
+		return retVal, nil
 	}
 	return nil, errors.Errorf("expected tensor.Shape. got %T instead", shapes[0])
 }
-- 
2.43.0


From d40817b64eaa82dc3d1c53f6299a5d9cba6e7a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:19:06 +0000
Subject: [PATCH 086/127] fix: return an error for inputs that cannot be
 normalised

BatchNorm panicked for vectors. GroupNorm accepted numbers of groups and
channels that do not fit the input and left elements out.
---
 nn.go            | 3 +++
 op_group_norm.go | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/nn.go b/nn.go
index ee25fcb..45668c6 100644
--- a/nn.go
+++ b/nn.go
@@ -389,6 +389,9 @@ func BatchNorm(x, scale, bias *Node, momentum, epsilon float64) (retVal, γ, β
 		return nil, nil, nil, nil, err
 	}
 
+	if x.Dims() != 2 && x.Dims() != 4 {
+		return nil, nil, nil, nil, errors.Errorf("BatchNorm expects an input of 2 or 4 dimensions. Got shape %v instead", x.Shape())
+	}
 	channels := x.Shape()[1]
 
 	mean := tensor.New(tensor.Of(dt), tensor.WithShape(channels))
diff --git a/op_group_norm.go b/op_group_norm.go
index 0a3c95c..2c64ec2 100644
--- a/op_group_norm.go
+++ b/op_group_norm.go
@@ -19,6 +19,12 @@ const (
 
 func GroupNorm(x, scale, bias *Node, numGroups, numChannels int, epsilon float64) (*Node, error) {
 	xShape := x.Shape()
+	if xShape.Dims() < 2 || xShape[1] != numChannels {
+		return nil, fmt.Errorf("GroupNorm expects an input with %d channels. Got shape %v instead", numChannels, xShape)
+	}
+	if numGroups <= 0 || numChannels%numGroups != 0 {
+		return nil, fmt.Errorf("Cannot split %d channels into %d groups", numChannels, numGroups)
+	}
 
 	mean := tensor.New(
 		tensor.Of(x.Dtype()),
-- 
2.43.0


From 4ed2b82ac92137cfd57d3435cf2b903b0276bb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:19:06 +0000
Subject: [PATCH 087/127] fix: return an error when contracting along a
 negative axis

Tensordot panicked instead.
---
 operations.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/operations.go b/operations.go
index f51d1b8..40d4424 100644
--- a/operations.go
+++ b/operations.go
@@ -632,12 +632,18 @@ func Tensordot(aAxes []int, bAxes []int, a, b *Node) (retVal *Node, err error) {
 	bShape := b.Shape()
 
 	for _, aAxis := range aAxes {
+		if aAxis < 0 {
+			return nil, errors.New("Cannot contract along a negative axis")
+		}
 		if aAxis >= len(aShape) {
 			return nil, errors.New("Supplied higher higher axes number to contract along than Tensor's actual number of axes")
 		}
 	}
 
 	for _, bAxis := range bAxes {
+		if bAxis < 0 {
+			return nil, errors.New("Cannot contract along a negative axis")
+		}
 		if bAxis >= len(bShape) {
 			return nil, errors.New("Supplied higher higher axes number to contract along than Tensor's actual number of axes")
 		}
-- 
2.43.0


From a9a7c6188b5df7cf22f41be1ad5a69c2ac1b6fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:19:06 +0000
Subject: [PATCH 088/127] fix: return an error for a softmax along an axis that
 does not exist

The axis was taken modulo the number of dimensions.
---
 op_softmax.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/op_softmax.go b/op_softmax.go
index 582ec3d..92dac44 100644
--- a/op_softmax.go
+++ b/op_softmax.go
@@ -56,7 +56,11 @@ func (op *softmaxOp) Hashcode() uint32 { return simpleHash(op) }
 func (op *softmaxOp) String() string { return fmt.Sprintf("Softmax{%d, %v}()", op.axis, op.isLog) }
 
 func (op *softmaxOp) InferShape(inputs ...DimSizer) (tensor.Shape, error) {
-	return inputs[0].(tensor.Shape), nil
+	s := inputs[0].(tensor.Shape)
+	if s.Dims() > 0 && (op.axis < -1 || op.axis >= s.Dims()) {
+		return nil, errors.Errorf("axis %d is out of range for an input of shape %v", op.axis, s)
+	}
+	return s, nil
 }
 
 func (op *softmaxOp) Type() hm.Type {
-- 
2.43.0


From ac2c2e53d67140a691dbd74b0a3f197ec33d1adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:19:06 +0000
Subject: [PATCH 089/127] fix: slice one element from an axis when the end lies
 beyond it

Whether a slice drops its axis was decided from the end as given, while the
shape is calculated from the end within the axis, so that Slice panicked.
It also panicked for a slice without elements at the start of an axis.
---
 operations.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/operations.go b/operations.go
index 40d4424..5b804ec 100644
--- a/operations.go
+++ b/operations.go
@@ -439,6 +439,20 @@ func Slice(n *Node, slices ...tensor.Slice) (retVal *Node, err error) {
 		return nil, errors.Errorf("Cannot slice %v. Shape: %v. Slices: %d", n, n.shape, len(slices))
 	}
 
+	// like in the tensor package, an end beyond the axis means the end of the axis
+	slices = append([]tensor.Slice(nil), slices...)
+	for i, s := range slices {
+		if s == nil {
+			continue
+		}
+		if s.Start() >= s.End() {
+			return nil, errors.Errorf("Cannot slice %v. Slice %d has no elements", n, i)
+		}
+		if size := n.shape[i]; s.Start() < size && s.End() > size {
+			slices[i] = S(s.Start(), size, s.Step())
+		}
+	}
+
 	retVal = n
 	var dimsChanged int
 	for i, s := range slices {
-- 
2.43.0


From e2daba6d4a8899a0ba216b5288c2023ab9b7eed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:20:14 +0000
Subject: [PATCH 090/127] fix: return an error when reducing along an axis
 twice

Depending on the shape it panicked, crashed when it was run, or reduced
along other axes.
---
 op_reduction.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/op_reduction.go b/op_reduction.go
index f099b1c..9b861d4 100644
--- a/op_reduction.go
+++ b/op_reduction.go
@@ -48,6 +48,9 @@ func reductionInferShape(along []int, in tensor.Shape) (tensor.Shape, error) {
 	if len(along) == 0 {
 		return tensor.ScalarShape(), nil
 	}
+	if containsDuplicate(along) {
+		return nil, fmt.Errorf("shape error, along %v has an axis more than once", along)
+	}
 	shape := in.Clone()
 	for _, d := range along {
 		if d < 0 || d >= shape.Dims() {
-- 
2.43.0


From bdee25dd2f7ea110c371ba24664ce0be98752264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:34:22 +0000
Subject: [PATCH 091/127] fix: draw derivation lines only between nodes of the
 drawn graph

Drawing a subgraph that holds a derivative but not the node it is the
derivative of gave the text of an error in place of a picture. Nodes
whose hashes collide were also left without their lines.
---
 graph.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/graph.go b/graph.go
index c22db06..e2deff6 100644
--- a/graph.go
+++ b/graph.go
@@ -423,15 +423,11 @@ func (g *ExprGraph) ToDot() string {
 			"weight":     "999",
 		}
 
-		for _, n := range g.byHash {
-			if n == nil {
-				// collision found... what to do?
-				continue
-			}
+		for _, n := range g.all {
 			if n.derivOf != nil {
 				id := fmt.Sprintf("Node_%p", n)
 				for _, derivOf := range n.derivOf {
-					if _, ok := g.to[derivOf]; !ok {
+					if !g.all.Contains(derivOf) {
 						continue
 					}
 					ofID := fmt.Sprintf("Node_%p", derivOf)
-- 
2.43.0


From 2fb3e6415354b58506bd1ef1e547f9597cb9c16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:34:49 +0000
Subject: [PATCH 092/127] fix: escape bars, backslashes and line ends in the
 labels of marshalled graphs

A bar in the name of a node split its field of the record in two, and a
backslash took the character after it away, or the end of the label. A
line end, as in the name of every constant matrix, got the quotes of the
label quoted, so that the label was no record any more.
---
 encoding/dot/node.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/encoding/dot/node.go b/encoding/dot/node.go
index ae92261..e8cbf32 100644
--- a/encoding/dot/node.go
+++ b/encoding/dot/node.go
@@ -31,6 +31,9 @@ func (n *node) Attributes() []encoding.Attribute {
 		`>`, "&gt;",
 		`{`, "&#123;",
 		`}`, "&#125;",
+		`|`, "&#124;",
+		`\`, `\\`,
+		"\n", `\n`,
 		`"`, "&#34;", // "&#34;" is shorter than "&quot;".
 		`const`, "const|", // "&#34;" is shorter than "&quot;".
 	)
-- 
2.43.0


From c07404893cfc0a6fd6c4df22f871a4866cf61381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:38:41 +0000
Subject: [PATCH 093/127] fix: take differences and intersections of node lists
 without touching the operands

Both lists were sorted in place, and the elements that follow the first
list in its array were overwritten. Lists with repetitions gave wrong
results.
---
 collections.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/collections.go b/collections.go
index 5f053cf..3eb4f57 100644
--- a/collections.go
+++ b/collections.go
@@ -114,21 +114,26 @@ func (ns Nodes) Format(s fmt.State, c rune) {
 	}
 }
 
+// pivoted returns a new slice with the elements of ns, sorted and without repetitions, followed by those of other.
+// pivot is where the elements of other start.
+func (ns Nodes) pivoted(other Nodes) (retVal Nodes, pivot int) {
+	retVal = append(make(Nodes, 0, len(ns)+len(other)), ns...).Set()
+	pivot = len(retVal)
+	retVal = append(retVal, append(make(Nodes, 0, len(other)), other...).Set()...)
+	return retVal, pivot
+}
+
 // Difference is ns - other. Bear in mind it is NOT commutative
 func (ns Nodes) Difference(other Nodes) Nodes {
-	sort.Sort(ns)
-	sort.Sort(other)
-	s := append(ns, other...)
-	count := set.Diff(s, len(ns))
+	s, pivot := ns.pivoted(other)
+	count := set.Diff(s, pivot)
 	return s[:count]
 }
 
 // Intersect performs an intersection with other Nodes
 func (ns Nodes) Intersect(other Nodes) Nodes {
-	sort.Sort(ns)
-	sort.Sort(other)
-	s := append(ns, other...)
-	count := set.Inter(s, len(ns))
+	s, pivot := ns.pivoted(other)
+	count := set.Inter(s, pivot)
 	return s[:count]
 }
 
-- 
2.43.0


From a49fca179e902abb52de7e117654f7d478035530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:38:41 +0000
Subject: [PATCH 094/127] fix: do not call node lists equal when only one is
 contained in the other

---
 collections.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/collections.go b/collections.go
index 3eb4f57..9932e41 100644
--- a/collections.go
+++ b/collections.go
@@ -165,8 +165,8 @@ func (ns Nodes) Equals(other Nodes) bool {
 		return false
 	}
 
-	for _, n := range ns {
-		if !other.Contains(n) {
+	for i, n := range ns {
+		if !other.Contains(n) || !ns.Contains(other[i]) {
 			return false
 		}
 	}
-- 
2.43.0


From 757b1935683b33c69663154f2447062676e9f5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:39:36 +0000
Subject: [PATCH 095/127] fix: leave the list of nodes a subgraph is made from
 as it is

The slice passed by the caller was sorted and deduplicated in place.
---
 graph.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graph.go b/graph.go
index e2deff6..d7da71a 100644
--- a/graph.go
+++ b/graph.go
@@ -639,7 +639,7 @@ func (g *ExprGraph) To(nid int64) graph.Nodes {
 
 // subgraph is basically a subset of nodes. This is useful for compiling sub sections of the graph
 func (g *ExprGraph) subgraph(ns Nodes, findMissing bool, opts ...Nodes) *ExprGraph {
-	// ns = ns.Set()
+	ns = append(Nodes(nil), ns...) // the nodes may be in a slice that the caller still uses
 
 	var roots Nodes
 	// add missing stuff first
-- 
2.43.0


From 331db0c124d076d6a5b8d43e15bdf8eca02e5c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:43:40 +0000
Subject: [PATCH 096/127] fix: copy the lists of axes, coordinates, shapes and
 nodes given to an operation

Operations kept the slices of their caller. Writing to such a slice
after the call changed what the operation did in a run or in its
gradient. Reshape wrote the inferred size into the shape of the caller,
and nodes in a list were replaced by the ones the graph already had.
---
 op.go         |  1 +
 operations.go | 12 +++++++-----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/op.go b/op.go
index e89a9f5..173b230 100644
--- a/op.go
+++ b/op.go
@@ -169,6 +169,7 @@ type CUDAADOp interface {
 func ApplyOp(op Op, children ...*Node) (retVal *Node, err error) {
 	var g *ExprGraph
 
+	children = append(Nodes(nil), children...) // the node keeps its children, and the caller the slice
 	for _, child := range children {
 		if child.g != nil {
 			g = child.g
diff --git a/operations.go b/operations.go
index 5b804ec..4ee1c70 100644
--- a/operations.go
+++ b/operations.go
@@ -209,7 +209,7 @@ func At(a *Node, coords ...int) (retVal *Node, err error) {
 
 	dims := a.Dims()
 	op := atOp{
-		coordinates: coords,
+		coordinates: append([]int(nil), coords...),
 		d:           dims,
 	}
 
@@ -228,7 +228,7 @@ func Max(a *Node, along ...int) (retVal *Node, err error) {
 		along = intRange(0, dims)
 	}
 
-	op := newMaxOp(along, dims)
+	op := newMaxOp(append(axes(nil), along...), dims)
 
 	return ApplyOp(op, a)
 }
@@ -277,7 +277,7 @@ func Sum(a *Node, along ...int) (retVal *Node, err error) {
 		along = intRange(0, dims)
 	}
 
-	op := newSumOp(along, a.shape, dims)
+	op := newSumOp(append(axes(nil), along...), a.shape, dims)
 	return ApplyOp(op, a)
 }
 
@@ -499,7 +499,7 @@ func Transpose(n *Node, axes ...int) (retVal *Node, err error) {
 		}
 	}
 	op := transposeOp{
-		pattern: axes,
+		pattern: append([]int(nil), axes...),
 		d:       len(axes),
 	}
 
@@ -575,6 +575,8 @@ func Unconcat(a *Node, along int, n int) (Nodes, error) {
 
 // Reshape reshapes a node and returns a new node with the new shape
 func Reshape(n *Node, to tensor.Shape) (retVal *Node, err error) {
+	to = to.Clone()
+
 	// check shape
 	var negs int
 	var infer int
@@ -670,7 +672,7 @@ func Tensordot(aAxes []int, bAxes []int, a, b *Node) (retVal *Node, err error) {
 	}
 
 	// Otherwise, apply contraction
-	op := makeTensordotOp(a, b, aAxes, bAxes)
+	op := makeTensordotOp(a, b, append([]int(nil), aAxes...), append([]int(nil), bAxes...))
 
 	return ApplyOp(op, a, b)
 }
-- 
2.43.0


From 297d46a59589e751a9efe021479e86ec8611cf07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:52:56 +0000
Subject: [PATCH 097/127] fix: CTCLoss of an empty target is the negative log
 likelihood, not the log likelihood

---
 op_ctc_loss.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/op_ctc_loss.go b/op_ctc_loss.go
index 1f1dd35..5d403d8 100644
--- a/op_ctc_loss.go
+++ b/op_ctc_loss.go
@@ -259,7 +259,7 @@ func (op *ctcLossOp) f64s(logProbsT, prealloc, targetsT, inputLengthsT, targetLe
 		}
 
 		if targetLength == 0 {
-			negLogLikelihoodA[b] = logAlphaSection[(inputLength-1)*targetWidth]
+			negLogLikelihoodA[b] = -logAlphaSection[(inputLength-1)*targetWidth]
 		} else {
 			l1 := logAlphaSection[(inputLength-1)*targetWidth+targetLength*2]
 			l2 := logAlphaSection[(inputLength-1)*targetWidth+targetLength*2-1]
@@ -435,7 +435,7 @@ func (op *ctcLossOp) f32s(logProbsT, prealloc, targetsT, inputLengthsT, targetLe
 		}
 
 		if targetLength == 0 {
-			negLogLikelihoodA[b] = logAlphaSection[(inputLength-1)*targetWidth]
+			negLogLikelihoodA[b] = -logAlphaSection[(inputLength-1)*targetWidth]
 		} else {
 			l1 := logAlphaSection[(inputLength-1)*targetWidth+targetLength*2]
 			l2 := logAlphaSection[(inputLength-1)*targetWidth+targetLength*2-1]
-- 
2.43.0


From 5762ca894535e5fce3129a4afdf6481067412ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:53:52 +0000
Subject: [PATCH 098/127] fix: CTCLoss gives a scalar value, so that the loss
 can be used in further arithmetic

---
 op_ctc_loss.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/op_ctc_loss.go b/op_ctc_loss.go
index 5d403d8..9cb0acb 100644
--- a/op_ctc_loss.go
+++ b/op_ctc_loss.go
@@ -486,7 +486,13 @@ func (op *ctcLossOp) Do(inputs ...Value) (retVal Value, err error) {
 		tensor.WithShape(),
 	)
 
-	return op.UsePreallocDo(prealloc, inputs...)
+	if _, err = op.UsePreallocDo(prealloc, inputs...); err != nil {
+		return nil, err
+	}
+
+	retVal, _ = anyToScalar(prealloc.ScalarValue())
+
+	return retVal, nil
 }
 
 // SymDiff applies the diff op. Implementation for SDOp interface.
-- 
2.43.0


From dfeda51865eb0f80d2d12103c488779d4dbb5c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:54:49 +0000
Subject: [PATCH 099/127] fix: the gradient of CTCLoss is zero beyond the
 length of a sequence

---
 op_ctc_loss.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/op_ctc_loss.go b/op_ctc_loss.go
index 9cb0acb..e0d82ed 100644
--- a/op_ctc_loss.go
+++ b/op_ctc_loss.go
@@ -744,6 +744,12 @@ func (op *ctcLossDiffOp) f64s(logProbsT, targetsT, inputLengthsT, targetLengthsT
 				}
 			}
 		}
+
+		for t := inputLength; t < inputSize; t++ {
+			for c := 0; c < numLabels; c++ {
+				gradSlice.SetAt(0.0, t, c)
+			}
+		}
 	})
 
 	gradT.UT()
@@ -913,6 +919,12 @@ func (op *ctcLossDiffOp) f32s(logProbsT, targetsT, inputLengthsT, targetLengthsT
 				}
 			}
 		}
+
+		for t := inputLength; t < inputSize; t++ {
+			for c := 0; c < numLabels; c++ {
+				gradSlice.SetAt(float32(0), t, c)
+			}
+		}
 	})
 
 	gradT.UT()
-- 
2.43.0


From 6d631b808bcaf057f7817fbf914aac8d4e277a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:57:22 +0000
Subject: [PATCH 100/127] fix: evaluating a YOLOv3 layer does not overwrite its
 input

---
 op_yolo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/op_yolo.go b/op_yolo.go
index f286dc9..325d1f9 100644
--- a/op_yolo.go
+++ b/op_yolo.go
@@ -167,7 +167,7 @@ func (op *yoloOp) Do(inputs ...Value) (retVal Value, err error) {
 			}
 			currentAnchors = append(currentAnchors, op.anchors[i*2], op.anchors[i*2+1])
 		}
-		return op.evaluateYOLO_f32(inputTensor, batchSize, stride, gridSize, bboxAttributes, len(op.masks), currentAnchors)
+		return op.evaluateYOLO_f32(inputTensor.Clone().(tensor.Tensor), batchSize, stride, gridSize, bboxAttributes, len(op.masks), currentAnchors)
 	}
 
 	// Training mode
-- 
2.43.0


From f6cec16097316f0aac46e6f0820a465e0db5727f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:57:41 +0000
Subject: [PATCH 101/127] fix: a YOLOv3 layer evaluates batches of more than
 one image

---
 op_yolo.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/op_yolo.go b/op_yolo.go
index 325d1f9..4978cbb 100644
--- a/op_yolo.go
+++ b/op_yolo.go
@@ -356,11 +356,11 @@ func (op *yoloOp) evaluateYOLO_f32(input tensor.Tensor, batchSize, stride, grid,
 	}
 
 	anchors := []float32{}
-	for i := 0; i < grid*grid; i++ {
+	for i := 0; i < batchSize*grid*grid; i++ {
 		anchors = append(anchors, currentAnchors...)
 	}
 
-	anchorsTensor := tensor.New(tensor.Of(inputNumericType), tensor.WithShape(1, grid*grid*numAnchors, 2))
+	anchorsTensor := tensor.New(tensor.Of(inputNumericType), tensor.WithShape(batchSize, grid*grid*numAnchors, 2))
 	for i := range anchors {
 		anchorsTensor.Set(i, anchors[i])
 	}
-- 
2.43.0


From 8ecf45f9ff08e31fe193c0c91d906af8f17ee4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:58:07 +0000
Subject: [PATCH 102/127] fix: a YOLOv3 layer uses the anchors its masks select

---
 op_yolo.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/op_yolo.go b/op_yolo.go
index 4978cbb..af015c7 100644
--- a/op_yolo.go
+++ b/op_yolo.go
@@ -165,7 +165,7 @@ func (op *yoloOp) Do(inputs ...Value) (retVal Value, err error) {
 			if op.masks[i] >= numAnchors {
 				return nil, fmt.Errorf("Incorrect mask %v for anchors in YOLO layer", op.masks)
 			}
-			currentAnchors = append(currentAnchors, op.anchors[i*2], op.anchors[i*2+1])
+			currentAnchors = append(currentAnchors, op.anchors[op.masks[i]*2], op.anchors[op.masks[i]*2+1])
 		}
 		return op.evaluateYOLO_f32(inputTensor.Clone().(tensor.Tensor), batchSize, stride, gridSize, bboxAttributes, len(op.masks), currentAnchors)
 	}
@@ -194,7 +194,7 @@ func (op *yoloOp) Do(inputs ...Value) (retVal Value, err error) {
 		if op.masks[i] >= (len(op.anchors) / 2) {
 			return nil, fmt.Errorf("Incorrect mask %v for anchors in YOLO layer [Training mode]", op.masks)
 		}
-		currentAnchors = append(currentAnchors, op.anchors[i*2], op.anchors[i*2+1])
+		currentAnchors = append(currentAnchors, op.anchors[op.masks[i]*2], op.anchors[op.masks[i]*2+1])
 	}
 
 	targets := []float32{}
-- 
2.43.0


From c84728d8e483279fa47111e6ce088beec34925b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:03:58 +0000
Subject: [PATCH 103/127] fix: a function of no inputs can be compiled

---
 compile.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/compile.go b/compile.go
index cf693c3..cc2ec7f 100644
--- a/compile.go
+++ b/compile.go
@@ -46,7 +46,7 @@ func Compile(g *ExprGraph) (prog *program, locMap map[*Node]register, err error)
 	logCompileState(g.name, g, df)
 
 	inputs := g.Inputs()
-	cg := newCodeGenerator(inputs, sortedNodes, df)
+	cg := newCodeGenerator(g, inputs, sortedNodes, df)
 	prog, locMap = cg.gen()
 	prog.cpulocs = ra.cpucount
 	prog.gpulocs = ra.gpucount
@@ -92,7 +92,7 @@ func CompileFunction(g *ExprGraph, inputs, outputs Nodes) (prog *program, locMap
 	ra := newRegalloc(df)
 	ra.alloc(sortedNodes)
 
-	cg := newCodeGenerator(inputs, sortedNodes, df)
+	cg := newCodeGenerator(subgraph, inputs, sortedNodes, df)
 	prog, locMap = cg.gen()
 	prog.cpulocs = ra.cpucount
 	prog.gpulocs = ra.gpucount
@@ -125,7 +125,7 @@ type codegenerator struct {
 	instructions   fragment
 }
 
-func newCodeGenerator(inputs, sorted Nodes, df *dataflow) *codegenerator {
+func newCodeGenerator(g *ExprGraph, inputs, sorted Nodes, df *dataflow) *codegenerator {
 	return &codegenerator{
 		locMap:     make(map[*Node]register),
 		lastWrites: make(map[register]*Node),
@@ -136,7 +136,7 @@ func newCodeGenerator(inputs, sorted Nodes, df *dataflow) *codegenerator {
 		instrMap:   make(map[*Node]fragment),
 		lastReads:  make(map[register]int),
 
-		g:      inputs[0].g,
+		g:      g,
 		inputs: inputs,
 		sorted: sorted,
 		df:     df,
-- 
2.43.0


From 1f7bf4f30b89974b85cceefea723d7e78dfebbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:34:18 +0000
Subject: [PATCH 104/127] fix: each call of Grad differentiates its own cost

Nodes that an earlier call had differentiated kept the gradients of the
earlier cost. Their gradient with respect to a second cost was silently
that of the first, and inputs behind them had none at all.
---
 differentiation.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/differentiation.go b/differentiation.go
index 3dd4655..7057c79 100644
--- a/differentiation.go
+++ b/differentiation.go
@@ -216,12 +216,6 @@ func Backpropagate(outputs, gradOutputs, wrt Nodes) (retVal Nodes, err error) {
 			continue
 		}
 
-		if node.deriv != nil {
-			symdiffLogf("skipping %x - previously differentiated", node.ID())
-			nodeGradMap[node] = append(nodeGradMap[node], node.deriv)
-			continue
-		}
-
 		symdiffLogf("Working on %x %v", node.ID(), node)
 		enterLogScope()
 
@@ -253,13 +247,13 @@ func Backpropagate(outputs, gradOutputs, wrt Nodes) (retVal Nodes, err error) {
 			}
 			symdiffLogf("reduced to... %x", n.ID())
 			// node.derives = append(node.derives, n)
-			n.derivOf = append(n.derivOf, node)
+			n.derivOf = n.derivOf.Add(node)
 			node.deriv = n
 			nodeGradMap[node] = Nodes{n}
 			// }
 		} else if len(nodeGradMap[node]) == 1 {
 			deriv := nodeGradMap[node][0]
-			deriv.derivOf = append(deriv.derivOf, node)
+			deriv.derivOf = deriv.derivOf.Add(node)
 			node.deriv = deriv
 		}
 
-- 
2.43.0


From e15027b30ce332ff01d9d278eea4f6c678ca8bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:34:39 +0000
Subject: [PATCH 105/127] fix: Grad ignores nodes that the cost does not use

Nodes of the graph that were unrelated to the cost, such as the gradients
of another cost, were analysed too. Grad panicked when one of them was the
gradient of a softmax.
---
 differentiation.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/differentiation.go b/differentiation.go
index 7057c79..9a96fe9 100644
--- a/differentiation.go
+++ b/differentiation.go
@@ -161,6 +161,20 @@ func Backpropagate(outputs, gradOutputs, wrt Nodes) (retVal Nodes, err error) {
 	if sortedNodes, err = Sort(g); err != nil {
 		return nil, errors.Wrap(err, sortFail)
 	}
+
+	// only the nodes that make up the outputs matter. The rest of the graph may well not be differentiable
+	needed := outputs.mapSet()
+	used := make(Nodes, 0, len(sortedNodes))
+	for _, n := range sortedNodes {
+		if !needed.Contains(n) {
+			continue
+		}
+		used = append(used, n)
+		for _, child := range n.children {
+			needed.Add(child)
+		}
+	}
+	sortedNodes = used
 	symdiffLogf("sorted nodes: %v", sortedNodes)
 	symdiffLogf("sorted nodes: %d", sortedNodes)
 
-- 
2.43.0


From 25aad564fab43e317570e6f24257e4f86b938c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:35:02 +0000
Subject: [PATCH 106/127] fix: the gradient of a slice can be differentiated

Only the shape of the sliced node enters its gradient. It was
differentiated as if the value did, and the slice itself was left out.
---
 op_tensor.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/op_tensor.go b/op_tensor.go
index 6783cf9..b3b8c6b 100644
--- a/op_tensor.go
+++ b/op_tensor.go
@@ -718,7 +718,8 @@ func (op sliceIncrOp) DiffWRT(i int) []bool {
 		panic(err)
 	}
 
-	return []bool{true, false}
+	// only the shape of the first input is used, not its value
+	return []bool{false, true}
 }
 
 func (op sliceIncrOp) SymDiff(inputs Nodes, outputNode, gradNode *Node) (retVal Nodes, err error) {
@@ -726,7 +727,7 @@ func (op sliceIncrOp) SymDiff(inputs Nodes, outputNode, gradNode *Node) (retVal
 	if slicedRes, err = ApplyOp(op.sliceOp, gradNode); err != nil {
 		return nil, errors.Wrap(err, operationError)
 	}
-	retVal = Nodes{gradNode, slicedRes}
+	retVal = Nodes{nil, slicedRes}
 
 	return
 }
-- 
2.43.0


From 373a3c81ba766f5b46f38f45ccd8215abf1bef2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:35:21 +0000
Subject: [PATCH 107/127] fix: reshaping to a scalar yields a scalar

The value was a tensor without dimensions, which operations on scalars
refuse.
---
 op_tensor.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/op_tensor.go b/op_tensor.go
index b3b8c6b..202ebdd 100644
--- a/op_tensor.go
+++ b/op_tensor.go
@@ -356,6 +356,9 @@ func (op repeatOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) (err
 		}
 
 	}
+	if t, ok := d.(tensor.Tensor); ok && t.IsScalar() {
+		d, _ = anyToScalar(t.ScalarValue())
+	}
 
 	add := newEBOByType(addOpType, TypeOf(xdv.d), TypeOf(d))
 	if d, err = add.UnsafeDo(xdv.d, d); err != nil {
@@ -1204,7 +1207,7 @@ func (op reshapeOp) Do(vals ...Value) (Value, error) {
 		if err := val.(tensor.Tensor).Reshape(op.to...); err != nil {
 			return nil, err
 		}
-		return val, nil
+		return op.valueOf(val), nil
 	case Scalar:
 		// the tensor shares its memory with the scalar, hence the clone
 		if val, err = CloneValue(vals[0]); err != nil {
@@ -1214,12 +1217,20 @@ func (op reshapeOp) Do(vals ...Value) (Value, error) {
 		if err := v0.(tensor.Tensor).Reshape(op.to...); err != nil {
 			return nil, err
 		}
-		return v0, nil
+		return op.valueOf(v0), nil
 	default:
 		return nil, errors.Errorf(nyiTypeFail, "reshape.Do", vals[0])
 	}
 }
 
+// valueOf returns the reshaped value. The value of a scalar node is a Scalar, not a tensor
+func (op reshapeOp) valueOf(reshaped Value) Value {
+	if t, ok := reshaped.(tensor.Tensor); ok && op.to.IsScalar() {
+		reshaped, _ = anyToScalar(t.ScalarValue())
+	}
+	return reshaped
+}
+
 func (op reshapeOp) ReturnsPtr() bool     { return true }
 func (op reshapeOp) CallsExtern() bool    { return false }
 func (op reshapeOp) OverwritesInput() int { return 0 }
@@ -1241,15 +1252,16 @@ func (op reshapeOp) UnsafeDo(vals ...Value) (Value, error) {
 	switch vals[0].(type) {
 	case tensor.Tensor:
 		val = vals[0]
-		err = val.(tensor.Tensor).Reshape(op.to...)
-
-		return val, err
+		if err = val.(tensor.Tensor).Reshape(op.to...); err != nil {
+			return nil, err
+		}
+		return op.valueOf(val), nil
 	case Scalar:
 		v0 := ScalarAsTensor(vals[0], op.to.Dims(), nil)
 		if err := v0.(tensor.Tensor).Reshape(op.to...); err != nil {
 			return nil, err
 		}
-		return v0, nil
+		return op.valueOf(v0), nil
 	default:
 		return nil, errors.Errorf(nyiTypeFail, "reshape.Do", vals[0])
 	}
-- 
2.43.0


From 126ee6ee5820d6152342422a4a4871bf1a9dafda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:46:11 +0000
Subject: [PATCH 108/127] fix: a slice whose step leaves a single element can
 be built

The axis was dropped from the shape but not from the type, so building
the node panicked. Such a slice is the index of its first element.
---
 operations.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/operations.go b/operations.go
index 4ee1c70..d4224a9 100644
--- a/operations.go
+++ b/operations.go
@@ -449,7 +449,12 @@ func Slice(n *Node, slices ...tensor.Slice) (retVal *Node, err error) {
 			return nil, errors.Errorf("Cannot slice %v. Slice %d has no elements", n, i)
 		}
 		if size := n.shape[i]; s.Start() < size && s.End() > size {
-			slices[i] = S(s.Start(), size, s.Step())
+			s = S(s.Start(), size, s.Step())
+			slices[i] = s
+		}
+		// a step beyond the end selects the first element only
+		if s.Step() > 1 && s.Start()+s.Step() >= s.End() {
+			slices[i] = S(s.Start())
 		}
 	}
 
-- 
2.43.0


From 0b07bfb1a3ab1f441dd9eebc7ce4188bc83ae673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:08:20 +0000
Subject: [PATCH 109/127] fix: repeating a single integer element repeats it

Broadcasting an integer operand of one element filled the result with
zeroes: only floats were copied into the preallocated value.
---
 op_tensor.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/op_tensor.go b/op_tensor.go
index 202ebdd..7cb6bab 100644
--- a/op_tensor.go
+++ b/op_tensor.go
@@ -482,6 +482,16 @@ func (op repeatOp) UsePreallocDo(prealloc Value, inputs ...Value) (retVal Value,
 				for i := range ptd {
 					ptd[i] = dt[0]
 				}
+			default:
+				elem := data
+				if !iv.Shape().IsScalar() {
+					if elem, err = iv.At(make([]int, iv.Dims())...); err != nil {
+						return nil, err
+					}
+				}
+				if err = pt.Memset(elem); err != nil {
+					return nil, err
+				}
 			}
 			return pt, nil
 		}
-- 
2.43.0


From 07924854ad92bc12f819f64967c691199fda732e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:47:52 +0000
Subject: [PATCH 110/127] fix: Grad of a cost that is not a float returns an
 error

---
 gorgonia.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gorgonia.go b/gorgonia.go
index 534ed93..af349ab 100644
--- a/gorgonia.go
+++ b/gorgonia.go
@@ -224,7 +224,7 @@ func Grad(cost *Node, WRTs ...*Node) (retVal Nodes, err error) {
 	var dt tensor.Dtype
 	var ok bool
 	if dt, ok = cost.t.(tensor.Dtype); !ok {
-		err = errors.Wrap(err, "Expected a scalar dtype for cost")
+		err = errors.Errorf("Expected a scalar dtype for cost. Got %v instead", cost.t)
 		return
 	}
 
@@ -235,7 +235,7 @@ func Grad(cost *Node, WRTs ...*Node) (retVal Nodes, err error) {
 	case Float32:
 		gradOut = onef32
 	default:
-		return nil, errors.Wrapf(err, "%s not yet implemented for %v of %T", dt.String(), "Grad()'s gradOut", gradOut)
+		return nil, errors.Errorf("Grad() not yet implemented for a cost of %v", dt)
 	}
 
 	gradOut = cost.g.AddNode(gradOut)
-- 
2.43.0


From 8f0398c77801b97c4c1a54e35e383c8e98a018f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:57:58 +0000
Subject: [PATCH 111/127] fix: an output given twice to Backpropagate keeps
 both of its gradients

---
 differentiation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/differentiation.go b/differentiation.go
index 9a96fe9..6d3c7f8 100644
--- a/differentiation.go
+++ b/differentiation.go
@@ -210,7 +210,7 @@ func Backpropagate(outputs, gradOutputs, wrt Nodes) (retVal Nodes, err error) {
 	nodeGradMap := make(map[*Node]Nodes)
 	for i, n := range outputs {
 		symdiffLogf("Adding outputs for %x", n.ID())
-		nodeGradMap[n] = Nodes{gradOutputs[i]}
+		nodeGradMap[n] = append(nodeGradMap[n], gradOutputs[i])
 	}
 
 	// "active" nodes are the ones that are differentially influenced by the inputs
-- 
2.43.0


From 764175b3dab769d4ba804402192ff5f6233981ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:57:58 +0000
Subject: [PATCH 112/127] fix: Backpropagate without outputs or with missing
 gradients returns an error

---
 differentiation.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/differentiation.go b/differentiation.go
index 6d3c7f8..1295b7c 100644
--- a/differentiation.go
+++ b/differentiation.go
@@ -139,6 +139,13 @@ func Backpropagate(outputs, gradOutputs, wrt Nodes) (retVal Nodes, err error) {
 	enterLogScope()
 	defer leaveLogScope()
 
+	if len(outputs) == 0 {
+		return nil, errors.New("Expected at least one output to backpropagate from")
+	}
+	if len(gradOutputs) != len(outputs) {
+		return nil, errors.Errorf("Expected a gradient for each of the %d outputs. Got %d instead", len(outputs), len(gradOutputs))
+	}
+
 	g := outputs[0].g
 
 	// this entire section about removing foreveralone nodes need a rethink
-- 
2.43.0


From 3a92f03c91dce59e0f7574bac8d444d9ddde2037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:57:58 +0000
Subject: [PATCH 113/127] fix: element-wise functions of integers return an
 error

---
 operations.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/operations.go b/operations.go
index d4224a9..6ee30a7 100644
--- a/operations.go
+++ b/operations.go
@@ -135,6 +135,9 @@ func unaryOpNode(op Op, a *Node) (retVal *Node, err error) {
 	stabLogf("Creating node for %v, a: %p %v", op, a, a)
 	enterLogScope()
 	defer leaveLogScope()
+	if euo, ok := op.(elemUnaryOp); ok && euo.ʘUnaryOperator == nil {
+		return nil, errors.Errorf(nyiFail, "Unary operation", a.t)
+	}
 	if stabilization {
 
 		// do optimization/stabilization
-- 
2.43.0


From 4848104922c309c0262aeaf0c0bd5c24afca192c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:57:58 +0000
Subject: [PATCH 114/127] fix: dropout of integers returns an error

---
 op_dropout.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/op_dropout.go b/op_dropout.go
index 32a93af..275bc5b 100644
--- a/op_dropout.go
+++ b/op_dropout.go
@@ -68,6 +68,9 @@ func (op *dropoutOp) checkInput(inputs ...Value) (tensor.Tensor, error) {
 	if in, ok = inputs[0].(tensor.Tensor); !ok {
 		return nil, errors.Errorf("Expected input to be a tensor")
 	}
+	if dt := in.Dtype(); dt != Float64 && dt != Float32 {
+		return nil, errors.Errorf(nyiFail, "Dropout", dt)
+	}
 
 	return in, nil
 }
-- 
2.43.0


From 7b50749e5719b3713bb7f49166ac433e0ef75c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:57:58 +0000
Subject: [PATCH 115/127] fix: pooling integers returns an error instead of
 zeros

---
 op_avg_pool.go | 3 +++
 op_nn.go       | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/op_avg_pool.go b/op_avg_pool.go
index f7e4d8f..90d1b2b 100644
--- a/op_avg_pool.go
+++ b/op_avg_pool.go
@@ -242,6 +242,9 @@ func (op *avgPoolOp) checkInput(inputs ...Value) (tensor.Tensor, error) {
 	if in.Shape().Dims() != 4 {
 		return nil, errors.Errorf("Expected input to have 4 dimensions")
 	}
+	if dt := in.Dtype(); dt != Float64 && dt != Float32 {
+		return nil, errors.Errorf(nyiFail, "AvgPool", dt)
+	}
 	return in, nil
 }
 
diff --git a/op_nn.go b/op_nn.go
index c97a2ef..524732a 100644
--- a/op_nn.go
+++ b/op_nn.go
@@ -826,6 +826,9 @@ func (op *maxPoolOp) checkInput(inputs ...Value) (tensor.Tensor, error) {
 	if in.Shape().Dims() != 4 {
 		return nil, errors.Errorf("Expected input to have 4 dimensions")
 	}
+	if dt := in.Dtype(); dt != Float64 && dt != Float32 {
+		return nil, errors.Errorf(nyiFail, "MaxPool", dt)
+	}
 	return in, nil
 }
 
-- 
2.43.0


From dc5e2c51909835b587dbd75099f0ef71086ad888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:57:58 +0000
Subject: [PATCH 116/127] fix: im2col of other than four dimensions returns an
 error

---
 op_nn.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/op_nn.go b/op_nn.go
index 524732a..8863c01 100644
--- a/op_nn.go
+++ b/op_nn.go
@@ -199,6 +199,9 @@ func (op im2colOp) InferShape(shapes ...DimSizer) (retVal tensor.Shape, err erro
 	}
 
 	if s, ok := shapes[0].(tensor.Shape); ok {
+		if s.Dims() != 4 {
+			return nil, errors.Errorf("expected an image of 4 dimensions. Got shape %v instead", s)
+		}
 		if retVal = op.calcShape(s); retVal[1] <= 0 || retVal[2] <= 0 {
 			return nil, errors.Errorf("the kernel of %v does not fit into the image of shape %v", op, s)
 		}
-- 
2.43.0


From 736a5d4cdd3f663d1566906e73756959cb93e808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:57:58 +0000
Subject: [PATCH 117/127] fix: batched matrix multiplication of vectors returns
 an error

---
 op_math.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/op_math.go b/op_math.go
index 0777b15..64674a7 100644
--- a/op_math.go
+++ b/op_math.go
@@ -621,6 +621,9 @@ func (op linAlgBinOp) InferShape(inputs ...DimSizer) (retVal tensor.Shape, err e
 		// outerprods only handles vec x vec for now
 		retVal = tensor.Shape{x.TotalSize(), y.TotalSize()}
 	case batchedMatMulOperator:
+		if len(x) < 2 || len(y) < 2 {
+			return nil, errors.Errorf("Expected %v and %v to have at least two dimensions", x, y)
+		}
 		x = x.Clone()
 		y = y.Clone()
 		innerX := x[len(x)-2:]
-- 
2.43.0


From 2b3923672b09a8e26a490b75d176e3b7bebe6e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:57:58 +0000
Subject: [PATCH 118/127] fix: batch normalisation of integers returns an error

---
 nn.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nn.go b/nn.go
index 45668c6..a250766 100644
--- a/nn.go
+++ b/nn.go
@@ -389,6 +389,10 @@ func BatchNorm(x, scale, bias *Node, momentum, epsilon float64) (retVal, γ, β
 		return nil, nil, nil, nil, err
 	}
 
+	if dt != Float64 && dt != Float32 {
+		return nil, nil, nil, nil, errors.Errorf(nyiFail, "BatchNorm", dt)
+	}
+
 	if x.Dims() != 2 && x.Dims() != 4 {
 		return nil, nil, nil, nil, errors.Errorf("BatchNorm expects an input of 2 or 4 dimensions. Got shape %v instead", x.Shape())
 	}
-- 
2.43.0


From 64922379ad7284119cdb81af80304815bc9572bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:01:40 +0000
Subject: [PATCH 119/127] fix: letting an input be a node returns an error
 instead of doing nothing

---
 gorgonia.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/gorgonia.go b/gorgonia.go
index af349ab..06b4863 100644
--- a/gorgonia.go
+++ b/gorgonia.go
@@ -280,10 +280,7 @@ func UnsafeLet(n *Node, be interface{}) error {
 		}
 		n.bind(v)
 	case *Node:
-		// Case of letOp
-		if _, ok := n.op.(letOp); ok {
-
-		}
+		return errors.Errorf("Unable to let %v be the node %v. Expected a value", n, v)
 	default:
 		var val Value
 		var err error
-- 
2.43.0


From b2719810c9ad0e20a3e8e11508557fe6605087f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:01:40 +0000
Subject: [PATCH 120/127] fix: setting a node to one of another shape or type
 returns an error

---
 vm_tape.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vm_tape.go b/vm_tape.go
index 4f3aa0d..716e0eb 100644
--- a/vm_tape.go
+++ b/vm_tape.go
@@ -161,6 +161,12 @@ func (m *tapeMachine) Set(a, b *Node) (err error) {
 	if !m.p.g.Has(b.ID()) {
 		return errors.Errorf("Node %v does not exist in this graph", b)
 	}
+	if !a.Shape().Eq(b.Shape()) {
+		return errors.Errorf("Node's expected shape is %v. Got %v instead", a.Shape(), b.Shape())
+	}
+	if !a.Dtype().Eq(b.Dtype()) {
+		return errors.Errorf("Unable to set %v to %v. Expected Dtype of %v. Got %v instead", a, b, a.Dtype(), b.Dtype())
+	}
 
 	if b.Value() != nil {
 		return a.bind(b.Value())
-- 
2.43.0


From 3b815904812d69ac46a262d4d6971f3b1f181d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:04:32 +0000
Subject: [PATCH 121/127] fix: element-wise functions accept the size of an
 axis

---
 op_math.go          |  5 ++++-
 op_minmaxBetween.go | 20 ++++++++++++++++----
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/op_math.go b/op_math.go
index 64674a7..a4f43a1 100644
--- a/op_math.go
+++ b/op_math.go
@@ -446,7 +446,10 @@ func (op elemUnaryOp) InferShape(inputs ...DimSizer) (retVal tensor.Shape, err e
 		return nil, errors.Errorf(nyiFail, "inferShape", "nil shape")
 	}
 
-	return inputs[0].(tensor.Shape), nil
+	if s, ok := inputs[0].(tensor.Shape); ok {
+		return s, nil
+	}
+	return scalarShape, nil // the size of an axis is a scalar
 }
 
 // diffWRT gives info on whether or not the operation is actually differentiable wrt to its inputs
diff --git a/op_minmaxBetween.go b/op_minmaxBetween.go
index 7f87e94..6e91656 100644
--- a/op_minmaxBetween.go
+++ b/op_minmaxBetween.go
@@ -26,8 +26,14 @@ func (op minBetween) InferShape(shps ...DimSizer) (tensor.Shape, error) {
 	if err := checkArity(op, len(shps)); err != nil {
 		return nil, err
 	}
-	a := shps[0].(tensor.Shape)
-	b := shps[1].(tensor.Shape)
+	a, ok := shps[0].(tensor.Shape)
+	if !ok {
+		a = scalarShape // the size of an axis is a scalar
+	}
+	b, ok := shps[1].(tensor.Shape)
+	if !ok {
+		b = scalarShape
+	}
 	if !a.Eq(b) {
 		return nil, errors.Errorf("Expected both inputs to have the same shape. Got %v and %v instead", a, b)
 	}
@@ -95,8 +101,14 @@ func (op maxBetween) InferShape(shps ...DimSizer) (tensor.Shape, error) {
 	if err := checkArity(op, len(shps)); err != nil {
 		return nil, err
 	}
-	a := shps[0].(tensor.Shape)
-	b := shps[1].(tensor.Shape)
+	a, ok := shps[0].(tensor.Shape)
+	if !ok {
+		a = scalarShape // the size of an axis is a scalar
+	}
+	b, ok := shps[1].(tensor.Shape)
+	if !ok {
+		b = scalarShape
+	}
 	if !a.Eq(b) {
 		return nil, errors.Errorf("Expected both inputs to have the same shape. Got %v and %v instead", a, b)
 	}
-- 
2.43.0


From 6f4230a45791dcac2badcb0ba47df9d3f03ab548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:08:56 +0000
Subject: [PATCH 122/127] fix: Grad through an operation without a derivative
 returns an error

---
 node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node.go b/node.go
index 4f7a497..02c62bc 100644
--- a/node.go
+++ b/node.go
@@ -838,7 +838,7 @@ func (n *Node) diffWRT() []bool {
 	if sdop, ok := n.op.(SDOp); ok {
 		return sdop.DiffWRT(len(n.children))
 	}
-	return nil
+	return make([]bool, len(n.children))
 }
 
 // dfs but does not use channels. useful for extracting paths. used particularly in test
-- 
2.43.0


From 14718b12d240071eba30902da98a530967ab894c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:18:17 +0000
Subject: [PATCH 123/127] fix: comparing no value with a value is false in
 either order

---
 values_utils.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/values_utils.go b/values_utils.go
index abf4baa..69e51c3 100644
--- a/values_utils.go
+++ b/values_utils.go
@@ -42,8 +42,8 @@ func typeCheckTypeOf(v Value) hm.Type {
 
 // ValueEq is the equality function for values
 func ValueEq(a, b Value) bool {
-	if a == nil && b == nil {
-		return true
+	if a == nil || b == nil {
+		return a == nil && b == nil
 	}
 	switch at := a.(type) {
 	case Scalar:
@@ -66,8 +66,8 @@ func ValueEq(a, b Value) bool {
 
 // ValueClose checks whether two values are close to one another. It's predominantly used as an alternative equality test for floats
 func ValueClose(a, b Value) bool {
-	if a == nil && b == nil {
-		return true
+	if a == nil || b == nil {
+		return a == nil && b == nil
 	}
 
 	switch at := a.(type) {
-- 
2.43.0


From 936a4b9b25c471ee90bb705ac0f0263fa08c0b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:53:36 +0000
Subject: [PATCH 124/127] fix: a node cannot be declared with a shape its value
 or gradient does not have

---
 node.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/node.go b/node.go
index 02c62bc..07b63bf 100644
--- a/node.go
+++ b/node.go
@@ -155,6 +155,10 @@ func WithValue(any interface{}) NodeConsOpt {
 
 		}
 
+		if n.shape != nil && !n.shape.Eq(v.Shape()) && !(scalarEquiv(n.shape) && scalarEquiv(v.Shape())) {
+			panic(fmt.Sprintf("Node has shape %v. Asking to construct a Node with a value of shape %v", n.shape, v.Shape()))
+		}
+
 		n.bind(v)
 		if n.shape == nil {
 			n.shape = v.Shape()
@@ -178,6 +182,9 @@ func WithGrad(any interface{}) NodeConsOpt {
 		if !TypeOf(n.boundTo).Eq(t) {
 			panic("Different types ")
 		}
+		if !n.boundTo.Shape().Eq(v.Shape()) {
+			panic(fmt.Sprintf("Node has a value of shape %v. Asking to construct a Node with a gradient of shape %v", n.boundTo.Shape(), v.Shape()))
+		}
 
 		if dv, ok := n.boundTo.(*dualValue); !ok {
 			if err := n.bind(&dualValue{Value: n.boundTo, d: v}); err != nil {
@@ -224,6 +231,9 @@ func WithShape(shp ...int) NodeConsOpt {
 		if !acceptVec && !sameDims && !acceptScalar {
 			panic(fmt.Sprintf("Node %v, has %d dimensions(Shape: %v). Input shape is %v, which has %d dimensions", n, n.Dims(), n.shape, s, s.Dims()))
 		}
+		if n.boundTo != nil && !s.Eq(n.boundTo.Shape()) && !(scalarEquiv(s) && scalarEquiv(n.boundTo.Shape())) {
+			panic(fmt.Sprintf("Node has a value of shape %v. Asking to construct a Node with shape %v", n.boundTo.Shape(), s))
+		}
 		n.shape = s
 	}
 	return f
-- 
2.43.0


From 821969a11669773a4064c170a73e2f91495aeaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:11:54 +0000
Subject: [PATCH 125/127] fix: an integer scalar combines with an integer
 tensor

Arithmetic and comparisons between an integer scalar and an integer tensor
were accepted when the graph was built but failed when it was run.
---
 operatorPointwise_binary.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/operatorPointwise_binary.go b/operatorPointwise_binary.go
index ef8459b..c3e71c4 100644
--- a/operatorPointwise_binary.go
+++ b/operatorPointwise_binary.go
@@ -384,6 +384,14 @@ func (o tBinOp) do(vals []Value, opts ...tensor.FuncOpt) (retVal Value, err erro
 			b = other.any()
 		case *F32:
 			b = other.any()
+		case *I:
+			b = other.any()
+		case *I32:
+			b = other.any()
+		case *I64:
+			b = other.any()
+		case *U8:
+			b = other.any()
 		case tensor.Tensor:
 			b = tensor.Materialize(other)
 		default:
@@ -401,6 +409,14 @@ func (o tBinOp) do(vals []Value, opts ...tensor.FuncOpt) (retVal Value, err erro
 			a = other.any()
 		case *F32:
 			a = other.any()
+		case *I:
+			a = other.any()
+		case *I32:
+			a = other.any()
+		case *I64:
+			a = other.any()
+		case *U8:
+			a = other.any()
 		case tensor.Tensor:
 			a = tensor.Materialize(other)
 		default:
-- 
2.43.0


From 8b2a03f37f0c33ebef5c0a8ae28e93057bbed6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:33:59 +0000
Subject: [PATCH 126/127] fix: Im2Col and Conv2d refuse a window larger than
 the padded image for every stride

With a stride of two or more, a window slightly too large was accepted,
because the integer division rounds the negative rest to zero.
---
 op_nn.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/op_nn.go b/op_nn.go
index 8863c01..e213076 100644
--- a/op_nn.go
+++ b/op_nn.go
@@ -202,10 +202,10 @@ func (op im2colOp) InferShape(shapes ...DimSizer) (retVal tensor.Shape, err erro
 		if s.Dims() != 4 {
 			return nil, errors.Errorf("expected an image of 4 dimensions. Got shape %v instead", s)
 		}
-		if retVal = op.calcShape(s); retVal[1] <= 0 || retVal[2] <= 0 {
+		if s[2]+2*op.padH <= op.dilationH*(op.h-1) || s[3]+2*op.padW <= op.dilationW*(op.w-1) {
 			return nil, errors.Errorf("the kernel of %v does not fit into the image of shape %v", op, s)
 		}
-		return retVal, nil
+		return op.calcShape(s), nil
 	}
 	return nil, errors.Errorf("expected tensor.Shape. got %T instead", shapes[0])
 }
-- 
2.43.0


From 9b646b4342109ee2d56aa1362fcd6d949add0e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:34:47 +0000
Subject: [PATCH 127/127] fix: pooling refuses windows, padding and strides of
 no size or the wrong number of axes

A padding or stride of one element, and a window of zero or fewer elements,
panicked or gave a value.
---
 nn.go          | 10 ++++++++++
 op_avg_pool.go | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/nn.go b/nn.go
index a250766..950923d 100644
--- a/nn.go
+++ b/nn.go
@@ -332,6 +332,16 @@ func MaxPool2D(x *Node, kernel tensor.Shape, pad, stride []int) (*Node, error) {
 	}
 
 	// checks
+	if kernel[0] <= 0 || kernel[1] <= 0 {
+		return nil, errors.Errorf("Cannot use a kernel of less than or equal 0: %v", kernel)
+	}
+	if len(pad) != 2 && len(pad) != 4 {
+		return nil, errors.Errorf("Expected pad to have 2 or 4 elements. Got %v instead", pad)
+	}
+	if len(stride) != 2 {
+		return nil, errors.Errorf("Expected stride to have 2 elements. Got %v instead", stride)
+	}
+
 	for _, s := range stride {
 		if s <= 0 {
 			return nil, errors.Errorf("Cannot use strides of less than or equal 0: %v", stride)
diff --git a/op_avg_pool.go b/op_avg_pool.go
index 90d1b2b..f0609ec 100644
--- a/op_avg_pool.go
+++ b/op_avg_pool.go
@@ -30,6 +30,16 @@ func AveragePool2D(x *Node, kernel tensor.Shape, pad, stride []int) (*Node, erro
 	}
 
 	// checks
+	if kernel[0] <= 0 || kernel[1] <= 0 {
+		return nil, errors.Errorf("Cannot use a kernel of less than or equal 0: %v", kernel)
+	}
+	if len(pad) != 2 && len(pad) != 4 {
+		return nil, errors.Errorf("Expected pad to have 2 or 4 elements. Got %v instead", pad)
+	}
+	if len(stride) != 2 {
+		return nil, errors.Errorf("Expected stride to have 2 elements. Got %v instead", stride)
+	}
+
 	for _, s := range stride {
 		if s <= 0 {
 			return nil, errors.Errorf("Cannot use strides of less than or equal 0: %v", stride)
-- 
2.43.0

