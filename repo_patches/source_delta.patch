From cf5869dd655139bed0c7e684cfb371970780932a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:15 +0000
Subject: [PATCH 01/20] fix: back-propagate each edge once, with the complete
 gradient of its source

---
 tensor/internal/gradtrack/back_propagation.go | 81 +++++++++++++------
 1 file changed, 57 insertions(+), 24 deletions(-)

diff --git a/tensor/internal/gradtrack/back_propagation.go b/tensor/internal/gradtrack/back_propagation.go
index b95b706..4f6571d 100644
--- a/tensor/internal/gradtrack/back_propagation.go
+++ b/tensor/internal/gradtrack/back_propagation.go
@@ -3,17 +3,33 @@ package gradtrack
 import "github.com/sahandsafizadeh/qeep/tensor/internal/tensor"
 
 func BackPropagate(t tensor.Tensor) (err error) {
-	return backward(startEdge(t))
-}
+	root := gradContextOf(t)
+	if !root.tracked {
+		return nil
+	}
+
+	order := backwardOrder(root)
+	for _, gctx := range order {
+		gctx.bpdirty = true
+	}
+
+	// neutral tensor; same shape, all ones
+	err = accumulateGrad(root, toOnes(t))
+	if err != nil {
+		return
+	}
 
-func startEdge(t tensor.Tensor) (edge *backwardEdge) {
-	return &backwardEdge{
-		target: t,
-		gradFn: func() (tensor.Tensor, error) {
-			// neutral tensor; same shape, all ones
-			return toOnes(t), nil
-		},
+	// the gradient of each context is complete once its turn comes
+	for _, gctx := range order {
+		for _, edge := range gctx.backEdges {
+			err = backward(edge)
+			if err != nil {
+				return
+			}
+		}
 	}
+
+	return nil
 }
 
 func backward(edge *backwardEdge) (err error) {
@@ -21,8 +37,6 @@ func backward(edge *backwardEdge) (err error) {
 
 	if !gctx.tracked {
 		return nil
-	} else {
-		gctx.bpdirty = true
 	}
 
 	grad, err := edge.gradFn()
@@ -30,19 +44,7 @@ func backward(edge *backwardEdge) (err error) {
 		return
 	}
 
-	err = accumulateGrad(gctx, grad)
-	if err != nil {
-		return
-	}
-
-	for _, e := range gctx.backEdges {
-		err = backward(e)
-		if err != nil {
-			return
-		}
-	}
-
-	return nil
+	return accumulateGrad(gctx, grad)
 }
 
 func accumulateGrad(gctx *GradContext, grad tensor.Tensor) (err error) {
@@ -57,3 +59,34 @@ func accumulateGrad(gctx *GradContext, grad tensor.Tensor) (err error) {
 
 	return nil
 }
+
+/* ----- helpers ----- */
+
+// tracked contexts reachable from root, each once and before all of its targets
+func backwardOrder(root *GradContext) (order []*GradContext) {
+	var postOrder []*GradContext
+	visited := make(map[*GradContext]bool)
+
+	var visit func(*GradContext)
+	visit = func(gctx *GradContext) {
+		if !gctx.tracked || visited[gctx] {
+			return
+		}
+
+		visited[gctx] = true
+		for _, edge := range gctx.backEdges {
+			visit(gradContextOf(edge.target))
+		}
+
+		postOrder = append(postOrder, gctx)
+	}
+
+	visit(root)
+
+	order = make([]*GradContext, len(postOrder))
+	for i, gctx := range postOrder {
+		order[len(order)-1-i] = gctx
+	}
+
+	return order
+}
-- 
2.43.0


From 7fc38921b226cdcd2c2bf0324c2cd4f2af3b4e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:33 +0000
Subject: [PATCH 02/20] fix: sum the gradient of an implicitly broadcast
 operand over its copies

---
 .../internal/cputensor/cputensor_helpers.go   | 28 ++++++----
 tensor/internal/gradtrack/gradients.go        | 55 +++++++++++++++++++
 2 files changed, 73 insertions(+), 10 deletions(-)

diff --git a/tensor/internal/cputensor/cputensor_helpers.go b/tensor/internal/cputensor/cputensor_helpers.go
index 6f1dc8a..dd90a9f 100644
--- a/tensor/internal/cputensor/cputensor_helpers.go
+++ b/tensor/internal/cputensor/cputensor_helpers.go
@@ -3,6 +3,7 @@ package cputensor
 import (
 	"fmt"
 
+	"github.com/sahandsafizadeh/qeep/tensor/internal/gradtrack"
 	"github.com/sahandsafizadeh/qeep/tensor/internal/tensor"
 )
 
@@ -36,19 +37,16 @@ func assertCPUTensors(ts []tensor.Tensor) (cts []*CPUTensor, err error) {
 func broadcastForBinaryOp(ct1, ct2 *CPUTensor) (bct1, bct2 *CPUTensor, err error) {
 	shape := targetBroadcastDims(ct1.dims, ct2.dims)
 
-	t1, err := ct1.Broadcast(shape)
+	bct1, err = ct1.expand(shape)
 	if err != nil {
 		return
 	}
 
-	t2, err := ct2.Broadcast(shape)
+	bct2, err = ct2.expand(shape)
 	if err != nil {
 		return
 	}
 
-	bct1 = t1.(*CPUTensor)
-	bct2 = t2.(*CPUTensor)
-
 	return bct1, bct2, nil
 }
 
@@ -62,7 +60,7 @@ func broadcastForMatMul(ct1, ct2 *CPUTensor) (bct1, bct2 *CPUTensor, err error)
 	shape[lt-1] = ct1.dims[l1-1]
 	shape[lt-2] = ct1.dims[l1-2]
 
-	t1, err := ct1.Broadcast(shape)
+	bct1, err = ct1.expand(shape)
 	if err != nil {
 		return
 	}
@@ -70,17 +68,27 @@ func broadcastForMatMul(ct1, ct2 *CPUTensor) (bct1, bct2 *CPUTensor, err error)
 	shape[lt-1] = ct2.dims[l2-1]
 	shape[lt-2] = ct2.dims[l2-2]
 
-	t2, err := ct2.Broadcast(shape)
+	bct2, err = ct2.expand(shape)
 	if err != nil {
 		return
 	}
 
-	bct1 = t1.(*CPUTensor)
-	bct2 = t2.(*CPUTensor)
-
 	return bct1, bct2, nil
 }
 
+// broadcast of an operand inside another operation: its gradient is the sum over the copies
+func (t *CPUTensor) expand(shape []int) (o *CPUTensor, err error) {
+	r, err := t.Broadcast(shape)
+	if err != nil {
+		return
+	}
+
+	o = r.(*CPUTensor)
+	o.gctx = gradtrack.Expand(o, t)
+
+	return o, nil
+}
+
 func targetBroadcastDims(dims1, dims2 []int) (dims []int) {
 	var small, large []int
 	if len(dims1) > len(dims2) {
diff --git a/tensor/internal/gradtrack/gradients.go b/tensor/internal/gradtrack/gradients.go
index bde4f97..7ac0870 100644
--- a/tensor/internal/gradtrack/gradients.go
+++ b/tensor/internal/gradtrack/gradients.go
@@ -246,6 +246,61 @@ func Broadcast(y tensor.Tensor, x tensor.Tensor) (gctx *GradContext) {
 	}
 }
 
+func Expand(y tensor.Tensor, x tensor.Tensor) (gctx *GradContext) {
+	if anyIsBPDirty(x) {
+		return NewDirtyGradContext()
+	}
+	if nonIsTracked(x) {
+		return NewGradContext(false)
+	}
+
+	return &GradContext{
+		tracked: true,
+		backEdges: []*backwardEdge{
+			{
+				target: x,
+				gradFn: func() (o tensor.Tensor, err error) {
+					gy := y.Gradient()
+					srcDims := x.Shape()
+					dstDims := y.Shape()
+					lds := len(srcDims)
+					ldd := len(dstDims)
+
+					i := 0
+					for ldd-i > lds {
+						gy, err = gy.SumAlong(0)
+						if err != nil {
+							return
+						}
+
+						i++
+					}
+
+					j := 0
+					for i < ldd {
+						if srcDims[j] != dstDims[i] {
+							gy, err = gy.SumAlong(j)
+							if err != nil {
+								return
+							}
+
+							gy, err = gy.UnSqueeze(j)
+							if err != nil {
+								return
+							}
+						}
+
+						j++
+						i++
+					}
+
+					return gy, nil
+				},
+			},
+		},
+	}
+}
+
 func SumAlong(y tensor.Tensor, x tensor.Tensor, dim int) (gctx *GradContext) {
 	if anyIsBPDirty(x) {
 		return NewDirtyGradContext()
-- 
2.43.0


From be1cca5eaca31556a69d515c1392f0bc823e1a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:59 +0000
Subject: [PATCH 03/20] fix: align the upstream gradient of Dot with the
 contracted dimension

---
 tensor/internal/gradtrack/gradients.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/tensor/internal/gradtrack/gradients.go b/tensor/internal/gradtrack/gradients.go
index 7ac0870..4fe52b0 100644
--- a/tensor/internal/gradtrack/gradients.go
+++ b/tensor/internal/gradtrack/gradients.go
@@ -1041,14 +1041,24 @@ func Dot(y tensor.Tensor, a tensor.Tensor, b tensor.Tensor) (gctx *GradContext)
 		backEdges: []*backwardEdge{
 			{
 				target: a,
-				gradFn: func() (tensor.Tensor, error) {
-					return y.Gradient().Mul(b)
+				gradFn: func() (o tensor.Tensor, err error) {
+					gy, err := y.Gradient().UnSqueeze(len(y.Shape()))
+					if err != nil {
+						return
+					}
+
+					return gy.Mul(b)
 				},
 			},
 			{
 				target: b,
-				gradFn: func() (tensor.Tensor, error) {
-					return y.Gradient().Mul(a)
+				gradFn: func() (o tensor.Tensor, err error) {
+					gy, err := y.Gradient().UnSqueeze(len(y.Shape()))
+					if err != nil {
+						return
+					}
+
+					return gy.Mul(a)
 				},
 			},
 		},
-- 
2.43.0


From 68299a6994ee1befdfd63d28c9eaf0fcdae999b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:01 +0000
Subject: [PATCH 04/20] fix: give the source of Patch a gradient of its own
 shape when ranges are omitted

---
 tensor/internal/gradtrack/gradient_helpers.go | 15 +++++++++++++++
 tensor/internal/gradtrack/gradients.go        |  2 +-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/tensor/internal/gradtrack/gradient_helpers.go b/tensor/internal/gradtrack/gradient_helpers.go
index 17d3460..6993e60 100644
--- a/tensor/internal/gradtrack/gradient_helpers.go
+++ b/tensor/internal/gradtrack/gradient_helpers.go
@@ -23,3 +23,18 @@ func reducerBroadcasted(y tensor.Tensor, x tensor.Tensor, dim int) (o tensor.Ten
 
 	return o, nil
 }
+
+// index of the block a patch source was written to; omitted and whole-dimension ranges start at zero
+func patchedBlock(index []tensor.Range, p tensor.Tensor) (block []tensor.Range) {
+	shape := p.Shape()
+	block = make([]tensor.Range, len(shape))
+	copy(block, index)
+
+	for i, idx := range block {
+		if idx.From == 0 && idx.To == 0 {
+			block[i].To = shape[i]
+		}
+	}
+
+	return block
+}
diff --git a/tensor/internal/gradtrack/gradients.go b/tensor/internal/gradtrack/gradients.go
index 4fe52b0..f90c38a 100644
--- a/tensor/internal/gradtrack/gradients.go
+++ b/tensor/internal/gradtrack/gradients.go
@@ -79,7 +79,7 @@ func Patch(y tensor.Tensor, x tensor.Tensor, p tensor.Tensor, index []tensor.Ran
 			{
 				target: p,
 				gradFn: func() (tensor.Tensor, error) {
-					return y.Gradient().Slice(index)
+					return y.Gradient().Slice(patchedBlock(index, p))
 				},
 			},
 		},
-- 
2.43.0


From d97995061a0c9b49d3435d50e5f8353a4358ef04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:02 +0000
Subject: [PATCH 05/20] fix: keep a copy of the Slice and Patch index for the
 backward pass

---
 tensor/internal/gradtrack/gradient_helpers.go | 8 ++++++++
 tensor/internal/gradtrack/gradients.go        | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/tensor/internal/gradtrack/gradient_helpers.go b/tensor/internal/gradtrack/gradient_helpers.go
index 6993e60..a89a4d2 100644
--- a/tensor/internal/gradtrack/gradient_helpers.go
+++ b/tensor/internal/gradtrack/gradient_helpers.go
@@ -38,3 +38,11 @@ func patchedBlock(index []tensor.Range, p tensor.Tensor) (block []tensor.Range)
 
 	return block
 }
+
+// index kept for the backward pass; independent of the slice owned by the caller
+func copiedIndex(index []tensor.Range) (cidx []tensor.Range) {
+	cidx = make([]tensor.Range, len(index))
+	copy(cidx, index)
+
+	return cidx
+}
diff --git a/tensor/internal/gradtrack/gradients.go b/tensor/internal/gradtrack/gradients.go
index f90c38a..5f4acc4 100644
--- a/tensor/internal/gradtrack/gradients.go
+++ b/tensor/internal/gradtrack/gradients.go
@@ -46,6 +46,8 @@ func Slice(y tensor.Tensor, x tensor.Tensor, index []tensor.Range) (gctx *GradCo
 		return NewGradContext(false)
 	}
 
+	index = copiedIndex(index)
+
 	return &GradContext{
 		tracked: true,
 		backEdges: []*backwardEdge{
@@ -67,6 +69,8 @@ func Patch(y tensor.Tensor, x tensor.Tensor, p tensor.Tensor, index []tensor.Ran
 		return NewGradContext(false)
 	}
 
+	index = copiedIndex(index)
+
 	return &GradContext{
 		tracked: true,
 		backEdges: []*backwardEdge{
-- 
2.43.0


From 7425d9b1e7ba976ec95d15aca0525fe4a52f5cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:03 +0000
Subject: [PATCH 06/20] fix: zero gradient of Pow with exponent zero at base
 zero

---
 tensor/internal/gradtrack/gradients.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tensor/internal/gradtrack/gradients.go b/tensor/internal/gradtrack/gradients.go
index 5f4acc4..cf00962 100644
--- a/tensor/internal/gradtrack/gradients.go
+++ b/tensor/internal/gradtrack/gradients.go
@@ -595,6 +595,10 @@ func Pow(y tensor.Tensor, x tensor.Tensor, a float64) (gctx *GradContext) {
 			{
 				target: x,
 				gradFn: func() (tensor.Tensor, error) {
+					if a == 0 {
+						return toZeros(x), nil
+					}
+
 					gy := y.Gradient()
 					gx := x.Pow(a - 1)
 					gx = gx.Scale(a)
-- 
2.43.0


From 6eeab593239533aab901fb385980a3dbc2b38efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:04 +0000
Subject: [PATCH 07/20] fix: no overflow of the squared divisor in the gradient
 of Div

---
 tensor/internal/gradtrack/gradients.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/tensor/internal/gradtrack/gradients.go b/tensor/internal/gradtrack/gradients.go
index cf00962..a31b13a 100644
--- a/tensor/internal/gradtrack/gradients.go
+++ b/tensor/internal/gradtrack/gradients.go
@@ -1021,10 +1021,7 @@ func Div(y tensor.Tensor, a tensor.Tensor, b tensor.Tensor) (gctx *GradContext)
 				gradFn: func() (o tensor.Tensor, err error) {
 					gy := y.Gradient()
 
-					n := a.Scale(-1)
-					d := b.Pow(2)
-
-					gb, err := n.Div(d)
+					gb, err := y.Scale(-1).Div(b)
 					if err != nil {
 						return
 					}
-- 
2.43.0


From dbd860fbc8111e24306fbd4d869dab706df69643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:25 +0000
Subject: [PATCH 08/20] fix: exact selection in the gradients of maxima and
 minima

---
 tensor/internal/gradtrack/gradients.go | 40 ++++++++++++++------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/tensor/internal/gradtrack/gradients.go b/tensor/internal/gradtrack/gradients.go
index a31b13a..70a797f 100644
--- a/tensor/internal/gradtrack/gradients.go
+++ b/tensor/internal/gradtrack/gradients.go
@@ -350,7 +350,7 @@ func MaxAlong(y tensor.Tensor, x tensor.Tensor, dim int) (gctx *GradContext) {
 						return
 					}
 
-					gx, err := x.Eq(yb)
+					gx, err := x.Ge(yb)
 					if err != nil {
 						return
 					}
@@ -386,7 +386,7 @@ func MinAlong(y tensor.Tensor, x tensor.Tensor, dim int) (gctx *GradContext) {
 						return
 					}
 
-					gx, err := x.Eq(yb)
+					gx, err := x.Le(yb)
 					if err != nil {
 						return
 					}
@@ -812,22 +812,23 @@ func ElMax(y tensor.Tensor, a tensor.Tensor, b tensor.Tensor) (gctx *GradContext
 				gradFn: func() (o tensor.Tensor, err error) {
 					gy := y.Gradient()
 
-					ga, err := y.Eq(a)
+					gt, err := a.Gt(b)
 					if err != nil {
 						return
 					}
 
-					eq, err := a.Eq(b)
+					ge, err := a.Ge(b)
 					if err != nil {
 						return
 					}
 
-					ga, err = ga.Sub(eq.Scale(0.5))
+					// one where selected, half at a tie
+					ga, err := gt.Add(ge)
 					if err != nil {
 						return
 					}
 
-					return gy.Mul(ga)
+					return gy.Mul(ga.Scale(0.5))
 				},
 			},
 			{
@@ -835,22 +836,23 @@ func ElMax(y tensor.Tensor, a tensor.Tensor, b tensor.Tensor) (gctx *GradContext
 				gradFn: func() (o tensor.Tensor, err error) {
 					gy := y.Gradient()
 
-					gb, err := y.Eq(b)
+					gt, err := b.Gt(a)
 					if err != nil {
 						return
 					}
 
-					eq, err := b.Eq(a)
+					ge, err := b.Ge(a)
 					if err != nil {
 						return
 					}
 
-					gb, err = gb.Sub(eq.Scale(0.5))
+					// one where selected, half at a tie
+					gb, err := gt.Add(ge)
 					if err != nil {
 						return
 					}
 
-					return gy.Mul(gb)
+					return gy.Mul(gb.Scale(0.5))
 				},
 			},
 		},
@@ -873,22 +875,23 @@ func ElMin(y tensor.Tensor, a tensor.Tensor, b tensor.Tensor) (gctx *GradContext
 				gradFn: func() (o tensor.Tensor, err error) {
 					gy := y.Gradient()
 
-					ga, err := y.Eq(a)
+					lt, err := a.Lt(b)
 					if err != nil {
 						return
 					}
 
-					eq, err := a.Eq(b)
+					le, err := a.Le(b)
 					if err != nil {
 						return
 					}
 
-					ga, err = ga.Sub(eq.Scale(0.5))
+					// one where selected, half at a tie
+					ga, err := lt.Add(le)
 					if err != nil {
 						return
 					}
 
-					return gy.Mul(ga)
+					return gy.Mul(ga.Scale(0.5))
 				},
 			},
 			{
@@ -896,22 +899,23 @@ func ElMin(y tensor.Tensor, a tensor.Tensor, b tensor.Tensor) (gctx *GradContext
 				gradFn: func() (o tensor.Tensor, err error) {
 					gy := y.Gradient()
 
-					gb, err := y.Eq(b)
+					lt, err := b.Lt(a)
 					if err != nil {
 						return
 					}
 
-					eq, err := b.Eq(a)
+					le, err := b.Le(a)
 					if err != nil {
 						return
 					}
 
-					gb, err = gb.Sub(eq.Scale(0.5))
+					// one where selected, half at a tie
+					gb, err := lt.Add(le)
 					if err != nil {
 						return
 					}
 
-					return gy.Mul(gb)
+					return gy.Mul(gb.Scale(0.5))
 				},
 			},
 		},
-- 
2.43.0


From 54c93a069102a1b2e036153c45000fe8302241db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:26 +0000
Subject: [PATCH 09/20] fix: align the normaliser of Softmax with its dimension

---
 component/layers/activations/softmax.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/component/layers/activations/softmax.go b/component/layers/activations/softmax.go
index d941710..d9ab619 100644
--- a/component/layers/activations/softmax.go
+++ b/component/layers/activations/softmax.go
@@ -46,6 +46,11 @@ func (c *Softmax) forward(x tensor.Tensor) (y tensor.Tensor, err error) {
 		return
 	}
 
+	s, err = s.UnSqueeze(c.dim)
+	if err != nil {
+		return
+	}
+
 	return x.Div(s)
 }
 
-- 
2.43.0


From ec6a43fe215a7608d07768414c88f5e29c41b9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:05 +0000
Subject: [PATCH 10/20] fix: shift Softmax inputs so that extreme exponentials
 keep a finite gradient

---
 component/layers/activations/softmax.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/component/layers/activations/softmax.go b/component/layers/activations/softmax.go
index d9ab619..6f49be1 100644
--- a/component/layers/activations/softmax.go
+++ b/component/layers/activations/softmax.go
@@ -39,6 +39,24 @@ func (c *Softmax) Forward(xs ...tensor.Tensor) (y tensor.Tensor, err error) {
 }
 
 func (c *Softmax) forward(x tensor.Tensor) (y tensor.Tensor, err error) {
+	m, err := x.MaxAlong(c.dim)
+	if err != nil {
+		return
+	}
+
+	m, err = m.UnSqueeze(c.dim)
+	if err != nil {
+		return
+	}
+
+	// constant shift; keeps exponentials in range without changing the result
+	m.ResetGradContext(false)
+
+	x, err = x.Sub(m)
+	if err != nil {
+		return
+	}
+
 	x = x.Exp()
 
 	s, err := x.SumAlong(c.dim)
-- 
2.43.0


From 7a71f847661b3ef76c97b9a3aeda9542045711fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:05 +0000
Subject: [PATCH 11/20] fix: reject data whose sub-slices differ in inner
 length

---
 tensor/internal/validator/initializers.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensor/internal/validator/initializers.go b/tensor/internal/validator/initializers.go
index 89b137c..c737e22 100644
--- a/tensor/internal/validator/initializers.go
+++ b/tensor/internal/validator/initializers.go
@@ -71,7 +71,7 @@ func ValidateInputDataDimUnity(data any) (err error) {
 				return
 			}
 
-			if len(sub) != dim {
+			if len(sub) != dim || len(sub[0]) != len(v[0][0]) {
 				return dimUnityErr
 			}
 		}
@@ -88,7 +88,7 @@ func ValidateInputDataDimUnity(data any) (err error) {
 				return
 			}
 
-			if len(sub) != dim {
+			if len(sub) != dim || len(sub[0]) != len(v[0][0]) || len(sub[0][0]) != len(v[0][0][0]) {
 				return dimUnityErr
 			}
 		}
-- 
2.43.0


From 26d791226d4a0e695be7d795d75bb914bd898da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:06 +0000
Subject: [PATCH 12/20] fix: report an unset seed function of Input as an error

---
 component/layers/input.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/component/layers/input.go b/component/layers/input.go
index c85a765..76eeeb7 100644
--- a/component/layers/input.go
+++ b/component/layers/input.go
@@ -21,6 +21,11 @@ func (c *Input) Forward(xs ...tensor.Tensor) (y tensor.Tensor, err error) {
 		return
 	}
 
+	if c.SeedFunc == nil {
+		err = fmt.Errorf("Input seed function validation failed: expected 'SeedFunc' not to be nil")
+		return
+	}
+
 	return c.SeedFunc(), nil
 }
 
-- 
2.43.0


From 96f46a52305366a8a3c5a4da319e72c33b089c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:07 +0000
Subject: [PATCH 13/20] fix: report unset or mismatched weights of FC as an
 error

---
 component/layers/fc.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/component/layers/fc.go b/component/layers/fc.go
index 7c2bf74..d3a121f 100644
--- a/component/layers/fc.go
+++ b/component/layers/fc.go
@@ -77,6 +77,12 @@ func (c *FC) Forward(xs ...tensor.Tensor) (y tensor.Tensor, err error) {
 		return
 	}
 
+	err = c.validateWeights()
+	if err != nil {
+		err = fmt.Errorf("FC weight validation failed: %w", err)
+		return
+	}
+
 	return c.forward(x)
 }
 
@@ -136,6 +142,28 @@ func (c *FC) toValidInputs(xs []tensor.Tensor) (x tensor.Tensor, err error) {
 	return x, nil
 }
 
+func (c *FC) validateWeights() (err error) {
+	if c.Weight == nil || c.Bias == nil {
+		err = fmt.Errorf("expected weights not to be nil")
+		return
+	}
+
+	shapew := c.Weight.Shape()
+	shapeb := c.Bias.Shape()
+
+	if len(shapew) != 1 || len(shapeb) != 1 {
+		err = fmt.Errorf("expected weights to have exactly one dimension")
+		return
+	}
+
+	if shapew[0] != shapeb[0] {
+		err = fmt.Errorf("expected weight sizes to match: (%d) != (%d)", shapew[0], shapeb[0])
+		return
+	}
+
+	return nil
+}
+
 func toValidFCConfig(iconf *FCConfig) (conf *FCConfig, err error) {
 	if iconf == nil {
 		err = fmt.Errorf("expected config not to be nil")
-- 
2.43.0


From d17f686f5c4218a5e2e2a8941d5c284c1da5e6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:07 +0000
Subject: [PATCH 14/20] fix: leave the initializers map of the FC config to the
 caller

---
 component/layers/fc.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/component/layers/fc.go b/component/layers/fc.go
index d3a121f..8c697b9 100644
--- a/component/layers/fc.go
+++ b/component/layers/fc.go
@@ -183,8 +183,10 @@ func toValidFCConfig(iconf *FCConfig) (conf *FCConfig, err error) {
 		return
 	}
 
-	if conf.Initializers == nil {
-		conf.Initializers = make(map[string]Initializer)
+	// defaults are added to a copy; the map belongs to the caller
+	conf.Initializers = make(map[string]Initializer)
+	for key, initializer := range iconf.Initializers {
+		conf.Initializers[key] = initializer
 	}
 
 	if initializer, ok := conf.Initializers[fcWeightKey]; !ok {
-- 
2.43.0


From fba613e6ec23260d74bb3d3b20ff16afcd13bc81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:31 +0000
Subject: [PATCH 15/20] fix: keep uniform draws below the upper bound

---
 tensor/internal/cputensor/initializers.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tensor/internal/cputensor/initializers.go b/tensor/internal/cputensor/initializers.go
index 7566020..4c50219 100644
--- a/tensor/internal/cputensor/initializers.go
+++ b/tensor/internal/cputensor/initializers.go
@@ -1,6 +1,10 @@
 package cputensor
 
-import "gonum.org/v1/gonum/stat/distuv"
+import (
+	"math"
+
+	"gonum.org/v1/gonum/stat/distuv"
+)
 
 func (t *CPUTensor) initWith(initFunc initializerFunc) {
 
@@ -45,7 +49,9 @@ func uniformRandomTensor(l, u float64, dims []int) (t *CPUTensor) {
 	t.dims = make([]int, len(dims))
 	copy(t.dims, dims)
 	t.initWith(func() any {
-		return distuv.Uniform{Min: l, Max: u}.Rand()
+		// halved bounds keep the width finite; rounding must not reach the upper bound
+		value := 2 * distuv.Uniform{Min: l / 2, Max: u / 2}.Rand()
+		return math.Max(l, math.Min(value, math.Nextafter(u, l)))
 	})
 
 	return t
-- 
2.43.0


From 93a9f3f75a9a014d1bf5045a50b53362d8407afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:25 +0000
Subject: [PATCH 16/20] fix: add the fans of Xavier initializers without
 integer overflow

---
 component/initializers/xavier_normal.go  | 2 +-
 component/initializers/xavier_uniform.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/component/initializers/xavier_normal.go b/component/initializers/xavier_normal.go
index 4df7b74..cc982ff 100644
--- a/component/initializers/xavier_normal.go
+++ b/component/initializers/xavier_normal.go
@@ -31,7 +31,7 @@ func NewXavierNormal(conf *XavierNormalConfig) (c *XavierNormal, err error) {
 }
 
 func (c *XavierNormal) Init(shape []int) (x tensor.Tensor, err error) {
-	s := math.Sqrt(2. / float64(c.fanIn+c.fanOut))
+	s := math.Sqrt(2. / (float64(c.fanIn) + float64(c.fanOut)))
 	return tensor.RandN(shape, 0., s, tensorInitConf())
 }
 
diff --git a/component/initializers/xavier_uniform.go b/component/initializers/xavier_uniform.go
index 575f73b..ff84e48 100644
--- a/component/initializers/xavier_uniform.go
+++ b/component/initializers/xavier_uniform.go
@@ -31,7 +31,7 @@ func NewXavierUniform(conf *XavierUniformConfig) (c *XavierUniform, err error) {
 }
 
 func (c *XavierUniform) Init(shape []int) (x tensor.Tensor, err error) {
-	r := math.Sqrt(6. / float64(c.fanIn+c.fanOut))
+	r := math.Sqrt(6. / (float64(c.fanIn) + float64(c.fanOut)))
 	return tensor.RandU(shape, -r, r, tensorInitConf())
 }
 
-- 
2.43.0


From 5e75c9d0d7d06aa9c6d820719a56f4057a0ee95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:27 +0000
Subject: [PATCH 17/20] fix: keep Sigmoid's exponentials in range so its
 gradient is finite for large negative inputs

---
 component/layers/activations/sigmoid.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/component/layers/activations/sigmoid.go b/component/layers/activations/sigmoid.go
index 4a47b80..17a3c3f 100644
--- a/component/layers/activations/sigmoid.go
+++ b/component/layers/activations/sigmoid.go
@@ -24,16 +24,28 @@ func (c *Sigmoid) Forward(xs ...tensor.Tensor) (y tensor.Tensor, err error) {
 }
 
 func (c *Sigmoid) forward(x tensor.Tensor) (y tensor.Tensor, err error) {
-	_1 := x.Pow(0)
-	x = x.Scale(-1)
-	x = x.Exp()
+	_0 := x.Pow(0).Scale(0)
 
-	y, err = _1.Add(x)
+	// e^min(x,0) / (e^min(x,0) + e^-max(x,0)); exponentials of no input overflow
+	n, err := x.ElMin(_0)
 	if err != nil {
 		return
 	}
 
-	return y.Pow(-1), nil
+	p, err := x.ElMax(_0)
+	if err != nil {
+		return
+	}
+
+	n = n.Exp()
+	p = p.Scale(-1).Exp()
+
+	s, err := n.Add(p)
+	if err != nil {
+		return
+	}
+
+	return n.Div(s)
 }
 
 /* ----- helpers ----- */
-- 
2.43.0


From 2111da4992322421b8848cfe9e676131d2f859b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:27 +0000
Subject: [PATCH 18/20] fix: reject Reshape targets whose element count
 overflows

---
 tensor/internal/validator/shape_modifiers.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tensor/internal/validator/shape_modifiers.go b/tensor/internal/validator/shape_modifiers.go
index 05bc66a..527641e 100644
--- a/tensor/internal/validator/shape_modifiers.go
+++ b/tensor/internal/validator/shape_modifiers.go
@@ -1,6 +1,9 @@
 package validator
 
-import "fmt"
+import (
+	"fmt"
+	"math"
+)
 
 func ValidateTransposeDims(dims []int) (err error) {
 	if len(dims) < 2 {
@@ -82,6 +85,11 @@ func ValidateBroadcastSourceDimsAgainstTargetDims(srcDims, dstDims []int) (err e
 func dimsToNumElems(dims []int) (elems int) {
 	elems = 1
 	for _, dim := range dims {
+		// no tensor has that many elements
+		if dim > 0 && elems > math.MaxInt/dim {
+			return math.MaxInt
+		}
+
 		elems *= dim
 	}
 
-- 
2.43.0


From c44c90a0a058e20fb90ac8ce970418d026fd21aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:50 +0000
Subject: [PATCH 19/20] fix: equal infinities compare equal

---
 tensor/internal/cputensor/operators.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensor/internal/cputensor/operators.go b/tensor/internal/cputensor/operators.go
index f2c3fa6..2805530 100644
--- a/tensor/internal/cputensor/operators.go
+++ b/tensor/internal/cputensor/operators.go
@@ -47,7 +47,7 @@ func (t *CPUTensor) tanh() (o *CPUTensor) {
 func (t *CPUTensor) eq(u *CPUTensor) (o *CPUTensor) {
 	return applyBinaryFuncOnTensorsElemWise(t, u,
 		func(a, b float64) float64 {
-			if math.Abs(a-b) <= float64EqualityThreshold {
+			if a == b || math.Abs(a-b) <= float64EqualityThreshold {
 				return 1.
 			} else {
 				return 0.
@@ -58,7 +58,7 @@ func (t *CPUTensor) eq(u *CPUTensor) (o *CPUTensor) {
 func (t *CPUTensor) ne(u *CPUTensor) (o *CPUTensor) {
 	return applyBinaryFuncOnTensorsElemWise(t, u,
 		func(a, b float64) float64 {
-			if math.Abs(a-b) <= float64EqualityThreshold {
+			if a == b || math.Abs(a-b) <= float64EqualityThreshold {
 				return 0.
 			} else {
 				return 1.
-- 
2.43.0


From 08a59eab9e3ed99a5c72736573a7bd644d90eb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:20 +0000
Subject: [PATCH 20/20] fix: zero gradients of slices and patches of infinite
 values were not numbers

---
 tensor/internal/gradtrack/gradient_helpers.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tensor/internal/gradtrack/gradient_helpers.go b/tensor/internal/gradtrack/gradient_helpers.go
index a89a4d2..e2f5b6f 100644
--- a/tensor/internal/gradtrack/gradient_helpers.go
+++ b/tensor/internal/gradtrack/gradient_helpers.go
@@ -3,7 +3,8 @@ package gradtrack
 import "github.com/sahandsafizadeh/qeep/tensor/internal/tensor"
 
 func toZeros(t tensor.Tensor) (o tensor.Tensor) {
-	return t.Scale(0)
+	// infinite elements scaled by zero are not zero
+	return toOnes(t).Scale(0)
 }
 
 func toOnes(t tensor.Tensor) (o tensor.Tensor) {
-- 
2.43.0

