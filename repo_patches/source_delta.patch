From 0d0c71f33b44d9bfe02513b591a9cb4fb7b44d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:23 +0000
Subject: [PATCH 01/11] fix: tools.GetIndex returns an error instead of
 panicking on a wrong number of coordinates

---
 tools/tools.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tools/tools.go b/tools/tools.go
index 6840f85..b874dd8 100644
--- a/tools/tools.go
+++ b/tools/tools.go
@@ -44,7 +44,6 @@ func GetIndex(mul, shape, index []uint) (uint, error) {
 		)
 	}
 	if len(shape) != len(index) {
-		panic("kkk")
 		return 0, errors.FmtNeuralError(
 			"Invalid index dimensions %d for internal dimensions %d",
 			len(index),
-- 
2.43.0


From 1c9cd79228cf16d52acfbf6bac3fcd99fc16a45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:26 +0000
Subject: [PATCH 02/11] fix: TensorMat.Reshape fills the added cells instead of
 leaving them nil (and no longer panics when shrinking)

---
 tensor/reshape.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensor/reshape.go b/tensor/reshape.go
index b789799..f164c94 100644
--- a/tensor/reshape.go
+++ b/tensor/reshape.go
@@ -69,7 +69,7 @@ func (p *TensorMat[T]) Reshape(shape ...uint) *TensorMat[T] {
 		}
 	}
 
-	for i := min; i < p.GetSize(); i++ {
+	for i := min; i < uint(len(ops)); i++ {
 		ops[i] = &number.Scalar[T]{}
 	}
 
-- 
2.43.0


From d0df8e52f6629355a85630538fe78cd3b2cfbc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:26 +0000
Subject: [PATCH 03/11] fix: sub tensors that extend past the source fill the
 first outside position instead of failing

---
 tensor/sub_tensor.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensor/sub_tensor.go b/tensor/sub_tensor.go
index 3ef6ea7..09340cb 100644
--- a/tensor/sub_tensor.go
+++ b/tensor/sub_tensor.go
@@ -88,7 +88,7 @@ func (p *TensorSubTensor[T]) BuildGraph(ctx *context.Context) error {
 	for i := range p.Operands {
 		idx := tools.ReverseIndex(p.MulIndex, p.Shape, uint(i))
 		idx[p.D] += p.S
-		if idx[p.D] > p.M && p.GoOut {
+		if idx[p.D] >= p.M && p.GoOut {
 			p.Operands[i] = &number.Scalar[T]{}
 		} else {
 			o, err := p.T.GetOperand(idx...)
@@ -187,7 +187,7 @@ func (p *TensorMat[T]) FOSubTensor(dim, start, end uint, fill T) (*TensorMat[T],
 	for i := range ops {
 		idx := tools.ReverseIndex(mulIndex, shape, uint(i))
 		idx[dim] += start
-		if idx[dim] > max {
+		if idx[dim] >= max {
 			ops[i] = &number.Scalar[T]{
 				Value: fill,
 			}
-- 
2.43.0


From 4871f5c277742f4fd4f1fe4d4459f086ba969dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:28 +0000
Subject: [PATCH 04/11] fix: Concat rejects shapes that differ outside the
 concatenated dimension and dimensions out of range

---
 tensor/concat.go | 52 ++++++++++++++++++++++++++++++++++--------------
 1 file changed, 37 insertions(+), 15 deletions(-)

diff --git a/tensor/concat.go b/tensor/concat.go
index 8a6acaf..190db36 100644
--- a/tensor/concat.go
+++ b/tensor/concat.go
@@ -23,6 +23,35 @@ func Concat[T types.Number](a, b Tensor[T], dim uint) Tensor[T] {
 	}
 }
 
+// checkConcatShapes reports an error unless both shapes have dim and differ only there.
+func checkConcatShapes(a, b []uint, dim uint) error {
+	if len(a) != len(b) {
+		return errors.FmtNeuralError(
+			"Shapes with different dimensions %d and %d",
+			len(a),
+			len(b),
+		)
+	}
+	if dim >= uint(len(a)) {
+		return errors.FmtNeuralError(
+			"Invalid concat dimension %d for tensors with dimension %d",
+			dim,
+			len(a),
+		)
+	}
+	for i := range a {
+		if uint(i) != dim && a[i] != b[i] {
+			return errors.FmtNeuralError(
+				"Different shapes %d and %d at %d",
+				a[i],
+				b[i],
+				i,
+			)
+		}
+	}
+	return nil
+}
+
 func (p *TensorConcat[T]) BuildGraph(ctx *context.Context) error {
 	if p.builded {
 		return nil
@@ -37,21 +66,9 @@ func (p *TensorConcat[T]) BuildGraph(ctx *context.Context) error {
 		return err
 	}
 
-	e := tools.Equals(p.A.GetShape(), p.B.GetShape())
-	if e == -2 {
-		return errors.FmtNeuralError(
-			"Shapes with different dimensions %d and %d",
-			len(p.A.GetShape()),
-			len(p.B.GetShape()),
-		)
-	}
-	if e >= 0 && uint(e) != p.D {
-		return errors.FmtNeuralError(
-			"Different shapes %d and %d at %d",
-			p.A.GetShape()[e],
-			p.B.GetShape()[e],
-			e,
-		)
+	err = checkConcatShapes(p.A.GetShape(), p.B.GetShape(), p.D)
+	if err != nil {
+		return err
 	}
 
 	p.Shape = p.A.GetShape()
@@ -90,6 +107,11 @@ func (p *TensorConcat[_]) concatLastDim(dimSize, index uint, oIndex []uint) erro
 }
 
 func (p *TensorMat[T]) Concat(m *TensorMat[T], dim uint) (*TensorMat[T], error) {
+	err := checkConcatShapes(p.GetShape(), m.GetShape(), dim)
+	if err != nil {
+		return nil, err
+	}
+
 	dimSize := p.Shape[dim]
 	shape := p.GetShape()
 	shape[dim] += m.GetShape()[dim]
-- 
2.43.0


From 2d8f003ff1b2f844c68dae6984e38e82a114abf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:28 +0000
Subject: [PATCH 05/11] fix: DotAt returns an error instead of panicking on
 dimensions out of range

---
 tensor/dot_product.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/tensor/dot_product.go b/tensor/dot_product.go
index fb89514..c0b7f7e 100644
--- a/tensor/dot_product.go
+++ b/tensor/dot_product.go
@@ -67,6 +67,16 @@ func (p *TensorDotProduct[T]) BuildGraph(ctx *context.Context) error {
 		}
 	}
 
+	if p.Da >= uint(len(sha)) || p.Db >= uint(len(shb)) {
+		return errors.FmtNeuralError(
+			"Invalid dot dimensions %d and %d for tensors with dimension %d and %d",
+			p.Da,
+			p.Db,
+			len(sha),
+			len(shb),
+		)
+	}
+
 	if sha[p.Da] != shb[p.Db] {
 		return errors.FmtNeuralError(
 			"Invalid dot operation to tensors with shape[%d] %d and shape[%d] %d",
@@ -214,6 +224,16 @@ func (p *TensorMat[T]) DotAt(m *TensorMat[T], dim1, dim2 uint) (*TensorMat[T], e
 		return nil, errors.FmtNeuralError("Can not do dot to an empty tensor")
 	}
 
+	if dim1 >= uint(len(sha)) || dim2 >= uint(len(shb)) {
+		return nil, errors.FmtNeuralError(
+			"Invalid dot dimensions %d and %d for tensors with dimension %d and %d",
+			dim1,
+			dim2,
+			len(sha),
+			len(shb),
+		)
+	}
+
 	if sha[dim1] != shb[dim2] {
 		return nil, errors.FmtNeuralError(
 			"Invalid dot operation to tensors with shape[%d] %d and shape[%d] %d",
-- 
2.43.0


From 434b0eae1031d97feb614819eea38f1aecc005b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:44 +0000
Subject: [PATCH 06/11] fix: Flatten takes the size of its input when the node
 is built

Flatten read the size of its input when the node was made; for an input
that is not built yet that size is 0 and the result was always empty.
---
 tensor/reshape.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/tensor/reshape.go b/tensor/reshape.go
index f164c94..07973f1 100644
--- a/tensor/reshape.go
+++ b/tensor/reshape.go
@@ -9,7 +9,8 @@ import (
 
 type TensorReshape[T types.Number] struct {
 	TensorMat[T]
-	T Tensor[T]
+	T    Tensor[T]
+	flat bool
 }
 
 func Reshape[T types.Number](t Tensor[T], shape ...uint) Tensor[T] {
@@ -22,7 +23,13 @@ func Reshape[T types.Number](t Tensor[T], shape ...uint) Tensor[T] {
 }
 
 func Flatten[T types.Number](t Tensor[T]) Tensor[T] {
-	return Reshape(t, t.GetSize())
+	return &TensorReshape[T]{
+		TensorMat: TensorMat[T]{
+			Shape: []uint{t.GetSize()},
+		},
+		T:    t,
+		flat: true,
+	}
 }
 
 func (p *TensorReshape[T]) BuildGraph(ctx *context.Context) error {
@@ -36,6 +43,9 @@ func (p *TensorReshape[T]) BuildGraph(ctx *context.Context) error {
 		return err
 	}
 
+	if p.flat {
+		p.Shape = []uint{p.T.GetSize()}
+	}
 	p.MulIndex = tools.GetIndexMul(p.Shape)
 	p.Operands = make([]*number.Scalar[T], tools.GetDataSize(p.Shape))
 
-- 
2.43.0


From 519883c5c72b79e52907e70e6db5bb9f6fad2522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:02 +0000
Subject: [PATCH 07/11] fix: the derivative of ELU is 1 for non-negative inputs

---
 activation/elu.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/activation/elu.go b/activation/elu.go
index 0308393..fae547a 100644
--- a/activation/elu.go
+++ b/activation/elu.go
@@ -19,7 +19,7 @@ func (p ELU[T]) Activate(n T) T {
 
 func (p ELU[T]) Derive(n T) T {
 	if n >= 0 {
-		return n
+		return 1
 	}
 	return p.Activate(n) + p.Alpha
 }
-- 
2.43.0


From 4960eee7e51a8a8eb9b3eea0976a142eb714eca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:18 +0000
Subject: [PATCH 08/11] fix: SaveFull and LoadFull use sizes of fixed width and
 allocate the loaded cells

---
 tensor/tensor_mat.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/tensor/tensor_mat.go b/tensor/tensor_mat.go
index 87a7188..e0790a4 100644
--- a/tensor/tensor_mat.go
+++ b/tensor/tensor_mat.go
@@ -162,12 +162,12 @@ func (p *TensorMat[T]) SetBuild(b bool) Tensor[T] {
 }
 
 func (p *TensorMat[T]) SaveFull(w io.Writer) error {
-	err := binary.Write(w, binary.LittleEndian, len(p.Shape))
+	err := binary.Write(w, binary.LittleEndian, uint64(len(p.Shape)))
 	if err != nil {
 		return err
 	}
 	for _, s := range p.Shape {
-		err := binary.Write(w, binary.LittleEndian, s)
+		err := binary.Write(w, binary.LittleEndian, uint64(s))
 		if err != nil {
 			return err
 		}
@@ -182,7 +182,7 @@ func (p *TensorMat[T]) SaveFull(w io.Writer) error {
 }
 
 func (p *TensorMat[T]) LoadFull(r io.Reader) error {
-	var dims int
+	var dims uint64
 	err := binary.Read(r, binary.LittleEndian, &dims)
 	if err != nil {
 		return err
@@ -190,16 +190,19 @@ func (p *TensorMat[T]) LoadFull(r io.Reader) error {
 
 	p.Shape = make([]uint, dims)
 	for i := range p.Shape {
-		err := binary.Read(r, binary.LittleEndian, &p.Shape[i])
+		var dim uint64
+		err := binary.Read(r, binary.LittleEndian, &dim)
 		if err != nil {
 			return err
 		}
+		p.Shape[i] = uint(dim)
 	}
 
 	p.MulIndex = tools.GetIndexMul(p.Shape)
 	p.Operands = make([]*number.Scalar[T], tools.GetDataSize(p.Shape))
 
 	for i := range p.Operands {
+		p.Operands[i] = &number.Scalar[T]{}
 		err := binary.Read(r, binary.LittleEndian, &p.Operands[i].Value)
 		if err != nil {
 			return err
-- 
2.43.0


From 241760368393c3eeb8dd3db30638998128eb5bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:48 +0000
Subject: [PATCH 09/11] fix: ResetSave and ResetLoad of a Concat layer reach
 both predecessors

---
 layer/concat.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/layer/concat.go b/layer/concat.go
index e807315..7c925e0 100644
--- a/layer/concat.go
+++ b/layer/concat.go
@@ -159,6 +159,26 @@ func (p *Concat[T]) PushToString(sb *strings.Builder) {
 	)
 }
 
+func (p *Concat[T]) ResetLoad() {
+	p.loaded = false
+	if p.l1 != nil {
+		p.l1.ResetLoad()
+	}
+	if p.l2 != nil {
+		p.l2.ResetLoad()
+	}
+}
+
+func (p *Concat[T]) ResetSave() {
+	p.saved = false
+	if p.l1 != nil {
+		p.l1.ResetSave()
+	}
+	if p.l2 != nil {
+		p.l2.ResetSave()
+	}
+}
+
 func (p *Concat[T]) Load(r io.Reader) error {
 	if p.loaded {
 		return nil
-- 
2.43.0


From 0a88aeeba896958b2a3032ad07168f24df208da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:23 +0000
Subject: [PATCH 10/11] fix: a Concat layer forwards Fit, ResetFit and Reset to
 both predecessors

---
 layer/concat.go | 48 ++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/layer/concat.go b/layer/concat.go
index 7c925e0..92bf7a4 100644
--- a/layer/concat.go
+++ b/layer/concat.go
@@ -159,6 +159,54 @@ func (p *Concat[T]) PushToString(sb *strings.Builder) {
 	)
 }
 
+func (p *Concat[T]) Fit() error {
+	if p.l1 != nil {
+		err := p.l1.Fit()
+		if err != nil {
+			return err
+		}
+	}
+	if p.l2 != nil {
+		err := p.l2.Fit()
+		if err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
+func (p *Concat[T]) ResetFit(ctx *context.Context) error {
+	if p.l1 != nil {
+		err := p.l1.ResetFit(ctx)
+		if err != nil {
+			return err
+		}
+	}
+	if p.l2 != nil {
+		err := p.l2.ResetFit(ctx)
+		if err != nil {
+			return err
+		}
+	}
+	return p.Base.ResetFit(ctx)
+}
+
+func (p *Concat[T]) Reset(ctx *context.Context) error {
+	if p.l1 != nil {
+		err := p.l1.Reset(ctx)
+		if err != nil {
+			return err
+		}
+	}
+	if p.l2 != nil {
+		err := p.l2.Reset(ctx)
+		if err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 func (p *Concat[T]) ResetLoad() {
 	p.loaded = false
 	if p.l1 != nil {
-- 
2.43.0


From c21854148b31cd2798bd2173ba2fc86817d61246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:23 +0000
Subject: [PATCH 11/11] fix: Base.Fit returns its predecessor's error and skips
 a bias without a computed value

---
 layer/base.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/layer/base.go b/layer/base.go
index 356a6a7..c4a8059 100644
--- a/layer/base.go
+++ b/layer/base.go
@@ -188,7 +188,10 @@ func (p *Base[T]) Connect(l Layer[T]) {
 
 func (p *Base[T]) Fit() error {
 	if p.PreLayer != nil {
-		p.PreLayer.Fit()
+		err := p.PreLayer.Fit()
+		if err != nil {
+			return err
+		}
 	}
 
 	if !p.Trainable {
@@ -200,7 +203,7 @@ func (p *Base[T]) Fit() error {
 			return err
 		}
 	}
-	if p.Bias == nil && p.NBias == nil {
+	if p.Bias == nil || p.NBias == nil {
 		return nil
 	}
 	return p.Bias.LoadFromTensor(p.NBias)
-- 
2.43.0

