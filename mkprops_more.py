prop("C07", "Direct products and softmax combine exactly the right elements",
     "The product of two tensors along a pair of equal dimensions has the remaining dimensions of the first followed by those of the second, and each element is the sum, over the contracted dimension, of the products of the corresponding elements; two vectors give one element holding their dot product, and the plain product contracts the last dimension of the first with the last but one (or only) dimension of the second. Dimensions out of range or of different length are rejected with an error. The direct softmax gives each element minus the minimum, divided by the sum of all such differences. Inputs are not modified and results share no storage with them.",
     ["inputs"], "all well-formed tensors of any rank, all dimension pairs, all element types; softmax of all non-empty tensors",
     "Tests multiply a few fixed matrices; which elements are paired depends on rank, contracted dimensions and strides, for every shape.",
     [T+"dot_product.go", T+"softmax.go"], [("index composition for the contracted dimension", "TensorMat.DotAt/dotLastDim"), ("pair products and sum", "TensorMat.DotVector"), ("shift by minimum and divide", "TensorMat.SoftMax")])
prop("C08", "Each graph operation computes its function and writes only its own cell",
     "Executing an addition, subtraction, multiplication, division, equality, negation, absolute value, copy, function application, sum, average, maximum or minimum operation stores that function of the current values of its argument cells in its result cell, and changes no other cell. This holds also when the result cell is one of the arguments or an argument occurs more than once; equality gives one or zero.",
     ["inputs", "histories"], "all argument cells and values, including aliased and repeated ones, all element types, all non-empty argument lists, all pure functions",
     "Tests run each operation once on fixed values with distinct cells.",
     ["operation/"], [("the per-operation step", "operation.*.Cal"), ("argument-list loops", "operation.Sum/Avg/Max/Min.Cal")])
prop("C09", "A graph executes every pushed operation once, in push order",
     "A graph made from a context executes exactly the operations pushed on that context, each once and in the order pushed, at every execution. A graph made from another graph, or extended by a graph or by operations, executes the operations of the first followed by the added ones; making or extending one graph never changes what another graph or context executes.",
     ["inputs", "histories"], "all sequences of pushes, graph constructions, extensions and executions",
     "Tests build single small graphs; order, multiplicity and independence are properties of every push and extension history.",
     ["context/context.go", "graph/graph.go"], [("linked list of pushed operations", "context.Context.Push/GetOps"), ("in-order execution loop", "graph.Graph.Exec"), ("operation list copy", "graph.NewFromGraph/AddFromGraph")])
LAZY = "Assumes that expressions are built bottom-up and acyclic (a node is never its own descendant), that nodes and the argument lists of pushed operations are not modified after they were made, and that Tensor has no implementations outside the package. The BuildGraph contract is proved for every kind of node but the lazy product, whose build is covered by the bounded check of C14."
prop("C10", "Lazy element-wise expressions execute to the exact element-wise results",
     "Building a lazy sum, difference, product or quotient of two tensors or of a tensor and a scalar, or a lazy negation, absolute value or function application, succeeds exactly for operands of equal shape, and gives a node of that shape with cells of its own. After executing the graph every element of the node is that operation on the inputs' current elements at the same position; executing changes no cell that existed before the build, and executing again after the inputs changed follows them. Building a node again adds no operations.",
     ["inputs", "histories"], "all lazy expressions of these kinds over well-formed tensors of any shape, shared subexpressions, all element types, all executions",
     "Tests build one small expression per operation and execute it once.",
     [T+"oper2.go", T+"oper_scalar.go", T+"neg.go", T+"abs.go", T+"activate.go", T+"math.go", "graph/graph.go"], [("operation push loops", "TensorOp2/TensorOpScalar/TensorNeg/TensorAbs/TensorActivate.BuildGraph"), ("build-once flag", "TensorMat.builded")], note=LAZY)
prop("C11", "Lazy structural nodes share the inputs' cells at the right positions",
     "Building a lazy reshape, flatten, transpose, slice, extended slice or concatenation gives a node whose cell at each position is the very cell of the input that the coordinate mapping names (reversed coordinates, the same row-major position, the shifted range, the first or second input), so values written to either side show on the other; positions beyond the input are new zero cells. Flattening takes the size the input has when built. Dimensions and ranges out of bounds and incompatible shapes make the build fail.",
     ["inputs", "histories"], "all lazy structural nodes over well-formed tensors of any shape, all dimensions, ranges and shape pairs",
     "Tests check a few shapes; which cell lands where is a statement over every rank, dimension and range.",
     [T+"reshape.go", T+"transpose.go", T+"sub_tensor.go", T+"concat.go"], [("cell selection through reverse index", "TensorTanspose/TensorSubTensor/TensorConcat.BuildGraph"), ("prefix sharing and fill", "TensorReshape.BuildGraph")], note=LAZY)
prop("C12", "Lazy reductions and softmax execute to the exact results",
     "After executing the graph, a lazy whole-tensor sum, average, minimum or maximum holds that reduction of the input's current elements; a reduction at a dimension keeps the dimensions up to and including it and reduces, at each of their positions, exactly the elements below it; the lazy softmax holds each element minus the minimum, divided by the sum of all such differences. A dimension out of range makes the build fail, results have cells of their own, and executing changes no cell that existed before the build.",
     ["inputs", "histories"], "all such nodes over non-empty well-formed tensors of any shape, all dimensions, all element types, all executions",
     "Tests use single fixed tensors; the grouping of elements and the order of the pushed operations matter for every shape and re-execution.",
     [T+"tensor_math.go", T+"dim_math.go", T+"softmax.go", T+"math.go"], [("group slicing by stride", "TensorDimMath.BuildGraph"), ("min, subtract, sum, divide pushes", "TensorSoftMax.BuildGraph")], note=LAZY)
prop("C13", "Filling and copying set every element of the target",
     "Filling a tensor with a scalar or number sets every element to it and nothing else. A copy or fill pushed on a context sets, whenever the graph is executed, every element of the target to the source's current element at the same row-major position, or to the scalar's current value; a copy between tensors of different size is rejected. The copy node presents the target's shape and cells, and after an execution target and source stay independent until the next one.",
     ["inputs", "histories"], "all well-formed tensors; for copies, targets with one cell per element that share no cell with the source at another position",
     "Tests copy and fill one tensor once.",
     [T+"copy.go", T+"fill.go"], [("set pushes", "TensorCopy/TensorFill.BuildGraph, tensor.Transfer, tensor.Fill"), ("direct fill loops", "TensorMat.Fill/FillData")], note=LAZY)
prop("C14", "Lazy products execute to the exact contraction",
     "After executing the graph, a lazy product of two tensors along a pair of equal dimensions has the remaining dimensions of the first followed by those of the second, and each element is the sum over the contracted dimension of the products of the inputs' current elements; two vectors give one element holding their dot product, and the plain product contracts the last dimension of the first with the last but one (or only) dimension of the second. Dimensions out of range or of different length make the build fail.",
     ["inputs", "histories"], "all lazy products of well-formed tensors, all dimension pairs, all element types, all executions",
     "Tests multiply a few fixed matrices; the pairing of elements depends on rank, contracted dimensions and strides.",
     [T+"dot_product.go"], [("index composition", "TensorDotProduct.buildLastDim"), ("vector case", "TensorDotProduct.buildVector"), ("dimension choice and shape", "TensorDotProduct.BuildGraph")],
     note="The helpers buildLastDim and buildVector, the node constructors and graph.NewGraph are proved against contracts. TensorDotProduct.BuildGraph itself is NOT proved (its proof exceeds the time limit of a check): a bounded replay of random expressions stands in for it and is not counted as proved.", level="exploration")
prop("C15", "Activation functions and derivatives compute their formulas",
     "Over the real numbers (rounding ignored), for every input and parameter: Linear is n with derivative 1; Relu is n for n >= 0 and Alpha*n below, derivative 1 and Alpha; ELU is n for n >= 0 and Alpha*(exp(n)-1) below, derivative 1 and Alpha*exp(n); SELU is Lambda times ELU, in value and derivative; Sigmoid is 1/(1+exp(-n)), derivative s*(1-s); Swish is n times Sigmoid, derivative s+n*s*(1-s); Sin is sin(n), derivative cos(n); Tanh is tanh(n), derivative 1-tanh(n)^2; GELU is the tanh approximation 0.5*n*(1+tanh(sqrt(2/pi)*(n+0.044715*n^3))), and its derivative is the central difference quotient of that function with step 1e-6. None of them depends on anything but the input and its parameters.",
     ["inputs"], "all real inputs and parameters, element types float32 and float64 with rounding ignored",
     "Tests evaluate no activation function on its own; each branch and identity must hold for every real input.",
     ["activation/"], [("branches and formulas", "activation.*.Activate"), ("derivative formulas", "activation.*.Derive")],
     note="Floating point is treated as real arithmetic; functions of package math are uninterpreted with a few axioms (exp(x)>0, exp(x)exp(-x)=1, cosh(x)^2(1-tanh(x)^2)=1, sqrt, small powers). Integer element types are out of scope.")
prop("C16", "Half, single and double scalars convert and compute as IEEE-754 says",
     "Every half precision pattern widens to exactly its IEEE-754 value, and every float32 is stored in half precision as the nearest half precision number, ties to even, with overflow to infinity, gradual underflow, signed zeros and NaN kept; a float64 is first rounded to float32. The classification functions (NaN, infinite by sign, finite, normal, sign) agree with IEEE-754. Arithmetic on half, single and double scalars of any mix of kinds stores the correctly rounded result of the receiver's arithmetic (float32 for half and single, then rounded to half; float64 for double) in a new scalar of the receiver's kind, leaving both operands unchanged; the self variants change only the receiver; comparison orders the values as numbers, and copies are independent.",
     ["inputs"], "all 2^16 half precision patterns, all float32 and float64 values including infinities, NaN, zeros and subnormals, all pairs of scalars, aliased or not",
     "The package has no tests; rounding at midpoints, subnormals and overflow boundaries are statements over all bit patterns.",
     ["scalar/"], [("bit-level conversions", "scalar.f32bitsToF16bits, scalar.f16bitsToF32bits"), ("arithmetic", "scalar.F16/F32/F64 methods")],
     note="Proved over bit vectors and SMT floating point, with no rounding ignored. Scalar is assumed to have no implementations outside the package.")
prop("C17", "Saved tensors and networks load back exactly",
     "Save writes exactly the elements of a tensor in row-major order, and Load into a tensor of that shape restores every element exactly and consumes exactly what Save wrote; SaveFull writes rank, dimensions and elements, and LoadFull restores shape, strides and elements into a tensor with cells of its own. Saving changes no element. Saving a network writes, once per layer until ResetSave, the parameters of its predecessors, then its weights, then its bias, and loading reads them in the same order, so a network of the same architecture gets exactly the saved parameters. ResetSave and ResetLoad reach every predecessor. When the writer or reader fails, the error is returned.",
     ["inputs", "faults", "histories"], "all well-formed tensors of any shape with element types of fixed size, all networks of layers (also with shared predecessors), writers and readers that fail at any point, streams holding several tensors",
     "There are no tests for saving or loading; the order and number of the values written and read must match for every shape and network.",
     ["tensor/tensor_mat.go", "layer/base.go", "layer/concat.go", "model/model_layer.go"], [("element loops", "TensorMat.Save/Load/SaveFull/LoadFull"), ("layer order and visited flags", "layer.Base/Concat Save/Load/ResetSave/ResetLoad")],
     note="Assumes that binary.Write of a fixed-size value appends exactly that value to the stream and binary.Read of the same type gives it back (a stream is a sequence of typed values), that streams read hold values of the expected types, and that weights and bias of a layer are well-formed tensors with one cell per element. The property of a whole network follows from the per-layer contracts by induction over the acyclic network, on paper. Element type int is rejected with an error by encoding/binary. Models used as layers of other models are out of scope.")
prop("C18", "Fitting gives every trainable layer exactly its computed parameters",
     "LoadFromTensor succeeds exactly for a source of the same shape, and then sets every element of the target to the source's element at the same position, leaving the source alone; otherwise it changes nothing. Fitting a layer first fits its predecessors (both of them for a Concat), then, if the layer is trainable, replaces its weights and its bias by the newly computed ones, element by element; an untrainable layer keeps its own parameters but its predecessors are fitted all the same. Nothing but parameters of the layer and its predecessors changes. The first error of a predecessor or of a shape that does not match is returned.",
     ["inputs", "histories"], "all networks of layers (also with shared predecessors) with well-formed parameters of any shape, all settings of trainable, all values",
     "Tests only look at whether a trained network predicts roughly right, which hides a layer that is not updated.",
     ["layer/base.go", "layer/concat.go", "model/model_layer.go", "tensor/tensor_mat.go"], [("parameter takeover", "layer.Base.Fit"), ("both predecessors", "layer.Concat.Fit"), ("element copy", "TensorMat.LoadFromTensor")],
     note="Assumes an acyclic network in which every parameter tensor is well-formed with one cell per element that belongs to one layer, and that the newly computed parameters are in tensors of their own. Models used as layers of other models are out of scope.")
NA = "Not brought within the verifier's reach in the time available: the functions push operations in nested loops over lazily built tensors and bound interface methods; the generator processes them, but the proof exceeded the time limit of a check."
prop("N01", "Layers compute their mathematical definition forward",
     "After executing the forward graph, a dense layer holds the activation of weights times input plus bias, a convolution the sum over its kernel window, pooling the maximum of each window, flatten and concatenation the joined inputs.",
     ["inputs", "histories"], "all layer sizes, inputs and parameters", "Tests train small networks and look at rough predictions.",
     ["layer/"], [("feed-forward builders", "layer.*.BuildFeedforward")], claimed=False, reason=NA)
prop("N02", "Backpropagation computes the gradient of the loss",
     "After executing the backward graph, the error term of every layer is the gradient of the loss with respect to its net input, and the new parameters are the old ones moved by learning rate times gradient plus momentum times the last change.",
     ["inputs", "histories"], "all networks, inputs, targets and rates", "Tests only look at the loss after training.",
     ["layer/", "model/model.go"], [("backward builders", "layer.*.BuildBackpropagation")], claimed=False, reason=NA + " The code also deviates from it in several known places (see DESIGN.md).")
prop("N03", "Image loading and scaling keep the picture",
     "Loading gives each pixel's channels at its position, and scaling averages or selects exactly the pixels that fall on a target pixel.",
     ["inputs"], "all images and target sizes", "Tests scale one picture.",
     ["img/"], [("scaling loops", "img.*")], claimed=False, reason="Depends on decoders of the standard library and on float rounding of window bounds; no contract for them was written in the time available.")
