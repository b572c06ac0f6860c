NOT_APPLICABLE = {}
PROPS = []

def P(id, title, statement, over, qtext, why, files, mech, technique, note):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                      files=files, mech=mech, technique=technique, note=note))

DIFF = "property-based differential testing against a naive reference evaluator"

P("P01", "Element-wise operations compute the named function of every element",
  "Running a graph on a tape machine or a lisp machine gives, for each exported element-wise operation (unary functions, arithmetic, power, min/max, rectifiers), the mathematical function of the corresponding operand elements, with the shape and number type of the operands. A scalar operand is combined with every element of a tensor operand, on either side. Integer operands follow Go's integer arithmetic.",
  ["inputs", "configurations"],
  "all shapes up to four dimensions, float32/float64 (and int types for arithmetic on equal shapes), both machines with and without tracing, operands that are variables or constants, finite results; min/max take two tensors of one shape",
  "The tests check a few fixed vectors per operation, mostly float64 and mostly on one machine; which of the scalar/tensor, in-place, preallocated and constant paths runs depends on shape, type, machine and neighbours, and no test crosses them.",
  ["api_gen.go", "operations.go", "nn.go", "op_math.go", "op_minmaxBetween.go", "operatorPointwise_unary.go", "operatorPointwise_unary_gen.go", "operatorPointwise_binary.go", "math.go", "mathutils.go"],
  [("scalar/tensor dispatch of unary operators", "operatorPointwise_unary.go"), ("scalar/tensor dispatch of binary operators", "operatorPointwise_binary.go"), ("choice of safe, preallocated, unsafe or incremental execution", "op_math.go, vm_tape.go")],
  DIFF, "Values must match the reference within a tolerance scaled by the magnitudes involved, and bit-exactly where arithmetic is exact.")

P("P02", "Comparisons return truth values, or 0/1 of the operand type when asked",
  "Equality and order comparisons between nodes yield, for every element, the truth of the comparison: as booleans by default, or as 0 and 1 in the operands' number type when that form is requested. This holds for tensor-tensor, scalar-tensor, tensor-scalar and scalar-scalar operands, and the operands keep their values.",
  ["inputs", "configurations"],
  "all six comparisons, both result forms, shapes up to four dimensions, ties and signed zeros included, float32/float64 on both machines; integers on equal shapes on the tape machine",
  "Tests compare fixed small tensors; the result form, operand order and buffer reuse interact and only some combinations are sampled.",
  ["api_gen.go", "op_math.go", "operatorPointwise_binary.go"],
  [("comparison operators and their result form", "operatorPointwise_binary.go"), ("not reusing a numeric buffer for a boolean result", "op_math.go")],
  DIFF, "Comparisons are exact.")

P("P03", "Broadcast operations equal explicit repetition followed by the plain operation",
  "Each broadcast arithmetic or comparison operation, with an explicit pattern or an automatic one, gives the result of repeating each operand along its broadcast axes to the size of the other and applying the plain operation element by element. The result has the common broadcast shape and the operands keep their values.",
  ["inputs", "configurations"],
  "operands of one to four dimensions with any set of size-one axes broadcast on either or both sides, float32/float64, both machines",
  "Tests cover a handful of two-dimensional patterns; multi-axis and both-sided patterns, and comparison operators under broadcast, are not reached.",
  ["broadcast.go", "api_gen.go", "operations.go", "op_tensor.go"],
  [("pattern to reshape-and-repeat translation", "broadcast.go"), ("repeat operator", "op_tensor.go"), ("automatic pattern", "broadcast.go")],
  DIFF, "Patterns are generated together with shapes so that every axis subset occurs.")

P("P04", "Products of scalars, vectors, matrices and tensors match their definition",
  "Multiplying nodes yields the product defined by linear algebra for their dimensions: dot product, matrix-vector, vector-matrix, matrix-matrix, batched matrix product with optional transposition of either operand, outer product, and tensor contraction over chosen axes. The result's shape follows the same definition, and operands that are themselves transposed or sliced are handled as their logical values.",
  ["inputs", "configurations"],
  "sizes one to a few per axis, batch ranks one and two, transpose flags, contraction over any axes leaving at least one free axis, float32/float64, both machines",
  "Tests use one or two shapes per product; transposition flags, size-one axes, batch ranks and views multiply the paths.",
  ["operations.go", "operatorLinAlg.go", "op_math.go", "blas.go"],
  [("operator selection by dimension", "operations.go"), ("linear-algebra operator execution", "operatorLinAlg.go"), ("batched products", "operatorLinAlg.go")],
  DIFF, "Sums of products are compared with a tolerance scaled by the sum of magnitudes.")

P("P05", "Reductions combine exactly the elements along the requested axes",
  "Sum, mean, maximum, norm and log-sum-exp over any set of axes (or all of them) give the reduction of exactly the elements that share the remaining coordinates, with the reduced axes removed, or kept with size one when dimensions are to be kept. Adding or multiplying a list of nodes gives the sum or product of all of them, and the size of an axis is its length.",
  ["inputs", "configurations"],
  "one to four dimensions, every axis subset that the operation supports, size-one axes included, float32/float64, both machines",
  "Tests fix two or three shapes per reduction; the multi-axis orders and inner axes of higher-rank tensors, where index arithmetic goes wrong, are sampled sparsely.",
  ["operations.go", "op_reduction.go", "shape.go", "math.go"],
  [("axis bookkeeping of reductions", "op_reduction.go"), ("shape inference of reductions", "shape.go, op_reduction.go"), ("derived reductions", "operations.go")],
  DIFF, "Reductions are compared with a tolerance scaled by the sum of magnitudes.")

P("P06", "Softmax, log-softmax and sparsemax normalise along the requested axis",
  "Softmax and log-softmax give, for each line along the chosen axis, the normalised exponentials of that line or their logarithm; sparsemax gives the Euclidean projection of the line onto the probability simplex. The default is the last axis, except that softmax and log-softmax treat a column vector as one line. Each call keeps its own axis and kind even when several differ only in those.",
  ["inputs", "configurations"],
  "one to four dimensions, every axis and the default, inputs of magnitude up to forty, float32/float64, both machines, alone or after other operations; taking the logarithm of a fresh softmax node is a known finding and excluded",
  "Tests use fixed matrices, mostly the last axis, and never several variants in one graph.",
  ["op_softmax.go", "op_sparsemax.go", "stabilization.go"],
  [("axis resolution", "op_softmax.go"), ("sparse projection", "op_sparsemax.go"), ("log-of-softmax rewriting", "stabilization.go")],
  DIFF, "Includes a deterministic probe for the known finding softmax-then-log.")

P("P07", "Shape and selection operations move every element to the right place",
  "Reshaping, flattening, transposing, slicing, concatenating, splitting, picking an element, selecting rows by index, placing on a diagonal, upsampling and number-type conversion return exactly the elements of their input arranged as the operation defines, with the announced shape. The input value is left unchanged and later operations see the arranged values.",
  ["inputs", "configurations"],
  "one to four dimensions, all axis orders, all in-range slices with steps, inferred reshape dimensions, float32/float64, both machines, alone or composed with each other",
  "Element placement depends on strides, views and buffer sharing that only show for particular combinations of rank, axis and neighbouring operations.",
  ["operations.go", "op_tensor.go", "op_by_indices.go", "op_upsample.go", "op_nondiff.go", "operations_nondiff.go", "slice.go"],
  [("slicing, transposing, concatenating and reshaping operators", "op_tensor.go"), ("index selection", "op_by_indices.go"), ("upsampling", "op_upsample.go")],
  DIFF, "Data movement is compared exactly.")

P("P10", "Symbolic gradients of every differentiable operation are its derivative",
  "Asking for the gradient of a scalar cost built from a differentiable operation adds nodes whose values, after a run, are the partial derivatives of the cost with respect to each requested input, in the shape and number type of that input. The gradient is the same whether it is read from the gradient node, through a read node, or from the input's bound derivative, and inputs are not changed.",
  ["inputs", "configurations"],
  "element-wise, broadcast, product, reduction, softmax-family, shape, convolution and pooling operations with random shapes and axes away from points where they are not differentiable, every way of reading the gradient, float32/float64, tape machine",
  "Tests differentiate a few expressions at fixed points and shapes; each operation's gradient has its own shape, axis and operand-order handling.",
  ["differentiation.go", "op_math.go", "op_tensor.go", "op_reduction.go", "op_softmax.go", "op_sparsemax.go", "operatorPointwise_unary.go", "operatorPointwise_binary.go", "operatorLinAlg.go", "op_minmaxBetween.go", "op_upsample.go", "op_by_indices.go"],
  [("reverse-mode symbolic differentiation", "differentiation.go"), ("per-operation symbolic derivatives", "SymDiff methods"), ("gradient binding", "vm_tape.go")],
  "property-based differential testing against forward-mode automatic differentiation of a reference evaluator",
  "The reference derivative comes from hyper-dual arithmetic, not from finite differences.")

P("P11", "Gradients of composed programs with shared values are exact derivatives",
  "For any program composed of differentiable operations, the symbolic gradient of a scalar cost with respect to each input is the derivative of the whole program, with the contributions of every use of every shared intermediate value accumulated exactly once. Equal sub-expressions, several outputs joined in one cost, and inputs used at several depths do not change this.",
  ["programs", "inputs"],
  "random programs of two to seven operations (plus the cost) over shared values, up to four dimensions, float32/float64, every way of reading gradients",
  "The interaction of shared nodes, common-subexpression merging, gradient accumulation and in-place execution exists only in composed graphs; tests differentiate a few hand-written ones.",
  ["differentiation.go", "compile.go", "regalloc.go", "vm_tape.go", "graph.go", "stabilization.go"],
  [("gradient accumulation over children", "differentiation.go"), ("expression merging", "graph.go"), ("register allocation and in-place execution", "compile.go, regalloc.go")],
  "property-based differential testing of random programs against forward-mode automatic differentiation",
  "The reference derivative comes from hyper-dual arithmetic, not from finite differences.")

P("P13", "The lisp machine's automatic gradients are exact derivatives",
  "Running a graph with a scalar cost on a lisp machine binds to every input the partial derivatives of the cost, in the input's shape and number type, for programs built from element-wise, broadcast, product, sum, mean, norm, log-sum-exp, softmax, log-softmax, reshape, transpose, slice, concatenate, convolution and pooling operations. The contributions of all uses of a shared value are added exactly once, and the cost and the inputs keep their values.",
  ["programs", "inputs"],
  "single operations and random programs of two to seven operations over shared values, scalars and tensors with more than one element, away from points without a derivative, no unused nodes in the graph, float32/float64",
  "Each operation has a second, separately written derivative for this machine that adds into shared buffers; tests run a few of them once, with each value used once.",
  ["vm_genera.go", "dual.go", "op_math.go", "op_tensor.go", "op_reduction.go", "op_softmax.go", "op_minmaxBetween.go", "operatorPointwise_unary.go", "operatorPointwise_binary.go", "operatorLinAlg.go"],
  [("per-operation derivative into bound values", "DoDiff methods"), ("backward traversal", "vm_genera.go"), ("value and derivative pairs", "dual.go")],
  "property-based differential testing of random programs against forward-mode automatic differentiation",
  "Maximum, index selection, sparsemax, upsampling and splitting have no usable derivative on this machine and are left out.")

P("P14", "Running a composed program gives every node its defined value",
  "For any program composed of deterministic operations over shared values, one run on a tape machine (plain, tracing, or with a precompiled program) or a lisp machine gives every result and every value requested by a read node exactly what evaluating the operations one by one would give. Inputs and constants keep their values, and results do not depend on which other operations share the graph.",
  ["programs", "inputs", "configurations"],
  "random programs of two to twenty-four operations of all kinds with shared and repeated sub-expressions, up to four dimensions, float32/float64, six machine configurations",
  "Register allocation, in-place execution, buffer reuse and expression merging only interact in composed graphs; tests run a few hand-written ones.",
  ["compile.go", "regalloc.go", "vm_tape.go", "vm_genera.go", "graph.go", "op_infidel.go", "node.go"],
  [("register allocation and in-place decisions", "compile.go, regalloc.go"), ("instruction execution", "vm_tape.go"), ("traversal execution", "vm_genera.go"), ("reading values", "op_infidel.go")],
  "property-based differential testing of random programs against a naive reference evaluator",
  "On a plain tape machine inputs, results and read values are compared; with tracing or on the lisp machine every node.")

P("P15", "Reusing a graph and its machines never leaks state between runs",
  "After any history of runs, machine resets, new machines, changed inputs and unbound intermediate values, a run gives the values and symbolic gradients of the inputs bound at that time and nothing of earlier runs. Values handed out by read nodes match the latest run, and running with an input that has no value returns an error and does no damage to later runs.",
  ["histories", "programs", "inputs"],
  "random programs and random histories of up to seven runs with any subset of inputs changed between runs, reset or fresh machines, tape machines (tracing or not) or lisp machines on one graph",
  "Stale buffers and retained state only show on the second or later run with different inputs, in an order tests do not enumerate.",
  ["vm_tape.go", "vm_genera.go", "vm.go", "node.go", "graph.go", "values.go", "gorgonia.go", "op_tensor.go"],
  [("machine reset", "vm_tape.go, vm_genera.go"), ("input binding", "gorgonia.go, node.go"), ("unbinding", "graph.go, node.go")],
  "stateful property-based testing of run histories against a naive reference evaluator",
  "A history mixes resets, re-binding, machine kinds and failures; each run is compared with a fresh reference evaluation.")

P("P22", "Solvers apply their documented update rule for every step and option",
  "For any sequence of gradients, each solver (vanilla SGD, momentum, RMSProp, AdaGrad, Adam, AdamW, Barzilai-Borwein) changes every parameter by its published update rule, with the configured learning rate, decay, batch size, clipping and L1/L2 regularisation, for scalars and tensors alike. State is kept per parameter, and each step leaves the used gradients at zero.",
  ["histories", "inputs", "configurations"],
  "up to several parameters of mixed scalar and tensor shapes, several steps with fresh gradients, random option sets, float32/float64 (Barzilai-Borwein: float64 tensors)",
  "Tests check convergence on one function with default options; option combinations, scalar parameters and the state carried over steps are not reached.",
  ["solvers.go"],
  [("update rules", "solvers.go"), ("per-parameter state", "solvers.go"), ("clipping and regularisation", "solvers.go")],
  "stateful property-based testing of step sequences against a reference implementation of the update rules",
  "Each step is compared with the rule evaluated in float64 from the weights actually stored before the step.")

P("P08", "Convolution and pooling apply exactly their window at every position",
  "Convolving images with a bank of filters, laying image windows out as rows, and maximum or average pooling give, for every batch item, channel and output position, the sum of products, the elements, the maximum or the average of exactly the image elements under the window placed by the given size, padding, stride and dilation, with padding that counts as zero in sums and averages. The one-dimensional forms act along the last axis only, the global average covers each whole channel, and the output shape is the number of window positions that fit.",
  ["inputs", "configurations"],
  "batches up to twenty, channels up to three, sides up to six, every window size, stride, dilation and padding that fits (symmetric, and four-sided for maximum pooling; average pooling without padding), several variants over one image in one graph, float32/float64, both machines",
  "Tests check a few fixed images with one geometry each; the index arithmetic depends on five parameters per axis, and variants that differ in one parameter may share a node.",
  ["nn.go", "op_nn.go", "op_avg_pool.go"],
  [("window layout and its scatter", "op_nn.go"), ("maximum pooling", "op_nn.go"), ("average pooling", "op_avg_pool.go"), ("convolution as window layout times filters", "nn.go")],
  DIFF, "Padding of the maximum pool stays below the window size so that every window meets the image; the order of four-sided padding is the one the existing test fixes.")

P("P09", "Gradients through convolution and pooling are exact derivatives",
  "The gradient of a scalar cost through convolutions, window layouts and maximum or average pooling, from symbolic differentiation or from the lisp machine, is the derivative with respect to every image and filter element. Contributions of overlapping windows and of several uses of one image or filter add up, and padded positions contribute nothing.",
  ["inputs", "programs"],
  "one to four window operations over shared images, all geometries of the forward property, optional operations in between, no ties in maxima, float32/float64, tape machine with four ways of reading and lisp machine",
  "Tests differentiate one or two geometries; overlap, dilation, stride remainders and sharing decide which elements receive a contribution.",
  ["nn.go", "op_nn.go", "op_avg_pool.go", "differentiation.go", "vm_genera.go"],
  [("scatter of window gradients", "op_nn.go"), ("remembered positions of maxima", "op_nn.go"), ("shares of averages", "op_avg_pool.go")],
  "property-based differential testing of random programs against forward-mode automatic differentiation",
  "The global average pool has no derivative and is left out.")

P("P12", "Normalisation layers and their running statistics are exact in every mode",
  "Batch normalisation while training, and group normalisation always, scale and shift every element by exactly the mean and variance of its channel over the batch, or of its channel group within its item, and their gradients are the derivatives of that with respect to input, scale and bias. While training, batch normalisation moves its running mean and (unbiased) variance by the given momentum; in evaluation it uses those running statistics, in values and in gradients, and leaves them as they are. Setting, resetting and switching between the modes acts on the statistics as documented, over any history of runs.",
  ["inputs", "histories", "programs"],
  "two- and four-dimensional inputs up to 600 elements, all group counts, several momentum and epsilon values, one to three layers over shared inputs, histories of up to six runs with training or evaluation machines, new inputs, restored statistics and resets, float32/float64, both machines",
  "Tests normalise one fixed batch once per mode; a second run, a second layer, another epsilon, evaluation-mode gradients or a group above the block size are not reached.",
  ["nn.go", "op_nn.go", "op_group_norm.go"],
  [("batch statistics and running statistics", "op_nn.go"), ("mode switching by machines", "vm_tape.go, vm_genera.go"), ("block-wise moments", "op_group_norm.go")],
  "stateful property-based testing against a model of the running statistics, and differential testing against forward-mode automatic differentiation",
  "Channels or groups that hardly vary (variance below 0.02) are not drawn, since rounding dominates there.")

P("P17", "Equal expressions are shared and different ones never confused",
  "Whatever expressions are built on one graph, each has its own value and gradient: expressions that differ in an operation, any parameter of it, an operand, a constant's type, shape or elements, or an input are never treated as one. Building an equal deterministic expression again from the same operands gives the node that is already there.",
  ["programs", "inputs", "configurations"],
  "one or two operations applied up to eight times with drawn parameters to the same operands, slices of tensors with up to 1200 elements per side, up to six near-equal constants, programs over two inputs whose hash codes collide (found by search), and whole programs built twice; float32/float64, both machines, with gradients",
  "Tests build graphs of a few different nodes; confusion needs two expressions that differ only in what a hash leaves out, or a collision of hash codes, and shows as a wrong value far away.",
  ["graph.go", "node.go", "equalities.go", "analysis.go", "op.go", "op_math.go", "op_tensor.go", "op_nn.go", "op_reduction.go"],
  [("hash codes of nodes and operations", "node.go, op*.go"), ("merging of equal nodes", "graph.go, equalities.go"), ("value numbering when compiling", "analysis.go")],
  "property-based differential testing of near-equal expressions, with search for colliding hash codes",
  "Random nodes, dropouts and read nodes are not deterministic expressions and are never shared.")

P("P28", "Weight initialisers give the stated sequence or distribution",
  "A node made with a fixed initialiser (zeroes, ones, ranges, one value) holds exactly that sequence in row-major order, for every element type it supports and every shape. A node made with a sampling initialiser holds independent draws from the stated uniform or normal distribution, with the range or deviation that the Glorot and He formulas give for the shape and gain, and two nodes get different draws.",
  ["inputs", "configurations"],
  "shapes of zero to four dimensions, five element types for fixed initialisers, float32/float64 for sampled ones (He: float64), samples of at least 600 elements, random parameters and gains",
  "Tests look at one shape and a few sizes; the fan computation depends on rank, and a wrong law looks like plausible numbers.",
  ["weights.go", "node.go"],
  [("initialisers", "weights.go"), ("initialisation of nodes", "node.go")],
  "property-based testing with exact sequences and statistical oracles of nine standard deviations",
  "Draws are seeded by the clock, so the sample differs between runs; the tolerance makes a false alarm practically impossible.")

P("P29", "Random nodes and dropout draw afresh, follow their law and agree with users",
  "In every run each uniform, normal or binomial random node draws new values of its shape and type from its distribution, independently of every other random node, and all users of a node see the same draw. Dropout while training sets each element to zero with the given probability and divides the others by the probability of keeping them, with a mask of its own in every run, and in evaluation mode or with probability zero passes its input on unchanged; the gradient passes, equally scaled, exactly where elements were kept.",
  ["histories", "inputs", "configurations"],
  "one to three random nodes or dropouts per graph, often with equal parameters, at least 600 elements (and scalars for nodes), one to three runs, training and evaluation, tape (with and without tracing) and lisp machine, gradients at probability one half",
  "Tests fix the random numbers or look at one run; that draws are fresh and separate is a statement about histories and several nodes.",
  ["op_nn.go", "op_dropout.go", "gorgonia.go", "nn.go", "node.go"],
  [("random operations", "op_nn.go"), ("dropout and its gradient", "op_dropout.go"), ("identity of random nodes", "node.go, equalities.go")],
  "property-based testing of run histories with statistical oracles of nine standard deviations",
  "Gradients at other probabilities are a known finding.")

P("P23", "Training loops follow the exact loss and update every step",
  "In every step of a training loop, whatever the model, solver, options and history, the cost and the gradients are those of the weights stored at that moment and the data bound for that step, on the tape machine with bound gradients and on the lisp machine alike. The solver then moves exactly the parameters by its rule and clears their gradients; data are left as they are.",
  ["histories", "programs", "configurations"],
  "models of one to four operations (also convolution and normalisation layers) over shared inputs, random choice of parameters, six solvers with random options, up to six steps with new batches in between, float32/float64, both machines",
  "Tests train one fixed model and look at whether the loss falls; stale gradients, memory reused between runs or a parameter left out only slow learning down.",
  ["vm_tape.go", "vm_genera.go", "solvers.go", "dual.go", "differentiation.go", "op_math.go", "op_reduction.go"],
  [("reuse of values and gradients between runs", "vm_genera.go, dual.go"), ("bound gradients", "vm_tape.go"), ("solver steps", "solvers.go")],
  "stateful property-based testing of training histories against forward-mode automatic differentiation and update rules",
  "Each step is checked from the weights and gradients actually stored, so errors do not add up; the Barzilai-Borwein solver is only in the solver property.")

P("P24", "Values clone, copy, compare and zero without sharing or loss",
  "For every value of every element type and shape, a clone or copy holds the same elements, type and shape and shares no memory with the original; zeroing changes exactly that value. Two values compare equal exactly when element type, shape and all elements agree, and close exactly when type and shape agree and every pair of elements is equal up to rounding, in either order of the arguments; copying between element types is refused and changes nothing.",
  ["inputs"],
  "scalars and contiguous tensors up to four dimensions and sixty elements, seven element types, one-element differences, rounding differences, rearranged shapes, zeros of other types",
  "Tests compare a few hand-picked pairs; a confusion of shapes, a shared buffer or a missed element shows for particular combinations of type, rank and position only.",
  ["values.go", "values_utils.go", "values_primitives.go", "equalities.go", "gorgonia.go"],
  [("cloning, copying and zeroing", "values_utils.go"), ("equality and closeness", "equalities.go, values_utils.go"), ("nodes from values", "gorgonia.go")],
  "property-based testing of algebraic laws over generated values",
  "Vectors and row or column matrices of one length have equal shapes for the tensor library; such pairs are not drawn.")

P("P25", "Inputs hold exactly the last accepted value",
  "Whatever sequence of bindings and runs is made, each input holds exactly the last value that was accepted for it, and runs compute from those values. A binding of the wrong element type or shape, of something that is no value, or to a computed node is refused with an error and changes nothing.",
  ["histories", "inputs"],
  "one to three inputs of seven element types and up to three dimensions, histories of up to twelve bindings (values, Go scalars, results taken over after a run), refused bindings of all kinds, and runs on both machines",
  "Tests bind well-typed values once; which forms are checked, and what a refused binding leaves behind, depends on the form and on earlier bindings.",
  ["gorgonia.go", "node.go", "vm_tape.go", "vm_genera.go"],
  [("binding", "gorgonia.go, node.go"), ("taking over results", "vm_tape.go")],
  "stateful property-based testing against a map from inputs to values",
  "Vectors and row or column matrices of one length are equal shapes for the tensor library; such mismatches are not drawn.")

P("P26", "Watching for NaN or Inf reports exactly when one occurs",
  "A machine told to watch for NaN, for infinities or for both ends its run with an error when some operation of the program gives a value of a watched kind, and never otherwise. Watching changes no value, and works for programs with values of any element type.",
  ["programs", "inputs", "configurations"],
  "programs of one to seven operations over scalars and tensors up to three dimensions, inputs mixing ordinary numbers with zeros, negative and huge ones, tape machine with and without tracing, lisp machine forwards and backwards, float32/float64, comparison results among the values",
  "Tests watch one division; whether a value is looked at depends on its register, kind, machine and direction.",
  ["vm_tape.go", "vm_genera.go", "utils.go", "vm.go"],
  [("watching", "vm_tape.go, vm_genera.go"), ("scan for NaN and Inf", "utils.go")],
  "property-based differential testing of watched against unwatched runs",
  "On a backward run a gradient may be infinite before it becomes NaN; there a report for the other kind is accepted when either kind is left behind.")

P("P20", "A graph answers consistently about its nodes, edges, order and roots",
  "At every point of a graph's construction, all questions about it agree with one relation between nodes and their operands: nodes are found under unique identifiers, users and edges are exactly the reverse and the pairs of the operand relation, inputs and names are those given, and roots are the nodes nothing uses (or only a read uses). Both sorts list every node once with users before operands, a walk meets exactly the reachable nodes once each, asking changes nothing, and a removed node leaves nothing behind.",
  ["programs", "histories"],
  "graphs of up to about forty nodes built in one to three stages with questions in between, some with reads, symbolic gradients or removal of unused nodes, all pairs of nodes asked",
  "Tests build one small graph and ask once; answers are cached, so what is wrong depends on what was asked and added before.",
  ["graph.go", "walker.go", "node.go", "collections.go"],
  [("lookup, users, edges, roots and removal", "graph.go"), ("sorting and walking", "walker.go")],
  "stateful property-based testing of graph construction against the operand relation",
  "Roots are not asked of subgraphs.")

P("P21", "Clones and subgraphs compute on their own what the whole graph computes",
  "A clone of a graph has the same nodes, operands, users, roots, inputs and bound values, and from then on neither running nor rebinding one affects the other. A machine on the subgraph under chosen nodes needs only the inputs these nodes depend on, gives them the values they have in the whole graph, delivers the reads asked for inside (unless the subgraph is to be exact), and touches nothing outside.",
  ["programs", "histories"],
  "programs of one to eight operations of the whole catalogue, cloned before or after a run and given new inputs, or cut down to one or two nodes in three ways with unneeded inputs unbound, tape and lisp machine, float32/float64",
  "Tests clone and cut fixed graphs and mostly compare structure; whether parts are shared or missing shows only when both copies run with different data.",
  ["graph.go", "node.go", "vm_tape.go", "vm_genera.go", "compile.go"],
  [("cloning and subgraphs", "graph.go"), ("cloning of nodes", "node.go")],
  "property-based differential testing of clone, subgraph and original against a reference evaluation",
  "")

P("P27", "Rewriting for numerical stability changes neither values nor other uses",
  "However an expression is put together from logarithms, exponentials, sigmoids, softmax products, sums and differences with one, and negations, every part of it has the value and the gradients it denotes as written, also when the combination is one the library rewrites and parts of it are used elsewhere. The logarithm of a sigmoid, log1p of an exponential or of a negated sigmoid, and softplus stay accurate relative to their value for arguments of any magnitude, where the written form would overflow or cancel.",
  ["programs", "inputs"],
  "programs of two to eight of these operations with shared parts, with and without a cross entropy in the same graph, all values or all gradients; the stable forms at arguments of magnitude 1e-9 to 5000, scalars, vectors and matrices, float32/float64, both machines",
  "Tests look at the shape of the rewritten expression for one use; damage to other users of its parts, and accuracy at the far ends, need sharing and ranges.",
  ["stabilization.go", "operations.go", "math.go", "nn.go"],
  [("rewriting", "stabilization.go"), ("where it is applied", "operations.go"), ("softplus and sigmoid", "math.go")],
  "property-based testing against a reference evaluation and closed stable formulas",
  "The log taken directly of a softmax is the known finding softmax-then-log.")

P("P30", "The dataflow machine computes every node's value under any schedule",
  "On the machine that runs every node concurrently, each undisturbed run ends without error and gives every node of the graph the value the sequential evaluation gives it, free of data races, on every repetition, also after its inputs were overwritten. When an operation fails the run ends with an error that carries its cause; a cancelled run ends; and runs after that are right again. The values bound to the inputs are left as they were, and a traced run reports the beginning and the end of every step of every node.",
  ["schedules", "programs", "fault_sequences"],
  "programs of one to sixteen operations of the whole catalogue with values used many times, operations that give way or sleep among them, one to four runs of which some fail at a chosen operation or are cancelled before or in the middle, inputs overwritten between runs, float32/float64",
  "Tests run two small graphs on it under whatever schedule comes up; races, lost values and hangs depend on fan-out, operation kinds and timing.",
  ["x/vm/machine.go", "x/vm/node.go", "x/vm/pubsub.go", "x/vm/tracer.go", "x/dataviz/", "op_math.go", "op_tensor.go"],
  [("state machine of a node", "x/vm/node.go"), ("publishing values", "x/vm/pubsub.go, x/vm/machine.go")],
  "property-based testing with generated schedules and injected faults against a reference evaluation, under the race detector",
  "Inputs are bound before the machine is made; the empty graph is not drawn.")

P("P31", "Graphs that share nothing can be built and run at the same time",
  "Programs on separate graphs that are built, differentiated, compiled and run in separate goroutines at the same time each give the values and gradients they give alone, on every kind of machine. No data race occurs between them.",
  ["schedules", "programs"],
  "two to four programs at a time of up to five operations, drawn alike or apart, on tape, lisp and dataflow machines, forwards and with gradients, float32/float64",
  "Tests run one graph at a time; state shared behind the scenes (pools, constants, counters) only collides when two graphs meet in it.",
  ["perf.go", "const.go", "op.go", "node.go", "graph.go", "compile.go", "vm_tape.go", "vm_genera.go", "op_math.go"],
  [("pools", "perf.go"), ("shared constants", "const.go, op_types.go"), ("groups of nodes", "node.go, graph.go")],
  "property-based testing with concurrent programs against reference evaluation and differentiation, under the race detector",
  "")

P("P19", "Calls that do not fit their operands are refused with an error",
  "An operation called with operands of sizes, ranks, element types or graphs that do not fit together, with axes, indices or coordinates that do not exist, or with window geometry that leaves nothing, is refused: the call returns an error, or else running the graph does; it never panics and never gives a value. After a call that returned an error, the rest of the graph still runs and gives the right values.",
  ["inputs", "programs"],
  "about 140 kinds of misfit over all operations (element-wise, products, reductions, softmax family, data movement, convolution, pooling, normalisation, broadcasting, differentiation), with drawn shapes, positions and element types, one to three in a graph with a program of up to four operations, tape and lisp machine",
  "Tests check a few refusals with one shape each; whether a misfit is caught depends on the axis, the rank and which of the operands is off.",
  ["operations.go", "op_tensor.go", "op_reduction.go", "op_math.go", "nn.go", "op_nn.go", "broadcast.go", "typeSystem.go", "op.go", "differentiation.go"],
  [("type inference", "typeSystem.go"), ("shape inference", "op_*.go"), ("argument checks", "operations.go, nn.go")],
  "property-based testing with generated misuse of every operation",
  "Selecting by indices beyond the end is accepted (an existing test requires it); slices that end beyond an axis mean its end.")

P("P32", "Descriptions of a graph in the DOT language say what the graph is",
  "Marshalling a graph, drawing it, drawing a node with everything below it, or drawing the neighbourhood of a node gives a text in the DOT language that has exactly one labelled node for each node concerned, whatever the names of the inputs, and exactly the edges from nodes to their operands. Drawings number the edges by operand position; labels carry the node's name, identifier and shape; inputs, constants and computed nodes lie in their own clusters of a marshalled graph. Describing a graph does not change it.",
  ["programs", "inputs"],
  "programs of one to five operations of the whole catalogue, with and without gradients, before and after a run, with reads, grouped nodes and input names of quotes, brackets, bars, backslashes, line ends and keywords; all four forms; neighbourhoods of up to two levels each way",
  "Tests compare the text of one small graph with itself; names that need quoting, shared operands, gradients and partial graphs are left out.",
  ["encoding/dot/", "graph.go", "node.go", "templates.go", "internal/encoding/"],
  [("marshalling", "encoding/dot/topgraph.go, encoding/dot/node.go, encoding/dot/copy.go"), ("drawing", "graph.go, node.go, templates.go")],
  "property-based testing, reading the text back with an independent parser and comparing with the graph",
  "Group names are plain identifiers: the option is deprecated and its quoting is the business of a dependency.")

P("P33", "Lists and sets of nodes follow set algebra and leave operands alone",
  "Union, intersection, difference, symmetric difference, subset, membership, equality, cloning, adding and removing on sets of nodes, and difference, intersection, uniqueness, adding, membership and equality on lists of nodes, give what the same operations on mathematical sets give. No operation but those meant to changes its operands or anything else in the caller's memory.",
  ["inputs", "histories"],
  "lists of up to five nodes of two graphs and constants with repetitions, lying in larger arrays; three sets and histories of up to eight operations",
  "Tests use one list without repetitions and do not look at the operands afterwards.",
  ["collections.go", "node_set.go"],
  [("lists", "collections.go"), ("sets", "node_set.go")],
  "model-based property testing over histories of operations",
  "")

P("P16", "Operations neither change nor keep the lists they are given",
  "Axes, shapes, coordinates, slices, window geometry, broadcast patterns and lists of nodes passed to an operation, to the declaration of an input or to differentiation are read during the call and left as they were. What the caller writes into them afterwards changes neither the values nor the gradients of the graph.",
  ["inputs", "programs"],
  "every operation that takes such a list, with drawn parameters, operand shapes of one to four axes, with and without gradient, the lists rewritten in three ways after every call, the call repeated or not, float32/float64",
  "Tests pass literals; a list that is kept or changed only shows when its owner uses it again.",
  ["operations.go", "op.go", "nn.go", "op_reduction.go", "op_tensor.go", "op_math.go", "node.go"],
  [("operations that take lists", "operations.go, nn.go, broadcast.go"), ("making a node", "op.go, node.go")],
  "property-based testing, metamorphic: the same program with lists reused by their owner and with lists left alone",
  "")

P("P34", "Lifted functions chain like the plain ones and carry the first error",
  "A lifted function applied to nodes, or to results of earlier lifted functions, gives the node the plain function gives for the same operands; where operands come in containers of the caller's that know how to rebuild themselves, so does the result. When an operand is an error, or the plain function fails, the result is that first error and the function is not called after it; unwrapping gives node or error accordingly.",
  ["programs", "inputs"],
  "chains of up to eight applications of unary, axial, binary and broadcasting functions to nodes, tagged containers, other inputs and errors, with failures injected at drawn places",
  "Tests run one chain without failures; which error wins and what the container is depends on the order of operands and failures.",
  ["ermagerdmonards.go"],
  [("lifting", "ermagerdmonards.go")],
  "model-based property testing over chains of calls with injected failures",
  "")

P("P35", "Losses over labels equal their definition and have its gradient",
  "The connectionist temporal classification loss of every batch is the negative logarithm of the summed probability of all label paths that read as the target, summed over the batch or averaged per label and sequence; behind a log-softmax its gradient is the derivative, and zero beyond the length of a sequence. The binary cross entropy is its definition element by element, with exact gradients on both machines. Neither depends on padding of the targets, on other losses in the graph or on earlier runs.",
  ["inputs", "programs"],
  "batches of one to three sequences of up to five steps over two to four labels, empty, repeated and longest possible targets, targets padded or laid end to end, one or two weighted losses, both reductions, one or two runs with new inputs and targets; cross entropies of leaves and predictions among other operations; float32/float64",
  "Tests use three batches of equal lengths and constant targets; empty targets, repeats and different lengths take other paths.",
  ["op_ctc_loss.go", "nn.go"],
  [("path sums", "op_ctc_loss.go"), ("cross entropy", "nn.go")],
  "property-based testing against summation over all paths",
  "Targets always fit their sequence. The gradient of the averaging reduction is a known finding.")

P("P36", "Detection layers decode every box from its own cell and anchor",
  "Evaluating a YOLOv3 layer gives, for every image of the batch, grid cell and selected anchor, the box centre in the cell scaled by the stride, the box size scaled from that anchor, and the confidence and class scores, in the documented order. The input is left as it was, every run gives the same, and selecting an anchor that is not there is an error.",
  ["inputs", "configurations"],
  "batches of one or two images, grids of one to four cells each way, one to four anchors of which some are selected in any order, up to three classes, any stride up to eight, one to three runs with old or new inputs",
  "Tests use one image, all anchors and one run.",
  ["op_yolo.go"],
  [("decoding", "op_yolo.go")],
  "property-based testing against the definition",
  "Evaluation of float32 only, which is what the layer supports; its training mode is not covered.")

P("P37", "Watching, logging or compiling in part does not change what is computed",
  "A machine with any combination of logger, watched nodes or registers, value format, logging directions, watches for NaN and Inf and tracing gives the same values and gradients as one without. A part of a graph compiled as a function gives its outputs the values they have in the whole graph, computes nothing else, and is refused when a named input is not used.",
  ["configurations", "programs"],
  "programs of one to seven operations of the whole catalogue, with and without gradients, tape and lisp machine, any options in any order; one to three outputs and any used inputs",
  "Tests log one or two graphs without looking at the results; formats, directions and which nodes are compiled vary freely.",
  ["vm.go", "vm_tape.go", "vm_genera.go", "compile.go"],
  [("logging and watching", "vm_tape.go, vm_genera.go"), ("compiling a function", "compile.go")],
  "property-based testing, metamorphic over machine options, against a reference evaluation",
  "The watch for clashing pointers is a development aid that reports the reuse of memory and is not drawn.")

P("P38", "Every cost of a graph has its own gradient",
  "When several scalar costs of one graph are differentiated one after the other, with respect to the same or different inputs, every call gives the gradients of its own cost, whatever was differentiated before. Operations in the graph that the cost does not use, differentiable or not, neither change the result nor make the call fail.",
  ["programs", "histories"],
  "graphs of two to nine operations of the differentiable catalogue with two or three costs that share inputs and intermediate results, up to two operations no cost uses, two to four calls each with a cost and a subset of its inputs; float32/float64",
  "Tests differentiate one cost per graph; what an earlier call left on shared nodes shows only with a second one.",
  ["differentiation.go", "gorgonia.go"],
  [("backpropagation", "differentiation.go")],
  "property-based testing over sequences of differentiations against forward-mode derivatives",
  "")

P("P39", "Gradients can be differentiated again, exactly",
  "For element-wise, broadcast, matrix product, reduction and shape operations, a gradient is itself an expression of the graph: a weighted sum of its elements can be differentiated with respect to any input it depends on, and gives the second derivative.",
  ["programs", "inputs"],
  "graphs of one to three operations over a cost, the gradient of any input, any weights, and any subset of the inputs it depends on; float32/float64",
  "No test takes a second derivative; it runs through the gradients of gradient nodes for every operation and shape.",
  ["differentiation.go", "operatorPointwise_unary.go", "operatorPointwise_binary.go", "op_tensor.go", "op_reduction.go"],
  [("gradients of gradient nodes", "differentiation.go, op_tensor.go")],
  "property-based testing against hyper-dual second derivatives",
  "Softmax, sparsemax, indexing, upsampling, convolution, pooling and normalisation are left out: their gradients are not differentiable in the library.")

P("P40", "Backpropagation from several outputs adds up what each contributes",
  "Backpropagating any number of outputs of any shape, each with its own output gradient, gives for every requested node, an input or an intermediate value, the derivative of the sum of the outputs weighted by those gradients, in the order the nodes were asked for.",
  ["programs", "inputs"],
  "graphs of the differentiable catalogue with one to three outputs of any shape, output gradients given as inputs or constants, one or more inputs or intermediate values; float32/float64",
  "Tests call it with one scalar output and a gradient of one; how contributions of several outputs and intermediate requests meet depends on the graph.",
  ["differentiation.go", "gorgonia.go"],
  [("backpropagation", "differentiation.go: Backpropagate")],
  "property-based testing against forward-mode derivatives",
  "")

P("P41", "What a node announces is what its value turns out to be",
  "The shape, number of dimensions, element type, size, strides and kind (scalar, vector, row or column vector, matrix) that a node, including every node differentiation added, announces before a run are those of the value it has after the run.",
  ["programs"],
  "programs of the whole catalogue, half of them with the gradient of a cost, tape and lisp machine; every node of the graph; float32/float64 and results of other element types",
  "Tests compare announced shapes of single operations; inference must agree with execution for every operation, parameter and operand shape.",
  ["node.go", "op.go", "op_tensor.go", "op_reduction.go", "op_math.go", "op_nn.go", "type.go", "shape.go"],
  [("shape inference", "InferShape of every operation"), ("type inference", "op.go, type.go"), ("announcements", "node.go")],
  "property-based testing, inference compared with execution",
  "")

P("P42", "A node is exactly what its declaration says, or is refused",
  "A node declared as scalar, vector, matrix or tensor, made from a value, as a constant or as a one-hot vector has exactly the element type, shape, name, graph, value and gradient it was given, for every element type and rank and in whatever order the options come; a copy in another graph has the same there and shares no memory with it. A declaration that contradicts itself (a value or gradient of another shape or element type, a gradient without a value, another graph, a position that is not there) is refused and leaves no node in the graph.",
  ["inputs", "configurations", "histories"],
  "one to four, rarely thirty, declarations in one graph, up to five dimensions and three hundred elements, seven element types, options in any order, nine kinds of contradiction, copies written to afterwards",
  "Tests declare a handful of nodes in the usual order of options; contradictions and rare element types or ranks are not tried.",
  ["gorgonia.go", "node.go", "graph.go", "values_utils.go"],
  [("declarations", "gorgonia.go"), ("options", "node.go"), ("copies", "node.go: CloneTo")],
  "property-based testing of declarations against their description",
  "Row and column shapes given to a vector, and one-element tensors given to a scalar, are accepted by the library and not drawn.")
