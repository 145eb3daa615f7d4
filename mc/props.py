"""The properties (source of properties.jsonl and of MANIFEST.json, see gen.py)."""

L = "src/decomon/layers/"
B = "src/decomon/backward_layers/"
M = "src/decomon/models/"
W = "src/decomon/wrapper.py"
MODEL = "bounded model checking of the implementation: exhaustive enumeration of "


def P(id, title, statement, over, text, why, files, mech, technique, note, extra=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note)


TRUST = "Exhaustive within the stated lattices of networks, weights, domains and points; says nothing about values outside of them. Trusts keras' own forward pass as the oracle."

PROPS = [
    P("C01", "Bounds of a converted network contain the network on the whole box",
      "Converting any supported keras network, with any conversion method and any slope option, yields a model whose constant and affine lower and upper bounds enclose the value of every output of the original network at every point of the input box (a final softmax being left out: the bounds are those of the logits). Degenerate boxes and networks mixing dense, convolutional, normalising, reshaping, merging and nested parts are included.",
      ["inputs", "programs", "configurations"],
      "every network assembled from the supported layers, every weight assignment, every conversion method and slope, every box and every point inside it",
      "The tests convert a few fixed models and compare bounds on a handful of sampled points and one or two boxes; compositions of layers, slopes and methods are hardly crossed.",
      [M + "convert.py", M + "forward_cloning.py", M + "backward_cloning.py", M + "crown.py", "src/decomon/core.py"],
      [("conversion entry point", M + "convert.py:clone"), ("forward propagation through the graph", M + "forward_cloning.py:convert_forward_functional_model"), ("backward propagation through the graph", M + "backward_cloning.py:crown_model"), ("composition of backward bounds", M + "crown.py:merge_with_previous")],
      MODEL + "all layer words up to a depth over a macro alphabet x methods x slopes x box lattice x point lattice, each compared with the real network", TRUST),
    P("C02", "Bounds over an Lp ball contain the network on the whole ball",
      "When the input domain is an Lp ball (p in 1, 2, infinity), the constant and affine bounds of a converted network enclose the value of the original network at every point of the ball, for every conversion method and every radius, zero included.",
      ["inputs", "programs", "configurations"],
      "every supported network, p, radius, centre, conversion method and point of the ball",
      "Tests exercise ball domains on isolated layers or on the identity only, with one radius.",
      ["src/decomon/core.py", M + "utils.py", M + "convert.py", M + "backward_cloning.py"],
      [("norm ball domain", "src/decomon/core.py:BallDomain"), ("dual norm bounds", "src/decomon/core.py:get_upper_ball"), ("initial bounds of the domain", M + "utils.py:convert_to_forward_functional_model input preparation")],
      MODEL + "layer words x p x radii x centres x methods x ball points", TRUST),
    P("C03", "Extrema of affine functions over the input domain are exact",
      "The upper and lower bounds computed for an affine function over a box or an Lp ball equal its exact maximum and minimum over that domain, whatever the signs of the coefficients, and for any number and shape of the outputs, shared by the samples of a batch or not.",
      ["inputs"],
      "every box (degenerate ones included), ball, coefficient matrix, offset and output shape",
      "Tests compare against sampled points, which bounds only one side, and only for the shapes of the fixtures.",
      ["src/decomon/core.py"],
      [("box extrema", "src/decomon/core.py:get_upper_box/get_lower_box"), ("ball extrema", "src/decomon/core.py:get_upper_ball/get_lower_ball"), ("domain objects", "src/decomon/core.py:BoxDomain/BallDomain")],
      MODEL + "coefficient, offset and domain lattices; differential comparison with an exact reference (vertex enumeration, dual norm in float64)", TRUST),
    P("C04", "Activation relaxations contain the activation on the whole interval",
      "For relu, sigmoid, tanh, softsign, softplus, exponential, softmax and linear activations, the forward bounds and the backward linear relaxations contain the activation value for every pre-activation compatible with the incoming bounds, for every propagation mode and slope option.",
      ["inputs", "configurations"],
      "every incoming abstract value (constant and affine bounds over a box or a ball, zero inside, at the border or outside), every compatible concrete value, every slope and mode",
      "Tests only look at a few intervals and the concrete values of the fixtures; relaxations are unsound typically between the sampled points or for one sign configuration.",
      [L + "activations.py", L + "utils.py", "src/decomon/utils.py", B + "activations.py"],
      [("relu hull", "src/decomon/utils.py:relu_ / get_linear_hull_relu"), ("s-shaped hull", "src/decomon/utils.py:get_linear_hull_s_shape"), ("backward activations", B + "activations.py")],
      MODEL + "abstract elements x concrete values x activations x slopes x modes on the real layers", TRUST),
    P("C05", "Forward bounds through linear and reshaping layers contain the layer",
      "The forward bounds of dense, 2D convolution, batch normalisation, flatten, reshape, permute and dropout layers contain the layer output (in inference) for every input compatible with the incoming bounds, with the shape and ordering of the original layer, for every configuration of the layer (strides, padding, data format, axis, bias, rank) and every propagation mode.",
      ["inputs", "configurations"],
      "every layer configuration, weights, incoming abstract value and compatible concrete value",
      "Tests use one or two configurations of each layer and the incoming bounds of the fixtures, where lower and upper weights are almost always identical.",
      [L + "decomon_layers.py", L + "decomon_reshape.py", L + "core.py"],
      [("dense/conv/batchnorm", L + "decomon_layers.py"), ("reshaping", L + "decomon_reshape.py")],
      MODEL + "layer configurations x weights x abstract elements x concrete corner values on the real layers", TRUST),
    P("C06", "Max pooling bounds contain the pooled values",
      "The forward bounds of max pooling contain the output of the pooling for every input compatible with the incoming bounds, in the fast and in the precise variants, for every window, stride, padding and data format, and the linear hulls of a maximum enclose it.",
      ["inputs", "configurations"],
      "every pooling configuration, incoming abstract value and compatible concrete value",
      "The only test uses 2x2 windows with valid padding and channels last; hull tests sample points.",
      [L + "maxpooling.py", L + "utils.py", L + "utils_pooling.py"],
      [("pooling layer", L + "maxpooling.py:DecomonMaxPooling2D"), ("maximum along an axis", L + "utils.py:max_"), ("hulls", L + "utils_pooling.py")],
      MODEL + "pooling configurations x abstract elements x concrete corner values on the real layers", TRUST),
    P("C07", "Forward bounds through merging layers contain the merged value",
      "The forward bounds of add, subtract, average, maximum, minimum, concatenate, multiply and dot contain the merged value for every combination of operand values compatible with the incoming bounds, for every accepted number, rank and axis of the operands and every propagation mode.",
      ["inputs", "configurations"],
      "every merge layer, number/shape of operands, incoming abstract values and compatible concrete values",
      "Tests merge two tensors with the fixtures' bounds, whose operands are correlated.",
      [L + "decomon_merge_layers.py", L + "utils.py", "src/decomon/utils.py"],
      [("merge layers", L + "decomon_merge_layers.py"), ("maximum/minus/subtract/add", "src/decomon/utils.py"), ("McCormick products", L + "utils.py:multiply")],
      MODEL + "merge layers x operand shapes x abstract elements x corner combinations of the operands on the real layers", TRUST),
    P("C08", "Backward relaxations of linear layers equal the layer",
      "The backward relaxation of dense, 2D convolution, batch normalisation, flatten, reshape, permute, dropout and input layers bounds every output of the layer by affine functions of its flattened input for every input value, whether the relaxation is built from the keras layer or from its converted counterpart.",
      ["inputs", "configurations"],
      "every layer configuration (kernel, stride, padding, data format, axis, permutation), weights and input value",
      "Tests compare a few configurations; the matrix form of a convolution or permutation has many independent index computations that coincide on square or symmetric cases.",
      [B + "backward_layers.py", B + "utils_conv.py", B + "core.py"],
      [("backward layers", B + "backward_layers.py"), ("matrix of a convolution", B + "utils_conv.py:get_toeplitz")],
      MODEL + "layer configurations x weights x inputs on the real backward layers", TRUST),
    P("C09", "Backward relaxations of merges are sound for each operand",
      "The backward relaxations of the sum, difference, maximum, minimum and product of two tensors, and of the average of several, give, for each operand, affine bounds of the composed output that hold for every value of that operand and every compatible value of the other ones, whatever the signs of the coefficients being propagated.",
      ["inputs"],
      "every pair of incoming abstract values, coefficient matrix being propagated, and compatible concrete values",
      "Tests only propagate identity coefficients of size one.",
      [B + "utils.py", B + "backward_merge.py"],
      [("backward add/subtract/maximum/minimum", B + "utils.py")],
      MODEL + "operations x abstract elements x propagated coefficients x concrete corner values on the real functions", TRUST),
    P("C10", "Adversarial certificates are never wrong",
      "A negative adversarial score of a box (or of each of its sub-boxes) implies that no point of the box makes any target class reach the source class, and a positive check for a guaranteed adversarial example implies that such a point exists; range, upper and lower scores enclose the network on the whole box for any set of outputs and target labels.",
      ["inputs", "programs", "configurations"],
      "every network, box, source label, set of target labels, way of giving labels and number of sub-boxes",
      "Tests check one model with few label combinations and cannot quantify over the points of the box.",
      [W, "src/decomon/core.py", M + "convert.py"],
      [("adversarial score", W + ":get_adv_box"), ("attack check", W + ":check_adv_box"), ("ranges", W + ":get_upper_box/get_lower_box/get_range_box")],
      MODEL + "networks x boxes x label sets x representations x splits, each verdict compared with all lattice points", TRUST),
    P("C11", "Noise certificates and ranges are never wrong",
      "For a centre, a radius and an Lp norm, the range and adversarial score computed around the centre are sound for every point of the ball: the range encloses every output and a negative score excludes every target class from reaching the source class.",
      ["inputs", "programs", "configurations"],
      "every network, centre, radius, p, source and target labels",
      "Tests evaluate one model on a few points.",
      [W],
      [("adversarial score in a ball", W + ":get_adv_noise"), ("range in a ball", W + ":get_range_noise")],
      MODEL + "networks x centres x radii x norms x label sets, each verdict compared with all ball lattice points", TRUST),
    P("C12", "Results do not depend on batching or on the other samples",
      "Every bound and score computed for a sample is the same whatever the batch size chosen, the position of the sample in the batch and the other samples evaluated with it.",
      ["inputs", "configurations", "histories"],
      "every batch size, permutation and sub-selection of a set of samples, and every function taking a batch size",
      "Tests run one batch size on the fixtures.",
      [W, M + "models.py"],
      [("batch splitting", W), ("model on one batch", M + "models.py:DecomonModel.predict_on_single_batch_np")],
      MODEL + "subsets, orders and batch sizes of a sample set, differential against single-sample evaluation", TRUST),
    P("C13", "Box refinement covers the box and keeps results sound and tight",
      "Splitting a box into sub-boxes yields boxes whose union is the original box without leaving it, in the largest power of two not above the requested number, and results aggregated over the sub-boxes are sound for the whole box and for each sample separately.",
      ["inputs", "configurations"],
      "every batch of boxes, number of splits, input dimension and number of outputs",
      "Tests split one box once.",
      [W],
      [("splitting", W + ":refine_boxes/refine_box"), ("aggregation", W)],
      MODEL + "box batches x split counts x functions; cover checked on all cell centres of the refined lattice", TRUST),
    P("C14", "Conversion and bound computations leave the original network intact",
      "Converting a network any number of times, with any methods and in any order, and evaluating the converted models never changes the weights, structure, configuration or predictions of the original network, nor the bounds produced by models converted earlier.",
      ["histories", "configurations"],
      "every sequence of conversions and evaluations up to a depth, over the networks of the alphabet",
      "Tests convert each model once and never re-check the original afterwards.",
      [M + "convert.py", M + "utils.py", M + "forward_cloning.py", "src/decomon/keras_utils.py"],
      [("preprocessing", M + "utils.py:preprocess_keras_model"), ("weight sharing", "src/decomon/keras_utils.py:share_layer_all_weights")],
      MODEL + "operation sequences (convert, evaluate, update) up to a depth, with snapshots compared after every step", TRUST),
    P("C15", "Freezing and unfreezing controls exactly the trainable variables",
      "After any sequence of freezing, unfreezing, resetting and training operations, the trainable variables of a converted model (and of the training models built on it) are exactly the weights of the original network, unless they are frozen, and the fine-tuning parameters, unless they are frozen; the other variables are the non trainable ones, none is lost or duplicated; a training step leaves frozen variables unchanged; resetting restores the initial fine-tuning parameters; freezing never changes the bounds, nor the trainable variables of the original network or of its other conversions.",
      ["histories"],
      "every sequence of freeze/unfreeze/reset operations on every kind of layer and model",
      "Tests never call these operations in sequence.",
      [M + "models.py", L + "core.py", B + "backward_layers.py", L + "decomon_layers.py"],
      [("model level operations", M + "models.py:DecomonModel"), ("layer level operations", L + "core.py")],
      "explicit-state search over the real objects: breadth-first over all freeze/unfreeze/reset sequences with a reference state machine", TRUST),
    P("C16", "Changing the input domain of a converted model stays sound",
      "After any sequence of domain changes of a converted model, its bounds are sound for the domain currently set, and asking for an incompatible domain is refused rather than answered wrongly.",
      ["histories", "configurations"],
      "every sequence of domain changes and evaluations up to a depth",
      "Tests change the domain at most once and do not check the bounds afterwards.",
      [M + "models.py", W],
      [("domain change", M + "models.py:DecomonModel.set_domain")],
      "explicit-state search over sequences of domain changes on the real model, bounds compared with lattice points of the current domain", TRUST),
    P("C17", "Configurations rebuild equivalent layers",
      "The configuration (get_config) of every layer of a converted network (forward, backward, composition of bounds) and of every metric and loss layer rebuilds (from_config) a layer which has the same configuration, including its mode, domain, slope and fine-tuning options, and computes the same bounds once given the same weights.",
      ["configurations"],
      "every layer class and every combination of its mode, slope, domain, finetune and shape options",
      "Tests compare a few attributes of one configuration per class, not the bounds.",
      [L + "core.py", B + "core.py", B + "backward_layers.py", M + "crown.py", "src/decomon/metrics/loss.py", "src/decomon/metrics/metric.py"],
      [("get_config/from_config", L + "core.py"), ("options of the activations", L + "decomon_layers.py:DecomonActivation"), ("domains", "src/decomon/core.py:PerturbationDomain")],
      MODEL + "layer classes x options, differential between the object and its rebuilt twin on abstract elements", TRUST),
    P("C18", "Any admissible fine-tuning parameter keeps the bounds sound",
      "For a model converted with fine-tuning, every value of the fine-tuning parameters in [0, 1] gives bounds that enclose the network on the whole domain, in forward and backward propagation and over boxes and balls, and their initial values give the bounds of the conversion without fine-tuning; the constraint on these parameters maps every value into [0, 1]; the bounds tuned by get_upper_box_tuning and get_lower_box_tuning are sound, never looser than the untuned ones, and leave the model unchanged.",
      ["inputs", "configurations"],
      "every assignment of the fine-tuning parameters, network, method, domain",
      "Tests only use the initial parameters.",
      [L + "core.py", "src/decomon/core.py", "src/decomon/utils.py", B + "activations.py", L + "utils.py"],
      [("fine-tuned extrema", "src/decomon/core.py:get_upper_ball_finetune"), ("clipping", L + "utils.py:ClipAlpha")],
      MODEL + "parameter lattice assignments x networks x methods x domains x points", TRUST),
    P("C19", "Bounds are exact where nothing has to be relaxed",
      "On every domain where all the relu of a network made of affine layers and relu are stable, the methods propagating affine bounds return its exact extrema over the box or the ball and affine bounds equal to the network, and the methods propagating constant bounds return its exact extrema over the box; on a single point domain every method returns the value of the network (except where the relaxation is loose by design, softplus); the constant bounds are never looser than the affine bounds returned with them.",
      ["inputs", "programs", "configurations"],
      "every linear or stable network, box, ball, slope and method",
      "Tests check soundness only, so an over-loose bound passes.",
      ["src/decomon/core.py", "src/decomon/utils.py", M + "convert.py", M + "crown.py", L + "decomon_layers.py", B + "backward_layers.py"],
      [("affine composition", M + "crown.py:merge_with_previous"), ("relu hull", "src/decomon/utils.py")],
      MODEL + "layer words x stable domains x methods x slopes, equality with the exact extremum obtained by vertex enumeration", TRUST),
    P("C20", "Interval bounds are exact interval arithmetic and monotone",
      "The interval bounds of a network are those of interval arithmetic layer by layer (elementwise maximum, minimum and product only have to contain it); if a box is included in another one then its interval bounds are included in those of the larger box; splitting boxes further never loosens the bounds, and a hybrid propagation is never looser than the interval one.",
      ["inputs", "programs"],
      "every pair of nested boxes and every network of the alphabet",
      "Tests never compare two boxes, nor check that bounds are tight.",
      ["src/decomon/core.py", L + "decomon_layers.py", L + "utils.py", W],
      [("interval propagation", L + "decomon_layers.py"), ("aggregation over sub-boxes", W)],
      MODEL + "layer words x weights x pairs of nested lattice boxes, lockstep with an independent interval interpreter", TRUST),
    P("C21", "The bounds do not depend on the backend or on the way they are predicted",
      "The bounds of the same network, method and domain are the same with the tensorflow and torch backends, and the same when they are predicted by batches (compiled, with an unknown batch size) as on a single batch, up to rounding.",
      ["configurations", "inputs"],
      "every network, method and box of the alphabet",
      "Tests run each backend separately and never compare values.",
      ["src/decomon/keras_utils.py", M + "crown.py", "src/decomon/core.py"],
      [("backend specific helpers", "src/decomon/keras_utils.py")],
      MODEL + "networks x methods x boxes run in lockstep on two backends", TRUST),
    P("C22", "Robust losses and metrics compute what their definition states",
      "The adversarial score and check, the upper score and the upper, lower and adversarial losses computed by the formal models and loss functions equal their definition applied to the bounds of the network, for every set of source labels, and bound from above the corresponding quantity of the network at every point of the domain; so do the cross-entropy, asymptotic cross-entropy and robust radius models (their variants with backward bounds excepted), and the bounds of the categorical cross-entropy contain its values.",
      ["inputs", "configurations"],
      "every bounds, labels, norm and mode",
      "Tests only build the layers or compare to a single hand-made model.",
      ["src/decomon/metrics/loss.py", "src/decomon/metrics/metric.py", "src/decomon/metrics/utils.py"],
      [("metrics", "src/decomon/metrics/metric.py"), ("losses", "src/decomon/metrics/loss.py")],
      MODEL + "bounds x labels x modes, compared with the definition and with all lattice points", TRUST),
    P("C23", "Bounds of linear combinations of outputs are sound",
      "When a conversion is given the coefficients of linear combinations of the outputs, the returned bounds enclose these combinations of the original network's outputs at every point of the domain, for every method and coefficients.",
      ["inputs", "programs", "configurations"],
      "every network, coefficients, method and point of the domain",
      "Tests use one identity-like coefficient matrix.",
      [M + "convert.py", M + "backward_cloning.py", M + "models.py"],
      [("propagation of final coefficients", M + "backward_cloning.py:crown_model"), ("input preparation", M + "utils.py")],
      MODEL + "networks x coefficient matrices x methods x boxes x points", TRUST),
    P("C24", "Difference-of-convex decompositions sum to the layer output",
      "When a layer propagates a difference-of-convex decomposition, the two components returned sum to the layer output, whatever the decomposition of the input and the weights, and the first one stays convex and the second one concave when those of the input are.",
      ["inputs", "configurations"],
      "every layer supporting the decomposition, weights, decomposition of the input",
      "Tests check it on the fixtures' decompositions only.",
      [L + "decomon_layers.py", L + "utils.py", "src/decomon/utils.py"],
      [("decomposition of layers", L + "decomon_layers.py")],
      MODEL + "layers x weights x decompositions x concrete values", TRUST),
    P("C25", "Unsupported requests are refused, never bounded wrongly",
      "Asking to convert any network (with clone) with any method, slope and domain, and computing its bounds, either raises an error or returns sound bounds; wrong bounds are never silently returned, whatever unsupported layer, layer option, merge, shared or nested layer, custom layer or model, or input form the network has; and a batch of boxes where a lower corner is above the upper one is refused.",
      ["programs", "configurations"],
      "every network of an alphabet extended with unsupported layers, arguments and graphs, crossed with all methods and options",
      "Tests only check a few explicit error cases.",
      [M + "convert.py", L + "convert.py", B + "convert.py", M + "utils.py"],
      [("conversion of layers", L + "convert.py:to_decomon"), ("backward conversion", B + "convert.py:to_backward")],
      MODEL + "networks of an extended alphabet x methods x options; accept/reject decision and soundness of accepted ones", TRUST),
    P("C26", "Preprocessing a network preserves its function",
      "Preparing a network for conversion (separating activations from their layers, unnesting, renaming, removing a final softmax) keeps the function it computes, its weights and its inputs and outputs, for every graph shape.",
      ["programs"],
      "every graph assembled from the layer alphabet, nested and shared layers included",
      "Tests check a few fixed models.",
      [M + "utils.py", L + "utils.py", "src/decomon/keras_utils.py"],
      [("splitting of activations", M + "utils.py:split_activations_in_keras_model"), ("preprocessing", M + "utils.py:preprocess_keras_model")],
      MODEL + "graphs up to a depth; differential comparison of the two networks on a point lattice", TRUST),
    P("C27", "Elementwise arithmetic on bounds is sound",
      "The arithmetic available on bounds (sum, difference, negation, maximum, minimum, product, absolute value, exponential, logarithm, power, inverse, sum along an axis, sorting) returns bounds containing the operation applied to every compatible concrete value.",
      ["inputs", "configurations"],
      "every incoming abstract values and compatible concrete values, every mode",
      "Tests sample a few points of the fixtures.",
      [L + "utils.py", "src/decomon/utils.py"],
      [("functions on bounds", L + "utils.py")],
      MODEL + "operations x abstract elements x concrete values on the real functions", TRUST),
    P("C28", "Converted models follow the weights of the original network",
      "A converted model shares the weights of the original network: after any sequence of updates of the original weights (assignment, loading, training step) its bounds are sound for the current network and equal those of a fresh conversion, for every kind of layer; a forward conversion asked not to share the weights keeps the bounds it had.",
      ["histories", "configurations"],
      "every sequence of weight updates up to a depth, network and method",
      "Tests convert once and never update the weights afterwards.",
      ["src/decomon/keras_utils.py", L + "core.py", L + "decomon_layers.py", M + "convert.py"],
      [("weight sharing", L + "core.py:share_weights")],
      "explicit-state search over sequences of weight updates on the real objects, compared with a fresh conversion after every step", TRUST),
    P("C29", "Bounds keep the floating point precision of keras",
      "When keras works in another precision (floatx float16 or float64), the bounds of a network converted by any method, and the scores and ranges computed from them, are given in that precision and enclose the network up to the rounding of that precision only: no step silently computes in a lower one, whatever the layers and the magnitude of the domain.",
      ["programs", "configurations", "inputs"],
      "every network, method, domain and precision",
      "Tests compare values with a tolerance far above the rounding of float64, on weights that float32 represents exactly.",
      [B + "utils_conv.py", L + "core.py", "src/decomon/core.py", "src/decomon/wrapper.py", M + "utils.py"],
      [("matrix of a convolution", B + "utils_conv.py:get_toeplitz"), ("extrema over the domain", "src/decomon/core.py")],
      MODEL + "networks x methods x precisions x lattices of domains and points (shrunk and moved away from 0 included)", TRUST),
    P("C30", "Equivalent ways of writing a network give the same bounds",
      "The bounds depend only on the function graph of the network: writing it in another way (Sequential or functional, nested or flat, activations embedded in layers or separate, layers renamed, neutral layers inserted) gives the same bounds with every method; permuting the inputs or the outputs permutes the bounds, and negating the outputs negates and swaps the lower and upper ones.",
      ["programs", "configurations"],
      "every network, rewriting and method",
      "Tests convert each network in one form and never compare two forms.",
      [M + "forward_cloning.py", M + "backward_cloning.py", M + "utils.py", M + "convert.py", L + "convert.py"],
      [("conversion", M + "convert.py:clone"), ("preprocessing", M + "utils.py:preprocess_keras_model")],
      MODEL + "networks x rewritings x methods, compared pairwise on the real code over a lattice of domains", TRUST),
    P("C31", "All the representations of the bounds agree",
      "A converted model gives its bounds in the representation asked for (constant, affine or both): the bounds do not depend on which ones are asked for, the affine ones come with the domain they hold on, and the constant ones are the exact extremum of the affine ones over the domain (or tighter, for a hybrid propagation); get_range_box and get_range_noise (and get_upper_*, get_lower_*) return these constant bounds whatever the representation of the model.",
      ["programs", "configurations", "inputs"],
      "every network, method, domain and requested representation",
      "Tests check each representation alone, for the inclusion of sampled points.",
      [M + "convert.py", M + "utils.py", L + "core.py", "src/decomon/core.py", W],
      [("conversion between representations", M + "utils.py:Convert2Mode"), ("requested representation", M + "convert.py:convert")],
      MODEL + "networks x methods x domains x requested representations, compared pairwise on the real code and with the exact extremum", TRUST),
    P("C32", "Each method gives the bounds of the algorithm it names",
      "On a network of affine layers and relu (sums, differences, averages and concatenations included for the forward methods), the bounds of a conversion are exactly those of the algorithm its method names, with the triangular relaxation of relu of its slope: interval arithmetic, forward affine propagation with exact concretisation over the domain, the hybrid of both, or backward propagation with the intermediate bounds of crown, or of the named forward method; hence neither unsound nor looser than promised.",
      ["programs", "inputs", "configurations"],
      "every network, method, slope, box and ball",
      "Tests only check the inclusion of sampled points, so that any looser result passes.",
      [M + "forward_cloning.py", M + "backward_cloning.py", M + "crown.py", L + "decomon_layers.py", L + "core.py", B + "backward_layers.py", "src/decomon/core.py", "src/decomon/utils.py"],
      [("backward propagation", M + "backward_cloning.py:crown_"), ("forward propagation", M + "forward_cloning.py"), ("relaxation of relu", "src/decomon/utils.py:get_linear_hull_relu"), ("extrema over the domain", "src/decomon/core.py")],
      MODEL + "networks x methods x slopes x lattice domains, lockstep with an independent implementation of the algorithms", TRUST),
]
