import json
P=[]
def prop(id,title,statement,over,text,why,files,mech,**kw):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=["parametricmatrixmodels/"+f for f in files],mechanism=[dict(name=n,where="parametricmatrixmodels/"+w) for n,w in mech],**kw)))

prop("T01","Training never changes frozen parameters",
 "Parameters of modules that are frozen when training starts come out of training exactly as they went in, and every non-frozen parameter array is updated with its own gradient and nobody else's. This holds for every loss, model, dataset, batch size, number of epochs, optimiser setting and pattern with at least one trainable array, unless a callback of the user rewrites the parameters.",
 ["inputs","configurations","histories"],"every loss/gradient function, data, epoch count, batch count, freeze pattern",
 "Tests train a couple of models for a few epochs with one freeze pattern; the guarantee is over all epochs and all patterns.",
 ["training.py","model.py","modules/basemodule.py"],
 [("_train_step","training.py:_train_step"),("_train","training.py:_train"),("trainable flags","model.py:Model.train"),("freeze","modules/basemodule.py:BaseModule.freeze")])
prop("T02","Training returns the snapshot with the lowest validation loss",
 "Training evaluates the validation loss of the starting parameters and of the parameters after every epoch, and returns the parameters, model state and random state belonging to the lowest value seen (the earliest on ties), as they were before any callback of the user ran. The returned parameters are therefore never worse on the validation data than the ones training started from.",
 ["inputs","histories","configurations"],"every sequence of validation losses, loss function, model, data, and number of epochs",
 "The order in which validation losses rise and fall is data dependent; a test sees one trajectory.",
 ["training.py","model.py"],
 [("epoch loop and best tracking","training.py:_train.epoch_body_fn"),("initial evaluation","training.py:_train")])
prop("T03","Training stops exactly when its documented stop rules say so",
 "An epoch is run if and only if the epoch limit is not reached, the best validation loss is still above the target loss and the patience is not used up; patience is refilled whenever the validation loss is at most the previous best minus the minimum improvement, and otherwise drops by one per epoch. Training therefore runs at most the requested number of epochs and always terminates.",
 ["inputs","histories","configurations"],"every sequence of validation losses and every setting of epochs, target, patience and minimum improvement",
 "Stop decisions depend on the whole loss history; tests only exercise one stop reason on one trajectory.",
 ["training.py"],
 [("loop condition","training.py:_train.epoch_cond_fn"),("patience update","training.py:_train.epoch_body_fn")])
prop("T04","Every epoch uses each sample exactly once, correctly paired",
 "In every epoch each training sample goes through exactly one optimiser step, in minibatches of the requested size plus one shorter final minibatch, with its own target and its own uncertainty beside it; the shuffle differs only in order. The validation loss of an epoch is the mean of the per-minibatch validation losses over a split of the validation set that uses each validation sample exactly once.",
 ["inputs","configurations"],"every dataset size, batch size, data structure, shuffle order and random key",
 "Dropped, repeated or mispaired samples leave training working and only bias it; tests only check that the loss goes down.",
 ["training.py","tree_util.py"],
 [("minibatch loop","training.py:_train.batch_body_fn"),("validation","training.py:_train.batched_val_loss_fn"),("slicing","tree_util.py:batch_leaves"),("shuffle","tree_util.py:random_permute_leaves")])
prop("T05","The optimiser step is clipped, bias-corrected Adam, also for complex arrays",
 "One optimiser step clips the gradient componentwise to the clip bound, updates the exponential first and second moments, and moves the parameter by the step size times the bias-corrected first moment over the root of the bias-corrected second moment plus epsilon, with the bias correction following the number of steps taken. For complex parameters the conjugate gradient is used, real and imaginary parts are clipped separately and the second moment accumulates the squared modulus.",
 ["inputs","configurations"],"every parameter, gradient, moment, step count, learning-rate schedule and hyperparameter value",
 "A wrong sign, conjugate, moment or clip still trains; only an exact comparison for all values notices.",
 ["training.py"],[("adam","training.py:adam"),("complex_adam","training.py:complex_adam"),("schedule","training.py:make_schedule")])
prop("T06","Built-in losses equal their named formula on any output tree",
 "Each named loss (squared, absolute, pseudo-Huber, relative error and relative difference, with or without uncertainties, supervised or unsupervised) equals the mean over all elements of all output leaves of its elementwise formula applied to prediction and target, is real, and passes the new model state through. The mean weighs every element of every leaf equally, whatever the leaf shapes, for real and complex data.",
 ["inputs","configurations"],"every prediction, target and uncertainty value, leaf shape and tree structure",
 "Tests compare one or two losses on one array shape.",
 ["training.py","tree_util.py"],[("make_loss_fn","training.py:make_loss_fn"),("mean","tree_util.py:mean")])
prop("M01","Module output shapes are as announced and samples never mix",
 "For every module and every accepted input shape, the output for a batch has the announced output shape behind the batch axis, and the output for a sample depends only on that sample's input (and the parameters), not on the other samples, the batch size, or the sample's position in the batch. Stateless modules return the state they were given.",
 ["inputs","configurations"],"every module, batch size, feature and matrix size, parameter value and data value",
 "Tests check a few fixed shapes; leakage between samples or a shape that is wrong only for some sizes is invisible to them.",
 ["modules/basemodule.py","modules/affinehermitianmatrix.py","modules/eigenvalues.py","modules/einsum.py","modules/reshape.py","modules/concatenateleaves.py","modules/constant.py"],
 [("get_output_shape","modules/*.py:get_output_shape"),("callables","modules/*.py:_get_callable")])
prop("M02","Affine matrix modules give exactly Hermitian, affine matrices",
 "The affine matrix modules return, for any stored parameters (Hermitian or not, full or low rank, with or without constant term and smoothing), the constant matrix plus the feature-weighted sum of the Hermitian parts of the parameter matrices, plus the smoothing strength times i times the sum of all pairwise commutators. The result is Hermitian for every real input, and the affine tensor module is the same affine form without symmetrisation.",
 ["inputs","configurations"],"every parameter value, feature value, batch size, number of features, matrix size and rank",
 "Hermiticity for non-Hermitian optimiser iterates and all sizes cannot be sampled.",
 ["modules/affinehermitianmatrix.py","modules/lowrankaffinehermitianmatrix.py","modules/affinetensor.py","modules/_smoothing.py"],
 [("affine form","modules/affinehermitianmatrix.py:AffineHermitianMatrix._get_callable"),("smoothing","modules/_smoothing.py:exact_smoothing_matrix"),("low rank","modules/lowrankaffinehermitianmatrix.py:LowRankAffineHermitianMatrix._get_callable")])
prop("M03","Spectral modules return the requested part of the spectrum, pairs intact",
 "Asking for the k smallest, largest, exterior or interior eigenvalues, ordered algebraically or by magnitude, returns exactly those order statistics of the spectrum in ascending order of the chosen ordering, for every matrix size and k. Each returned eigenvector is the one belonging to the eigenvalue returned at the same position.",
 ["inputs","configurations"],"every matrix, matrix size, k and selection mode",
 "Off-by-one selections only show for particular parities of matrix size and k or for particular spectra.",
 ["eigen_util.py","modules/eigenvalues.py","modules/eigenvectors.py","modules/eigensystem.py"],
 [("selection","eigen_util.py:select_eigenpairs_by_eigenvalue"),("sorting","eigen_util.py:select_eigenpairs_by_fn"),("modules","modules/eigensystem.py:Eigensystem._get_callable")])
prop("M04","Observable modules return real, phase-invariant quadratic forms",
 "The expectation-value module returns the sum over states and observables of the quadratic form of the Hermitian part of each observable, and the transition-amplitude module the sum over pairs of states of the squared modulus of the matrix element, each minus half the summed squared operator norms when centred. Both are real and unchanged when any state is multiplied by a phase, so the arbitrary phases of eigenvectors never reach the output.",
 ["inputs","configurations"],"every observable, state, phase, matrix size, number of states and batch size",
 "Phase dependence or a missing conjugate shows only for complex states, which tests rarely build.",
 ["modules/expectationvaluesum.py","modules/transitionamplitudesum.py"],
 [("expectation","modules/expectationvaluesum.py:ExpectationValueSum._get_callable"),("transition","modules/transitionamplitudesum.py:TransitionAmplitudeSum._get_callable")])
prop("M05","Tensor and elementwise modules compute their documented map",
 "Contraction, matrix product, bias, constant, reshape, flatten, leaf concatenation, tree selection, tree flattening, parametric rectifier and comment modules return exactly the documented function of parameters and data on every leaf, with the batch axis left alone; operand order and index roles follow the user's specification. Every generated activation module applies the function it is named after, with the stored arguments, to every leaf.",
 ["inputs","configurations"],"every data value, parameter value, batch size, leaf size, and module option",
 "There are about a hundred modules and options; tests sample a few on fixed data.",
 ["modules/einsum.py","modules/matmul.py","modules/bias.py","modules/constant.py","modules/reshape.py","modules/flatten.py","modules/concatenateleaves.py","modules/treekey.py","modules/prelu.py","modules/_autogenerated_activationfuncs.py"],
 [("einsum string","modules/einsum.py:Einsum._get_concrete_einsum_str"),("matmul","modules/matmul.py:MatMul._get_einsum_str_and_dim_map"),("activations","modules/activationbase.py:ActivationBase._get_callable")])
prop("N01","A sequential model is the composition of its modules",
 "Evaluating a sequential model applies its modules in order, each to the previous output with its own parameters and its own state, and returns the last output together with every module's new state in its own slot; shapes are announced accordingly. Nothing about the result depends on what the modules compute.",
 ["inputs","programs"],"every module behaviour, parameter, state, data, and module container (list, tuple, dict, nested model)",
 "Tests compose particular modules; a swapped parameter or state slot can cancel or be shape compatible.",
 ["sequentialmodel.py","model.py"],
 [("composition","sequentialmodel.py:SequentialModel._get_callable"),("shapes","sequentialmodel.py:SequentialModel.compile")])
prop("N02","A graph model computes the dataflow its connections describe",
 "Evaluating a graph model feeds every module exactly the outputs (or parts of outputs) that the connections name, arranged in the structure the connections name, applies each needed module once with its own parameters and state, and returns the output structure the connections describe. The result does not depend on the order in which connections or modules are listed, as long as every place fed by several sources is named explicitly.",
 ["inputs","programs"],"every module behaviour, parameters, data, and wiring",
 "Wirings are unboundedly many; tests use a handful.",
 ["nonsequentialmodel.py","graph_util.py"],
 [("evaluation","nonsequentialmodel.py:NonSequentialModel._get_callable"),("wiring","nonsequentialmodel.py:NonSequentialModel.compile"),("placement","graph_util.py:place_connections_in_tree")])
prop("N03","The execution order of a graph model respects every dependency",
 "The computed execution order starts at the input, ends at the output, lists exactly once every module that lies on a path from input to output, and lists each module after all the modules that feed it. Cyclic wirings and wirings in which a needed module is fed by something that never runs are reported as errors, and every satisfiable wiring is accepted.",
 ["programs","inputs"],"every directed graph of connections",
 "Only a few graphs are tested; wrong orders appear for particular shapes of diamonds, dead branches and insertion orders.",
 ["graph_util.py","nonsequentialmodel.py"],
 [("resolve_connections","graph_util.py:resolve_connections"),("validate_resolution","graph_util.py:validate_resolution")])
prop("N04","Every connection is delivered to its own slot, none lost or merged",
 "When several sources feed the same module or output, each is given its own distinct place in the input structure, explicitly named places are kept, no source is lost, duplicated or overwritten, and splitting a connection into module part and inner part is lossless. Module names that merely begin like the reserved input and output names are treated as ordinary names.",
 ["programs","inputs"],"every set of connections over every module tree",
 "Collisions only occur for particular mixtures of explicit and implicit slots.",
 ["graph_util.py","tree_util.py"],
 [("concretize_paths","graph_util.py:concretize_paths"),("concretize_connections","graph_util.py:concretize_connections"),("partition","graph_util.py:partition_connections_by_tree"),("placement","graph_util.py:place_connections_in_tree")])
prop("N05","Addressing into trees by path reads and writes exactly one place",
 "Writing a value at a path and reading that path gives the value back, changes no other place of the tree, and reading is exactly following the path's (nonempty) parts one by one; invalid paths raise instead of returning something else. Building a tree from a set of paths yields a tree in which every path holds its own value and every pre-existing place is unchanged.",
 ["inputs","programs"],"every nested dict/list/tuple, path, separator and value",
 "Trees and paths are unbounded.",
 ["tree_util.py"],
 [("getitem_by_strpath","tree_util.py:getitem_by_strpath"),("setitem_by_strpath","tree_util.py:setitem_by_strpath"),("extend_structure_from_strpaths","tree_util.py:extend_structure_from_strpaths")])
prop("U01","Tree arithmetic, splitting and shuffling act leaf by leaf and lose nothing",
 "Arithmetic helpers on trees act elementwise on corresponding leaves and keep structure, shapes and dtypes; the mean is over all elements. Splitting into batches and concatenating gives the original rows in order for every size and batch size, and shuffling applies one and the same permutation of rows to every leaf unless independent shuffles are requested.",
 ["inputs","configurations"],"every value, leaf shape, batch size, key and tree",
 "Remainders and clamped slices go wrong only for particular sizes.",
 ["tree_util.py"],
 [("arithmetic","tree_util.py:add"),("pytree_split","tree_util.py:pytree_split"),("random_permute_leaves","tree_util.py:random_permute_leaves"),("concatenate","tree_util.py:concatenate")])
prop("B01","Batched evaluation equals unbatched evaluation",
 "Evaluating a model or its gradients with any maximum batch size, with either batching strategy, gives the same outputs in the same order as evaluating all samples at once, and threads the model state through the chunks in order. This holds for every number of samples, including sizes that are smaller than, equal to, or not a multiple of the batch size.",
 ["inputs","configurations"],"every number of samples, maximum batch size, strategy, samplewise model and data",
 "Tests use a few sizes; remainder handling and cached callables fail only for particular sizes and call sequences.",
 ["model_util.py","model.py"],
 [("autobatch","model_util.py:autobatch"),("call caches","model.py:Model.__call__")])
prop("G01","Reported gradients are the derivatives of the forward pass",
 "The input gradient and the parameter gradient of a model are, for every sample, the exact derivative of that sample's output with respect to that sample's input and to each parameter array, in forward and in reverse mode, with the output axes first and the input or parameter axes last. Gradients of unused parts are zero rather than missing, and for complex parameters reverse mode gives the derivative by the real part minus i times the derivative by the imaginary part, while forward mode is refused.",
 ["inputs","configurations"],"every model, input, parameter, batch size, differentiation mode and dtype",
 "Finite-difference tests sample one model at one point.",
 ["model.py"],
 [("grad_input","model.py:Model.grad_input"),("grad_params","model.py:Model.grad_params")])
prop("S01","Saving and loading restores the same function",
 "Serialising any ready module or model and deserialising it into a fresh instance of the same class gives back the same parameters, state, hyperparameters, freeze flag and announced shapes, hence the same outputs, and the same holds through a file, compressed or not. The stored copy is not affected by later changes to the original.",
 ["inputs","configurations","histories"],"every module, option setting, nested model and parameter value",
 "Each module stores its own options; a forgotten one only matters for non-default values.",
 ["modules/basemodule.py","model.py","nonsequentialmodel.py","modules/lowrankaffinehermitianmatrix.py","modules/matmul.py"],
 [("module serialize","modules/basemodule.py:BaseModule.serialize"),("model serialize","model.py:Model.serialize"),("hyperparameters","modules/*.py:get_hyperparameters")])
prop("S02","Editing a model is isolated and never leaves stale results",
 "Copying, joining, or editing a model (append, insert, prepend, pop, replace) changes exactly the addressed module position of exactly that model and leaves every other model's containers and the order of the other modules unchanged (copies are deep; joined models share their module objects by design). After any change of modules, parameters, state or shapes, the next evaluation reflects the change and never a previously cached function.",
 ["histories","programs"],"every sequence of edits and evaluations on any container of modules",
 "Aliasing and stale caches need particular sequences of operations.",
 ["model.py","sequentialmodel.py","nonsequentialmodel.py"],
 [("container operations","model.py:Model.insert_module"),("joining","model.py:Model.__add__"),("cache reset","model.py:Model.reset")])
prop("P01","Scalers standardise as documented and invert exactly",
 "After fitting, the standard scaler maps each feature of the fitted data to zero mean and unit variance, the min-max scaler maps each feature's minimum and maximum to the ends of the requested range, and the robust scaler subtracts the median and divides by the requested quantile range. For every scaler, mixed scalers included, inverse transformation after transformation gives the original data back for every input on which the scale is nonzero, in the same tree structure.",
 ["inputs","configurations"],"every data value, sample count, feature count, tree structure and scaler option",
 "Tests sample one array per scaler.",
 ["preprocessing/standard_scaler.py","preprocessing/minmax_scaler.py","preprocessing/robust_scaler.py","preprocessing/mixed_scaler.py"],
 [("standard","preprocessing/standard_scaler.py:StandardScaler"),("minmax","preprocessing/minmax_scaler.py:MinMaxScaler"),("robust","preprocessing/robust_scaler.py:RobustScaler"),("mixed","preprocessing/mixed_scaler.py:MixedScaler")])
prop("P02","One-hot encoding is exact and invertible",
 "After fitting, every row that occurred in the fitted data is encoded as exactly one 1 and otherwise 0s, different rows get different codes, a row that never occurred is encoded as all 0s, and decoding the code of a known row gives that row back in its original shape. This holds for features with any number of components.",
 ["inputs"],"every categorical dataset, number of components and row",
 "Multi-component categories can be scrambled without any single-component test noticing.",
 ["preprocessing/onehot.py"],[("OneHot","preprocessing/onehot.py:OneHot")])
prop("C01","Conformal intervals are centred bands of the calibrated quantile",
 "A calibrated model returns, for each sample and output, its (bias-corrected) prediction and the interval prediction plus or minus quantile times uncertainty, where the quantile is the score quantile at level ceil((n+1)(1-alpha))/n, at most 1, of the n calibration scores of that output and the score is the absolute residual over the uncertainty. For positive uncertainties the interval always contains the prediction and widens as alpha decreases.",
 ["inputs","configurations"],"every model, calibration set, evaluation point, alpha and list of alphas",
 "Coverage is statistical; tests check one alpha on one dataset.",
 ["conformal/conformalizedmodel.py"],
 [("get_qhat","conformal/conformalizedmodel.py:ConformalizedModel.get_qhat"),("__call__","conformal/conformalizedmodel.py:ConformalizedModel.__call__"),("scores","conformal/conformalizedmodel.py:ConformalizedModel.calibrate")])
prop("C02","Conformal state is always that of the latest calibration, also after reload",
 "Intervals always reflect the most recent calibration: calibrating again discards quantiles cached from earlier calibrations, and asking for the same alpha again, alone or in a list, gives the same answer. Saving and reloading a calibrated model gives the same predictions, intervals and settings.",
 ["histories","configurations"],"every sequence of calibrations, quantile requests, and save/load",
 "Stale caches need a recalibration sequence no test performs.",
 ["conformal/conformalizedmodel.py"],
 [("quantile cache","conformal/conformalizedmodel.py:ConformalizedModel.get_qhat"),("calibrate","conformal/conformalizedmodel.py:ConformalizedModel.calibrate"),("persistence","conformal/conformalizedmodel.py:ConformalizedModel.serialize")])
prop("C03","Uncertainty heuristics are the documented non-negative sensitivities",
 "The parameter (input) sensitivity of a sample is the sum of squared moduli of output derivative times parameter value (training interquartile range plus stated input uncertainty), over the selected parameter arrays (features), divided by their number and by the calibration normalisation; non-finite derivatives count as zero. The total uncertainty is the sum of the enabled sensitivities, each normalised by a positive spread statistic of the calibration set; the distance part is the Gower distance to the training data (range-scaled for continuous features, 0 or 1 for categories seen in training), the larger of the nearest distance and the mean within the cutoff.",
 ["inputs","configurations"],"every derivative value, parameter, scale, selection mask and tree structure",
 "The formula is only used indirectly in tests.",
 ["conformal/conformalizedmodel.py"],
 [("accumulate","conformal/conformalizedmodel.py:accumulate_sum_sq_over_output_leaves"),("normalisation","conformal/conformalizedmodel.py:robust_normalization"),("weighted quantile","conformal/conformalizedmodel.py:weighted_quantile")])
prop("D01","Precision changes cast every array and never lose information silently",
 "Changing precision casts every parameter and state array of every module, nested ones included, to the requested precision of its own kind (real stays real, complex stays complex, integers and truth values stay what they are) and changes nothing else. Casting model inputs from complex to real is refused, and other helpers that drop an imaginary part warn.",
 ["inputs","configurations"],"every module tree, dtype mixture and requested precision",
 "Mixed real/complex trees and nested models are rarely tested.",
 ["modules/basemodule.py","model.py","tree_util.py"],
 [("set_precision","model.py:Model.set_precision"),("module cast","modules/basemodule.py:BaseModule.set_precision"),("safecast","tree_util.py:safecast")])
with open("/verif/properties.jsonl","w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
