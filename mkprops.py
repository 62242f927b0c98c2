import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook)))
T="src/tensor/"
p("C01","Indexing reads exactly the addressed element or reports an error",
 "Reading a tensor or view at a multi-index returns the element stored at that row-major position: trailing dimensions line up, dimensions of size one accept any coordinate, and surplus leading coordinates are ignored. An index that is out of range, or too short to address the tensor, gives an error (a panic with the [] operator) and never some other element. Iterating over the indices of a tensor yields every index once, in row-major order.",
 ["inputs"],"all shapes (any rank, dimensions of 0, 1 and more), all index vectors (right length, longer, shorter, out of range), tensors and views",
 "The tests read a few valid positions in three fixed shapes; out-of-range, short and long indices and zero-size shapes are never tried.",
 [T+"utils.rs",T+"raw_tensor.rs",T+"tensor_view.rs",T+"tensor_like.rs"],[("global_index","src/tensor/utils.rs global_index"),("IndexIterator, increment_index","src/tensor/utils.rs")],["TensorLike::get","Index<&Vec<usize>>","TensorLike::iter_indices","get_first_elem, elem"])
p("C02","A tensor holds exactly the elements its shape calls for",
 "Every tensor that any constructor or operation returns has as many elements as the product of its dimensions, in the order they were given. Constructors reject data whose length or nesting does not fit the shape (wrong length, ragged or empty nesting) instead of returning a malformed tensor. Shape, element count and scalar-ness reported for a tensor agree with one another.",
 ["inputs"],"all constructor arguments: flat data with any shape, fillers, scalars, nested vectors and arrays to depth 4, matching or not",
 "The tests build a handful of well-formed tensors; no mismatching length, ragged or empty nesting is ever passed in.",
 [T+"raw_tensor.rs",T+"rc_tensor.rs"],[("RawTensor::new length assertion, From<Vec>, From<[U; N]> raggedness assertion","src/tensor/raw_tensor.rs")],["RawTensor::new","RcTensor::new","new_with_filler","scalar","From","shape, count, is_scalar"])
p("C03","A view behaves as the tensor made of the elements it selects",
 "Slicing selects exactly the elements in the given half-open ranges; slicing a view slices what the view shows and reshaping a view keeps its elements in row-major order under the new shape. Every operation that accepts a view (reading, sum, materialising, scalar and element-wise product, dot, matrix product, addition to a tensor, comparison) gives what it would give on a tensor with those elements, also when the selection is empty. Ranges outside the tensor, or reshapes to a different element count, are rejected.",
 ["inputs","programs"],"all base shapes, all range vectors (full, partial, single, empty, invalid), chains of slice and reshape, every operation with a view as operand",
 "Tests look at four slices of two tensors, never at reshape, at a slice of a view, or at a view as the operand of an operation.",
 [T+"tensor_view.rs",T+"utils.rs",T+"tensor_like.rs",T+"functional/misc.rs"],[("TensorView::get and to_tensor","src/tensor/tensor_view.rs"),("offset handling in global_index","src/tensor/utils.rs")],["TensorView methods","TensorLike methods with view operands"])
p("C04","Addition, subtraction and negation broadcast element by element",
 "The sum or difference of two tensors has the broadcast of the two shapes (aligned from the last dimension, size one stretching) and each element is the sum or difference of the two elements that broadcasting pairs up. Operands whose shapes cannot be broadcast are rejected. The result does not depend on which tensor flavour, operator form (by value or by reference) or element type is used.",
 ["inputs"],"all pairs of shapes of any ranks, all element values and numeric element types",
 "Tests cover two broadcasting shape pairs; rank differences, inner size-one dimensions on both sides and incompatible shapes are not reached.",
 [T+"functional/element_wise_ops.rs",T+"raw_tensor.rs",T+"rc_tensor.rs",T+"tensor_like.rs"],[("broadcastable, max_shape, generic_binop_raw","src/tensor/functional/element_wise_ops.rs, src/tensor/tensor_like.rs")],["Add, Sub, Neg on RawTensor and RcTensor","broadcastable"])
p("C05","Products scale by a scalar or multiply matching elements",
 "Multiplying by a scalar tensor, on either side, scales every element and keeps the other operand's shape; multiplying two tensors of the same shape multiplies matching elements. Operands that are neither scalar nor of equal shape are rejected rather than silently paired up. This holds for tensors and views and for every form of the operation.",
 ["inputs"],"all operand shapes and flavours (tensor, shared tensor, view), scalar on the left or the right, equal and unequal shapes",
 "Tests multiply one vector by one vector and by one scalar.",
 [T+"raw_tensor.rs",T+"rc_tensor.rs",T+"tensor_like.rs",T+"functional/misc.rs"],[("Mul impls, left/right_scalar_multiplication, element_wise_multiplication","src/tensor/raw_tensor.rs, tensor_like.rs, functional/misc.rs")],["Mul on RawTensor and RcTensor","left_scalar_multiplication, right_scalar_multiplication","functional::element_wise_multiplication"])
p("C06","Matrix multiplication computes the (batched) matrix product",
 "Multiplying a matrix, or a batch of matrices, of shape [.., m, k] by a matrix [k, n] gives shape [.., m, n] whose entries are the inner products of rows and columns, for all sizes and for tensors and views alike. Operands whose inner dimensions or ranks do not fit are rejected, never truncated or padded.",
 ["inputs"],"all m, k, n and batch sizes (including 1, and results of far more than 32 elements), all operand ranks, tensors and views",
 "Tests check values for a 2x2 times 2x1 product only; other sizes are merely run, and batches and misfits not at all.",
 [T+"functional/misc.rs",T+"rc_tensor.rs",T+"raw_tensor.rs",T+"tensor_view.rs"],[("bmm_raw","src/tensor/functional/misc.rs")],["TensorLike::bmm, bmm_rc"])
p("C07","Sum and dot product account for every element exactly once",
 "The sum of a tensor or view is the sum of all its elements, each counted once (zero when it has none), as a scalar. The dot product of two tensors of equal shape is the sum of the products of matching elements as a single-element tensor, and operands of unequal shape are rejected.",
 ["inputs"],"all shapes and sizes, values and element types, tensors and views",
 "Tests sum a few small tensors and take one dot product.",
 [T+"raw_tensor.rs",T+"rc_tensor.rs",T+"tensor_view.rs",T+"functional/misc.rs"],[("sum, dot_raw","src/tensor/raw_tensor.rs, tensor_view.rs, functional/misc.rs")],["TensorLike::sum","functional::dot, dot_no_derivative","RawTensor::dot"])
p("C08","Element-wise functions map every element and keep the shape",
 "relu, abs, tanh and any function mapped over a tensor produce a tensor of the same shape in which each element is the function of the element at the same position. This holds for every float value, including zeros of both signs, infinities and NaN.",
 ["inputs"],"all shapes, all finite values, zeros, infinities, NaN; f32 and f64; tensors and views for the generic map",
 "Tests evaluate abs on one tensor and tanh near a few points; relu is never tested and special values never occur.",
 [T+"functional/element_wise_ops.rs"],[("generic_unary_op, relu, tanh, abs","src/tensor/functional/element_wise_ops.rs")],["functional::relu, tanh, generic_unary_op","RcTensor::abs"])
p("C09","Backward computes the true gradient of any computation",
 "For every computation built from addition, subtraction, negation, matrix product, dot product, sum, relu, abs and tanh, backward from a one-element result gives every tensor it was computed from the exact derivative of the result with respect to that tensor: contributions of all paths are added, broadcast dimensions are summed out, and each gradient has the shape of its tensor. The choice at kinks is 1 for relu and abs at zero. Backward from a result with more than one element, or from a tensor that was not computed, is rejected.",
 ["programs","inputs"],"all expression graphs (shared sub-expressions, the same operand twice, any depth and operand shapes) over the differentiable operations, all leaf values",
 "Tests differentiate about a dozen fixed expressions, nearly all a single operation followed by sum; graphs with several paths, broadcasting in depth, and non-unit incoming gradients are not reached.",
 [T+"autograd/jvp.rs",T+"functional/element_wise_ops.rs",T+"functional/misc.rs",T+"rc_tensor.rs"],[("Derivative::compute_jvp and the per-operation derivatives","src/tensor/autograd/jvp.rs, functional/*.rs")],["RcTensor::backward","RcTensor::grad"],
 [dict(name="grad, grad_fn",meaning="accumulated gradient and recorded operation of a tensor",where="src/tensor/raw_tensor.rs RawTensor")])
p("C10","Gradients accumulate, reset and stay isolated over any history",
 "Over any sequence of calls, the gradient of a tensor is the sum of all contributions since its last reset: backward adds to the gradients of exactly the tensors the result was computed from, zero_grad clears only the tensor it is called on, and nothing else changes a gradient. All handles cloned from a tensor share one gradient; a deep clone has neither gradient nor history. A gradient that was read is plain data: it does not change later and computing with it does not disturb other gradients.",
 ["histories"],"all interleaved sequences of graph building, backward, zero_grad, update_grad, grad, clone, deep_clone, to_tensor over several live graphs sharing tensors",
 "Each test calls backward once or twice on a fresh graph and reads one gradient; order, sharing and isolation over longer histories are not examined.",
 [T+"raw_tensor.rs",T+"rc_tensor.rs",T+"tensor_like.rs",T+"autograd/jvp.rs"],[("update_grad, zero_grad, deep_clone, Arc sharing in RcTensor","src/tensor/raw_tensor.rs, rc_tensor.rs, tensor_like.rs")],["RcTensor::grad, backward, zero_grad, update_grad, clone, deep_clone"],
 [dict(name="RawTensor.grad",meaning="accumulated gradient, shared by all handles",where="src/tensor/raw_tensor.rs")])
p("C11","Matrix product results do not depend on how work is parallelised",
 "A matrix product and the gradients of its two operands are the same, and correct, for every size and batch of the operands, every number of worker threads, and whether they are computed from the main thread, from inside a thread pool, or many at once sharing operands.",
 ["schedules","inputs","configurations"],"all operand sizes (in particular results spanning many internal work blocks), pool sizes from 1 up, calling contexts, numbers of simultaneous computations and their interleavings",
 "Tests differentiate products of at most 6 elements, from the test thread, on the default pool.",
 [T+"functional/misc.rs"],[("SplitArrayWriter, bmm_jvp, bmm_raw scopes","src/tensor/functional/misc.rs")],["bmm, backward, grad on rayon pools of chosen size"])
p("C12","Concurrent gradient updates are never lost or mixed up",
 "When several threads run backward passes, add to, reset or read the gradients of shared tensors at the same time, every tensor's gradient behaves as if each single update, reset and read had happened at one instant during its call. In particular, after all threads are done, each gradient is the sum of all contributions since its last reset.",
 ["schedules"],"all interleavings of backward, update_grad, zero_grad and grad calls from several threads on shared tensors",
 "No test uses more than one thread.",
 [T+"raw_tensor.rs",T+"autograd/jvp.rs"],[("RwLock around the gradient","src/tensor/raw_tensor.rs update_grad, zero_grad")],["update_grad, zero_grad, grad, backward from several threads"],
 [dict(name="RawTensor.grad",meaning="gradient shared between threads",where="src/tensor/raw_tensor.rs")],
 "lock wrapper that lets the harness choose the order in which threads take the gradient lock (cfg vp_hooks)")
p("C13","Parallel operations always finish",
 "Forward and backward passes through matrix products finish for every operand size, every number of worker threads (one included) and every calling context: the main thread, inside a pool, nested parallel calls, or many computations at once from all the threads of a pool.",
 ["schedules","configurations"],"pool sizes from 1 up, calling contexts (outside, install, join, parallel iterators, scopes, plain threads), numbers of simultaneous calls, operand sizes",
 "Tests call from outside the pool, which has at least as many threads as the tiny products have blocks; a deadlock needs few threads or calls from inside the pool.",
 [T+"functional/misc.rs",T+"raw_tensor.rs"],[("channels and scopes in bmm_jvp, SplitArrayWriter::start_then_join","src/tensor/functional/misc.rs")],["bmm and backward under a watchdog"])
p("C14","Operations never alter their operands",
 "Once a tensor or view exists its shape and elements never change, whatever is computed from it, differentiated through it, or done to clones, views, models or optimisers that share it. Operations that are rejected leave all values and gradients as they were, and only backward, update_grad and zero_grad change gradients.",
 ["histories","programs"],"all sequences of operations, successful and rejected, over tensors, views and models sharing data",
 "Tests look at the result of an operation and hardly ever at its operands afterwards.",
 [T+"rc_tensor.rs",T+"raw_tensor.rs",T+"tensor_view.rs","src/optim/sgd.rs","src/nn/linear.rs"],[("immutable RawTensor behind Arc","src/tensor/rc_tensor.rs")],["shape, elements and gradient of every live object after every call"])
p("C15","An SGD step moves every parameter by step size times its gradient",
 "A step replaces each parameter of a model by its value minus the step size times its gradient, each in its own place, and the new parameters start without gradient or history: the handles held to the old ones keep their values and gradients, also during later training. If any parameter has no gradient the step is rejected and the model is unchanged.",
 ["histories","inputs"],"all models (single layers, multi-layer), parameter values and shapes, step sizes (positive, negative, zero), accumulated gradients, repeated steps",
 "The only test that takes a step is ignored for slowness and checks a loose loss bound at the end.",
 ["src/optim/sgd.rs","src/nn/linear.rs","src/nn/feed_foward.rs"],[("sgd_step, Module::params, Module::update_params","src/optim/sgd.rs, src/nn")],["sgd_step, Module::params, RcTensor::grad"])
p("C16","A model computes the composition of its layers and owns its parameters",
 "A linear layer maps a batch x to activation(x times weights plus bias), without activation if none was given, and a multi-layer model applies its layers in order; inputs that do not fit are rejected. The parameters of a model are listed layer by layer, weights before bias, sharing data and gradients with the model, and replacing them by a list in that order puts each one in its place.",
 ["inputs","programs"],"all layer counts, layer sizes, batch sizes and ranks, bias shapes, activations, inputs and parameter lists",
 "Tests run one layer forward and only construct a multi-layer model; order of layers and parameters is never checked.",
 ["src/nn/linear.rs","src/nn/feed_foward.rs","src/nn/module.rs"],[("Linear::forward, Mlp::forward, params, update_params","src/nn")],["Module::forward, params, update_params"])
p("C17","Training follows gradient descent exactly, step after step",
 "Over any number of training iterations (forward, loss, backward, step, with gradients of inputs reset or not, and batches that change), every loss, gradient and parameter equals that of gradient descent carried out by definition. No iteration is influenced by graphs, gradients or parameters of earlier ones other than through the current parameters.",
 ["histories"],"all training histories: models, losses, batches, step sizes, numbers of iterations, handles kept across iterations, several models sharing tensors",
 "No test that is run trains anything.",
 ["src/optim/sgd.rs","src/nn/linear.rs","src/nn/feed_foward.rs",T+"autograd/jvp.rs"],[("sgd_step together with the autograd graph","src/optim/sgd.rs, src/tensor/autograd/jvp.rs")],["losses, gradients and parameters after every iteration"])
p("C18","Tensors compare equal exactly when shapes and elements agree",
 "Two tensors, shared tensors or views are equal exactly when they have the same shape and the same elements in the same order; gradients, history, sharing and, for views, the tensor behind them play no role. Comparing never fails, whatever the shapes.",
 ["inputs"],"all pairs of tensors and views with equal, permuted, reshaped, prefix and differing contents, and with or without gradients",
 "Tests compare a few tensors that are equal and one pair that is not.",
 [T+"raw_tensor.rs",T+"tensor_view.rs",T+"rc_tensor.rs"],[("PartialEq impls","src/tensor/raw_tensor.rs, src/tensor/tensor_view.rs")],["== on RawTensor, RcTensor, TensorView; same_shape"])
p("C19","Memory in use is bounded by what the program still holds",
 "Once a call has returned, the memory it leaves in use is bounded by the size of what the program can still reach: the tensors, views, models and gradients it holds and the computations these came from. Everything else is given back, so repeating the same work (evaluating, backward passes, rejected calls, training steps), with its results let go of, any number of times does not make memory grow.",
 ["histories"],"all sequences of calls with handles created, copied, kept, replaced and dropped, and all numbers of repetitions of the same work (cycles a user ties with update_grad are excluded: reference counting does not reclaim them)",
 "No test looks at memory or repeats anything often; a leak of some bytes per call shows only in long-running use.",
 [T+"rc_tensor.rs",T+"raw_tensor.rs",T+"autograd/jvp.rs",T+"autograd/grad.rs","src/optim/sgd.rs",T+"functional/misc.rs"],[("Arc sharing of RawTensor and of the operands in InternalGrad; grad_fn taken over by results","src/tensor/rc_tensor.rs, src/tensor/raw_tensor.rs, src/tensor/autograd"),("boxed JVP closures","src/tensor/autograd/jvp.rs")],["bytes held by the process (counting allocator) after calls, after repetitions of the same calls, and after letting go of their results"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
