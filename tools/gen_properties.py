#!/usr/bin/env python3
# Writes /verif/properties.jsonl. Run after editing.
import json, os
P=[]
S='prima_undine/src/'
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=[S+f if not f.startswith('prima_') else f for f in files],
        mechanism=[dict(name=n,where=w) for n,w in mech],
        observe_at=observe or [], state=state or [], hook_needed=None)))

p('C01','Every live tensor keeps exactly the values last written to it',
 'After any sequence of creating, filling, copying, moving, computing, updating in place, reshaping, aliasing and dropping tensors of any sizes on a device, reading a live tensor returns exactly the values last written to it. An operation changes no tensor other than its destination, and dropping a tensor or an alias changes no other tensor.',
 ['histories'],'all sequences of tensor operations over a small set of slots and sizes, up to a depth bound',
 'Tests create a handful of tensors and never interleave drops, recycling and overwriting; the guarantee is about every history of the pool.',
 ['memory_pool.rs','tensor.rs','device.rs','devices/naive.rs','devices/naive/reset_tensor.rs'],
 [('buffer recycling by size class',S+'memory_pool.rs MemoryPool::new_handle/drop_handle'),('ownership of a handle',S+'tensor.rs Tensor::{alloc,refer,replace,drop}')],
 ['Tensor::to_vec','Device::tensor_to_vector'])
p('C02','Backend buffers are big enough, never shared, reused, and released once',
 'Every buffer a device hands out has room for at least the number of elements asked for and is used by no other live tensor; requests for zero elements or for more than 2^31 elements are rejected. A dropped tensor\'s buffer serves later requests of the same size class (the next power of two, at least 64), so the backend is asked for a new buffer only when all buffers of that class are in use. Dropping the device, after its tensors, releases every buffer to the backend exactly once, and none is released before.',
 ['histories','inputs'],'all alloc/drop histories up to a depth bound over sizes around every class boundary, and every 32-bit size for the class computation',
 'Tests allocate a few sizes once; the accounting must hold for every size and order of drops.',
 ['memory_pool.rs','device.rs','tensor.rs'],
 [('size class',S+'memory_pool.rs calculate_shifts'),('pool of free buffers',S+'memory_pool.rs MemoryPool'),('release at drop',S+'memory_pool.rs Drop for MemoryPool')],
 ['DeviceImpl::new_handle','DeviceImpl::drop_handle'])
p('C03','Threads sharing one device never interfere, deadlock or corrupt storage',
 'When several threads allocate, compute with and drop tensors on one shared device at the same time, each thread reads the same results as if it ran alone, whatever the interleaving. No two live tensors ever share storage, every backend buffer is released exactly once when the device goes away, and no thread deadlocks or panics.',
 ['schedules'],'all interleavings of 2-3 threads at synchronisation operations and backend calls, up to a preemption bound',
 'No test uses more than one thread.',
 ['memory_pool.rs','device.rs','tensor.rs','devices/naive/random.rs'],
 [('locks around pool and size table',S+'memory_pool.rs'),('atomic handle',S+'tensor.rs'),('lock around the random generator',S+'devices/naive/random.rs')],
 ['Device::new_handle','Device::drop_handle'])
p('C04','A failed allocation or kernel leaves the device and other tensors usable',
 'If the backend panics while supplying a buffer or running a kernel, or a random operation gets invalid distribution arguments, only the triggering call panics: tensors it was not writing keep their values, the storage it had taken is recovered, and later operations behave as if it had not been made. A graph node whose evaluation failed is never taken as evaluated: evaluating it again fails again or yields the correct value.',
 ['fault_sequences','histories'],'every position of one or two injected backend failures in every operation sequence up to a depth bound',
 'No test injects a failure; panics inside locks and half-finished calls only matter afterwards.',
 ['memory_pool.rs','tensor.rs','graph.rs','devices/naive/random.rs'],
 [('lock scope in allocation',S+'memory_pool.rs MemoryPool::new_handle'),('evaluated flag',S+'graph.rs forward'),('randomizer lock',S+'devices/naive/random.rs')],
 ['DeviceImpl','device_impl::FunctionFwImpl'])
p('C05','Operations accept exactly the operands that fit and reject all others',
 'Each eager tensor operation and its graph counterpart succeed exactly when shapes and indices fit the definition (equal dimensions, or one operand scalar, for arithmetic and power; batch sizes equal or one of them 1; dimension index below 8; ranges and ids inside the axis; inner sizes equal for matmul; matrices for transpose, square for triangular; equal sizes for reshape; equal division for split), and the result has the shape the definition gives. Otherwise the call panics, for a graph at the latest on evaluation, and no existing tensor changes.',
 ['inputs'],'all operations over all pairs of small shapes with batches, and all index arguments up to just outside the valid range',
 'Tests only use well-formed operands; nothing checks rejection, and a missing check is a memory error.',
 ['shape_ops.rs','functions.rs','functions/basic/device.rs','functions/arithmetic/device.rs','functions/basic/tensor.rs','functions/basic/node.rs','operators.rs','operators/common.rs'],
 [('shape rules',S+'shape_ops.rs'),('asserts before dispatch',S+'functions.rs, functions/basic/device.rs'),('shape inference of graph operators',S+'operators/*.rs forward_shape')],
 ['BasicFunctions','Shape'])
p('C06','Shapes stay consistent under construction and resizing, and never overflow',
 'A shape built from at most eight non-zero dimensions and a non-zero batch, and any shape obtained from it by resizing dimensions or the batch, ignores trailing ones and reports depth, dimensions, volume, partial volumes and size by definition; its predicates (batch, scalar, vector, matrix, compatible batch, same dimensions, same dimensions but one) agree with a dimension-wise comparison, and equal shapes compare equal however they were obtained. Zero sizes, more than eight dimensions, dimension indices of eight or more, and volumes or sizes beyond 32 bits are rejected, never wrapped, in debug and release builds.',
 ['histories','inputs'],'all shapes over a small alphabet of sizes (including values near the 32-bit limits) and all resize sequences reachable from them',
 'Tests check a table of shapes; overflow and long resize histories are not covered, and release builds are never tested.',
 ['shape.rs'],[('cached depth and volume',S+'shape.rs Shape::{new,update_dim,update_batch}'),('predicates',S+'shape.rs')],['Shape'],
 [dict(name='depth, volume',meaning='cached from the dimensions',where=S+'shape.rs')])
p('C07','Element-wise operations compute their definition at every element',
 'Negation, abs, sqrt, sin, cos, tan, exp, ln, tanh, sigmoid, softplus, relu, lrelu, prelu, elu, real and integer powers, and +, -, *, / between tensors, with a constant on either side or with a scalar tensor on either side, give at every element the value of the mathematical function of the operands\' elements, up to single-precision rounding, for finite inputs of any shape. An operand with batch 1 (or a scalar of each batch) is reused for every batch element, and owned, borrowed, eager and graph forms agree.',
 ['inputs'],'all operations x all small shapes up to eight dimensions and sizes around power-of-two boundaries x batch combinations x operand forms x a table of ordinary and extreme values',
 'Tests use one or two shapes and a few values per kernel, and only some operand forms.',
 ['devices/naive/common.rs','functions/arithmetic/tensor.rs','functions/arithmetic/node.rs','functions/basic/tensor.rs','functions/basic/node.rs','devices/naive/powf.rs','devices/naive/powi.rs'],
 [('kernel templates',S+'devices/naive/common.rs'),('scalar dispatch',S+'functions/arithmetic/tensor.rs, node.rs')],['BasicFunctions','std::ops on Tensor and Node'])
p('C08','Reductions and index searches are right along every axis of every shape',
 'sum, max, min, logsumexp and broadcast along any axis (also beyond the rank), and sum over the batch, give for every position of the other axes and every batch element the value of that reduction over exactly the elements of that axis. argmax and argmin return, in storage order of the other axes, the index along the axis of the first extremal element; argsort returns at each position along the axis the flat storage positions of that axis line in ascending order of value.',
 ['inputs'],'all shapes with axis sizes 1..3 up to rank 4 (ranks up to 8 with some), larger axes around block and power-of-two boundaries, all axes, all small value patterns with ties and signs',
 'Tests run one shape per kernel; stride errors appear only for particular axis, rank and batch combinations.',
 ['devices/naive/sum.rs','devices/naive/max.rs','devices/naive/min.rs','devices/naive/logsumexp.rs','devices/naive/argmax.rs','devices/naive/argmin.rs','devices/naive/argsort.rs','devices/naive/broadcast.rs','devices/naive/batch_sum.rs'],
 [('stride arithmetic',S+'devices/naive/*.rs')],['BasicFunctions::{sum,max,min,logsumexp,broadcast,batch_sum,argmax,argmin,argsort}'])
p('C09','Matrix operations are right for all sizes and batch combinations',
 'Matrix product, transpose, lower and upper triangular masks (keeping entries at least k below or above the diagonal), and the axis flip, axis permutation and identity kernels give their mathematical result for every size, including sizes that are not multiples of a block, vectors and 1x1 matrices. Batches are multiplied pairwise and an operand with batch 1 is reused for each batch element.',
 ['inputs'],'all matrix sizes up to beyond two blocks in every dimension, all batch combinations, all mask offsets, all axis permutations up to rank 4 and more',
 'Tests multiply a few matrices; block remainders, batch reuse and offsets combine in ways they do not cover.',
 ['devices/naive/matmul.rs','devices/naive/transpose.rs','devices/naive/triangular_l.rs','devices/naive/triangular_u.rs','devices/naive/permute_dims.rs','devices/naive/flip.rs','devices/naive/identity.rs'],
 [('blocked product',S+'devices/naive/matmul.rs'),('strides',S+'devices/naive/permute_dims.rs, flip.rs')],['BasicFunctions::{matmul,transpose,triangular_l,triangular_u}','Device::call_fw_impl'])
p('C10','Slicing, picking, joining and reshaping move exactly the right elements',
 'slice, split, pick, concat, reshape, flatten and their batch counterparts produce, for every shape, axis, range and list of ids (repeated, unsorted, per batch element or shared), exactly the elements their definition selects, in the defined order, for any number of inputs and mix of batch-1 and batched inputs. split followed by concat, and batch split followed by batch concat, give back the original tensor.',
 ['inputs'],'all shapes with axis sizes 1..3 up to rank 4 (ranks up to 8 with some) and larger ones, all axes, all ranges, all id lists up to length 3, all 2-3 input combinations',
 'Tests use a few shapes and id lists; offsets go wrong only for specific combinations of axis, rank, batch and id order.',
 ['devices/naive/slice.rs','devices/naive/pick.rs','devices/naive/concat.rs','devices/naive/batch_slice.rs','devices/naive/batch_pick.rs','devices/naive/batch_concat.rs','functions/basic/tensor.rs','operators/split.rs','operators/batch_split.rs','operators/reshape.rs'],
 [('offset arithmetic',S+'devices/naive/*.rs')],['BasicFunctions::{slice,split,pick,concat,reshape,flatten,batch_*}'])
p('C11','Gradients of element-wise operations are the exact derivatives',
 'For every element-wise unary, constant, scalar and tensor-tensor operation, every operand shape and batch combination and every upstream gradient, the backward pass adds to each operand\'s gradient exactly the upstream gradient times the partial derivative, up to rounding, wherever the operation is differentiable. Contributions of reused operands (batch 1, scalars, the same tensor used twice) are summed, and a gradient already present is added to, not overwritten.',
 ['inputs'],'all element-wise operations x shapes x batch combinations x value tables x upstream gradients x initial gradients, through the graph and through the device functions',
 'Tests check each kernel on one shape; several graph-level backward functions have no test at all.',
 ['operators.rs','operators/add.rs','operators/sub.rs','operators/mul.rs','operators/div.rs','operators/powf.rs','devices/naive/common.rs','devices/naive/add.rs','devices/naive/sub.rs','devices/naive/mul.rs','devices/naive/div.rs','devices/naive/powf.rs','functions.rs'],
 [('backward kernels',S+'devices/naive/*.rs'),('graph backward rules',S+'operators/*.rs')],['Node::backward','BasicDeviceFunctions::*_bw','ArithmeticDeviceFunctions::*_bw'])
p('C12','Gradients of reductions and softmax losses are the exact derivatives',
 'The backward passes of sum, logsumexp, broadcast, batch sum, softmax, log-softmax and of the dense and sparse softmax cross entropies (dense: targets summing to 1) along any axis, also beyond the rank, and with any batch combination, equal the exact derivative times the upstream gradient. For max and min the upstream gradient goes to the first extremal element of each axis line and nowhere else.',
 ['inputs'],'all shapes, axes, batch combinations, ids and upstream gradients within the bounds of C08',
 'Tests cover single shapes and dim 0 or 1; the loss operators\' backward passes are untested.',
 ['operators/sum.rs','operators/logsumexp.rs','operators/broadcast.rs','operators/batch_sum.rs','operators/softmax_cross_entropy.rs','operators/max.rs','operators/min.rs','devices/naive/max.rs','devices/naive/min.rs','devices/naive/pick.rs'],
 [('graph backward rules',S+'operators/*.rs')],['Node::backward','BasicDeviceFunctions::{max_bw,min_bw}'])
p('C13','Gradients of matrix and data-movement operations are the exact derivatives',
 'The backward passes of matmul, transpose, triangular masks, slice, split, pick, concat, reshape, flatten and the batch slice, split, pick and concat, and of the axis flip and permutation kernels, route every upstream gradient element to exactly the operand elements it came from (times the matching factor for matmul), for all shapes, axes, ranges, ids and batch combinations. Elements used several times receive the sum, unused ones nothing, and gradients already present are added to.',
 ['inputs'],'all shapes, axes, ranges, ids and batch combinations within the bounds of C09 and C10, with arbitrary upstream and initial gradients',
 'Tests cover one shape per kernel and no graph-level backward of the batch operations.',
 ['operators/matmul.rs','operators/transpose.rs','operators/slice.rs','operators/split.rs','operators/pick.rs','operators/concat.rs','operators/reshape.rs','operators/batch_slice.rs','operators/batch_split.rs','operators/batch_pick.rs','operators/batch_concat.rs','devices/naive/slice.rs','devices/naive/pick.rs','devices/naive/matmul.rs','functions/basic/device.rs'],
 [('backward kernels',S+'devices/naive/*.rs'),('graph backward rules',S+'operators/*.rs')],['Node::backward','BasicDeviceFunctions::*_bw'])
p('C14','Evaluating any graph gives the eager result, computing each node at most once',
 'For every acyclic graph of operations, including shared sub-expressions, operators with several outputs and repeated operands, reading a node gives the value that eager evaluation of the same expressions gives. Building a graph runs no operator; evaluating a node runs each operator it depends on exactly once after all of its inputs, runs no other operator, and never runs an operator again in later evaluations.',
 ['programs','histories'],'all graph programs up to a size bound x all sequences of evaluation requests',
 'Tests build a few small graphs and evaluate each once.',
 ['graph.rs','operator.rs','operators.rs','functions/basic/node.rs','functions/arithmetic/node.rs'],
 [('topological evaluation by depth',S+'graph.rs forward'),('evaluated flag',S+'graph.rs OperatorInfo')],['Node::{forward,to_vec,inner_value}','Operator'],
 [dict(name='forwarded',meaning='operator has been evaluated',where=S+'graph.rs OperatorInfo')])
p('C15','Backward through any graph computes the chain rule, on every call',
 'Calling backward on any node of any acyclic graph adds to each parameter it depends on the gradient of the sum of that node\'s elements, and leaves that derivative as the gradient of each node it depends on, including through shared sub-expressions, repeated operands and operators only some of whose outputs are used. Each operator\'s backward runs exactly once per call, after those of all its users; repeated calls, from the same or other nodes and mixed with evaluations, each contribute as if made alone.',
 ['programs','histories'],'all graph programs up to a size bound x all roots x all sequences of up to three calls',
 'Tests run backward once on a few graphs; ordering errors need sharing at different depths, and stale state needs a second call.',
 ['graph.rs','operators/parameter.rs','operators/split.rs','operators/batch_split.rs'],
 [('reverse order by depth',S+'graph.rs backward'),('gradient accumulation',S+'operators/*.rs backward')],['Node::{backward,inner_gradient}','Parameter::gradient'])
p('C16','Results never depend on what the device computed or stored before',
 'The values and gradients produced by any operation or graph are bitwise the same on a fresh device, after any history of other operations, and when its results are placed in recycled storage holding arbitrary old contents (also NaN or infinity). Repeating the same computation gives bitwise the same result.',
 ['histories','inputs'],'all operations x all storage contents from a set of poison patterns, and all ordered pairs of operations on one device',
 'Tests use fresh devices, whose storage is all zeros, which hides missing initialisation.',
 ['memory_pool.rs','devices/naive/matmul.rs','devices/naive/sum.rs','devices/naive/batch_sum.rs','devices/naive/identity.rs','graph.rs','device.rs'],
 [('kernels write every element of the result',S+'devices/naive/*.rs'),('gradients reset before use',S+'graph.rs backward, device.rs new_parameter')],['Tensor::to_vec','Node::backward'])
p('C17','Optimizers follow their published update rules over any training history',
 'For any sequence of gradients, learning-rate scalings, weight-decay and clipping settings over any set of parameters, SGD, MomentumSGD and Adam produce at each step the parameter values of their definition (weight decay added to gradients first, then joint norm clipping over all parameters when the norm exceeds the threshold, then the update with bias correction by step number for Adam), up to rounding. After every update all gradients are zero and the step counter has advanced by one; configuring a parameter again keeps its statistics.',
 ['histories'],'all sequences of update and setting operations up to a depth bound over a small alphabet of gradients and settings, for each optimizer and 1-3 parameters of different shapes',
 'No test covers any optimizer.',
 ['optimizer.rs','optimizers.rs','optimizers/sgd.rs','optimizers/momentum_sgd.rs','optimizers/adam.rs','parameter.rs'],
 [('common update procedure',S+'optimizer.rs update_parameters'),('update rules',S+'optimizers/*.rs')],['Optimizer::update_parameters','Parameter::{value,gradient,stats}'],
 [dict(name='stats',meaning='optimizer state per parameter',where=S+'parameter.rs')])
p('C18','Saved tensors, parameters and models load back exactly and resume identically',
 'Serializing any tensor, shape, parameter or derived model whose values are finite and loading it gives, once moved to a device, the same shape, batch and bitwise the same values, gradients and optimizer statistics, in any serde format, self-describing (JSON, CBOR, RON) or positional (bincode), and also after repeated save/load cycles. Training resumed from a checkpoint (optimizer step counter restored) produces bitwise the same parameters as uninterrupted training; data whose value count does not match its shape is rejected when moved to a device.',
 ['inputs','histories','crash_points'],'all parameter shapes and value patterns within bounds, every optimizer, every step of a training history as the checkpoint',
 'No test serializes anything.',
 ['tensor.rs','shape.rs','parameter.rs','model.rs','prima_undine_derive/src/lib.rs'],
 [('serde implementations',S+'tensor.rs, shape.rs, parameter.rs'),('moving loaded values',S+'tensor.rs move_to_device, parameter.rs')],['serde::Serialize','serde::Deserialize','Model::move_to_device'])
p('C19','A model enumerates each of its parameters exactly once, in order',
 'For every derived model struct, built from parameters, nested models and vectors of either, with any lifetime, type and where-clause generics and with any fields marked skipped, the parameter list contains every parameter of the non-skipped fields exactly once, in declaration order and recursively, and the mutable list refers to the same parameters in the same order. Moving or updating the model thus reaches exactly those parameters.',
 ['programs'],'all struct definitions with up to three fields over the alphabet of field kinds, and nesting up to a depth bound',
 'Tests derive on a few fixed structs.',
 ['prima_undine_derive/src/lib.rs','model.rs','parameter.rs'],
 [('derive macro','prima_undine_derive/src/lib.rs derive_model'),('vector models',S+'model.rs')],['Model::{parameters,parameters_mut,move_to_device}'])
p('C20','Initializers and random fills honour their distribution for every random draw',
 'Whatever the random source yields, Constant, Uniform, Normal and XavierUniform initialise every element of a parameter of any shape and leave its gradient zero: uniform values lie in [lower, upper), normal values are mean plus sd times a standard normal value, Xavier values lie within scale*sqrt(6/(rows+columns)), Bernoulli fills are 0 or 1 with 1 exactly for the fraction p of source outcomes, and log-normal fills are exp of a normal value. Each element uses its own draw, and Xavier on more than two dimensions or invalid distribution arguments are rejected.',
 ['inputs'],'every answer of the random source from a set including its extreme words, for all positions, shapes and distribution arguments within bounds',
 'Tests sample; extreme draws have probability near zero.',
 ['random.rs','devices/naive/random.rs','functions/random/device.rs','initializers/constant.rs','initializers/normal.rs','initializers/uniform.rs','initializers/xavier_uniform.rs','device.rs'],
 [('fills',S+'random.rs DefaultRandomizer'),('initializers',S+'initializers/*.rs')],['Device::new_parameter','RandomDeviceFunctions','Randomizer'])
p('C21','Normalisation, mean and dropout match their formulas for every mask',
 'mean, batch mean, slice sum, batch normalisation and layer normalisation give their formulas\' values for all shapes and batches (normalisation over the batch, or over all elements of each batch element), and their gradients through the graph are the exact derivatives; eager and graph forms agree. Dropout, with every possible mask, gives x/(1-rate) where the mask keeps an element and 0 elsewhere, with one mask value per element (or shared along the chosen axis for the per-axis form), passes gradients only through kept elements, is the identity when disabled and zero for rate 1.',
 ['inputs','programs'],'all shapes within bounds, all dropout masks of those shapes, eager and graph forms, all rates of a table',
 'There is no test of the contrib crate, and masks are random.',
 ['prima_undine_contrib/src/functions/contrib/tensor.rs','prima_undine_contrib/src/functions/contrib/node.rs'],
 [('formulas','prima_undine_contrib/src/functions/contrib/*.rs')],['ContribFunctions'])
p('C22','Softmax and cross entropies are normalised, stable and match their definition',
 'For every shape, axis and batch and any finite inputs, however large or far apart, softmax is non-negative and sums to 1 along the axis, log-softmax is its logarithm and is unchanged by adding a constant to the axis, and logsumexp is finite and at least the maximum. Dense cross entropy equals minus the sum of target times log-softmax, the sparse one equals minus log-softmax at the id (ids per batch element or shared) and equals the dense one on the one-hot target, in eager and graph form.',
 ['inputs'],'all shapes and axes within bounds x all value patterns from a set including magnitudes up to 1e30 and large offsets x all ids',
 'Tests use one or two inputs of moderate size.',
 ['devices/naive/logsumexp.rs','functions/basic/tensor.rs','functions/basic/node.rs','operators/softmax_cross_entropy.rs','devices/naive/pick.rs'],
 [('pairwise stable accumulation',S+'devices/naive/logsumexp.rs'),('composition',S+'functions/basic/tensor.rs')],['BasicFunctions::{logsumexp,softmax,ln_softmax,softmax_cross_entropy,sparse_softmax_cross_entropy}'])
p('C23','In-place updates change exactly their target by exactly the operand',
 'x += y, x -= y and x *= k change every element of x by exactly the matching element of y (or factor k) for all shapes: a batch-1 operand is applied to every batch element, and a batched operand is summed into a batch-1 target. Operands of other dimensions, incompatible batches or another device are rejected without any change, y and all other tensors stay as they were, and resetting a tensor by constant, slice or tensor sets exactly all of its elements.',
 ['inputs','histories'],'all shape and batch combinations within bounds, and all sequences of in-place operations up to a depth bound',
 'Tests cover two shapes and never mismatched operands.',
 ['devices/naive/add_assign.rs','devices/naive/sub_assign.rs','devices/naive/mul_assign.rs','devices/naive/reset_tensor.rs','functions/arithmetic/device.rs','device.rs'],
 [('in-place kernels',S+'devices/naive/*_assign.rs'),('checks',S+'functions/arithmetic/device.rs')],['AddAssign, SubAssign, MulAssign on Tensor','Device::reset_tensor*'])
p('C24','Operands of another device are rejected; copying between devices is exact',
 'An operation called on one device, or on tensors of one device, with any operand, gradient or destination that belongs to a different device panics without changing any tensor, for every forward, backward, in-place, reset and read function and every operand position. Copying a tensor to another device gives a tensor there with the same shape and bitwise the same values that is independent of the original.',
 ['configurations','inputs'],'all device functions x all assignments of operands to two devices (identical or different backends)',
 'No test uses two devices.',
 ['functions.rs','functions/basic/device.rs','functions/arithmetic/device.rs','device.rs','tensor.rs'],
 [('device checks',S+'functions.rs macros, functions/basic/device.rs, device.rs')],['BasicDeviceFunctions','ArithmeticDeviceFunctions','Device'])
p('C25','Tensor handles follow their life cycle: no double alloc, steal or free',
 'For every sequence of creating, allocating, aliasing, replacing, moving to a device, reshaping and dropping tensors, a tensor is valid exactly from its first successful allocation, aliasing, replacement or move. Allocating, aliasing into, or replacing a valid tensor, aliasing or replacing with a different shape or device, taking over an alias\'s storage, moving a tensor without host values, and reshaping to a different size are rejected leaving all tensors intact; replacing transfers storage, so that each buffer has exactly one owner and is returned exactly once.',
 ['histories'],'all sequences of life-cycle operations over three tensor slots up to a depth bound, against a state machine',
 'Tests never call the life-cycle operations out of order.',
 ['tensor.rs','device.rs'],[('life-cycle asserts',S+'tensor.rs'),('drop',S+'tensor.rs Drop for Tensor')],['Tensor::{alloc,refer,replace,move_to_device,update_shape,valid}','DeviceImpl'],
 [dict(name='handle, reference, host_values',meaning='life-cycle state of a tensor',where=S+'tensor.rs')])
p('C26','A custom backend gets exactly the calls the operations define',
 'On a device built from any backend, every operation invokes exactly the kernel registered last under its name, with its operands in order, its integer and real arguments unchanged, and freshly allocated results of the defined shape; forward, integer-valued, real-valued and backward kernels are separate namespaces. An operation whose kernel is not registered panics, changes nothing and returns the storage it had taken; every kernel name used by an operation or its backward is provided by the bundled device.',
 ['programs','configurations'],'all operations, forward and backward, x registered, unregistered and re-registered kernels in each namespace, against a recording backend',
 'Tests only use the bundled backend.',
 ['device.rs','device_impl.rs','devices/naive.rs','functions.rs','functions/basic/device.rs','functions/arithmetic/device.rs'],
 [('kernel registry',S+'device.rs register_*/call_*'),('registration of the bundled kernels',S+'devices/naive.rs')],['DeviceImpl','device_impl::Function*Impl'])
p('C27','Device functions take exactly the gradients and destinations that fit',
 'A device-level function called with tensors the caller supplies (forward, backward, in-place and reset functions) succeeds exactly when their shapes fit together: a gradient destination has the shape of its operand, the result and its gradient have the shape the forward function gives for the operands and arguments, in-place operands have the dimensions and a compatible batch, values given to a reset are as many as the destination holds, and a single value is read only from a tensor of size 1. Dimension indices of eight or more and ranges or ids outside the axis, also ranges that end beyond 32 bits, are rejected. A rejected call panics without reading or writing outside any tensor and changes no tensor.',
 ['inputs','configurations'],'every device function x all tuples of operand, result, gradient and destination shapes of an alphabet, axes, ranges and id lists, in builds with and without debug assertions',
 'Tests call backward functions with fitting shapes only; a missing check corrupts memory silently.',
 ['functions.rs','functions/basic/device.rs','functions/arithmetic/device.rs','device.rs','shape_ops.rs'],
 [('shape checks',S+'functions.rs macros, functions/basic/device.rs, device.rs')],['BasicDeviceFunctions','ArithmeticDeviceFunctions','Device::reset_tensor_by_*'])
p('C28','A whole training follows the mathematics, whatever is done in between',
 'For any model built from the operations (layers, classifiers, embeddings, recurrences, gated cells, attention, normalisation, pooling, penalties), any history of losses on batches of different sizes, one or several backward calls, updates, resets, evaluations and changes of weight decay, clipping or rate, with the model saved and loaded on the same or another device in between, leaves parameters, gradients and step counter as chain rule and published update rule give them. Predictions and losses are the same computed eagerly and in a graph, and are those of the current parameters. Nothing but updates (and the decay and clipping they include), backward calls and resets changes a parameter or a gradient.',
 ['histories','inputs'],'every history of actions to a depth over thirteen architectures, three optimizers and two settings each, and long trainings with settings, checkpoints and evaluations at different points',
 'No test trains a model; tests check one operation or one update at a time.',
 ['graph.rs','parameter.rs','model.rs','optimizer.rs','optimizers/*','operators/*','devices/naive/*','prima_undine_derive/src/lib.rs'],
 [('graph evaluation and backward',S+'graph.rs'),('updates',S+'optimizer.rs, optimizers/*.rs'),('parameters in graphs and saved',S+'operators/parameter.rs, parameter.rs, tensor.rs')],['Node::backward','Optimizer::update_model','Model','serde'])
p('C29','Nothing leaks: what a program leaves behind is given back, whatever it did',
 'Running any program again on the same device (device functions, eager operations, graphs that are evaluated, differentiated or neither and whose nodes are dropped in any order, trainings with saving and loading, calls that are rejected or fail in the backend), once its results are dropped, takes no further buffer from the backend and leaves no more memory in use than before. A node that is kept holds only what its own value needs. When a device and everything on it has been dropped, every buffer went back to the backend and all memory it used is free again.',
 ['histories','faults','inputs'],'every operation, every program of bounded size under several orders of dropping its nodes, every failing call of the backend, repeated on one device and over whole lives of devices while heap and backend buffers are counted',
 'No test looks at memory; a leak never changes a result.',
 ['graph.rs','tensor.rs','memory_pool.rs','parameter.rs','devices/naive.rs','operators/*'],
 [('release of nodes and gradients',S+'graph.rs'),('ownership of buffers',S+'tensor.rs, memory_pool.rs'),('release by the backend',S+'devices/naive.rs')],['Drop of Node, Tensor, Parameter, Device','Tensor::refer','Tensor::replace','Device::new_handle'])
p('C30','An element influences just the results that depend on it',
 'Changing one element of an operand, to any value and also to one that is infinite or not a number, leaves every value and every gradient that does not depend on that element by definition as it was: the other samples of a batch, the other lines of a reduction, search or softmax, the elements that were not picked, masked or joined with it, the other elements of a parameter in an update without clipping. What is computed by arithmetic from an element that is not a number (sums, products, matrix products, elementary functions, copies, updates) is not a number either, also where it meets zeros.',
 ['inputs'],'every element of every operand of every operation and of every program of bounded size, replaced by each special value',
 'Tests use finite numbers and compare whole results for one operand each; they cannot tell zero times an element from zero.',
 ['devices/naive/*','functions/*','operators/*','graph.rs','optimizers/*'],
 [('kernels',S+'devices/naive/*.rs'),('gradients',S+'operators/*.rs'),('propagation',S+'graph.rs'),('updates',S+'optimizer.rs, optimizers/*.rs')],['BasicFunctions','ArithmeticFunctions','Node::backward','Optimizer::update_parameters'])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
import re
for x in P:
    n=len([q for q in re.split(r'(?<=[.])\s+(?=[A-Z+])',x['statement']) if q])
    if n>3: print('WARN sentences',x['id'],n)
print(len(P))
