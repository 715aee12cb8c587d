import json
P=[]
def p(id,title,st,over,q,why,files,state,mech,obs,hook=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=hook)))
K='crates/hodu_core/src/'
p('T01','View and shape operations denote exactly the elements their definition names',
 'For every tensor and every chain of reshape, flatten, squeeze, unsqueeze, broadcast, transpose, permute, slice (any start/stop/step, negative included), flip, repeat and contiguous calls that succeeds, the result has the shape and, element by element, the values that the mathematical definition of the chain gives. Every way of reading the result (element vectors, raw bytes, dtype cast, further operations) sees those same values.',
 ['inputs','programs'],'all tensors (any rank/shape/dtype) and all finite chains of view operations',
 'The suite tests C kernels on hand-written layouts and a few Layout unit cases; no test chains views at tensor level or reads a view with an offset, a zero stride or a negative step.',
 [K+'tensor/ops/shape.rs',K+'types/layout.rs',K+'types/shape.rs',K+'tensor/ops/cast_memory.rs',K+'tensor/ops/shape_memory.rs',K+'tensor/vec.rs',K+'tensor/bytes.rs'],
 [('layout','shape, strides and offset through which a tensor reads its storage',K+'types/layout.rs')],
 [('Layout::{reshape,slice,permute,broadcast_to,...}',K+'types/layout.rs'),('contiguous() before reshape of a strided view',K+'tensor/ops/shape.rs'),('to_flatten_vec','crates/hodu_core/src/tensor/vec.rs')],
 ['Tensor::shape, to_flatten_vec, to_vecNd, to_bytes, to_dtype'])
p('T02','Elementwise operations depend only on operand values and follow broadcasting',
 'For every pair of operands with compatible shapes, the elementwise arithmetic, comparison, logical, bitwise, select and scalar operations return a tensor of the broadcast shape whose every element is the scalar operation applied to the corresponding operand elements. This is so whatever views, offsets or strides the operands are and for each dtype that can represent the values; incompatible shapes are refused with an error.',
 ['inputs','programs'],'all operand pairs reachable through views, all broadcastable shape pairs, all dtypes the operation accepts',
 'Existing tests call the C kernels with row-major metadata; the tensor-level result layout, broadcasting and view operands are never executed by a test.',
 [K+'tensor/ops/binary.rs',K+'tensor/ops/cmp.rs',K+'tensor/ops/bitwise.rs',K+'tensor/ops/unary.rs',K+'tensor/ops/selection.rs',K+'tensor/utils.rs',K+'be_cpu/storage/ops_binary.rs','crates/hodu_cpu_kernels/kernels/ops_binary.c','crates/hodu_cpu_kernels/kernels/ops_unary.c','crates/hodu_cpu_kernels/kernels/ops_bitwise.c'],
 [('operand layouts','metadata handed to the kernel',K+'be_cpu/storage/ops_binary.rs')],
 [('broadcast_tensors2 / broadcast_tensors3',K+'tensor/utils.rs'),('binary_op! / cmp_op! macros',K+'tensor/ops/binary.rs')],
 ['result shape and elements'])
p('T03','Mathematical functions compute their definition on every element',
 'Every unary mathematical or activation function, and every floating-point binary or scalar-parameter function, returns at each element the value of its standard mathematical definition up to the precision of the element type. Non-finite inputs and domain edges give the IEEE result of that definition, and no element depends on any other element or on memory layout.',
 ['inputs'],'all finite and non-finite element values on the function domain, all float dtypes, contiguous and strided operands',
 'Kernel tests check a handful of f32 points for some functions; the scalar tails of vectorised loops, the strided paths, the other dtypes and the branch points of piecewise functions are sampled at best once.',
 [K+'tensor/ops/unary.rs','crates/hodu_cpu_kernels/kernels/ops_unary.c','crates/hodu_cpu_kernels/kernels/ops_unary_openblas.c','crates/hodu_cpu_kernels/kernels/math_utils.h',K+'scalar.rs'],
 [],[('IMPL_UNARY macros','crates/hodu_cpu_kernels/kernels/ops_unary.c')],['element values of the result'])
p('T04','Reductions, scans, sorting and normalisations range over exactly the named axes',
 'For every tensor, axis set (negative axes included) and keep-dimension choice, reductions (sum, mean, max, min, prod, std, var, norms, log-sums, arg-extrema, any, all), cumulative sums, top-k selection and softmax families combine exactly the elements that share the remaining coordinates, each once, and return them with the right shape and order. Reading through a view changes nothing.',
 ['inputs','programs'],'all shapes, axis sets, keep-dim choices and view operands',
 'Kernel tests fix a few shapes with contiguous metadata; axis sets in unusual order, negative axes and strided or broadcast inputs at tensor level are not covered.',
 [K+'tensor/ops/reduce.rs',K+'tensor/ops/scan.rs',K+'tensor/ops/sort.rs',K+'tensor/ops/normalization.rs',K+'be_cpu/storage/ops_reduce.rs','crates/hodu_cpu_kernels/kernels/ops_reduce.c','crates/hodu_cpu_kernels/kernels/ops_scan.c','crates/hodu_cpu_kernels/kernels/ops_sort.c'],
 [],[('reduce_operation',K+'tensor/ops/reduce.rs')],['result shape and elements'])
p('T05','Indexing, joining, splitting, padding, windowing pick exactly the right elements',
 'For every tensor, axis, index tensor and parameter choice in range, index selection, gather, the scatter family, index assignment, one-hot, nonzero, unique, compress, concatenation, stacking, splitting, chunking, the padding modes and sliding-window reductions return the elements their definition names, in its order and shape. Splitting followed by concatenation restores the tensor.',
 ['inputs','programs'],'all shapes, axes, in-range index tensors, paddings, windows and view operands',
 'Tests pin single kernels on contiguous inputs; the tensor-level argument handling, negative axes, strided operands and multi-output cases have none.',
 [K+'tensor/ops/indexing.rs',K+'tensor/ops/concat_split.rs',K+'tensor/ops/padding.rs',K+'tensor/ops/windowing.rs',K+'be_cpu/storage/ops_indexing.rs','crates/hodu_cpu_kernels/kernels/ops_indexing.c','crates/hodu_cpu_kernels/kernels/ops_concat_split.c','crates/hodu_cpu_kernels/kernels/ops_padding.c','crates/hodu_cpu_kernels/kernels/ops_windowing.c'],
 [],[('index_select/gather/scatter/...',K+'tensor/ops/indexing.rs')],['result shape and elements'])
p('T06','Matrix, einsum, convolution, resize and linear algebra follow their definition',
 'For every operand shape, batch broadcasting, stride, padding, dilation and equation they accept, matrix products, einsum, convolutions and transposed convolutions (1-3 D, and their weight gradients), nearest and linear resizing, determinant, inverse, trace and linear solve return the values of their textbook definition. The result is the same for contiguous and for strided operands.',
 ['inputs','programs'],'all operand shapes and hyper-parameters accepted, all numeric dtypes, view operands',
 'Kernel tests use a few fixed shapes; BLAS and generic code paths diverge by dtype and layout and most combinations of stride, padding, dilation and batch never run.',
 [K+'tensor/ops/matrix.rs',K+'tensor/ops/einsum.rs',K+'einsum.rs',K+'tensor/ops/conv.rs',K+'tensor/ops/linalg.rs',K+'tensor/ops/resize.rs','crates/hodu_cpu_kernels/kernels/ops_matrix.c','crates/hodu_cpu_kernels/kernels/ops_matrix_openblas.c','crates/hodu_cpu_kernels/kernels/ops_conv.c','crates/hodu_cpu_kernels/kernels/ops_conv_openblas.c','crates/hodu_cpu_kernels/kernels/ops_einsum.c'],
 [],[('matmul/dot/conv*/einsum',K+'tensor/ops/matrix.rs')],['result shape and elements'])
p('T07','Requests outside an operation\'s domain are refused with an error',
 'A tensor operation called with an axis, shape, index, size, padding or dtype outside its domain returns an error and leaves the operands as they were. It never panics, never reads outside the operand and never returns a value.',
 ['inputs'],'all out-of-domain arguments of the public tensor operations',
 'Tests only exercise valid arguments.',
 [K+'tensor/ops',K+'types/layout.rs',K+'utils/valid.rs',K+'error.rs'],[],[('validate_*',K+'utils/valid.rs')],['Result returned by each operation'])
p('T08','A live tensor keeps its value until it is explicitly assigned',
 'Whatever sequence of operations, drops, clones, backward passes and optimizer steps a program performs, a tensor handle it still holds stays readable and keeps its shape, dtype and elements, except when that very tensor is the target of an explicit assignment. Assigning one tensor never changes another one, and clones of one handle always show the same value.',
 ['histories','programs'],'all histories of creation, views, clones, drops, assignments, backward passes and optimizer steps',
 'The unit tests never keep a set of live handles across a history; storage sharing between views and the registry clean-up run only inside examples.',
 [K+'tensor/core.rs',K+'tensor/registry.rs',K+'tensor/internal.rs',K+'tensor/gradient/context.rs',K+'tensor/ops/cast_memory.rs'],
 [('TENSORS','global table of tensor records with reference counts',K+'tensor/registry.rs')],
 [('Tensor Clone/Drop reference counting',K+'tensor/core.rs'),('set_',K+'tensor/ops/cast_memory.rs')],['re-reading every held handle after each step'])
p('T09','Results do not depend on problem size thresholds or worker threads',
 'For operands of any size, including sizes that cross the thresholds at which kernels split the work over threads or vector lanes, every element of the result equals the one the definition gives, and the same call repeated returns the same result.',
 ['schedules','inputs'],'all operand sizes around and beyond the parallelisation and vectorisation thresholds and all schedules of the worker threads',
 'Kernel tests use tensors of a few elements, below every threading threshold, so the multi-threaded paths never run.',
 ['crates/hodu_cpu_kernels/kernels/thread_utils.h','crates/hodu_cpu_kernels/kernels/ops_matrix.c','crates/hodu_cpu_kernels/kernels/ops_reduce.c','crates/hodu_cpu_kernels/kernels/ops_conv.c','crates/hodu_cpu_kernels/kernels/ops_windowing.c'],
 [('work ranges','[start,end) given to each worker','crates/hodu_cpu_kernels/kernels/ops_reduce.c')],
 [('get_optimal_threads and the per-kernel split','crates/hodu_cpu_kernels/kernels/thread_utils.h')],['result elements'])
p('G01','Back-propagated gradients equal the derivative of the computed function',
 'For every program of differentiable operations on tensors that require gradients, calling backward on a result gives each such input the exact derivative of that result (summed over its elements) with respect to the input, accumulated over every path from the input to the result. An input that does not influence the result gets no contribution.',
 ['programs','inputs'],'all compositions of differentiable operations, shared sub-expressions and broadcast operands included',
 'No test in the suite calls backward.',
 [K+'tensor/gradient/compute.rs',K+'tensor/gradient/vjp_unary.rs',K+'tensor/gradient/vjp_binary.rs',K+'tensor/gradient/vjp_shape.rs',K+'tensor/gradient/vjp_indexing.rs',K+'tensor/gradient/vjp_reduce.rs',K+'tensor/gradient/vjp_utils.rs',K+'tensor/ops'],
 [('tape','operations recorded in program order',K+'tensor/gradient/tape.rs'),('grad','gradient attached to a tensor',K+'tensor/registry.rs')],
 [('compute_gradients reverse sweep',K+'tensor/gradient/compute.rs'),('record_operation',K+'tensor/gradient/tape.rs')],['Tensor::grad after Tensor::backward'])
p('G02','Gradient bookkeeping follows the program history',
 'Over any history of recording, backward, zero-grad, requires-grad changes, dropped intermediates and nested gradient contexts, a backward pass uses exactly the operations recorded since the tape was last consumed in its own context, zero-grad leaves a zero gradient, tensors that do not require gradients never receive one, and leaving a context restores the previous one with its pending operations intact.',
 ['histories'],'all histories of these calls',
 'No test exercises the tape; correctness depends on call order, which unit tests sample at most once.',
 [K+'tensor/gradient/context.rs',K+'tensor/gradient/tape.rs',K+'tensor/gradient/compute.rs',K+'tensor/core.rs'],
 [('CONTEXT_STACK','stack of active gradient contexts',K+'tensor/gradient/context.rs'),('GRADIENT_TAPES','tape per context',K+'tensor/gradient/tape.rs')],
 [('GradientContext::new/drop',K+'tensor/gradient/context.rs')],['grad(), backward() results, active context'])
p('G03','Threads computing independently get the results they would get alone',
 'When several threads run tensor programs, backward passes and optimizer steps on their own tensors, each thread observes exactly the values, gradients and errors it would observe running alone, under every interleaving.',
 ['schedules'],'all interleavings of independent tensor programs on different threads',
 'Every test is single threaded with respect to the tensor API, and gradient state is partly process-global.',
 [K+'tensor/gradient/context.rs',K+'tensor/gradient/tape.rs',K+'tensor/gradient/compute.rs',K+'tensor/gradient/core.rs',K+'tensor/registry.rs','crates/hodu_nn/macros/src'],
 [('IS_COMPUTING_GRADIENTS / IS_IN_OPTIMIZER_STEP','"do not record" flags',K+'tensor/gradient/context.rs')],
 [('thread-local context stack',K+'tensor/gradient/context.rs')],['values and gradients each thread reads'])
p('G04','Released tensors and consumed tapes are reclaimed',
 'Across any repetition of the same bounded workload (forward, backward, optimizer step, dropping intermediates, entering and leaving gradient contexts) the number of live tensor records returns to the same bound after each round; leaving a scope in which every handle is dropped leaves no record of it behind.',
 ['histories'],'all repetitions of bounded workloads',
 'A leak shows only over a history; no test counts live records.',
 [K+'tensor/core.rs',K+'tensor/registry.rs',K+'tensor/gradient/context.rs'],
 [('TENSORS','live tensor records',K+'tensor/registry.rs')],[('Drop for Tensor, context clean-up',K+'tensor/core.rs')],['tensor_count()'])
p('N01','Optimizers apply their update rule at every step of every history',
 'For every sequence of gradients, hyper-parameters and learning-rate changes, each step of SGD, Adam, AdamW, RMSprop and Adagrad changes every given parameter exactly as its published update rule prescribes from the state built by the previous steps, changes nothing else, and is not itself recorded for differentiation. Zero-grad resets every given parameter gradient.',
 ['histories','configurations'],'all gradient sequences and hyper-parameter settings',
 'hodu_nn has no test; multi-step state (moments, step count) is invisible to one-step checks.',
 ['crates/hodu_nn/src/optimizers/sgd.rs','crates/hodu_nn/src/optimizers/adam.rs','crates/hodu_nn/src/optimizers/rmsprop.rs','crates/hodu_nn/src/optimizers/adagrad.rs','crates/hodu_nn/macros/src'],
 [('m, v, t','moment estimates and step counter','crates/hodu_nn/src/optimizers/adam.rs')],[('Optimizer::step','crates/hodu_nn/src/optimizers')],['parameter values after each step'])
p('N02','Loss functions return their documented formula and propagate its gradient',
 'For every prediction and target of admissible shape, each loss (MSE, MAE, Huber, smooth-L1, BCE with and without logits, cross-entropy, NLL, KL divergence, cosine embedding) returns the value of its documented formula. Backward through it yields the derivative of that formula with respect to the prediction.',
 ['inputs','configurations'],'all prediction/target values, batch shapes and loss parameters',
 'hodu_nn has no test at all.',
 ['crates/hodu_nn/src/losses'],[],[('forward of each loss','crates/hodu_nn/src/losses')],['loss value, grad of the prediction'])
p('N03','Network modules compute their defined function and expose their parameters',
 'For every configuration and input, linear, convolution, pooling, normalisation, embedding, recurrent, attention, dropout and activation modules return the output of their documented function of input, parameters and mode; training mode and evaluation mode differ only as documented; and the parameter list holds every trainable tensor of the module exactly once.',
 ['inputs','configurations','histories'],'all module configurations, inputs and train/eval histories',
 'hodu_nn has no test at all.',
 ['crates/hodu_nn/src/modules','crates/hodu_nn/src/module.rs'],[('running statistics','state updated in training mode','crates/hodu_nn/src/modules/norm.rs')],[('Module::forward','crates/hodu_nn/src/modules')],['module output, parameters()'])
p('D01','A data loader delivers every sample exactly once per epoch, in full batches',
 'In every epoch a data loader yields batches that together contain each selected sample exactly once (when incomplete batches are dropped, all but the trailing remainder), in dataset order when not shuffled, each batch of the configured size except possibly the last. Resetting at any point, including in the middle of an epoch or after an error, starts a full new epoch.',
 ['histories','configurations','inputs'],'all dataset sizes, batch sizes, flags and histories of next/reset calls',
 'hodu_datasets has no test.',
 ['crates/hodu_datasets/src/data/dataloader.rs','crates/hodu_datasets/src/data'],
 [('indices, current_idx, epoch','permutation, cursor, epoch number','crates/hodu_datasets/src/data/dataloader.rs')],
 [('next_batch / reset','crates/hodu_datasets/src/data/dataloader.rs')],['batches returned'])
p('D02','Shuffling and samplers yield permutations and are reproducible from the seed',
 'Every shuffled epoch and every sampler yields in-range indices with the multiplicity it promises (permutation, subset, replacement count, weights of zero never drawn); with the same seed and history the sequence of batches is identical, and different epochs are shuffled independently of how far the previous one was read.',
 ['histories','configurations'],'all seeds, sizes and histories of next/reset calls',
 'No test exists; reproducibility is a relation between two runs.',
 ['crates/hodu_datasets/src/data/dataloader.rs','crates/hodu_datasets/src/data/sampler.rs','crates/hodu_datasets/src/data/dataset.rs'],
 [('seed, epoch','random stream selector','crates/hodu_datasets/src/data/dataloader.rs')],[('shuffle_indices','crates/hodu_datasets/src/data/dataloader.rs')],['index sequences'])
p('D03','Composed datasets map every index to the right underlying sample',
 'For every nesting of tensor datasets, subsets, concatenations and random splits, the length is the documented one and each valid index returns exactly the underlying sample the composition names; random splits partition the dataset; an index outside the range is refused with an error.',
 ['programs','inputs'],'all nestings of dataset combinators and all indices',
 'No test exists.',
 ['crates/hodu_datasets/src/data'],[],[('ConcatDataset/Subset/random_split','crates/hodu_datasets/src/data')],['get(i), len()'])
p('S01','A captured computation graph reproduces the computation it was captured from',
 'For every program run under capture with its inputs and targets, the captured snapshot lists every operation needed for the targets and no dangling reference, producers before consumers, with shapes and dtypes equal to the eager ones and all constants embedded; evaluating its nodes in order on any inputs gives what running the program eagerly gives.',
 ['programs','inputs'],'all programs of capturable operations, with reused, unused and constant tensors',
 'No test captures a graph.',
 [K+'snapshot.rs',K+'snapshot/capture/board.rs',K+'snapshot/capture/storage.rs',K+'tensor/ops'],
 [('board','operations captured so far',K+'snapshot/capture/board.rs')],[('capture()',K+'snapshot/capture/board.rs')],['Snapshot nodes, inputs, constants, targets'])
p('S02','Capture sessions do not leak into each other',
 'Only the operations a thread performs while its own capture is active are captured, whatever other threads do and however captures are started, nested, finished, failed or abandoned; after a capture ends the thread computes eagerly again.',
 ['schedules','histories'],'all interleavings and histories of capture sessions on several threads',
 'No test uses captures.',
 [K+'snapshot/capture/storage.rs',K+'snapshot/capture/board.rs'],[('ACTIVE_BOARD','capture active on the thread',K+'snapshot/capture/storage.rs')],[('CaptureBoard open/close',K+'snapshot/capture/board.rs')],['snapshot contents; eager results'])
p('F01','Tensors survive every save and load unchanged',
 'Any tensor, of any dtype and shape and whether or not it is a view, saved to the binary or the textual tensor format (file or in-memory) loads back with the same dtype, shape and element values; its raw bytes are exactly its elements in row-major order.',
 ['inputs'],'all tensors, views and dtypes, non-finite and extreme values included',
 'The few format tests use contiguous f32 tensors.',
 [K+'format/hdt.rs',K+'format/json.rs',K+'tensor/bytes.rs'],[],[('serialize/deserialize',K+'format/hdt.rs')],['loaded tensor'])
p('F02','Snapshots survive save and load unchanged',
 'Any captured snapshot written to a snapshot file and read back equals the original: same name, inputs, targets, nodes with all parameters, and constants with their bytes.',
 ['inputs','programs'],'all snapshots',
 'No test saves a snapshot.',
 [K+'format/hdss.rs',K+'snapshot.rs',K+'op_params.rs',K+'ops.rs'],[],[('postcard encoding',K+'format/hdss.rs')],['loaded Snapshot'])
p('F03','Malformed or truncated files are refused with an error',
 'Reading a tensor or snapshot file whose content is truncated at any point, corrupted in its header or inconsistent in its declared shape, dtype or size returns an error; the reader never panics, never allocates without bound and never returns a tensor whose data does not match its declared shape.',
 ['inputs','crash_points'],'all truncation points and header/field corruptions',
 'Tests load only files that were just written.',
 [K+'format/hdt.rs',K+'format/json.rs',K+'format/hdss.rs',K+'tensor/bytes.rs'],[],[('header checks',K+'format/hdt.rs')],['Result of load/deserialize'])
p('P01','A plugin server answers every request exactly once, in the protocol\'s order',
 'For every sequence of messages on its input, a plugin server answers each request with one response carrying the same id, refuses operations before a successful initialisation and unknown methods with the specified errors, initialises at most once, never answers a notification, survives malformed messages, and stops after shutdown.',
 ['histories','inputs'],'all message sequences, malformed lines included',
 'The SDK has no test.',
 ['hodu-plugin-sdk/src/server.rs','crates/hodu_plugin/src/rpc.rs'],[('initialized','whether initialize succeeded','hodu-plugin-sdk/src/server.rs')],[('handle_message','hodu-plugin-sdk/src/server.rs')],['lines written on stdout, exit code'])
p('P02','A plugin client matches responses to requests and survives faults',
 'Under every interleaving of responses, progress and log notifications, cancellations, late or foreign responses, timeouts and peer exit, a plugin call returns the result of its own request or an error, never the result of another request; after an error that leaves the peer alive the next call works and gets its own result; no call blocks beyond its timeout.',
 ['schedules','fault_sequences'],'all orders and faults of peer messages',
 'The runtime has no test; needs an adversarial peer.',
 ['crates/hodu_plugin_runtime/src/client.rs','crates/hodu_plugin/src/rpc.rs'],[('pending request id','request awaiting its response','crates/hodu_plugin_runtime/src/client.rs')],[('call loop','crates/hodu_plugin_runtime/src/client.rs')],['Result of each client call'])
p('P03','The plugin registry reflects the history of administrative operations',
 'After any history of insert/update, remove, enable and disable, saved and loaded at any points, the registry holds exactly one entry per installed plugin with its latest data; lookups by name, kind, device or extension return an enabled installed plugin that matches, if and only if there is one; dependency checks report exactly the missing or disabled dependencies.',
 ['histories'],'all histories of registry operations and queries',
 'The runtime has no test.',
 ['crates/hodu_plugin_runtime/src/registry.rs'],[('plugins','entries','crates/hodu_plugin_runtime/src/registry.rs')],[('upsert/remove/enable/disable/find*','crates/hodu_plugin_runtime/src/registry.rs')],['return values of queries, file contents'])
p('P04','The stored plugin registry survives crashes and concurrent access',
 'Whatever point a process saving the registry dies at, and however several processes load and save it at once, a reader obtains a complete registry that some save wrote in full; a previously saved registry is never lost or read half-written.',
 ['crash_points','schedules'],'all crash points of a save and all interleavings of concurrent savers and readers',
 'Needs crash and interleaving exploration; no test exists.',
 ['crates/hodu_plugin_runtime/src/registry.rs'],[('registry file','plugins.json on disk','crates/hodu_plugin_runtime/src/registry.rs')],[('file locks, save','crates/hodu_plugin_runtime/src/registry.rs')],['file content after a crash; load results'])
p('P05','Plugin processes are started once, reused, refused when disabled and reaped',
 'Over any history of requests for plugins that may be missing, disabled, failing to start or crashing, a manager runs at most one live process per plugin, reuses it while it is healthy, starts no process for a missing or disabled plugin, reports failures as errors and leaves no child process behind once it is dropped or a start fails.',
 ['histories','fault_sequences'],'all histories of manager calls and plugin process faults',
 'The runtime has no test; requires child processes.',
 ['crates/hodu_plugin_runtime/src/backend.rs','crates/hodu_plugin_runtime/src/format.rs','hodu-cli/src/plugins/process.rs'],[('plugins','running child processes','crates/hodu_plugin_runtime/src/backend.rs')],[('get / spawn / Drop','crates/hodu_plugin_runtime/src/backend.rs')],['child processes, call results'])
p('C01','Running a model executes the artifact built for that model, backend and device',
 'Over any history of run commands with changing models, inputs, devices, backends and failing builds, each run executes an artifact that was completely built by the chosen backend from exactly that model for exactly that device and platform, passes it exactly the given inputs, and reports the outputs it returned; a failed build or a missing input is an error and is never served from the cache later.',
 ['histories','configurations','fault_sequences'],'all histories of runs over models, devices, backends and build failures',
 'The command-line tool has no test; cache staleness shows only over a history.',
 ['hodu-cli/src/commands/run.rs','hodu-cli/src/plugins/process.rs'],[('build cache','artifacts under the cache directory','hodu-cli/src/commands/run.rs')],[('cache key','hodu-cli/src/commands/run.rs')],['plugin calls received, exit code, outputs'])
p('C02','Cleaning removes only what it names, inside the cache',
 'For every argument, the clean command deletes nothing outside the hodu data directory, a backend-specific clean deletes only that backend\'s cache, the default clean only the cache, and a dry run deletes nothing.',
 ['inputs','configurations'],'all flags and backend names, path-like ones included',
 'The command-line tool has no test.',
 ['hodu-cli/src/commands/clean.rs'],[],[('clean_directory','hodu-cli/src/commands/clean.rs')],['directory tree before and after'])
p('C03','Plugin administration commands keep the installation consistent',
 'Over any history of plugin enable, disable, remove, list and verify commands, the stored registry changes exactly as the command says, a command that fails changes nothing, removal deletes only that plugin\'s own files, and a plugin that others depend on is handled as documented.',
 ['histories'],'all histories of the plugin administration commands',
 'The command-line tool has no test.',
 ['hodu-cli/src/commands/plugin.rs','crates/hodu_plugin_runtime/src/registry.rs'],[],[('plugin subcommands','hodu-cli/src/commands/plugin.rs')],['registry file and plugin directory, exit code'])
p('C04','Converting a tensor file preserves its contents',
 'For every tensor file and every chain of conversions between supported tensor formats, the converted file holds the same dtype, shape and elements as the source, the source is untouched, and a conversion that fails leaves an existing destination readable as before or absent.',
 ['inputs','programs'],'all tensor files and chains of conversions',
 'The command-line tool has no test.',
 ['hodu-cli/src/commands/convert.rs',K+'format/hdt.rs',K+'format/json.rs'],[],[('convert_tensor','hodu-cli/src/commands/convert.rs')],['converted file'])
p('C05','Installing or updating a plugin replaces it as a whole or changes nothing',
 'Over any history of plugin install, update and remove commands and of changes to the packages they come from, a successful install leaves exactly one enabled registry entry under the name in the package\'s current manifest, with its version, kind, dependencies and source, and that plugin\'s directory holds exactly the executable just built and the current manifest; an update does the same for each chosen plugin from its recorded source and leaves plugins whose local source is gone as they are; other plugins and all other files stay untouched. A command that fails (package missing or not building, no or bad manifest, incompatible protocol version, name that is not a plain file name, already installed and not forced, files that cannot be written) leaves the registry, the plugin directories and the temporary directory as they were.',
 ['histories','fault_sequences'],'all histories of installs, updates, removals, package changes and write failures',
 'The command-line tool has no test; stale or half-replaced files show only over a history.',
 ['hodu-cli/src/commands/plugin/install.rs','hodu-cli/src/commands/plugin/update.rs'],[('plugins','plugins.json and the plugins directory','hodu-cli/src/commands/plugin/install.rs')],[('install_from_path/install_from_git','hodu-cli/src/commands/plugin/install.rs'),('update_plugins','hodu-cli/src/commands/plugin/update.rs')],['registry file, plugin directories, exit code'])
p('C06','A build asks the chosen backend for exactly the artifact that was named',
 'For every registry and build command, at most one backend is asked, once: the named one (or else the one named aot-<name>) if it can build, or without a name the first enabled builder for the device; it gets the given model, or the snapshot that the enabled model-format plugin for its extension made of it, and exactly the target (by default the host), device, format (as given, or else implied by the output name) and output path. A missing, unreadable or unsupported model, an absent, disabled or failing plugin ends in an error exit status without asking the backend in vain; no other plugin is started and no other file changes.',
 ['inputs','configurations','fault_sequences'],'all registries, build arguments and plugin failures',
 'The command-line tool has no test; needs plugin processes.',
 ['hodu-cli/src/commands/build.rs'],[],[('execute, find_builder_backend, determine_format','hodu-cli/src/commands/build.rs')],['requests plugins receive, exit code, files'])
with open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for x in P:
        assert len(x['title'])<=80 or print(x['id'],len(x['title'])),x['id']
        f.write(json.dumps(x)+'\n')
print(len(P))
