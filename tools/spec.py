"""Per-property settings: harness, build configurations, case counts, what makes a case non-trivial."""

def two(san_q, fast_q, san_t=None, fast_t=None, **kw):
    a = dict(name="san", quick=san_q, thorough=san_t or san_q * 30)
    b = dict(name="fast", quick=fast_q, thorough=fast_t or fast_q * 30)
    a.update(kw); b.update(kw)
    return [a, b]

SPECS = {
 "C01": dict(src="C01.cpp", configs=two(400000, 1200000), fuzz=True, fuzz_runs=60000,
    rule="A case is a random history of 1..12 shape operations over a pool of live shapes, against a model of dimension lists, every live shape re-checked after each step; non-trivial: at least 3 operations and at least 2 live shapes at the end."),
 "C02": dict(src="C02.cpp", configs=two(120000, 360000), fuzz=True,
    rule="A case draws a pair of shapes (independent, or one derived from the other by truncating, extending and collapsing dimensions) and a tensor with distinct elements plus a target shape; non-trivial: the view is rejected, or expands at least one dimension."),
 "C03": dict(src="C03.cpp", configs=two(120000, 360000), fuzz=True,
    rule="A case is a random history of 1..24 tensor operations (14 kinds of construction, copy, move, assignment, in-place update, reshape, write) over a pool of up to 7 live tensors, all compared with plain arrays after every step; non-trivial: at least 4 steps with at least 2 mutations."),
 "C04": dict(src="C04.cpp", configs=two(60000, 180000), fuzz=True,
    rule="A case draws a shape of rank 1..6 (sometimes thousands of elements) with distinct elements and one of: all valid at() indices, an invalid index, a reshape, a transpose, a slice; non-trivial: the operation moves data or must be rejected."),
 "C05": dict(src="C05.cpp", configs=two(160000, 480000), fuzz=True,
    rule="A case draws one or two tensors (shapes related by broadcasting, or not) with ordinary, wide-range or special values and one operator form; non-trivial: more than one result element."),
 "C06": dict(src="C06.cpp", configs=two(60000, 180000), fuzz=True,
    rule="A case draws a tensor of rank 1..5 and a non-empty ordered axis subset and checks sum, mean and variance in all their forms, on random, structured (constant, diagonal, repeated rows) and partly non-finite elements; non-trivial: more than one element per reduced group."),
 "C07": dict(src="C07.cpp", configs=two(50000, 150000), fuzz=True,
    rule="A case draws a rank pair, dimension sizes (sometimes around powers of two or above 1000) and values (small integers compared exactly, reals, structured matrices, infinities and NaNs); non-trivial: inner size above 1 and a result with more than one element (or a dot product)."),
 "C08": dict(src="C08.cpp", configs=two(200000, 600000), fuzz=True,
    rule="A case draws a tensor with distinct elements and start/end/step per dimension (negative, clamped, huge, empty, non-positive step), reads all view elements both ways, then writes through; non-trivial: a proper sub-window or a rejected specification."),
 "C09": dict(src="C09.cpp", configs=two(60000, 180000), fuzz=True,
    rule="A case checks the constant factories on a drawn shape, replays a drawn sequence of up to 10 random requests after reseeding, checks variation of random tensors, or estimates mean and variance of one generator over 4000 draws; non-trivial: more than one element or number."),
 "C10": dict(src="C10.cpp", configs=[dict(name="san", quick=80000, thorough=2000000), dict(name="fast", quick=200000, thorough=6000000), dict(name="logging", base="san", flags=["-DENABLE_LOGGING"], quick=80000, thorough=2000000)], fuzz=True,
    rule="A case renders a tensor (1..3000 elements, ordinary, extreme, infinite or NaN values) and parses the text back, or makes log calls with a drawn level and message in builds with and without logging; non-trivial: more than one element, or a log call."),
 "C11": dict(src="C11.cpp", configs=two(200000, 600000), fuzz=True,
    rule="A case draws an activation, a slope, a shape and finite inputs from denormal to the largest value, compared with long double definitions; non-trivial: any element-wise case, or a softmax row of more than one feature."),
 "C12": dict(src="C12.cpp", configs=two(160000, 480000), fuzz=True,
    rule="A case draws an activation, inputs of any magnitude away from kinks and three incoming gradients, compared with long double derivatives; non-trivial: any element-wise case, or a softmax row of more than one feature."),
 "C13": dict(src="C13.cpp", configs=two(100000, 300000), fuzz=True,
    rule="A case draws a loss, a prediction and target (equal, differing in one element, unrelated; one-hot, soft or arbitrary targets; probabilities at and near 0 and 1) and a mismatching shape; non-trivial: more than one element."),
 "C14": dict(src="C14.cpp", configs=two(60000, 180000), fuzz=True,
    rule="A case is a history of 1..8 steps (new parameters, forward with a rank-1 or batched input, backward for the latest forward, update through a recording optimizer) on one layer, every result compared with long double sums; non-trivial: at least two passes including a backward."),
 "C15": dict(src="C15.cpp", configs=two(20000, 60000), fuzz=True,
    rule="A case draws channels, kernel, stride, padding and dilation and a history of 1..6 steps (forward with fitting and non-fitting images, backward, new parameters, update) compared with long double sums; non-trivial: a forward and a backward."),
 "C16": dict(src="C16.cpp", configs=two(40000, 120000), fuzz=True,
    rule="A case draws pool, stride and padding and 1..5 passes over images with ordinary, all-negative, tied, infinite and lowest values, gradients checked position by position (coded as powers of two when there are ties); non-trivial: a forward and a backward."),
 "C17": dict(src="C17.cpp", configs=two(20000, 60000), fuzz=True,
    rule="A case is a history of 1..12 steps (training and evaluation passes with rank-2 and rank-4 inputs, mode switches, backward, update of gamma and beta through an own optimizer) against a long double model with tracked error bounds; non-trivial: a training pass and an evaluation or backward pass."),
 "C18": dict(src="C18.cpp", configs=two(8000, 24000), fuzz=True,
    rule="A case draws a rate and seed and either a history of up to 10 passes and mode switches (exact zero-or-scaled decoding, same choice in backward), one large tensor (frequencies of regions, pairs at many lags, two passes), or 3000 passes over a small tensor (frequency per position, joint frequency of all pairs and of consecutive passes), judged beyond nine standard deviations; non-trivial: at least two passes."),
 "C19": dict(src="C19.cpp", configs=two(100000, 300000), fuzz=True,
    rule="A case is a reuse history of 2..10 passes over one flatten or activation layer (library activations compared with the activation alone, or an own recording activation) with changing ranks, shapes and batch sizes; non-trivial: two forwards and a backward."),
 "C20": dict(src="C20.cpp", configs=two(30000, 90000), fuzz=True,
    rule="A case is a history of 1..16 (sometimes 300..1500) optimize calls of one or two SGD optimizers over up to four parameters (drawn options, ordered subsets, gradients of all magnitudes, rate overrides, parameters reassigned in between, mismatching calls) against a long double model with tracked error bounds; non-trivial: at least three parameter updates."),
 "C21": dict(src="C21.cpp", configs=two(30000, 90000), fuzz=True,
    rule="A case is a history of 1..16 (sometimes 300..1500) optimize calls of one or two RMSProp optimizers over up to four parameters (drawn options, ordered subsets, gradients of all magnitudes, rate overrides, parameters reassigned in between, mismatching calls) against a long double model with tracked error bounds; non-trivial: at least three parameter updates."),
 "C22": dict(src="C22.cpp", configs=two(30000, 90000), fuzz=True,
    rule="A case is a history of 1..16 (sometimes 300..1500) optimize calls of one or two Adam optimizers over up to four parameters (drawn options, ordered subsets, gradients of all magnitudes, rate overrides, parameters reassigned in between, mismatching calls) against a long double model with tracked error bounds; non-trivial: at least three parameter updates."),
 "C23": dict(src="C23.cpp", configs=two(1500, 6000), fuzz=True,
    rule="A case draws a stack of layers (images through convolution, pooling, batch norm, dropout and activations, or vectors), parameters, a batch and a loss, trains one step with plain gradient descent and compares every (or sampled) parameter's movement with extrapolated central differences of the model's own loss, skipping kinks; non-trivial: at least two derivatives compared and the gradient not zero."),
 "C24": dict(src="C24.cpp", configs=two(6000, 20000), fuzz=True,
    rule="A case trains either a model of own layers, loss and optimizer that log every call (the log compared event by event with the documented order and values) or a random library model (against the same steps by hand and against several shorter calls, bit for bit), comparing the printed losses; non-trivial: layers and several samples, or a finite library run."),
 "C25": dict(src="C25.cpp", configs=two(3000, 10000), fuzz=True,
    rule="A case draws a stack of layers with own mode-recording layers in between, trains it 0..3 epochs, and checks evaluation (repeated, permuted, interleaved, vector form, alone and in other batches with huge neighbours, parameters and random engine untouched) and the return to training against a twin never evaluated; non-trivial: at least two layers, and trained or with dropout."),
 "C26": dict(src="C26.cpp", configs=two(3000, 10000), fuzz=True,
    rule="A case draws a seed and a programme (random tensors, a layer stack, optimizer, data, training, prediction) and runs it two or three times with drawn unrelated work, different heap and stack garbage in between, comparing every weight, printed loss and prediction bit for bit and counting uses of random_device; and compares initial weights and dropout choices under another seed; non-trivial: the programme trains or draws at least ten random numbers."),
 "C27": dict(src="C27.cpp", configs=two(20000, 60000), fuzz=True,
    rule="A case builds an image and a label file in memory (well-formed, truncated, wrong magic, swapped, bad labels, corrupt headers, random bytes), a batch size and a request, and compares the outcome with an independent decoder, or renders an image; non-trivial: a malformed pair or more than one sample."),
 "C28": dict(src="C28.cpp", configs=two(2500, 8000), fuzz=True,
    rule="A case draws sample count, batch size and noise and checks shapes, ranges, relation and repetition of two datasets, and for 3000..9000 samples the distribution of inputs and noise beyond nine standard errors (std::random_device replaced by a seeded one); non-trivial: more than one sample."),
 "C29": dict(src="C29.cpp", aux_src="C29ref.cpp", aux_flags=dict(tsan=["-O1", "-ffp-contract=off"], omp=["-O3", "-march=native", "-ffp-contract=off"], gomp=["-O1", "-ffp-contract=off"]), ldflags=["-ldl"],
    configs=[dict(name="tsan", compiler=["g++"], flags=["-O1", "-g1", "-fsanitize=thread", "-fopenmp", "-ffp-contract=off", "-DOWN_GOMP"], quick=12000, thorough=300000, jobs=4),
             dict(name="omp", compiler=["g++"], flags=["-O3", "-march=native", "-fopenmp", "-ffp-contract=off"], quick=12000, thorough=300000, jobs=2, env={"OMP_WAIT_POLICY": "passive", "OMP_DYNAMIC": "false"})],
    rule="A case draws an operation (21 kinds, from element-wise operators to training a model), shapes on both sides of 1000 elements, values (small integers, whose sums are exact in any order, or reals) and 1..16 threads, runs it in the build with parallel directives on and compares with the same operation compiled without them, bit for bit unless it reduces inexact reals; one configuration runs on an own OpenMP runtime under ThreadSanitizer, the other on the real one; non-trivial: several threads and several elements, or a rejected call."),
 "C30": dict(src="C30.cpp", configs=two(15000, 50000), fuzz=True,
    rule="A case drives a layer, an activation or a whole model through a drawn mixture of valid calls and misuse (backward before forward, update before backward, wrong ranks and shapes, mismatched, empty or uncompiled training), each misuse required to throw and leave the parameters as they were, all valid results compared bit for bit with a twin that was never misused; non-trivial: at least one rejected call."),
 "C31": dict(src="C31.cpp", configs=two(15000, 50000), fuzz=True,
    rule="A case is a history over up to five instances of one kind of layer or optimizer: each is used (forward, backward, update, mode; or optimize on subsets of parameters), copied, copy-assigned over another, moved, move-assigned, added to a model, and every step of every instance is compared bit for bit with a twin that was never copied and lived through the same history; or two models are built from the same named layers, loss and optimizer; non-trivial: at least one copy or move followed by work."),
 "C32": dict(src="C32.cpp", ldflags=["-pthread"],
    configs=[dict(name="tsan", compiler=["g++"], flags=["-O1", "-g1", "-fsanitize=thread", "-DENABLE_LOGGING"], quick=8000, thorough=300000, jobs=4),
             dict(name="fast", flags=["-D_GLIBCXX_ASSERTIONS"], quick=25000, thorough=900000, jobs=3)],
    rule="A case gives each of 2..4 threads its own objects (tensors, activation, layer, optimizer, loss, model or data files; often copies of one used object) beside shared constant tensors and a shared activation, and 1..5 steps each; the steps run in a drawn order in which threads hand over through relaxed atomics only (so ThreadSanitizer sees every unsynchronised conflict), or all at once, and every result and printed line is compared bit for bit with the same steps done by one thread; non-trivial: more steps than threads."),
 "C33": dict(src="C33.cpp", configs=two(4000, 30000, 60000, 600000), fuzz=True,
    rule="A case trains a linear model on a realisable relation for 8..700 epochs (losses and final parameters compared with gradient descent in extended precision; loss never rising when convex), or a softmax or sigmoid classifier on separable classes with one of the three optimizers (all samples told apart at the end), or searches a learning rate that lowers the loss of a random smooth model every epoch; non-trivial: more than one row, or a trained model."),
 "C34": dict(src="C34.cpp", configs=two(12000, 60000), fuzz=True,
    rule="A case builds 2..8 layers in sequence, one large layer, 500 equal small ones, or a batch norm layer, from a drawn seed, and judges shapes, ranges, biases, repetition, and (nine standard errors) the distribution of weights overall, per position and between positions, or neutrality; non-trivial: layers of more than one weight."),
 "C35": dict(src="C35.cpp", configs=two(3000, 20000), fuzz=True,
    rule="A case counts every block obtained from operator new while the library repeats a drawn set of calls: operations of every kind on fresh operands (accepted and rejected), a pool of tensors assigned and moved, a layer over 1..30 input shapes, a model trained, predicting, misused and recompiled for 4..60 rounds, an optimizer with gradients at changing addresses, or the data loader on whole and damaged files (also counting open files); it demands that nothing grows after the first rounds and nothing is left at the end; non-trivial: every completed case with at least three steps."),
 "C36": dict(src="C36.cpp", configs=two(6000, 30000), fuzz=True,
    rule="A case lets requests of 512 bytes and more for memory fail (the first, the last and drawn ones of those a call makes; one, or all from there on) during an operation of any kind, a history of tensor assignments and updates, passes of a layer, optimizer updates, losses, predictions, training or data loading, or asks for shapes no memory can hold; the call must end in an exception (or complete with the ordinary result), leave operands, targets and memory in order, and give, repeated, the result of a twin that never lacked memory; non-trivial: at least one request refused."),
}
