#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run after editing it)."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
OPS, TYPE, LOSS = 'tensorD/base/ops.py', 'tensorD/base/type.py', 'tensorD/loss.py'
F = 'tensorD/factorization/'
PTF, PNP = 'tensorD/base/pitf_ops.py', 'tensorD/base/pitf_ops_numpy.py'
MODELS = [F + x for x in ('cp.py', 'ncp.py', 'ntucker.py', 'tucker.py')]

GVN = ('abstract interpretation of the source into index-level tensor denotations with global value numbering, compared with the definition for symbolic '
       'mode sizes')
MACH = 'abstract interpretation of build and training compared, path by path, with a reference state machine of the algorithm (guards as decision diagrams)'

P = []


def prop(pid, title, statement, over, text, why, files, mech, technique, note, state=()):
    P.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note))


prop('C01', 'Unfolding and folding follow the Kolda index order and are inverse',
     'Unfolding a tensor along mode n places element (i0,...,iN-1) at row i_n and at the column given by the remaining indices with the lowest mode varying '
     'fastest. Folding such a matrix with the original shape gives back the original tensor, for every mode and every shape.',
     ['inputs'], 'every tensor of order 1-6, every mode, every combination of mode sizes (distinct, equal, 1)',
     'Tests unfold one or two small fixed tensors; a permutation error visible only at order 4+, with equal or unit sizes, or at one mode passes them.',
     [OPS], [('mode-first permutation with the other modes in falling order', OPS + ':unfold'), ('inverse permutation', OPS + ':fold')],
     GVN, 'Order bounded (6 thorough), mode sizes unbounded (symbolic).')
prop('C02', 'Matricization and tensor contraction use exactly the requested axes',
     'Turning a tensor into a matrix with given row and column axes groups exactly those axes, in the given order; an omitted side takes the remaining axes. '
     'Multiplying two tensors contracts exactly the given axis pairs and keeps the other axes of the first, then of the second, in order.',
     ['inputs'], 'every ordered split of the axes of tensors up to order 4 (5 thorough), every ordered pairing of contracted axes, axes given as int, list or tuple',
     'Tests use a handful of axis choices; the remaining splits and pairings are never run.',
     [OPS], [('axis grouping', OPS + ':t2mat'), ('contraction through matricization', OPS + ':mul')],
     GVN, 'Order bounded, sizes symbolic.')
prop('C03', 'The multi-mode product multiplies each mode by its own matrix',
     'Multiplying a tensor by a list of matrices along given modes equals the definition of the mode product for each, whatever the order in which modes are '
     'listed, which modes are skipped, and whether the matrices are transposed. Giving both an axis list and a skip list is rejected with an error.',
     ['inputs'], 'orders 1-5, every subset and order of modes, every skip set as int or list, transposed or not',
     'Tests cover order 3 with a few mode lists.', [OPS], [('mode product chain', OPS + ':ttm'), ('skip selection', OPS + ':_skip')],
     GVN, 'Order bounded, sizes symbolic.')
prop('C04', 'Kronecker, Khatri-Rao and Hadamard products of matrix lists are as defined',
     'The Kronecker and column-wise Kronecker product of a list of matrices orders the rows with the last matrix varying fastest, or the first one when reversed; '
     'the elementwise product multiplies all. Skipping positions leaves out exactly the matrices at those positions.',
     ['inputs'], 'lists of 1-5 matrices of any sizes, every skip set, both orders',
     'Tests multiply two or three fixed matrices.', [OPS], [('pairwise products', OPS + ':kron'), ('column-wise products', OPS + ':khatri'), ('elementwise', OPS + ':hadamard')],
     GVN, 'List length bounded, sizes symbolic.')
prop('C05', 'Inner product, vectorization, norm product and XCB follow their definitions',
     'The inner product sums the products of equally placed entries and rejects operands of different shape. Vectorization stacks entries with the first index '
     'varying fastest and its inverse restores the tensor; the product of the largest singular values and the triple product X C^T B equal their definitions.',
     ['inputs'], 'every shape up to order 5, both data types', 'Tests use one shape per function.', [OPS],
     [('entrywise sum', OPS + ':inner'), ('stacking', OPS + ':vectorize, vec_to_tensor'), ('norms', OPS + ':max_single_value_mul'), ('chain', OPS + ':xcb')],
     GVN, 'Order bounded, sizes symbolic.')
prop('C06', 'A tensor object gives the right answer on every call of every sequence of calls',
     'Each method of the tensor wrapper returns what its definition says for the arguments of that call, independent of the calls made before on the same object. '
     'No call changes the tensor the object stands for.',
     ['histories', 'inputs'], 'every sequence of one, two (three for short lists) method calls on one receiver, built from a graph tensor or an array, with tensor, wrapper and scalar operands',
     'Tests call each method once on a fresh object.', [TYPE], [('method delegation', TYPE + ':DTensor')],
     GVN + '; all call pairs on one receiver', 'Sequences bounded by two (thorough), sizes symbolic.')
prop('C07', 'CP and Tucker objects rebuild the full tensor of their pieces',
     'Extracting a CP object gives the sum over components of weight times the outer product of the factor columns, with unit weights when none are given. '
     'Extracting a Tucker object gives the core multiplied by each factor along its own mode; every accepted form of the pieces gives the same result.',
     ['inputs'], 'orders 2-6, factors as tensors or arrays of either precision, weights absent, vector or column, core as tensor or array',
     'Tests extract one order-3 example with the default form.', [TYPE], [('CP formula through Khatri-Rao', TYPE + ':KTensor.extract'), ('Tucker formula', TYPE + ':TTensor.extract')],
     GVN, 'Order bounded, sizes symbolic.')
prop('C08', 'Loss functions compute their formulas and reject different shapes',
     'The squared loss is half the sum of squared differences; the root mean square error averages over all entries, its zero-ignoring form only over entries '
     'where the data is nonzero. Operands of different shape are rejected with the library error.',
     ['inputs'], 'every shape up to order 5, data with and without zeros, both data types, seven kinds of shape mismatch',
     'Tests evaluate the losses only inside training on dense data.', [LOSS], [('masking and counting', LOSS + ':rmse_ignore_zero'), ('mean', LOSS + ':rmse'), ('sum', LOSS + ':l2')],
     GVN, 'Order bounded, sizes symbolic.')
prop('C09', 'No public operation changes its list or array arguments',
     'After any call, successful or failing, the axis lists, shape lists, matrix lists, factor lists and arrays that the caller passed hold what they held before.',
     ['inputs', 'histories'], 'every public operation of the algebra and the tensor objects with every list-taking argument form, orders 2-4, on every exit',
     'Tests never reuse an argument after a call.', [OPS, TYPE, F + 'cp.py'], [('copies before mutation', OPS + ':t2mat, fold, _gen_perm')],
     'effect analysis on the abstract heap: argument objects compared in every outcome state of the call', 'Exits found by the interpreter, including raised errors.')
prop('C10', 'CP-ALS performs the alternating least squares update',
     'One step of CP-ALS replaces each factor, in mode order, by the unfolded data times the Khatri-Rao product of the current other factors times the '
     'pseudo-inverse of the elementwise product of their Gram matrices, divided by its column maxima, which become the weights of the last mode.',
     ['inputs', 'histories'], 'every data tensor of order 2-4 (symbolic sizes and entries), every rank, one to three steps',
     'Tests only look at whether training runs or the error falls on one tensor; a wrong but still decreasing update passes.',
     [F + 'cp.py'], [('sequenced factor updates', F + 'cp.py:CP_ALS.build_model')], MACH, 'Order and number of steps bounded; sizes, entries and rank symbolic.')
prop('C11', 'Nonnegative CP performs the block coordinate update',
     'One step of nonnegative CP updates each factor, in mode order, by a projected gradient step from the extrapolated factor with step size one over the norm '
     'of the Gram product of the other current factors, then measures the reconstruction of the updated factors.',
     ['inputs'], 'every data tensor of order 2-4, every rank', 'Tests only look at whether training runs.', [F + 'ncp.py'],
     [('gradient and projection', F + 'ncp.py:NCP_BCU.build_model')], MACH, 'Order bounded; sizes, entries, rank symbolic.')
prop('C12', 'Nonnegative Tucker performs the block coordinate update',
     'One step of nonnegative Tucker updates the core by a projected gradient step whose step size is one over the product of the squared factor norms, and each '
     'factor, in mode order, by a projected gradient step against the current core and other factors.',
     ['inputs'], 'every data tensor of order 2-4, every rank tuple', 'Tests only look at whether training runs.', [F + 'ntucker.py'],
     [('core and factor updates', F + 'ntucker.py:NTUCKER_BCU.build_model')], MACH, 'Order bounded; sizes, entries, ranks symbolic.')
prop('C13', 'Extrapolation and restart of the nonnegative methods follow the momentum rule',
     'Between steps the nonnegative methods extrapolate each block with the momentum weight capped by the square root of the ratio of consecutive Lipschitz constants. '
     'When the objective does not decrease they restart from the last accepted blocks instead of extrapolating.',
     ['histories', 'inputs'], 'every path of two to four steps with every combination of accepted and rejected steps',
     'Rejected steps depend on the data and hardly ever occur in the tests.', [F + 'ncp.py', F + 'ntucker.py'],
     [('momentum and restart', F + 'ncp.py:NCP_BCU.train'), ('momentum and restart', F + 'ntucker.py:NTUCKER_BCU.train')], MACH, 'Steps bounded (4 thorough).')
prop('C14', 'Nonnegative methods publish nonnegative factors, cores and reconstructions',
     'After any number of steps, whatever the data, every entry of the factors, the weights, the core and the reconstruction that the nonnegative methods publish is at least zero.',
     ['inputs', 'histories'], 'data of any sign, any number of steps up to 6, accepted and rejected steps', 'Tests use nonnegative data, for which a missing projection rarely shows.',
     [F + 'ncp.py', F + 'ntucker.py'], [('projection', F + 'ncp.py:NCP_BCU.build_model'), ('projection', F + 'ntucker.py:NTUCKER_BCU.build_model')],
     'sign abstract domain over the tensor denotations of every published result on every path', 'Steps bounded.')
prop('C15', 'HOSVD and HOOI use leading left singular vectors and the projected core',
     'HOSVD takes for each mode the leading left singular vectors of the unfolded data; HOOI starts there and, mode by mode, replaces each factor by the leading left '
     'singular vectors of the data projected on the other current factors. The core is the data projected on all final factors.',
     ['inputs', 'histories'], 'every data tensor of order 2-4, every rank tuple, one to three steps', 'Tests look at the error on one tensor.',
     [F + 'tucker.py'], [('svd per mode', F + 'tucker.py:HOSVD.build_model'), ('projected svd', F + 'tucker.py:HOOI.build_model')], MACH, 'Order and steps bounded.')
prop('C16', 'Results do not depend on the execution order of unordered operations',
     'Within each session call, every access to a stored variable is ordered, by data or control dependencies, against every assignment to it that could influence '
     'a published result, so results are the same for every schedule of the runtime.',
     ['schedules'], 'every schedule TensorFlow may choose for each session call of up to 4 steps, orders 2-4', 'A test sees the one schedule that happened; missing control edges show up rarely.',
     MODELS, [('control dependencies between updates', F + 'cp.py:CP_ALS.build_model'), ('tf.group and dependencies', F + 'ncp.py:NCP_BCU.build_model')],
     'happens-before analysis of the constructed graph per session call, with taint of racing accesses to published results', 'Assumes variables are ref-type TF1 variables.')
prop('C17', 'Every training starts afresh',
     'Training a built model a second time gives what a first training gives from new random initial values: no state of the earlier training is used. '
     'Building it again with other arguments uses only the new arguments, and no stored variable is read before it is initialised.',
     ['histories'], 'build, train, train again; build, train, build with other ranks, train; every method, order 2-4', 'Tests train each object once.',
     MODELS, [('initialisation op', F + 'cp.py:CP_ALS.train')], MACH + ', run over two trainings', 'Two trainings; steps bounded.')
prop('C18', 'The published full tensor is the reconstruction of the published pieces',
     'Whenever training returns, on every stopping path, the published full tensor equals the reconstruction from the factors and weights or core published with it.',
     ['inputs', 'histories'], 'every path through up to 5 steps with a symbolic tolerance (every early stop is a path)', 'Tests do not compare the published results with each other, and early stops depend on data.',
     MODELS, [('results fetched in one call', F + 'ncp.py:NCP_BCU.train')], 'relational abstract interpretation: joint paths of the published attributes compared with the reconstruction formula', 'Steps bounded.')
prop('C19', 'The training history reports the error of each step that was carried out',
     'Training returns one row per step carried out, holding the zero-ignoring root mean square error and the relative residual of that step\'s reconstruction; '
     'the last row describes the published full tensor. A history that was returned stays as it is when the model is trained again.',
     ['inputs', 'histories'], 'every path through up to 4 steps with symbolic tolerance, verbose or not', 'Tests do not look at the rows.', MODELS,
     [('history rows', F + 'cp.py:CP_ALS.train')], 'relational abstract interpretation of history and published results on joint paths', 'Steps bounded.')
prop('C20', 'Training stops exactly when the stopping rule says so',
     'Training ends before the requested number of steps exactly when the relative residual is below the tolerance, or the relative change of the objective to the '
     'previous (for the momentum methods: previous accepted) step has been below it three times in a row.',
     ['inputs', 'histories'], 'every path through up to 6 steps with symbolic tolerance and objective values', 'Early stopping depends on data; no test stops early for each reason.',
     [F + 'cp.py', F + 'ncp.py', F + 'ntucker.py', F + 'tucker.py'], [('stall counter', F + 'cp.py:CP_ALS.train')],
     'path conditions of the loop exits as decision diagrams, compared with those of the specified rule', 'Steps bounded.')
prop('C21', 'Prediction and the finished flag follow the life of the model',
     'Asking for a prediction before training raises the library error; afterwards it returns the entry of the published full tensor at the given index. '
     'The finished flag is true exactly after a training that completed, and false before, during and after a training that failed.',
     ['histories', 'fault_sequences', 'inputs'], 'fresh, built, trained, retrained and failed models of every method; a failure of any session call, writer or file operation',
     'Tests never predict, never retrain and never fail a training.', MODELS,
     [('state flags', F + 'cp.py:CP_ALS.predict, train')], 'typestate by abstract interpretation over the call sequences, with exceptional exits of every external call', 'Call sequences bounded by two trainings.')
prop('C22', 'Models in one process do not disturb each other',
     'A model gives the same results whether or not other graph elements or other models exist, were trained before, or are trained in between, in the same process. '
     'Its summaries contain only its own values.',
     ['histories', 'programs'], 'foreign placeholders, variables and summaries in the default graph; every ordered pair of methods, interleaved', 'Tests run each model alone.',
     MODELS + [F + 'env.py'], [('own merge of own summaries', F + 'cp.py:CP_ALS.build_model'), ('one session per training', F + 'env.py:Environment.sess')],
     'non-interference by abstract interpretation of interleaved models against their own reference machines', 'Pairs of models.')
prop('C29', 'Files and summary writers are closed again',
     'Every summary writer that a training opens is closed when the training returns, and nothing is written to a closed one. Reading a data file closes the file '
     'on every exit, also when its content is invalid.',
     ['fault_sequences', 'histories', 'inputs'], 'every exit of training on every stopping path, first and second training; every exit of reading, including malformed rows and I/O errors',
     'Leaks do not fail a test.', MODELS + [F + 'pitf.py', F + 'pitf_numpy.py', 'tensorD/dataproc/reader.py'], [('writer close', F + 'cp.py:CP_ALS.train'), ('with block', 'tensorD/dataproc/reader.py:TensorReader.read')],
     'resource typestate on the abstract heap over every exit', 'External calls may fail where they do I/O.')
prop('C30', 'Progress is recorded at the first, the last and every requested step',
     'A training writes a summary record for step 1, the last requested step, every step when verbose, and every step divisible by the reporting interval, and for no other, '
     'once each, into the directory of the environment. Each record holds the error and relative residual of its step. Tensor recovery records likewise, whatever verbose is.',
     ['configurations', 'histories'], 'verbose on/off, intervals none/1/2/3, 1-7 steps, with and without early stopping, every method and the graph recovery', 'No test reads the records.',
     MODELS, [('report condition', F + 'cp.py:CP_ALS.train')], 'guards of the recorded events compared with the specified schedule as decision diagrams; value numbering of the recorded scalars', 'Steps and intervals bounded.')

prop('C23', 'Reading a data file gives exactly the entries of its rows',
     'Each non-blank row of a csv or txt file contributes one entry: its leading cells are the index, its last cell the value, in file order. The shape is the given '
     'one, or one more than the largest index of each mode; the dense tensor holds the entries and zeros. Other file types are refused with ArgumentError; a cell that is no number or a row lacking index cells raises an error.',
     ['inputs', 'histories'], 'contents of orders 1-5 with concrete or symbolic indices, symbolic values, blank rows anywhere, shape absent, list or tuple; re-reading after the file changed; two readers',
     'No test reads a file; only a script does.', ['tensorD/dataproc/reader.py'],
     [('row parsing and shape', 'tensorD/dataproc/reader.py:TensorReader.read'), ('scatter', 'tensorD/dataproc/reader.py:TensorReader.read')],
     'abstract interpretation with symbolic file cells; tables and dense scatter compared with their definition by value numbers and random interpretation',
     'Number of rows bounded (8); rows name distinct positions.')
prop('C24', 'Sampling operators read and write exactly the given positions',
     'Sampling reads the given positions of each pair matrix, and their sum for the pair sampling operator; the adjoint adds each sample, scaled, at its position, repeated '
     'positions adding up, so that it is adjoint to sampling. Positions are drawn separately per mode, as many as requested, each within the size of its mode; arguments stay unchanged.',
     ['inputs', 'configurations'], 'matrices and tensors of distinct, equal, unit and symbolic sizes, any index triples including repeated ones, every dimension selector, both implementations',
     'Tests run one call per operator on fixed data, with positions that do not repeat.', [PTF, PNP],
     [('adjoint scatter', PTF + ':adjoint_operator'), ('draws', PTF + ':sample3D_rule'), ('adjoint scatter', PNP + ':adjoint_operator')],
     'abstract interpretation into index-level denotations; value numbers and random interpretation; ranges read off the draws', 'Number of samples bounded (4); sizes and data symbolic.')
prop('C25', 'Centring, subspace, generation and shrinkage operators are as defined',
     'Centring subtracts row or column means as the role of the matrix requires; generated pair matrices are products of freshly drawn factors of the given rank, centred likewise. '
     'Shrinkage soft-thresholds singular values, by mode as defined for each role. The graph and the array version agree.',
     ['inputs', 'configurations'], 'every role and mode, distinct, equal and symbolic sizes and ranks, symbolic threshold, both implementations', 'Tests check shapes of one draw.', [PTF, PNP],
     [('projection', PTF + ':subspace'), ('shrinkage', PTF + ':shrink'), ('projection', PNP + ':subspace')],
     'abstract interpretation into index-level denotations, singular value operators uninterpreted; value numbers and random interpretation', 'Sizes symbolic.')
prop('C26', 'Tensor recovery performs the singular value thresholding iteration',
     'A recovery draws its sample positions once; each step forms three matrices by shrinking the adjoint of the sample vector, then adds the scaled sampling residual to '
     'the vector. The recorded error rate and loss of each step, the sample vector and the returned matrices are those of this iteration, and a new training starts afresh.',
     ['inputs', 'histories', 'schedules'], 'symbolic data, step size and threshold, any positions, one to four steps, trained once and again, both implementations',
     'The tests only run a training.', [F + 'pitf.py', F + 'pitf_numpy.py'], [('iteration', F + 'pitf.py:PITF.build_model, train'), ('iteration', F + 'pitf_numpy.py:PITF_np.exact_recovery')],
     MACH + '; terms that differ in form are compared by random interpretation', 'Shapes, samples and steps small; entries, step size and threshold symbolic.')
prop('C27', 'Environment, provider and argument objects hand through what they are given',
     'The environment serves the data, shape and queue its provider holds at that moment, the given summary path, and a new open session on each access. Argument objects '
     'hold the given values or the documented defaults. Base methods that are not implemented raise NotImplementedError, and every method class implements them.',
     ['configurations', 'histories'], 'data replaced between calls, arrays and graph tensors, every argument class with positional, keyword and default arguments, every base method',
     'Tests build one environment per model and never change its data.', [F + 'env.py', 'tensorD/dataproc/provider.py', F + 'factorization.py'] + MODELS,
     [('delegation', F + 'env.py:Environment'), ('contract', F + 'factorization.py:BaseFact')], 'abstract interpretation of accessors and constructors with symbolic values; method resolution', 'Four calls per environment.')
prop('C28', 'Synthetic data is a nonnegative low-rank tensor plus nonnegative noise',
     'The generators return, in the given shape, the CP or Tucker reconstruction of separately drawn uniform factors (and core) of the given rank, plus the positive part of '
     'normal noise scaled by the given or default level. The size and rank lists are left alone.',
     ['inputs', 'configurations'], 'orders 1-4, every size and rank (symbolic), noise level default, symbolic or zero', 'No test calls the generators.', ['tensorD/demo/DataGenerator.py'],
     [('reconstruction plus noise', 'tensorD/demo/DataGenerator.py:synthetic_data_cp, synthetic_data_tucker')], GVN, 'Order bounded, sizes symbolic.')
prop('C31', 'The demo and experiment scripts work with the library',
     'Each demo and experiment script runs to its end: every import, call, keyword and attribute it uses exists with the meaning it relies on, each trains its models, '
     'writes one line per history row, and closes its files.',
     ['programs'], 'every script under demo/ and ex/ that runs as a main program', 'No test runs the scripts.', ['tensorD/demo/cp_demo.py', 'tensorD/ex/ml_cp.py', 'tensorD/ex/cp_ex.py'] + MODELS,
     [('scripts', 'tensorD/ex/ml_tucker.py')], 'abstract interpretation of each script as main program; failing exits and unclosed files are violations', 'Training cut to one step, fixed small command line.')

NOT_APPLICABLE = []
NA_P = []


def not_applicable(pid, title, statement, over, text, why, files, mech, reason):
    NA_P.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech))
    NOT_APPLICABLE.append({'property': pid, 'reason': reason})


not_applicable('C90', 'Alternating updates do not increase the fitting error',
               'From step to step of CP-ALS and HOOI, and over the accepted steps of the nonnegative methods, the fitting error does not grow, and it converges.',
               ['inputs', 'histories'], 'every data tensor, any number of steps', 'Tests watch one run.', MODELS, [('updates', F + 'cp.py:CP_ALS.build_model')],
               'A monotonicity and convergence claim about real-valued iterations over unbounded runtime data; no sound static argument in reach bounds it. '
               'The update formulas themselves are decided by C10-C13 and C15.')
not_applicable('C91', 'Single precision results are close to exact arithmetic',
               'The published results differ from those of exact arithmetic by no more than a bound given by the precision and the conditioning of the data.',
               ['inputs'], 'every data tensor', 'Tests compare a few well-conditioned values.', MODELS + [OPS], [('float32 graph', F + 'cp.py:CP_ALS.build_model')],
               'Rounding errors of pinv, svd and long sums depend on runtime conditioning; a static bound would be vacuous.')
not_applicable('C92', 'Random initial values and samples have the intended distribution',
               'Initial factors are independent uniform draws and the sampled index triples are uniform over the tensor.',
               ['inputs', 'configurations'], 'every seed', 'Tests draw once.', MODELS + [PTF, PNP], [('random ops', PTF + ':sample3D_rule')],
               'Statistical quality of the generators is a runtime matter; shapes, ranges and single drawing are decided by C10-C13, C17, C24 and C26.')
not_applicable('C93', 'Training cost stays within the documented complexity',
               'The time and memory of a training step grow as the method promises.', ['inputs', 'configurations'], 'every size', 'Tests are tiny.', MODELS, [('graph size', F + 'cp.py:CP_ALS.build_model')],
               'Timing and memory depend on the runtime and kernels; not visible in the source.')
not_applicable('C94', 'Tensor recovery returns the original tensor from enough samples',
               'With enough sampled entries of a pairwise interaction tensor, the recovered matrices reproduce the tensor.', ['inputs'], 'every tensor in the model class',
               'Tests recover one tensor, if any.', [F + 'pitf.py', F + 'pitf_numpy.py'], [('iteration', F + 'pitf.py:PITF.train')],
               'A probabilistic convergence theorem; only the iteration rule (C26) and its operators (C24, C25) are decidable from the source.')

LEVEL_NOTE = ('Static: the current source is interpreted abstractly, no analysed code is executed. Trusts the models of TensorFlow 1.x / NumPy / Python operations in tdsa/lib_*.py; '
              'exact real arithmetic. Obligations that cannot be decided are listed in the evidence as undecided, not counted as holding. ')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P + NA_P:
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']},
                                'why_tests_cant': p['why'], 'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}) + '\n')
            assert len(p['title']) <= 80, p['id']
    m = {'version': 1, 'setup_cmd': 'python3 -c "import sys; assert sys.version_info >= (3, 8)"', 'checks': [], 'not_applicable': NOT_APPLICABLE,
         'notes': 'tdsa: an abstract interpreter for this library. See DESIGN.md.'}
    for p in P:
        m['checks'].append({'property': p['id'], 'quick_cmd': 'python3 check.py %s quick' % p['id'], 'thorough_cmd': 'python3 check.py %s thorough' % p['id'],
                            'technique': 'static analysis: ' + p['technique'], 'level': 'other', 'level_note': LEVEL_NOTE + p['note']})
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    P.sort(key=lambda p: p['id'])
    main()
