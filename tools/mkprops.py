#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, pathlib
S = 'src/wai/ma/'
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    a = {"files": [S + f for f in files],
         "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = list(observe)
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

PLSF = ['algorithm/pls/_AbstractPLS.py','algorithm/pls/_AbstractSingleResponsePLS.py','algorithm/pls/_AbstractMultiResponsePLS.py',
        'algorithm/pls/_SIMPLS.py','algorithm/pls/_PLS1.py','algorithm/pls/_NIPALS.py','algorithm/pls/_OPLS.py','algorithm/pls/_KernelPLS.py',
        'algorithm/pls/_DIPLS.py','algorithm/pls/_SparsePLS.py','algorithm/pls/_PRM.py','algorithm/pls/_VCPLS.py','algorithm/pls/_CCARegression.py']
ALGO = PLSF + ['algorithm/_CCAFilter.py','algorithm/_PCA.py','algorithm/glsw/_GLSW.py','algorithm/glsw/_EPO.py',
        'algorithm/glsw/_YGradientGLSW.py','algorithm/glsw/_YGradientEPO.py','algorithm/ica/_FastICA.py','algorithm/_AbstractAlgorithm.py']
TRF = ['transformation/_AbstractTransformation.py','transformation/_Center.py','transformation/_Standardize.py','transformation/_RowNorm.py',
       'transformation/_Log.py','transformation/_RobustScaler.py','transformation/_PowerTransformer.py','transformation/_QuantileTransformer.py',
       'transformation/_SavitzkyGolay.py','transformation/_SavitzkyGolay2.py','transformation/_FFT.py','transformation/_PassThrough.py',
       'transformation/_MultiplicativeScatterCorrection.py']
REG = 'the regression tests train each class once, on one 40x7 data set, mostly with default parameters, and compare with stored numbers'

prop('C01','No result without a successfully trained model',
 'A supervised algorithm (any PLS variant, CCA filter, GLSW/EPO variant) answers prediction and transformation requests only while it holds a model from a training call that succeeded; before that, after a reset, after a parameter was changed and after a training call that failed or was refused, every such request raises an error and no model matrix is available. '
 'The trained-status query always agrees with this, for these algorithms as well as PCA and FastICA. Training with a missing matrix, with the wrong number of response columns or with otherwise unusable data is refused with a message or an error, never reported as success. A trained PLS model offers loadings exactly when it announces that it has them, and unknown matrix names yield nothing.',
 ['histories','inputs','configurations'],'every sequence of construct, train (good, refused, failing half-way), reset, assign a parameter, query, on every algorithm class',
 REG+'; no test queries an object in any state other than freshly trained', ALGO,
 [('status flag set only when training returned no message, cleared by reset','algorithm/pls/_AbstractPLS.py initialize, algorithm/_AbstractAlgorithm.py reset'),('gate in predict/transform','algorithm/pls/_AbstractPLS.py, algorithm/_CCAFilter.py, algorithm/glsw/_GLSW.py')],
 [('initialised','whether a trained model is held','algorithm/_AbstractAlgorithm.py')],['is_initialised','predict','transform','get_matrix'])
prop('C02','Retraining forgets the past',
 'After any history of earlier trainings, failed trainings, resets, parameter assignments and queries, training an algorithm gives exactly the model (predictions, transformed data, model matrices) that a newly created object with the same parameter values gives on the same data. No centre, scale, weight, component or random state of earlier data influences the result.',
 ['histories','inputs','configurations'],'every sequence of operations before a training call, every pair of data sets (different values and different shapes), every algorithm class',
 REG+'; only the DIPLS test trains one object more than once', ALGO,
 [('reset clears every learned member','reset of each class'),('initialize resets before training','algorithm/pls/_AbstractPLS.py, algorithm/_CCAFilter.py, algorithm/glsw/_GLSW.py; transform of PCA and FastICA')],
 [('learned members','matrices, centers, standardizers, base models','each class')],['predict','transform','get_matrix','loadings','components'])
prop('C03','Queries do not change the model',
 'Predicting, transforming, inverse transforming, reading model matrices or loadings, printing and serialising leave a trained or configured object unchanged: asking the same question again, after any number of other questions (including ones that failed because of a wrong shape), gives the same answer. The answer to a query does not depend on which queries came before.',
 ['histories','inputs'],'every sequence of queries between two identical queries, for every algorithm, transformation and filter',
 'tests issue each query once per object', ALGO+TRF+['filter/_Downsample.py','filter/_Equidistance.py','transformation/kernel/_PolyKernel.py','transformation/kernel/_RBFKernel.py'],
 [('queries build new matrices from stored ones','do_transform/do_perform_predictions of each class')],(),['predict','transform','inverse_transform','get_matrix','to_string'])
prop('C04','Caller data and model are isolated from each other',
 'No operation modifies a matrix the caller passed in. Modifying the training data after training, a query matrix after the query, or a returned prediction or transformation result does not change later answers of the object. Two objects of the same class never influence each other.',
 ['histories','inputs'],'every operation of every class, every in-place modification of an argument or result between operations, two objects used in any interleaving',
 'tests never modify a matrix after handing it over and use one object at a time', ALGO+TRF+['core/matrix/_Matrix.py','core/_MultiFilter.py'],
 [('training works on copies','algorithm/pls/_AbstractPLS.py initialize and siblings'),('transformations copy before in-place vector operations','transformation/_Center.py, _Standardize.py, _RowNorm.py, _Log.py')])
prop('C05','Parameter assignment is validated, effective and invalidating',
 'Every algorithm and transformation starts with its documented default parameter values; assigning an invalid value raises an error and leaves the stored value and any trained model untouched. Assigning a valid value stores it, discards a trained model (or a configuration that depends on it), and the next training or configuration uses it.',
 ['histories','inputs','configurations'],'every parameter of every class, valid and invalid values including the boundary values, in the untrained and in the trained state',
 'tests assign a few valid values before the first training and never an invalid one', ['core/_LoggingObject.py','meta/_JavaObject.py','meta/_JavaObjectMeta.py']+ALGO+TRF+['filter/_Equidistance.py','transformation/kernel/_PolyKernel.py'],
 [('validate_<name> hook before every assignment, then reset','core/_LoggingObject.py __setattr__; __setattr__ of the transformations')])
prop('C06','A transformation is configured by the first data it sees',
 'An unconfigured transformation configures itself from the first matrix it is asked to transform and then applies exactly that configuration to every later matrix, until it is reset, explicitly reconfigured or one of its parameters is changed; configuring explicitly first gives the same result. Data that a transformation refuses leaves its configuration as it was. Row normalisation has no configuration: each matrix is normalised by its own rows, whatever was processed before. The one-call forms (center, standardize, row_norm, log) always work like a fresh object.',
 ['histories','inputs'],'every sequence of configure, transform, inverse transform, reset and parameter assignment with different matrices, every transformation class',
 'tests apply each transformation once, to the data that configures it', TRF,
 [('configured flag checked before use','transformation/_AbstractTransformation.py'),('learned parameters stored by configure','each transformation')],
 [('configured','whether a configuration is held','transformation/_AbstractTransformation.py')],['transform','inverse_transform'])
prop('C07','Inverse transformation restores the data',
 'For centering, standardising (including constant columns), logarithm, robust scaling, power and quantile transformation, pass-through and the paired output modes of the Fourier transformation, the inverse transformation of transformed data is the original data up to rounding (for the quantile transformation: for the configuration data), for the configuration data and for other data of the same width. Transformations and output modes without an inverse raise an error instead of returning data.',
 ['inputs','configurations'],'all matrices (also with constant, negative, huge, tiny columns, even and odd widths, other row counts than the configuration data) and all parameter settings',
 'tests do one round trip per class on one data set', TRF,
 [('do_inverse_transform mirrors do_transform','each transformation')])
prop('C08','Column and row scaling computes its definition',
 'Centering subtracts the column means of the configuration data; standardising also divides by the sample standard deviation (n-1), treating constant columns as having unit deviation; row normalisation does the same per row of the matrix at hand; the logarithm gives the base-b logarithm of value plus offset and refuses non-positive arguments. Robust scaling subtracts the median and divides by the chosen quantile range, the power transformation applies a monotone Yeo-Johnson or Box-Cox map standardised to zero mean and unit variance when asked, and the quantile transformation maps each column monotonically to the chosen distribution.',
 ['inputs','configurations'],'all matrices of any shape and magnitude and all parameter settings',
 'tests compare one 40x7 data set with stored output', TRF[:8]+['core/matrix/helper.py'],
 [('column/row means and deviations','core/matrix/helper.py'),('formulas','each transformation')])
prop('C09','Savitzky-Golay filters are the least-squares derivative filters',
 'For every window (any number of points left and right), polynomial order and derivative order, the filter weights reproduce the chosen coefficient of every polynomial up to the order exactly and are themselves polynomial in the position (least squares); smoothing slides that window over each row, giving one output column per full window. The fixed five-point gradient filter used for y-gradient weighting differentiates down the columns with the end rows repeated.',
 ['inputs','configurations'],'all window sizes, orders, data widths and values',
 'four window settings are compared with stored output on one data set', ['transformation/_SavitzkyGolay.py','transformation/_SavitzkyGolay2.py','transformation/_YGradientGLSWSavitzkyGolayFilter.py','algorithm/glsw/_YGradientGLSW.py'],
 [('normal equations','transformation/_SavitzkyGolay.py determine_coefficients'),('sliding window','transformation/_SavitzkyGolay.py do_transform')])
prop('C10','Resampling filters and filter chains',
 'Downsampling returns exactly the columns start, start+step, ... in order; equidistant resampling returns the requested number of columns, the linear interpolation of each row at equally spaced positions, with first and last column unchanged. A filter chain applies its filters one after another, each to the output of the one before.',
 ['inputs','configurations'],'all matrix widths, start indices, steps, sample counts (up- and downsampling) and chains',
 'the filters have no tests at all', ['filter/_Downsample.py','filter/_Equidistance.py','core/_MultiFilter.py'],
 [('column selection','filter/_Downsample.py'),('integer position arithmetic','filter/_Equidistance.py')])
prop('C11','Matrix operations compute their definitions and check shapes',
 'Every elementwise, vector-broadcast, product, reduction, selection, concatenation, comparison, clipping, sign, norm, median and predicate operation of the matrix class and its helper functions returns the mathematically defined result in a new matrix of the right shape, whatever the shape (single rows, columns and elements included). Operands whose shapes do not fit are rejected with an error, and only the operations that say so modify their matrix.',
 ['inputs'],'all shapes from 1x1 up, all values including zeros, ties, negative numbers, NaN',
 'the matrix tests check a handful of operations on one or two fixed matrices', ['core/matrix/_Matrix.py','core/matrix/helper.py'],
 [('numpy formulas behind shape guards','core/matrix/_Matrix.py')])
prop('C12','Cached decompositions never go stale',
 'Eigenvalues, eigenvectors and singular values returned by a matrix always belong to its current contents, whatever sequence of in-place updates and decomposition queries preceded the query. Modifying a returned decomposition does not affect the matrix or later answers.',
 ['histories','inputs'],'every sequence of in-place updates, decomposition queries, copies and modifications of returned results, over several matrices',
 'tests decompose a matrix once, right after creating it', ['core/matrix/_Matrix.py','core/matrix/helper.py'],
 [('caches dropped by every mutator','core/matrix/_Matrix.py reset_cache')],
 [('decomposition caches','lazily computed decompositions','core/matrix/_Matrix.py')],['get_eigenvectors','get_eigenvalues','svd_U','svd_S','svd_V','get_singular_values'])
prop('C13','SIMPLS, PLS1 and NIPALS follow their component recursions',
 'For every data set and number of components, the weights, loadings, scores and regression coefficients of SIMPLS, PLS1 and NIPALS (any number of responses, regression and canonical deflation) satisfy the published recursion step by step: normalised weights from the deflated data, scores, loadings, deflation, and regression of the response on the scores. Predictions and transformed data follow from these matrices, and with a limited number of SIMPLS coefficients only the largest weights of each component are kept.',
 ['inputs','configurations'],'all data sets (more rows than columns and the reverse, one or several responses), component counts and parameters',
 REG, ['algorithm/pls/_SIMPLS.py','algorithm/pls/_PLS1.py','algorithm/pls/_NIPALS.py'],
 [('component loops','do_perform_initialization of each class')],(),['get_matrix','predict','transform'])
prop('C14','The other PLS variants follow their defining equations',
 'OPLS removes components orthogonal to the response and trains its base model on the cleaned data; kernel PLS, domain-invariant PLS (supervised, unsupervised, semi-supervised), sparse PLS, partial robust M-regression, variance-constrained PLS and CCA regression produce weights, scores and coefficients that satisfy the defining equations of their method for the given parameters. Predictions follow from these matrices for data of any number of rows.',
 ['inputs','configurations'],'all data sets, component counts and parameters of each variant',
 REG, PLSF[6:], [('component loops','do_perform_initialization of each class')],(),['get_matrix','predict','transform'])
prop('C15','PCA returns the leading principal components',
 'The loadings are orthonormal eigenvectors of the covariance of the centred (or standardised) data in order of decreasing variance, just enough of them to reach the requested share of variance and never more than the column limit; constant columns are ignored and get zero loadings, and the last column numbers the inputs. The scores are the preprocessed data projected on the loadings.',
 ['inputs','configurations'],'all data sets (also with constant, duplicate and few columns), variance shares, column limits, both preprocessing modes',
 REG, ['algorithm/_PCA.py'], [('eigen-decomposition of the covariance and cumulative variance rule','algorithm/_PCA.py configure, do_transform, get_coefficients')],(),['transform','loadings','scores'])
prop('C16','GLSW and EPO filters are the intended functions of the covariance',
 'The GLSW filter matrix is symmetric, has the eigenvectors of the covariance of the difference of the centred data sets and the weights 1/sqrt(s^2/alpha+1) of its singular values s; the y-gradient variants use the covariance of the gradient of the data sorted by response, weighted by the response gradient. The EPO variants use the projector on the N dominant eigenvectors (all of them if N exceeds the columns). Transforming multiplies by the filter matrix.',
 ['inputs','configurations'],'all pairs of data sets, alpha and N, ties in the response',
 REG, ['algorithm/glsw/_GLSW.py','algorithm/glsw/_EPO.py','algorithm/glsw/_YGradientGLSW.py','algorithm/glsw/_YGradientEPO.py'],
 [('covariance, weights, projection','do_initialize, get_covariance_matrix, get_weight_matrix, get_eigenvector_matrix')],(),['G','transform'])
prop('C17','CCA filter finds the canonical directions',
 'The two projections are orthonormal with respect to the regularised covariances of the centred data and diagonalise the cross-covariance with non-negative canonical correlations in decreasing order, the largest ones possible; the number of directions is the requested one, and a request larger than either matrix is refused with a message. Transforming centres new data with the training means and projects it.',
 ['inputs','configurations'],'all data sets, numbers of targets, directions and regularisation values',
 REG+' (single target, one direction)', ['algorithm/_CCAFilter.py'], [('inverse square roots and SVD','algorithm/_CCAFilter.py do_initialize')],(),['proj_X','proj_Y','transform','transform_response'])
prop('C18','FastICA returns uncorrelated sources that reconstruct the data',
 'With whitening, the sources are the centred data projected on the returned components, mutually uncorrelated with unit sum of squares, and span the leading principal directions; the mixing matrix is the pseudo-inverse of the components and reconstruction maps the sources back to the closest matrix of that rank in the original orientation and location. Both algorithms with every contrast function keep the unmixing orthogonal, also without whitening on data that is white already, and the number of sources is the requested one limited by the data.',
 ['inputs','configurations'],'all data sets, algorithms, contrast functions, component counts',
 REG+'; reconstruction is never tested', ['algorithm/ica/_FastICA.py','algorithm/ica/approxfun/_LogCosH.py','algorithm/ica/approxfun/_Cube.py','algorithm/ica/approxfun/_Exponential.py'],
 [('whitening, decorrelation, mixing','algorithm/ica/_FastICA.py')],(),['transform','components','mixing','reconstruct'])
prop('C19','Kernel matrices hold the kernel of every pair of rows',
 'For the linear, polynomial and radial basis kernels, entry (i,j) of the kernel matrix of two data sets is the kernel value of row i of the first and row j of the second under the current parameters, the one-argument form is the kernel of the data set with itself (symmetric), and both agree with the vector form. A polynomial kernel without explicit gamma uses one over the number of columns of the data at hand.',
 ['inputs','configurations','histories'],'all pairs of data sets of equal width, all kernel parameters, repeated use on different data',
 'kernels are only exercised inside the kernel PLS regression test', ['transformation/kernel/_AbstractKernel.py','transformation/kernel/_LinearKernel.py','transformation/kernel/_PolyKernel.py','transformation/kernel/_RBFKernel.py'],
 [('pairwise evaluation','transformation/kernel/_AbstractKernel.py'),('matrix shortcuts','_LinearKernel.py, _PolyKernel.py')])
prop('C20','Serialised state has the documented binary layout',
 'Integers are written as 4 signed bytes, reals as 8-byte IEEE doubles, strings as length-prefixed UTF-8, big integers as a length-prefixed two\'s complement, matrices as row count, column count and elements row by row, all little-endian and lossless; models write their coefficient matrices in that form. Saving to a file creates missing directories and writes exactly those bytes; an object that has nothing to serialise yet raises an error.',
 ['inputs','histories'],'all values of each type (extremes, NaN, infinities, non-ASCII text) and all matrix shapes',
 'the serialisation references are empty files', ['core/_Serialisable.py','core/matrix/_Matrix.py','transformation/_Standardize.py','transformation/_Log.py','transformation/_SavitzkyGolay.py','algorithm/pls/_SIMPLS.py'],
 [('encoders','core/_Serialisable.py'),('field order','serialise_state of each class')],(),['serialise_state','save_state'])
prop('C21','CSV round trips preserve matrices',
 'Writing a matrix and reading it back (file name or open handle, any separator, with or without header) restores shape and values: exactly with unlimited decimals, within half a unit of the last written digit otherwise, also in scientific notation and for NaN and infinities. Reading skips exactly one header line when told so, takes the width from the first data row, leaves cells it cannot parse or that are missing as zero, and rejects input without data rows.',
 ['inputs','configurations'],'all matrices, separators, decimals, header settings and malformed cells',
 'tests only read one well-formed file', ['core/matrix/helper.py','core/utils.py'],
 [('formatting','core/matrix/helper.py data_to_string, core/utils.py'),('parsing','core/matrix/helper.py read')])
prop('C22','Numeric utilities: sorting, regression line, maximum',
 'The index sort returns a permutation that orders the list ascending, for every list of numbers whatever its length, order and ties, and leaves the list unchanged. The regression line is the least-squares line, the maximum index is the first position of the maximum, sums of squares, conversions and fixed-point formatting are exact. Partitioning part of an index list around its middle element only permutes that part and returns the position up to which no element exceeds the pivot and after which none is smaller.',
 ['inputs'],'all lists of integers and reals', 'the utilities have no direct tests', ['core/utils.py'],
 [('quicksort with median of three','core/utils.py'),('closed-form regression','core/utils.py linear_regression')])
prop('C23','Preprocessing is applied consistently to training and new data',
 'Training any PLS variant with centering or standardising as preprocessing and then predicting or transforming new data equals preprocessing the training data by hand, training without preprocessing, preprocessing the new data with the training means and deviations, and mapping predictions back to the scale of each response column. Without preprocessing the data is used as it is.',
 ['inputs','configurations'],'all PLS variants, preprocessing types, data with large offsets and scales, constant columns, one and several responses',
 'no test sets a preprocessing type', PLSF,
 [('transformations configured on training data, applied in predict/transform','algorithm/pls/_AbstractSingleResponsePLS.py, _AbstractMultiResponsePLS.py, _AbstractPLS.py')])
prop('C24','Each row is processed independently of its batch',
 'Predicting or transforming several rows together gives, row by row, the same result as processing them one at a time, in another order or in a larger batch, for every trained PLS variant, CCA and GLSW filters, configured column and row transformations, Savitzky-Golay and resampling filters. The number of output rows is always the number of input rows.',
 ['inputs','histories'],'all ways to split, reorder and repeat the rows of a query',
 'tests query with the training matrix as a whole', PLSF+['algorithm/_CCAFilter.py','algorithm/glsw/_GLSW.py']+TRF+['filter/_Downsample.py','filter/_Equidistance.py'],
 [('row-wise formulas','do_perform_predictions and do_transform of each class')])
prop('C25','Fourier transformation outputs the half spectrum in the chosen form',
 'Every output mode gives the non-negative frequency half of the discrete Fourier spectrum of the rows (orthonormal scaling when asked): real parts, imaginary parts, amplitudes, phase angles, or interleaved pairs, with purely real zero and (for even widths) Nyquist terms. The modes are mutually consistent and the set of row spectra is that of the input rows.',
 ['inputs','configurations'],'all widths (even, odd, 1 and 2), row counts, modes and scaling',
 'tests compare one data set of 7 columns with stored output', ['transformation/_FFT.py'],
 [('numpy FFT plus column formatting','transformation/_FFT.py')])
prop('C26','Multiplicative scatter correction per range',
 'Correcting a spectrum fits, for every configured wave-number range, the least-squares line of the (optionally pre-filtered) spectrum against the average of the configuration spectra and removes it from the amplitudes of exactly the points inside the range, both ends included. Points outside all ranges and the wave numbers themselves are unchanged, and building the configuration matrix keeps one wave-number column followed by the amplitudes in order.',
 ['inputs','configurations'],'all spectra, ranges (also touching, nested in number, disjoint), pre-filters',
 'there is no test of the correction', ['transformation/_MultiplicativeScatterCorrection.py','core/utils.py'],
 [('per-range regression','transformation/_MultiplicativeScatterCorrection.py RangeBased')])
prop('C27','Matrix construction is exact and reproducible',
 'Creating matrices from raw data copies it; the matrix class turns a scalar or plain vector into a single row and refuses arrays of more than two dimensions; zero, identity, filled, range, diagonal, row, column, spectrum and like-shaped constructors give exactly the stated contents and shape. Random matrices depend only on shape and seed: the same request gives the same matrix whatever happened in between, different seeds give different ones, values of the uniform generator lie in [0,1) and those of the normal generator have the requested mean and deviation.',
 ['inputs','histories'],'all shapes, values, seeds and interleavings of requests', 'the factory has no direct tests', ['core/matrix/factory.py'],
 [('constructors','core/matrix/factory.py')])
prop('C28','Matrix decompositions and inverses satisfy their equations',
 'Eigenvalues and eigenvectors satisfy A v = lambda v and the sorted forms order both consistently; singular value factors multiply to the matrix (up to the documented common sign), are orthonormal and ordered. Inverse, pseudo-inverse and linear solve satisfy their defining equations, for square, tall and wide matrices.',
 ['inputs'],'all matrices: symmetric, general with real eigenvalues, repeated eigenvalues, singular, tall, wide, 1x1', 'tests decompose one or two fixed matrices', ['core/matrix/_Matrix.py','core/matrix/helper.py'],
 [('numpy.linalg wrappers','core/matrix/_Matrix.py')])
prop('C29','Diagnostics describe the object and leave it alone',
 'The printed description of an algorithm or kernel reports the parameters in force: two moments with the same reported parameters have the same description, and any change of a reported parameter changes it, whatever assignments, refused assignments and trainings came before. Turning debugging output on or off, asking for a description and printing debugging output change neither the model, nor whether it is trained, nor any answer, and a model trained with debugging output on gives the same matrices and answers as one trained without. Nothing is printed to standard output while debugging is off.',
 ['histories','configurations'],'all orders of assignments, refused values, trainings, switching debugging on and off and asking for the description',
 'no test prints a description or trains with debugging on', ['core/_LoggingObject.py','algorithm/pls/_AbstractPLS.py','algorithm/_PCA.py','algorithm/ica/_FastICA.py','algorithm/pls/_SparsePLS.py','transformation/kernel/_PolyKernel.py'],
 [('debug switch','core/_LoggingObject.py'),('descriptions','algorithm/pls/_AbstractPLS.py to_string')])
pathlib.Path('/verif/properties.jsonl').write_text(''.join(json.dumps(p)+'\n' for p in P))
print(len(P))
