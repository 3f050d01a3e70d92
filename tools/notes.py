"""Per property: what the specification says, what is enumerated, how the code is bound, what it cannot see.  Used for MANIFEST.json and DESIGN.md."""
N = {
'C01': ('ALife.tla (life cycle of a trainable algorithm: model held, variant in force), design-checked by ALifeModel.tla; C01.tla validates every step.',
        'For each of the 17 trainable classes: every pair of actions from {train on 4 data sets, train with a fault injected at a chosen matrix operation, unusable data of 7-11 kinds (missing, mismatched, NaN, infinite, ...), reset, 3 parameter variants, invalid value, queries, failing query, query of wrong width}, every word of length 3 (thorough 4) over a core alphabet, 8 (120) random walks of length 14.',
        'After every step: outcome, is_trained status, every request and every model matrix of the object against the abstract state; what the object announces (has_loadings, can_predict, matrix names) against what it then does.',
        'initialize(None, None) is the member initialiser by design, so it is not a training call.'),
'C02': ('ALife.tla; C02.tla compares with a new object.',
        'All (action, train) pairs, all (train, action, train) triples over 4 data sets (different rows, columns, scale, response count) and random walks of length 12 ending in a training.',
        'Answers on query data and all model matrices of the used object against those of a fresh object with the same parameters (relative 1e-8).',
        'DIPLS keeps its first centres (recorded finding): its reference is a new object with the same first training; a probe reports the finding.'),
'C03': ('QLife.tla: the first answer to every question is remembered, every later one must equal it.',
        'All ordered pairs of questions twice over, for every algorithm, transformation, filter and kernel (all public questions incl. print, serialise, failing shapes, faults inside a query), 3 parameter variants, 6 data sets (two of them large or in very small units), random walks of 16 questions; the response rotation and rows of zeros are questions too.',
        'Answer and error status of each question, element by element.', 'MSC only with data sets of the width its wave numbers fit.'),
'C04': ('QLife.tla extended with overwriting by the caller and a second object of the class.',
        'Histories new/train/overwrite training data/ask/overwrite query/overwrite result/ask again, two objects interleaved, refused trainings, random walks of 14 steps; ~110 operations of Matrix, helper and factory x 7 shapes with arguments of each kind.',
        'Bytes of every argument before and after each call; answers after the caller overwrote what it handed in or received; the bytes of every other matrix handed over or received before and after each overwriting; both objects against their own memory.', 'Operations that state that they modify their matrix are exempt for the receiver only; PassThrough hands back what it is given.'),
'C05': ('Params.tla: for every class the parameters, defaults, valid and invalid values, and what is held after each step.',
        'Every class x parameter x value: assign, assign-train, train-assign-train, repeated, two values, invalid values before/after training; pairs of parameters in the thorough tier; random walks of length 10; and an effect test: a value must change some answer.',
        'Getter values, trained/configured status, raised errors, and equality with a new object configured that way.', 'Parameters that affect no configuration (Log.offset, FFT options, filters, kernels) discard nothing; parameters nested in a base algorithm or kernel are outside.'),
'C06': ('TLife.tla (configured with which data set, under which variant), design-checked by TLifeModel.tla.',
        'For 12 transformations all words of length 4 over transform/inverse/configure/reset/assign on several data sets, and long random walks.',
        'Each result against that of a new object configured explicitly with the data set the specification names.', ''),
'C07': ('Transform.tla/C07.tla: inverse of transform is the identity; modes without inverse refuse.',
        'Transformation x parameter variant x configuration data kind x other data kind x shapes from 1x1 up, including constant columns, graded columns and data in very small and very large units (to 1e-12).',
        'Element-wise distance on the scale of the data; refusals for missing inverses.', 'Data outside the configured range of the quantile transformation is not invertible by definition.'),
'C08': ('Transform.tla states each formula (means, n-1 deviations, logarithm, median and quantiles, Yeo-Johnson/Box-Cox monotone map, quantile map).',
        'Class x data kind (offset, constant, tiny, huge, ties, ...) x shape x same/other data x configured explicitly or by first use.',
        'TLC computes the definition in IEEE doubles (java/Float64.java) and compares.', 'The power exponent is not required to be the likelihood optimum, only monotonicity and standardisation.'),
'C09': ('SavGol.tla: polynomial reproduction and polynomial weights characterise the least-squares filter.',
        'Windows 0..11 points left and right and wide ones to 250 points a side, orders and derivatives, both classes and the fixed gradient filter; smoothing of matrices of various widths.',
        'Weights against the defining equations, smoothed output against the sliding sum of the recorded weights.', 'Tolerance follows the conditioning of the window.'),
'C10': ('Filters.tla: index grids, interpolation, composition.', 'Every (start, step, width) and (samples, width) in a range, chains of up to 3 filters (all words), shared filter objects, chains within chains, several matrices through one object, up to 4001 samples.',
        'Exact equality for downsampling, interpolation within rounding, chain against composition of the specification.', ''),
'C11': ('MatrixOps.tla: definition, shape and refusal of 120 operations.', 'Operation x shape (11 small + 5 long shapes, every pair of small shapes for binary operations) x data kind (to 1e-150) x index/scalar.',
        'Result, shape and error status computed by TLC; operands unchanged, result does not share memory.', 'div_by_vector_modify etc. are the operations that say they modify.'),
'C12': ('CacheModel.tla (2 objects, versions, caches; exhaustively checked) and C12.tla/Decomp.tla.',
        'All (query, update, query) triples over 14 queries and 17 updates (refused ones, copies, scribbling), five-step walks, random walks.',
        'The contents follow the update operators of the specification; every decomposition must satisfy its equations for the contents at that moment.', ''),
'C13': ('Pls.tla: the recursions of SIMPLS, PLS1 and NIPALS in exact order of operations.', 'Sizes x components x data kind (incl. other units down to 1e-12, constant, exhausted predictors) x preprocessing x responses x deflation x iteration limits x number of coefficients.',
        'TLC recomputes the recursion from the recorded data and compares weights, scores, loadings, coefficients, predictions, transformation.', 'Signs of dominant eigenvectors are taken from the recorded vectors.'),
'C14': ('PlsX.tla: defining equations of OPLS, KernelPLS, DIPLS (3 modes), SparsePLS, PRM, VCPLS, CCARegression.', 'Sizes x data kind (units to 1e-8) x preprocessing x method parameters; domains of different size; wide and tall data.',
        'Recorded matrices are checked against equations recomputed by TLC; predictions for 1 and more rows.', 'PRM loop, KernelPLS centring of new rows, OPLS in one step: recorded findings with probes.'),
'C15': ('Pca.tla: orthonormal eigenvectors of the (recomputed) covariance, order, share, limit, constant columns.', 'Sizes x 13 data kinds x share x limit x centring or standardising.', 'Equations recomputed by TLC on recorded loadings and scores.', 'An exactly degenerate spectrum makes the choice of directions free; then only the equations are required.'),
'C16': ('Glsw.tla: filter matrix as function of the covariance.', 'Four filters x sizes x data kinds x alpha / N.', 'TLC recomputes the covariance and checks symmetry, eigenvectors and weights.', 'Pairing of unsorted eigenvectors is a recorded finding.'),
'C17': ('Cca.tla: orthonormality, diagonal cross-covariance, maximality (sums of squares), centring.', 'Sizes with X narrower/wider than Y, requests 1-4, regularisation 1e-4..50, six data kinds.', 'Equations on recorded projections.', ''),
'C18': ('Ica.tla: whitening, orthogonal unmixing, decorrelation, pseudo-inverse mixing, reconstruction; contrast functions and derivatives.', 'Sizes x 6 data kinds x contrast x algorithm x components x iterations, with and without whitening.', 'Equations on recorded matrices; contrast values recomputed.', 'Runs without whitening are required orthogonal only on data that is white already.'),
'C19': ('Kernels.tla: three kernels.', 'Kernel x parameters (incl. default gamma) x sizes (equal and different row counts) x data kinds.', 'Every entry recomputed; symmetric form, vector form.', 'RBF uses the unsquared distance (recorded finding).'),
'C20': ('Serial.tla: byte layout, two\'s complement, UTF-8 via Float64.java bit patterns.', 'Integers at every power of two, reals incl. subnormals and special, strings, big integers to 2^70 (2^300), matrices in four memory layouts, models, directories.', 'Bytes equal the bytes the specification computes.', 'get_serialised_state is a recorded finding.'),
'C21': ('Csv.tla: rendering and reading, cell by cell.', 'Round trips: separator x shape x kind x header x decimals x notation x channel; tables of all combinations of cell kinds up to 3 rows.', 'Values and shapes; bound on rounding; refusals.', ''),
'C22': ('Utils.tla.', 'Every list over 3 values up to length 5 and over 2 values up to length 8 (10), all permutations to length 5 (7), 18 patterns up to length 300 (500), the worst patterns (median-of-three killer) to 5000.', 'Permutation, order, untouched input; line; first maximum; formatting.', ''),
'C23': ('C23.tla: object with preprocessing = by-hand preprocessing around an object without.', '10 classes x 3 variants x 3 preprocessings x 10 data kinds x sizes x responses x modes; objects trained before with another preprocessing.', 'Predictions and scores of both recorded objects, means and deviations recomputed by TLC.', 'Algorithms with thresholds in the units of the response are not compared on very small responses.'),
'C24': ('C24.tla: row i of the batch answer is the single answer of that row.', '35 classes x questions x batches (permutations, subsets, repetitions, long batches) x data kinds x variants.', 'Row by row comparison, row count.', 'MSC, PCA, FastICA retrain on every transformation and are outside; SparsePLS and FFT findings.'),
'C25': ('Fourier.tla: DFT from its definition.', '6 modes x scaling x rows x widths 1..31 (65) x data kinds.', 'Recomputed spectrum; set of rows.', 'Row rotation is a recorded finding; rows are compared as a set.'),
'C26': ('Msc.tla: regression per range.', 'Range lists (overlapping, touching, empty, outside) x direction of wave numbers x number of configuration spectra x prefilter x slope (2^-30 to 2^30).', 'Line and correction recomputed by TLC.', ''),
'C27': ('Factory.tla.', 'Constructors x shapes x values; histories of up to 60 (200) random requests with other uses of the generator in between.', 'Contents, sharing, equality for equal requests and difference for different seeds.', 'Moments of randn are a recorded finding.'),
'C28': ('Decomp.tla: defining equations.', 'Square and rectangular shapes to 60 (200) x 12 kinds (graded, singular, repeated eigenvalues).', 'Residuals on the scale of the matrix.', ''),
'C29': ('Describe.tla on top of Params.tla: parameters in force, model, debug switch; the set of descriptions met must be an injective function of the reported parameters.',
        'For each trainable class and both parametrised kernels: every pair of assignments of reported parameters and switches, refused values in between, trainings before/after switching with every value of every parameter, random walks of 9 steps.',
        'Text of the description (addresses removed), debug switch, trained status, all answers and matrices after every step, standard output.', 'The wording of a description is free; descriptions of PRM, CCAFilter and the transformations report no parameters.'),
}
