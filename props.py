NOTE = 'Proof over the real functions compiled from /repo on every run; doubles are treated as extended reals (rounding is not modelled), termination is not proved. '
prop('C01', 'Model search visits every admissible combination once and counts it',
 'A search over groups of variables estimates every admissible combination of the requested size (one item from each of the selected groups, the fixed groups always selected, and, where some items are fixed, the first one a fixed item) exactly once, and no other. The expected number of models reported before the search equals the number of models it estimates, and every estimation is counted once as a success or as a failure under its message, also after the results of several searchers are combined.',
 ['inputs', 'configurations'],
 'All numbers, sizes and contents of groups, all model sizes, all numbers of fixed groups and fixed items, with and without skipping target-less models, and all patterns of failing estimations.',
 'The tests enumerate a handful of small configurations and compare counts; a wrong carry, bound or skip shows only for particular group sizes and fixed counts.',
 ['src/ldt_statistics/modeling/search/searcher.cpp', 'src/ldt_statistics/modeling/search/modelset.cpp', 'include/math/statistics/inference/searchers.h'],
 [('next selection of groups', 'searcher.cpp: next'), ('next items within the groups', 'searcher.cpp: move_next'), ('number of models', 'searcher.cpp: Searcher::GetCount'), ('search loop and state counts', 'searcher.cpp: Searcher::Start, AddState'), ('combination of searchers', 'modelset.cpp: CombineInfo')],
 NOTE + 'The step between group selections is proved for any number of groups; the step between items and the counts for models of one to three groups out of three or four groups of any size; the complete search (with its maps and strings) is executed on sampled configurations only (bounded).')
prop('C03', 'Running and merged moments equal the moments of the whole sample',
 'Mean, variance, skewness and kurtosis of a (weighted) sample, computed in one pass, pushed value by value, or merged from parts, equal the moments of the whole sample, in whatever way it was split. Missing values are skipped, without changing the result, where skipping is requested, and a sample without observations has undefined moments and does not disturb a merge.',
 ['inputs', 'histories'],
 'All lengths, values, positive weights, NaN patterns and splits of the sample into pushes and merges.',
 'Tests compare a few fixed samples; the identities must hold for every sample, weight and split.',
 ['include/array.h', 'src/array.cpp', 'include/math/statistics/running.h'],
 [('one-pass update', 'include/array.h: update_single_pass'), ('merge of two parts', 'include/array.h: update_single_pass_combine'), ('running moments', 'include/math/statistics/running.h: PushNew, Combine')],
 NOTE + 'Array moments proved for every length by loop invariants, except the weighted four-moment loop, which is run on sampled inputs only (bounded).')
prop('C04', 'Date arithmetic: next, difference and order agree in every frequency',
 'In every frequency (yearly, quarterly, monthly, multi-year, weekly, daily, days of the week, intraday, lists of dates or texts), moving a date n steps and subtracting the original gives n, the order of two dates is the sign of their difference, and moving keeps the date valid for its frequency (position within the year or day, week day within the range). Two dates of different frequencies are never compared.',
 ['inputs', 'histories'],
 'All frequencies and their parameters, all dates and all step counts, forward and backward.',
 'Tests move a few dates by a few steps; errors sit at boundaries: positions at the end of a period, ranges that wrap over the week end, backward moves, multiples.',
 ['src/frequency/f_base.cpp', 'src/frequency/f_year_based.cpp', 'src/frequency/f_week_based.cpp', 'src/frequency/f_day_based.cpp', 'src/frequency/f_cross_section.cpp', 'src/frequency/f_list.cpp', 'include/frequency.h'],
 [('year based steps', 'f_year_based.cpp: Next, Minus, CompareTo'), ('week based steps', 'f_week_based.cpp: Next, Minus'), ('day-of-week ranges', 'f_base.cpp: DayOfWeekRange'), ('intraday steps', 'f_day_based.cpp: Next, Minus')],
 NOTE + 'The equality of frequency classes (a text comparison) and the week day of a calendar day are assumed contracts.')
prop('C02', 'Search summaries hold the best, all, and the weighted averages of the models',
 'Whatever the order in which models arrive and however they are split between searchers, the reported best models are the requested number of models with the largest weights, the complete list holds every model once, and the extreme bounds are the smallest lower and largest upper bound of the estimates. The inclusion weight of a variable is the mean weight of the models that contain it, and mixture moments and distribution values are the weighted averages over the estimates, for the requested metric, target and item only.',
 ['inputs', 'histories', 'configurations'],
 'All sequences of models and estimates with any means, variances and positive weights, any split over searchers, any item indices, and any number of kept models.',
 'Tests run a few searches on one data set; ties, all-negative estimates, empty searchers and other splits are not reached.',
 ['src/ldt_statistics/modeling/search/summary.cpp', 'src/ldt_statistics/modeling/search/modelset.cpp', 'include/math/statistics/inference/searchers.h', 'include/math/statistics/running.h'],
 [('one more model', 'summary.cpp: SearcherSummary::Push'), ('merging searchers', 'modelset.cpp: CombineBests, CombineAll, CombineExtremeBounds, CombineInclusionWeights, CombineCdfAt, CombineMixture')],
 NOTE + 'Pushes and merges of bounds, inclusion weights, distribution values and mixtures are proved for summaries in any state reached by two pushes and merges of three searchers; best and complete lists (balanced trees) are executed on sampled inputs only (bounded).')
prop('C14', 'Train/test splits partition the observations',
 'A random split puts every observation, complete with all its columns and unchanged, in exactly one of the training and test samples, whatever the permutation that is drawn. The training sample has the requested fixed size, or the rounded share of the observations; a size that leaves either sample empty is rejected. The stratified split keeps at least one training observation of every class and the rounded share of all classes except the largest, and rejects impossible sizes without writing outside the storage it announced.',
 ['inputs', 'configurations', 'schedules'],
 'All data, class patterns, training shares, fixed sizes and permutations of the random generator.',
 'Tests draw a few splits of one data set; lost or duplicated rows and overruns show only for some sizes and permutations.',
 ['src/ldt_statistics/data_split.cpp', 'include/math/statistics/data_split.h', 'src/matrix/matrix.cpp'],
 [('sizes', 'data_split.cpp: DataSplit::Calculate, DataSplitDiscrete::Calculate'), ('moving rows', 'data_split.cpp: Shuffle'), ('row copy', 'matrix.cpp: SetRowFromRow0')],
 NOTE + 'std::shuffle is used through its contract (some permutation). The simple split is proved for any number of observations with one and two columns; the stratified split for all permutations of three observations and by sampling up to twelve (bounded).')
prop('C15', 'AUC equals the share of correctly ordered pairs',
 'The area under the ROC curve equals the weighted share of (positive, negative) pairs of observations in which the positive one has the smaller score, ties counting one half (zero in the pessimistic version), with weights and instance-varying costs entering as the size of the vertical and horizontal moves. The curve starts at the origin, never decreases and ends at the totals, and a partial AUC is the area under that curve between the two thresholds divided by their distance. The area under any list of points is the sum of its trapezoids relative to the base line.',
 ['inputs', 'configurations'],
 'All scores, labels, positive weights, costs, thresholds, epsilon values and options, in particular with ties.',
 'Tests compare a few curves with stored numbers; ties at the end, one-sided groups, thresholds inside a segment and weights combined with costs are not reached.',
 ['src/ldt_statistics/scoring/roc.cpp', 'src/ldt_math/auc.cpp', 'include/math/statistics/scoring.h', 'include/helpers.h'],
 [('curve', 'roc.cpp: ROC::Calculate'), ('area', 'auc.cpp: AucPoints'), ('order of scores', 'helpers.h: SortIndexes')],
 NOTE + 'The area of points is proved for any number of points; the curve for all scores, labels, weights and costs of two and three observations (the real sort is executed symbolically) and by sampling up to twelve (bounded).')
prop('C16', 'Frequency cost is the weighted mean cost of the predicted probabilities',
 'For every cost table, the total cost is the weighted sum over the non-missing observations of the cost found in the row of the first threshold that is not below the predicted probability of the actual class (the last row above all thresholds) and the column of that class; the count is the sum of weights and the result the average over tables of total over count. A table is accepted exactly if it has at least two rows, one column per class plus the thresholds, and strictly ascending thresholds in [0,1].',
 ['inputs', 'configurations'],
 'All tables, thresholds, probabilities, classes, missing labels, weights and numbers of observations and tables.',
 'Tests use one table whose last threshold is one and scores strictly inside the bands.',
 ['src/ldt_statistics/scoring/frequency_cost.cpp', 'include/math/statistics/scoring.h'],
 [('cost sums', 'frequency_cost.cpp: FrequencyCost::Calculate'), ('validity of a table', 'frequency_cost.cpp: FrequencyCost::Check')],
 NOTE + 'Proved for any number of observations and table rows with one class and one table, for the validity check without bound, and for two observations, two classes and up to two tables; larger cases by sampling (bounded).')
prop('C17', 'Metrics are converted to weights consistently',
 'For every goodness-of-fit and out-of-sample metric, a better value (larger for positively oriented metrics, smaller for the others) has a strictly larger weight, the metric is recovered exactly from its weight, and percentage metrics are scaled by one hundred. The printed name of every metric is read back as the same metric. The CRPS of a normal or log-normal forecast is the integral of the squared difference between its distribution function and the step at the outcome, and equals the absolute error for a degenerate forecast.',
 ['inputs', 'configurations'],
 'All metrics, metric values, reference values, outcomes, means and standard deviations.',
 'Tests check single values of a few metrics; orientation and inversion must agree for every type.',
 ['src/ldt_statistics/scoring/scoring.cpp', 'include/math/statistics/scoring.h'],
 [('weights', 'scoring.cpp: ToWeight, FromWeight, IsPositiveOriented'), ('names', 'scoring.h: FromString_ScoringType, FromString_GoodnessOfFitType'), ('crps', 'scoring.cpp: GetScoreCrpsNormal, GetScoreCrpsLogNormal')],
 NOTE + 'exp, log and erfc are uninterpreted functions with monotonicity, sign and inverse facts; names and the integral definition of the CRPS are checked by execution (bounded).')
prop('C06', 'Ranges of available data start and end at existing values',
 'The range of an array is the smallest range that holds all its values that are not missing: it starts and ends at an existing value, everything outside is missing, and an array without any value (also an empty one) has an invalid range. A missing value is reported exactly if one lies inside the range. For a row or column of a matrix the same holds, for several columns the common range is the part shared by all, and the search for complete rows returns exactly the rows that hold no missing (or, where asked, infinite) value in the chosen columns, in order.',
 ['inputs'],
 'All lengths, shapes and patterns of missing values.',
 'Tests look at a few patterns; empty arrays, all-missing arrays and gaps next to the ends are not reached.',
 ['src/array.cpp', 'src/ldt_base.cpp', 'include/array.h'],
 [('range of an array', 'array.cpp: Array::GetRange'), ('index range', 'ldt_base.cpp: IndexRange')],
 NOTE + 'Proved for every length of an array and number of rows for the search for complete rows; the matrix rows and columns for all values and patterns of small shapes (bounded).')
prop('C07', 'Interpolation fills inner gaps linearly and changes nothing else',
 'Interpolating an array replaces every missing value between two existing ones by the point on the straight line between its nearest existing neighbours, leaves existing values and leading or trailing missing values as they were, and reports the number of filled values and the range of the data. Interpolating a row or column of a matrix does the same to that line and changes no other element.',
 ['inputs'],
 'All values and all patterns of missing values.',
 'Tests interpolate one or two patterns; several gaps, gaps of different lengths and gaps next to the ends are not reached.',
 ['src/array.cpp'],
 [('interpolation', 'array.cpp: Array::Interpolate')],
 NOTE + 'Bounded: every pattern of missing values and all real values of arrays of up to seven elements.', level='other')
prop('C09', 'Variables keep their observations at their dates',
 'Variables of the same frequency class that are bound together start at the oldest start and end at the latest end; every observation is at its own date in its own column, and a date at which a variable has no observation is missing; variables of different classes are rejected. Trimming removes leading and trailing missing values only and moves the start with them. Conversions aggregate exactly the observations of each period, in order, and start at the period of the first observation: a list of dates or days of the week (from the first day of the week range) to daily with missing values between, daily to weeks with a given first day (days before the first observation missing), to groups of k days from either end, and to x parts of a year (by days or by months).',
 ['inputs'],
 'All start dates, lengths and values; every first day of a week, week range and number of parts.',
 'Tests convert one short series per conversion and bind three variables; leap years, turns of the year, single parts, series that do not overlap and starts within a period are not reached.',
 ['src/variable/variable.cpp', 'src/variable/variables.cpp', 'include/variable.h', 'src/array.cpp', 'src/frequency/f_base.cpp', 'src/frequency/f_cross_section.cpp', 'src/frequency/f_week_based.cpp', 'src/frequency/f_year_based.cpp'],
 [('bind', 'variables.cpp: Variables::Variables'), ('trim, conversions', 'variable.cpp: Variable::Trim, ConvertTo_Daily, ConvertTo_MultiDaily, ConvertTo_Weekly, ConvertTo_XxYear; variable.h: ConvertTo_XxYear_month_based')],
 NOTE + 'Binding two cross-section or yearly variables is proved for every number of observations; the rest for all values (and all dates where a start date is free) of short series (bounded), longer ones run natively. Known finding: a days-of-week series that starts inside its week range is laid out as if it started on the first day (pinned by the existing test Variable_t.con_dayinweek_daily). Assumed: the short name of a weekday is parsed back to that weekday (run natively).')
prop('C11', 'Matrix element operations move exactly the announced elements',
 'Reading, writing, filling, copying, transposing, taking rows, columns, sub-matrices, diagonals and triangles, selecting by index lists, and reshaping a column-major matrix reads and changes exactly the elements that the operation names, for every shape and position including empty ones; all other elements keep their value. Positions and sizes that do not fit are rejected where the checked version of an operation is used. Symmetric storage holds one triangle and reads the same for both index orders.',
 ['inputs', 'configurations'],
 'All shapes, positions, counts, index lists and values.',
 'Tests use one or two mostly square matrices; wrong strides and swapped dimensions show on other shapes and positions only.',
 ['src/matrix/matrix.cpp', 'src/matrix/matrix_sym.cpp', 'include/matrix.h'],
 [('sub-matrices', 'matrix.cpp: SetSub, GetSub'), ('rows and columns', 'matrix.cpp: SetRow, SetColumn, GetRow, GetColumn, SetColumnFromRow'), ('symmetric storage', 'matrix_sym.cpp: MatrixSym')],
 NOTE + 'Row, column, sub-matrix, transpose, copy and index-list loops are proved for any number of columns (two or three rows) or rows (two columns); the other operations for all values of all shapes up to 3 x 3 (bounded).')
prop('C12', 'Matrix arithmetic and products equal their textbook definitions',
 'Element-wise sums, differences, products, quotients, scaled additions, sums and dot products, matrix products (plain, transposed, diagonal, symmetric and Gram products, also with missing values), Kronecker products and the inverse of a 2 x 2 matrix equal their definitions element by element for every compatible shape and scale factors, and change nothing but the result; incompatible shapes are rejected.',
 ['inputs', 'configurations'],
 'All compatible shapes, values, scale factors and transposition flags.',
 'Tests multiply a few small fixed matrices; leading dimensions, transposition flags and scale factors interact only for non-square shapes.',
 ['src/matrix/matrix.cpp', 'src/matrix/matrix_la.cpp', 'include/matrix.h', 'include/blas.h'],
 [('products', 'matrix_la.cpp: Dot, tDot, DotTr, TrDotTr, Dot_AtA, Dot_AAt, DotDiag'), ('element-wise', 'matrix.cpp: Add, Subtract, Multiply, Divide and their in-place versions'), ('Kronecker', 'matrix_la.cpp: Kron')],
 NOTE + 'BLAS routines are used through assumed contracts (their reference definitions). Element-wise operations and sums are proved for any size; products for all values of all shapes up to three (bounded).')
prop('C30', 'Column statistics equal their definitions and skip missing values',
 'Means, variances, covariances and correlations of matrix columns or of whole matrices, with or without the sample correction, equal their definitions over the rows that hold no missing value (over all rows when no check is requested), and report the number of rows used. Column and row sums, means and covariance matrices of chosen columns follow the given order; standardising subtracts the given means and divides by the given deviations (or roots of variances); the extremes of a matrix, row or column come with the first position where they occur.',
 ['inputs', 'configurations'],
 'All shapes, values, patterns of missing values, chosen columns and options.',
 'Tests compare a few matrices; missing values, single rows, ties and options combine in many more ways.',
 ['src/matrix/matrix.cpp', 'include/matrix.h'],
 [('columns', 'matrix.cpp: VarianceColumn, CovarianceColumn, CorrelationColumn'), ('matrix', 'matrix.cpp: Mean, Variance, Maximum, Minimum'), ('chosen columns', 'matrix.cpp: ColumnsSum, ColumnsMean, ColumnsVariance, RowsSum'), ('standardise', 'matrix.cpp: ColumnsStandard')],
 NOTE + 'Means, variances and covariances are proved for any number of rows; the others for all values of shapes up to three rows and columns (bounded).')
prop('C13', 'Prepared data sets hold exactly the complete rows of the chosen variables',
 'A prepared data set holds, in their order, exactly the rows without missing values in the chosen columns (every row when no missing values are expected), or, for time series, the range that all chosen series share, with missing values inside a series reported for that series and nothing left over from data prepared earlier. Standardised data are the columns minus their means and divided by their standard deviations (or the given ones), with columns without variance removed, and reported, when requested. The source is not changed and the storage is not exceeded.',
 ['inputs', 'configurations', 'histories'],
 'All shapes, values, patterns of missing values, chosen columns in any order, and options.',
 'Tests prepare one or two matrices; missing values, repeated or reordered columns and options combine in many more ways.',
 ['src/matrix/dataset.cpp', 'include/matrix_utils.h'],
 [('complete rows', 'dataset.cpp: Dataset::Calculate'), ('common range', 'dataset.cpp: DatasetTs::Data, Update'), ('standardised columns', 'dataset.cpp: MatrixStandardized::Calculate')],
 NOTE + 'Bounded: all values, patterns of missing values, column choices and options for up to three observations of two variables.', level='other')
prop('C29', 'Sorting, removing and finding elements keep the right elements in order',
 'Sorting a matrix sorts every column and keeps its elements; sorting indices are a permutation that puts the elements in order, with ties in their original order; rows, columns or elements arranged by an index list follow the list, and lists or storages that do not fit are rejected. Removing missing (or infinite) elements or columns, or named columns, keeps the others unchanged in their order; the search for a value (or for missing values) finds exactly its positions, and comparisons of matrices follow the tolerance and the treatment of missing values.',
 ['inputs', 'configurations'],
 'All shapes, values, ties, missing values, index lists and options.',
 'Tests sort one or two matrices; ties, repeated indices, adjacent missing values and other shapes are not reached.',
 ['src/matrix/matrix.cpp', 'include/matrix.h', 'include/helpers.h'],
 [('sorting', 'matrix.cpp: Sort, SortIndicesVector, SortRowsBy, SortColumnsBy, SortByVector; helpers.h: SortIndexes'), ('removing', 'matrix.cpp: RemoveNanVector, RemoveColumnsIn, RemoveColumnsAnyNan_in'), ('finding', 'matrix.cpp: Any, All, IndicesOfVector, Equals')],
 NOTE + 'The questions whether any or all elements have a value are proved for any number of elements; the others for all values of small shapes (bounded).')
prop('C31', 'Determinants, inverses, factors and solutions satisfy their equations',
 'For an invertible matrix the determinant equals its definition, the inverse times the matrix is the identity, and the solution of a triangular system (either triangle, transposed or not, unit diagonal or not) or of a positive definite system (either triangle) satisfies the system for every right-hand side. The Cholesky factor of a positive definite matrix is triangular with a zero opposite triangle and its product is the matrix. Singular, indefinite or non-square matrices are reported, norms equal their definitions, and singular value decompositions receive the right matrix and put every requested part into its storage. The source is unchanged where the result has its own storage.',
 ['inputs', 'configurations'],
 'All values, orders, right-hand sides, triangles and options.',
 'Tests solve a few fixed systems; a wrong triangle, transposition flag, row exchange or leading dimension shows on other systems only.',
 ['src/matrix/matrix_la.cpp', 'src/matrix/matrix.cpp', 'src/matrix/decompositions.cpp', 'include/blas/lapack.h'],
 [('determinant', 'matrix_la.cpp: Det, matrix.cpp: Det_pd0'), ('inverse', 'matrix.cpp: Inv; matrix_la.cpp: Inv00, Inv2x2'), ('factors and solutions', 'matrix_la.cpp: Chol0, SolveTrian0, SolvePos0'), ('decompositions', 'matrix_la.cpp: QR0, SVD0; decompositions.cpp: MatrixSvd')],
 NOTE + 'LAPACK routines are used through assumed contracts (contracts/solvers.h). The systems handed to LAPACK are proved to be the right ones for any order; the equations for all values of orders up to three (bounded).')
prop('C18', 'Distances between columns equal their definitions over the common rows',
 'The distance matrix of the columns of a data matrix is symmetric, and every element equals the definition of the chosen distance (Euclidean, Manhattan, maximum, or the distance based on the correlation or its absolute value, with Pearson or Spearman coefficients), computed over exactly the rows in which neither of the two columns has a missing value where missing values are expected.',
 ['inputs', 'configurations'],
 'All numbers of rows and columns, values, patterns of missing values, distances and correlation methods.',
 'Tests compare one small matrix per distance; missing values in one of the two columns, ties and other shapes are not reached.',
 ['src/ldt_statistics/clustering/distance.cpp', 'include/math/statistics/clustering.h'],
 [('distances', 'distance.cpp: Distance::Calculate')],
 NOTE + 'Euclidean, Manhattan and maximum distances are proved for any number of rows; the correlation distances for small shapes (bounded). Columns without a common row are left out for the maximum distance.')
prop('C19', 'Clustering merges the closest groups and groups partition the columns',
 'Hierarchical clustering performs the merges of the agglomerative algorithm: the closest pair first, at their distance, with the distance to a merged cluster following the chosen linkage (single, complete, weighted and unweighted average, Ward). The table of merges has ascending heights and every row joins leaves or earlier rows; a number of groups gives a partition of the items into that many groups, each a complete cluster of the tree. Grouping data puts every column in exactly one group, except the columns that are closer than the given threshold to an earlier column of their group, which are removed and reported, with nothing left over from an earlier call.',
 ['inputs', 'configurations', 'histories'],
 'All distances, numbers of items and groups, linkages, thresholds and repeated calls.',
 'Tests cluster one or two tables; other merge orders, sizes of clusters, thresholds and repeated use are not reached.',
 ['src/ldt_statistics/clustering/hcluster.cpp', 'src/ldt_statistics/clustering/group_data.cpp', 'include/math/statistics/clustering.h'],
 [('linkage', 'hcluster.cpp: HCluster::CalculateDistance'), ('merges', 'hcluster.cpp: HCluster::Calculate'), ('groups and table', 'hcluster.cpp: Group, MergeR'), ('grouping of data', 'group_data.cpp: GroupData::Calculate')],
 NOTE + 'The linkage formulas are proved for clusters of any size; merges, tables and groups for all distances and all trees of up to four items without ties (bounded).')
prop('C27', 'Descriptive statistics and filters of a series equal their definitions',
 'Minimum, maximum, sum, sum of squares, mean, variance, skewness, kurtosis and quantiles of a series equal their definitions (with or without the sample correction) for every length, with undefined results where there are too few values. Autoregressive and moving-average filters follow their recursions and leave positions without enough neighbours missing, the trend regression is the least-squares line, and the seasonal decomposition splits every value exactly into trend, periodic seasonal part and remainder, additively or multiplicatively.',
 ['inputs', 'configurations'],
 'All lengths, values, filter lengths, season lengths and options.',
 'Tests use one series; short series, long series, other filter lengths and options are not reached.',
 ['src/ldt_statistics/statistics/descriptive.cpp', 'include/math/statistics/statistics.h'],
 [('moments', 'descriptive.cpp: MeanVariance, MeanVarianceKurtosisSkewness'), ('extremes and quantiles', 'descriptive.cpp: Minimum, Maximum, QuantileSorted'), ('filters', 'descriptive.cpp: FilterAr, FilterMa'), ('decomposition', 'descriptive.cpp: SeasonalDecompositionMa'), ('trend', 'descriptive.cpp: RegressionTrend')],
 NOTE + 'Proved for any length, except filters and the seasonal decomposition: all values of series of up to six elements (bounded).')
prop('C28', 'Least squares estimates satisfy the normal equations',
 'Ordinary and generalised least squares estimates (with the covariance matrix of the errors or its inverse, for several dependent variables) satisfy the normal equations, the residuals are the data minus the fitted values, and the reported cross products are those of the residuals. Exactly the requested parts are calculated within the announced storage, data that do not fit the storage or have too few or unequal rows are rejected, and singular problems are reported.',
 ['inputs', 'configurations'],
 'All data, numbers of observations, regressors and dependent variables, and options.',
 'Tests estimate one model; other shapes and options and storage larger than needed are not reached.',
 ['src/ldt_statistics/statistics/statistics.cpp', 'include/math/statistics/statistics.h', 'src/matrix/matrix_la.cpp'],
 [('ordinary', 'statistics.cpp: Ols::Calculate'), ('generalised', 'statistics.cpp: Gls::Calculate')],
 NOTE + 'Bounded: all real data of up to three observations and two regressors. LAPACK and BLAS routines are used through assumed contracts.', level='other')
prop('C32', 'Covariance, correlation and rank matrices equal their definitions',
 'Every element of a covariance or correlation matrix equals the coefficient of its two columns, over the rows in which both exist where missing values are expected (with the number of those rows reported), for Pearson coefficients and for Spearman coefficients, which are the Pearson coefficients of the ranks. Ranks count the larger (or smaller) values of the column. Only the announced storage is used, and matrices that do not fit are rejected.',
 ['inputs', 'configurations'],
 'All shapes, values, patterns of missing values, methods and options.',
 'Tests compare one matrix; missing values in different rows of different columns and options combine in many more ways.',
 ['src/ldt_statistics/correlation.cpp', 'src/ldt_statistics/statistics/statistics.cpp', 'include/math/statistics/correlation.h'],
 [('matrix', 'correlation.cpp: Correlation::Calculate'), ('pair', 'correlation.cpp: pearson, spearman'), ('ranks', 'statistics.cpp: Rank::Calculate')],
 NOTE + 'Bounded: covariances and Pearson correlations for all values of three rows, with one missing value, Spearman coefficients for fixed data with missing values; ranks for all values of up to four rows.', level='other')
prop('C20', 'Products, powers and inverses of polynomials are exact up to the asked length',
 'The coefficients of a product of two polynomials (with real, integer or square-matrix coefficients, or a matrix polynomial times a scalar one) are the convolution of their coefficients, a power is the repeated product, and a matrix polynomial times its inverse is one, each up to the requested maximum length. The degree is the one announced, results stay within the announced storage and work sizes, too small storages are refused, zeros of the highest powers are omitted on request, and a helper that is used again holds the new result only.',
 ['inputs', 'histories'],
 'All coefficients, degrees, powers, maximum lengths and repeated uses of the same objects.',
 'Tests multiply and invert two or three fixed polynomials; a wrong bound shows only for particular degrees and maximum lengths.',
 ['src/ldt_math/polynomials/polynomial.cpp', 'src/ldt_math/polynomials/mpolynomial.cpp', 'include/math/polynomial.h'],
 [('product', 'polynomial.cpp: PolynomialMultiply::Calculate'), ('power', 'polynomial.cpp: PolynomialPower::Calculate'), ('matrix product', 'mpolynomial.cpp: PolynomialMMultiply::Calculate'), ('inverse', 'mpolynomial.cpp: PolynomialMInvert::Calculate'), ('coefficients', 'Polynomial::Data, PolynomialM::Data')],
 NOTE + 'The product of real polynomials is proved for any degrees and maximum length; powers, matrix products and inverses for all coefficients of small degrees and sizes (bounded). BLAS and LAPACK are used through assumed contracts.')
prop('C21', 'Lags, differences and restrictions of VARMA models are the announced ones',
 'The lags of a seasonal ARMA model are the non-seasonal and the seasonal ones, each once and in ascending order, the difference polynomial is (1-L)^d (1-L^s)^D, and the sizes (largest lag, numbers of parameters, start of the moving-average part, observations) follow from them, also after the numbers of equations, exogenous variables or observations change; invalid orders are refused. Differencing a series and undoing it with its first values gives the series back. A restriction matrix copies each free parameter and leaves the others zero, or makes each moving-average matrix a multiple of the identity. The autoregressive and moving-average polynomials hold the coefficients at their lags, and differences times autoregressive polynomial times the moving-average representation is the moving-average polynomial. All of them stay within the announced storage.',
 ['inputs', 'configurations'],
 'All orders, seasons, numbers of equations, coefficients, series and restricted parameters.',
 'Tests check a few fixed models; overlapping seasonal lags, moving-average models without autoregression, or storage limits show only for particular orders.',
 ['src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp', 'src/ldt_statistics/modeling/time_series/varma/varma_arma.cpp', 'src/ldt_statistics/modeling/time_series/varma/varma_restriction.cpp', 'src/ldt_statistics/modeling/time_series/varma/varma.cpp'],
 [('lags and sizes', 'varma_sizes.cpp: VarmaSizes::Calculate, UpdateChanged'), ('polynomials and representation', 'varma_arma.cpp: VarmaArma::Calculate'), ('restrictions', 'varma_restriction.cpp: VarmaRestriction::Calculate'), ('differences', 'varma.cpp: Difference, UnDiferences')],
 NOTE + 'All values of coefficients and series, for small orders and at most two equations (bounded). BLAS and LAPACK are used through assumed contracts.', level='other')
prop('C22', 'Forecasts, residuals and scores of VARMA models follow the estimated equation',
 'The forecasts of a VARMA model satisfy the estimated equation from the last observation of the estimation on: lagged observations or forecasts, exogenous values of the forecast periods and residuals of the sample enter with their coefficients, differences are undone from the last observed levels, and the variances are those of the moving-average representation of the levels. Residuals are what the equation leaves of the data, least squares residuals are orthogonal to the regressors, and the error variance is their mean product. After a maximum likelihood estimation, with or without details, coefficients, residuals and variance belong together, and the information criteria follow from the likelihood and the number of coefficients. Out-of-sample scores are the averages, over all samples with a valid forecast and all requested horizons within the data, of the scores of the forecasts from estimations without the later observations; failed samples are skipped and too many of them reported, and nothing depends on what the storage held before. Results stay within the announced storage and work sizes and longer horizons than announced are refused.',
 ['inputs', 'configurations'],
 'All series, coefficients, residuals, exogenous values, orders, differences, horizons and numbers of excluded observations.',
 'Tests compare a few models with published numbers; a wrong lag, exogenous column or start index shows for particular combinations of orders, differences and sample ends only.',
 ['src/ldt_statistics/modeling/time_series/varma/varma_forecast.cpp', 'src/ldt_statistics/modeling/time_series/varma/varma.cpp', 'src/ldt_statistics/modeling/time_series/varma/varma_simulation.cpp', 'src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp'],
 [('scores', 'varma_simulation.cpp: VarmaSimulation::Calculate'), ('forecasts and variances', 'varma_forecast.cpp: VarmaForecast::Calculate'), ('residuals', 'varma.cpp: MlUpdateResid'), ('least squares', 'varma.cpp: Varma::EstimateOls'), ('maximum likelihood', 'varma.cpp: Varma::EstimateMl')],
 NOTE + 'All values, for small orders, horizons and samples and at most two equations (bounded); maximum likelihood on sampled data only (bounded). BLAS and LAPACK are used through assumed contracts.', level='other')
prop('C10', 'Estimates and projections of SUR models satisfy their equations',
 'Coefficients of a system of regressions satisfy the normal equations: of least squares without restrictions and of generalised least squares (with the variance of the least squares residuals) for restricted coefficients. Fitted values, residuals and their variance belong to the coefficients, standard errors are those of the inverse of the same equations, t statistics, probabilities, likelihood, information criteria, R squared and F follow from them, and singular problems are reported. A search for significant coefficients ends with the remaining coefficients significant (or at its maximum of iterations) and the others zero. Projections are the new exogenous values times the coefficients, and their variances those of errors and coefficients. Samples with missing values are reduced to complete rows, and the out-of-sample scores are those of estimations and projections of the drawn samples. Results stay within the announced storage and work sizes.',
 ['inputs', 'configurations'],
 'All data, numbers of observations, equations and regressors, restrictions, options and random draws.',
 'Tests compare a few models with published numbers; restricted systems, several equations, searches that stop at once and singular data are separate paths.',
 ['src/ldt_statistics/modeling/linear/sur.cpp', 'src/ldt_statistics/modeling/linear/sur_projection.cpp', 'src/ldt_statistics/modeling/linear/sur_extended.cpp', 'src/ldt_statistics/modeling/linear/sur_simulation.cpp'],
 [('least squares', 'sur.cpp: Sur::estim_un'), ('restricted', 'sur.cpp: Sur::estim_r'), ('search', 'sur.cpp: Sur::estim_search'), ('statistics', 'sur.cpp: Sur::calculate_details'), ('projections', 'sur_projection.cpp: SurProjection::Calculate'), ('missing values', 'sur_extended.cpp: SurExtended::Calculate'), ('out of sample', 'sur_simulation.cpp: SurSimulation::Calculate')],
 NOTE + 'All values, for up to three observations and two equations or regressors (bounded); SurExtended and SurSimulation on sampled data only (bounded). Distribution functions are uninterpreted; BLAS and LAPACK are used through assumed contracts.', level='other')
prop('C33', 'Regression searches record every model with its own results',
 'In a search of regressions, VARMA models or discrete choice models each announced model is estimated with the columns of its own endogenous and exogenous variables (and weights) and complete observations. Every metric that exists (information criteria; area under the curve, Brier score and costs, in and out of sample, for discrete choice) is recorded once for each target variable among the endogenous ones, with the value of that model and the weight that belongs to that metric, target and smallest metric; coefficients are recorded at the position of their own variable and forecasts at their horizon, with mean and variance; transformation parameters are those of the variables of the model. A model that fails a requested check (observations, degrees of freedom, information criteria, condition number, bounds of the forecasts, valid simulations), or of which all metrics are missing, is reported as a failure and leaves no record. Groups without a target are skipped, every model is counted, and nothing is written outside the announced work arrays.',
 ['inputs', 'configurations'],
 'All data, numbers of targets, endogenous and exogenous variables, partitions, metrics, model checks and options.',
 'Tests run a few searches and look at the best models; a record of another target, variable or metric shows only when their numbers and positions differ.',
 ['src/ldt_statistics/modeling/search/searcher_reg.cpp', 'src/ldt_statistics/modeling/linear/sur_modelset.cpp', 'src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp', 'src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp', 'include/math/statistics/inference/searchers.h'],
 [('columns and records', 'searcher_reg.cpp: SearcherReg::EstimateOne'), ('systems of regressions', 'sur_modelset.cpp: SurSearcher::EstimateOneReg'), ('discrete choice', 'discrete_choice_modelset.cpp: DiscreteChoiceSearcher::EstimateOneReg'), ('VARMA models', 'varma_modelset.cpp: VarmaSearcher::EstimateOneReg'), ('groups', 'sur_modelset.cpp: SurModelset')],
 NOTE + 'All metrics, coefficients and choices of variables for a few shapes (bounded); whole searches on sampled data only (bounded). The estimations are used through the contracts of C10, C22 and C34.', level='other')
prop('C34', 'Discrete choice models: estimates, forecasts and scores belong to the data',
 'A binary or ordered logit or probit model reports the log likelihood, score and Hessian of its own data and weights, the information criteria that follow from them and, at a regular maximum of the likelihood, coefficients where the score vanishes, with the variance that is the inverse of minus the Hessian there and its standard errors and statistics. Probabilities of the categories are those of the linear index and the thresholds and sum to one. Rows with missing values do not count, and forecasts belong to their own rows of the new data. The reported Brier score, area under the curve and costs are those of the predicted probabilities with the weights asked for, in sample, and out of sample as averages over the valid simulations. A Newton iteration reaches the minimum of a quadratic function in one step, and the value and gradient it reports are those of the point it returns. Nothing is written outside the announced storage.',
 ['inputs', 'configurations', 'histories'],
 'All data without separation of the categories, weights, numbers of categories and regressors, missing values, new data, cost tables, simulations and options.',
 'Tests compare a few models with published numbers; weights, missing rows, partial sets of goals, failed simulations and singular data are separate paths.',
 ['src/ldt_statistics/modeling/discrete/discrete_choice.cpp', 'src/ldt_statistics/modeling/discrete/discrete_choice_extended.cpp', 'src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp', 'src/ldt_math/optimization/newton.cpp', 'include/math/statistics/inference/models/discrete_choice.h'],
 [('likelihood, score, Hessian', 'discrete_choice.cpp: EstimateBinary, EstimateOrdered'), ('probabilities', 'discrete_choice.cpp: GetProbabilities'), ('missing values and forecasts', 'discrete_choice_extended.cpp: Calculate'), ('simulations', 'discrete_choice_sim.cpp: DiscreteChoiceSim::Calculate'), ('optimisation', 'newton.cpp: Newton::minimize')],
 NOTE + 'All values, for a few observations and regressors (bounded); fitted models and whole simulations on sampled data only (bounded). Distribution functions and logarithms are uninterpreted; BLAS and LAPACK are used through assumed contracts.', level='other')
