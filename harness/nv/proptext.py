"""Texts of the properties; bin/gen-manifest writes properties.jsonl and
MANIFEST.json from these and nv.props."""
BASE = 'nimble/core/data/base.py'
AX = 'nimble/core/data/axis.py'
TYPES4 = [('List', 'nimble/core/data/list.py'), ('Matrix', 'nimble/core/data/matrix.py'),
          ('Sparse', 'nimble/core/data/sparse.py'), ('DataFrame', 'nimble/core/data/dataframe.py')]
AX4 = ['nimble/core/data/%sAxis.py' % x for x in ('list', 'matrix', 'sparse', 'dataframe')]

T = {}


def prop(pid, title, statement, over, qtext, why, files, mech, observe=None, note=None):
    T[pid] = dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                  why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe or ['public API of the returned objects'], hook_needed=None))
    T[pid]['_note'] = note or ''


prop('D01', 'Names identify the same members after every operation',
     'Point names and feature names are, at every moment, partial one-to-one labels of positions: each name resolves to '
     'exactly the member that carries it, no two members share a name, and names of unnamed members stay unset. Setting '
     'or renaming names, and every operation that moves members (permute, sort, transpose, extract, insert, repeat), '
     'moves each name together with its data, for all four object types and whatever internal state the object is in.',
     ['inputs', 'histories'],
     'all tables (shape, values, any subset of members named), the 4 object types, the provenance of the object, and all '
     'sequences of the listed operations with valid and invalid arguments',
     'Tests check names after single calls on fully named or unnamed small objects; partially named axes and names after '
     'several operations on the same object are hardly sampled, and the four types have separate code.',
     [BASE, AX] + AX4, [('name dictionaries kept per axis', AX), ('permute/sort/insert name bookkeeping', AX)])

prop('D02', 'Selecting members partitions an object exactly',
     'For every selection of points or features (identifiers, name lists, ranges, functions, query strings, a limited '
     'number, a random choice), copy returns exactly the selected members in the selected order and leaves the object '
     'unchanged, extract returns them and leaves exactly the others in order, delete leaves the others, retain leaves the '
     'selected ones, and count counts them. A selection that is invalid raises and changes nothing.',
     ['inputs'],
     'all tables, the 4 types, both axes, all forms of selection (negative indices, names, inclusive ranges, predicates with '
     'or without limits, number, randomize)',
     'Tests enumerate a few selections per type on 3x3 data; the partition has to hold for every combination of selection '
     'form, axis, type and internal state.',
     [AX] + AX4, [('_genericStructuralFrontend', AX), ('_structuralBackend_implementation of each type', 'nimble/core/data/*Axis.py')])

prop('D03', 'Insert, append, replace and assignment change exactly the addressed cells',
     'Inserting or appending an object puts its points or features at the requested position, matched by name where the '
     'other axis is named in a different order, and keeps every existing member; replace, replaceRectangle and item '
     'assignment change exactly the addressed cells to exactly the given values (no truncation, no shift) and keep shape and '
     'names. The object given as an argument is never modified, and an invalid call raises without changing anything.',
     ['inputs', 'histories'],
     'all pairs of tables of any two types, any insertion position, any naming of either object, any rectangle, and '
     'sequences of such edits on one object',
     'Tests use matching types and fully named data; mixed types, partially named axes, zero values in sparse storage and '
     'dtype changes are combinations they do not reach.',
     [AX, BASE] + [p for _, p in TYPES4], [('_insert', AX), ('_replace', AX), ('replaceRectangle', BASE), ('__setitem__', BASE)])

prop('D09', 'Element-wise and vector-wise functions act on exactly their targets',
     'transform, calculateOnElements, matchingElements, countElements, and the transform, calculate, matching, count and '
     'mapReduce of an axis apply the given function once to every targeted element or vector and put each result in the '
     'position and under the names of its source; everything outside the limits is untouched, preserveZeros and '
     'skipNoneReturnValues only do what they say, and the result does not depend on the object type.',
     ['inputs'],
     'all tables, the 4 types, functions that change the value type, return None, depend on position or raise, all point and '
     'feature limits',
     'Tests use a handful of lambdas per type; which storage path runs depends on the data and on the results of the function.',
     [BASE, AX] + [p for _, p in TYPES4], [('_calculate_backend', BASE), ('_transform_implementation of each type', 'nimble/core/data'),
                                          ('_calculate / _mapReduce', AX)])

prop('D12', 'fillMatching changes exactly the matching cells',
     'fillMatching replaces precisely the cells that match (a value, a list, a matching function, a query string), only in '
     'the targeted points or features, by the documented fill value (a constant, or the mean, median, mode, forward or '
     'backward neighbour or interpolation computed from the other cells of the same vector); all other cells, the shape and '
     'the names are unchanged, and it raises when no fill value exists.',
     ['inputs'],
     'all tables with missing values, zeros and text, the 4 types, both axes, all fill rules, all matchers and limits',
     'Tests check each fill on single vectors with one arrangement of missing values; boundary arrangements and the four '
     'storage types multiply.',
     [AX, 'nimble/fill/fill.py', 'nimble/match/match.py'], [('fillMatching', AX), ('fill functions', 'nimble/fill/fill.py')])

prop('D10', 'Arithmetic, comparison and stretch follow the element-wise definition',
     'Every binary operator (+ - * / // % ** @, comparisons, their reflected and in-place forms, and, or, xor, invert, '
     'unary minus and abs) between an object and a number, an object of any of the four types or a stretched vector gives '
     'exactly the element-wise (or matrix-product) result with the documented names, raises for incompatible shapes, '
     'conflicting names or non-numeric data, and never modifies an operand other than the left side of an in-place operator.',
     ['inputs'],
     'all pairs of tables of any two types (zeros, missing and infinite values, partial names, views, aliased operands), all '
     'operators, all scalars',
     'Tests compare with numpy on small fully stored data; the sparse code paths depend on which values are zero or stored '
     'unsorted, and names of partially named operands are hardly tried.',
     [BASE, 'nimble/core/data/stretch.py', 'nimble/core/data/_dataHelpers.py'] + [p for _, p in TYPES4],
     [('_genericBinaryOperations', BASE), ('_mul__implementation / _scalarZeroPreservingBinary of Sparse', 'nimble/core/data/sparse.py'),
      ('Stretch', 'nimble/core/data/stretch.py')])

prop('D04', 'merge joins two objects like a relational join',
     'a.merge(b, point, feature, onFeature) gives exactly the points and features the chosen modes (strict, union, '
     'intersection, left) select, joined on point names or on the key feature (every pair of matching keys, each unmatched '
     'point once where the mode keeps it); cells come from the object that has them, a missing value is filled from the '
     'other object, cells neither has are missing, and conflicting values raise. The argument is never changed and a '
     'failing merge leaves the receiver as it was. The result does not depend on the object types.',
     ['inputs'],
     'all pairs of tables of any two types with overlapping or disjoint partially named axes, duplicate keys, missing and '
     'conflicting values, all mode combinations, onFeature and force',
     'merge has one implementation per type with dozens of branches; tests use fully named 3x3 objects of the same type.',
     [BASE, AX] + [p for _, p in TYPES4], [('merge', BASE), ('_merge_implementation of each type', 'nimble/core/data')])

prop('D08', 'Reshaping moves every value to exactly one place and back',
     'flatten lists every cell once in the requested order with names that identify its point and feature, unflatten is its '
     'inverse, and points.combineByExpandingFeatures, points.splitByCollapsingFeatures and features.splitByParsing '
     'put each value in the place its identifiers say, invent only missing values, lose none, '
     'keep the values of the untouched features, and raise without changing the object when the request is impossible.',
     ['inputs', 'histories'],
     'all tables with any naming, missing values and mixed contents, the 4 types, all identifier choices; flatten followed by unflatten',
     'Tests use one hand-written table per operation; each type has its own code and partial names, empty names, repeated '
     'identifiers and non-numeric columns are not tried.',
     [BASE, AX] + [p for _, p in TYPES4],
     [('flatten / unflatten', BASE), ('splitByCollapsingFeatures', 'nimble/core/data/points.py'),
      ('splitByParsing', 'nimble/core/data/features.py'), ('combineByExpandingFeatures', 'nimble/core/data/points.py')])

prop('D20', 'Encoding a categorical feature keeps its information',
     'replaceFeatureWithBinaryFeatures puts exactly one 1 per point, in the new feature named after the value the point had, '
     'and nothing else changes; transformFeatureToIntegers gives equal integers to equal values and different integers to '
     'different values; features.splitByParsing splits each value into exactly its parts. Missing values follow the '
     'documented treatment and a failing call changes nothing.',
     ['inputs'],
     'all tables, the 4 types, features of any content (text, numbers, repeated, missing), any naming',
     'Tests encode one small integer feature; values whose text coincides, missing values and unnamed features are outside them.',
     [BASE, 'nimble/core/data/features.py'],
     [('replaceFeatureWithBinaryFeatures', BASE), ('transformFeatureToIntegers', BASE), ('splitByParsing', 'nimble/core/data/features.py')])

prop('D21', 'What an object prints is what it holds',
     'toString, show, str and repr put every shown value in the row of its point and the column of its feature, under the '
     'labels (names or indices) of that point and feature. Everything is shown when it fits the given limits of lines, line '
     'width and column width; otherwise members are left out from the middle only, the gap is marked in every row and column, '
     'the limits are kept and nothing that still fits is left out. A requested range or number of points or features is what '
     'is shown. Objects without points or features and the axes (points, features) print as well, and printing changes nothing.',
     ['inputs'],
     'all tables up to 36 points and 15 features, objects of more than two dimensions, the 4 types and views, all settings of '
     'the limits, ranges, numbers of members, names, digits, indentation and quoting',
     'Tests rebuild the text of a few all-number tables with the same algorithm; empty objects, ranges, numbers of members and '
     'show with explicit limits are outside them.',
     [BASE, 'nimble/core/data/_dataHelpers.py'],
     [('toString', BASE), ('_arrangeDataWithLimits', BASE), ('indicesSplit', 'nimble/core/data/_dataHelpers.py')])

prop('D13', 'Grouping, counting, uniqueness and splitting partition the data',
     'groupByFeature puts every point in exactly one group, keyed by the value it has, in '
     'the original order and with its names; countUniqueFeatureValues and points/features.unique count and keep each '
     'distinct value (or vector) exactly once, first occurrence first; trainAndTestSets gives two disjoint parts of the '
     'requested sizes that together hold every point once, with data and labels still aligned. The source is unchanged.',
     ['inputs', 'schedules'],
     'all tables with missing, infinite, textual and repeated values, the 4 types, all limits, fractions and random orders',
     'The outcome depends on hashing and equality of mixed values and on random choices; tests fix one example of each.',
     [BASE, AX, 'nimble/core/data/points.py'],
     [('groupByFeature', BASE), ('countUniqueFeatureValues', BASE), ('trainAndTestSets', BASE), ('unique', AX)])

prop('D18', 'Statistics and linear algebra give the mathematical value',
     'points/features.statistics and the nimble.calculate statistics (mean, median, mode, min, max, sum, count, variance, '
     'standard deviation, quartiles, proportions of missing and zero values), similarities (covariance, correlation, dot '
     'product), groupByFeature with a statistic, inverse, pseudo inverse, solve, least squares, residuals and the reports return exactly the defined value for every '
     'vector, ignoring missing values as documented, in the documented shape and names, whatever the object type, and do not '
     'modify the object.',
     ['inputs'],
     'all tables with zeros, missing values and booleans, the 4 types, every statistic, both axes; small linear systems',
     'Tests compare with numpy on one dense matrix; sparse storage, missing values, empty and single-element vectors and '
     'dtype-dependent paths are separate code.',
     [AX, 'nimble/calculate/statistic.py', 'nimble/calculate/linearAlgebra.py', 'nimble/calculate/similarity.py'],
     [('_statistics / _similarities', AX), ('statistic functions', 'nimble/calculate/statistic.py'), ('solve, inverse', 'nimble/calculate/linearAlgebra.py')])

prop('M06', 'scikit-learn receives exactly what was asked for and its answers come back',
     'Training a scikit-learn learner makes exactly one fit, on an object of that class with its own defaults, the given '
     'arguments (nimble.Init values instantiated likewise) and the given seed, with exactly the training values and labels; '
     'applying, testing and scoring call it on exactly the test values, with the new or else the stored arguments of that '
     'method; predictions, transformations and scores come back unchanged, scores of one column or of pairs of labels turned '
     'into one score per label in the order of the labels, with the names of labels and points. Retraining keeps earlier '
     'arguments. Unknown arguments or classes and data of another width are refused before the package is asked; failures of '
     'the package are not hidden. Parameter names, defaults, learner types and attributes are those of the package.',
     ['inputs', 'histories', 'configurations'],
     'histories of up to 7 calls on about 75 learners of all kinds (and sometimes any other), tables up to 9x4, labels of '
     '2-4 classes, numbers and strings, all types and views; every outermost call the package receives is recorded',
     'A wrong default, a stored argument lost, or scores in another order still give plausible predictions; tests compare a '
     'few learners with default arguments.',
     ['nimble/core/interfaces/scikit_learn_interface.py', 'nimble/core/interfaces/universal_interface.py',
      'nimble/core/interfaces/_interface_helpers.py'],
     [('_paramQuery', 'nimble/core/interfaces/scikit_learn_interface.py'), ('_formatScoresToOvA', 'nimble/core/interfaces/universal_interface.py'),
      ('_getMethodArguments', 'nimble/core/interfaces/universal_interface.py'), ('_argumentInit', 'nimble/core/interfaces/universal_interface.py')])
prop('N01', 'Normalization uses the calling object and treats both objects alike',
     'features.normalize rescales exactly the chosen features with the chosen function (mean, min-max, range, z-score, mean '
     'standard deviation, percentile or a user function); every parameter comes from the calling object, and the object given '
     'in applyResultTo is rescaled with the same parameters at the features of the same names; everything else is unchanged '
     'in both, and a failing call changes neither.',
     ['inputs'],
     'all pairs of numeric tables of any two types, any selection of features by index or name, all normalizers, missing values',
     'Tests normalize fully named objects of one type with all features; which statistics are used for the second object '
     'is only visible when its values differ.',
     ['nimble/core/data/features.py', 'nimble/calculate/normalize.py'],
     [('normalize', 'nimble/core/data/features.py'), ('normalizers', 'nimble/calculate/normalize.py')])

prop('D19', 'Item access, views, iteration and names agree with the contents',
     'Indexing an object with any identifiers (index, negative index, name, integral float, inclusive slice, list) gives '
     'exactly the addressed value or sub-object; pointView, featureView and points/features views show the same window as '
     'the copy of those members; iterating an object, its points or its features visits every value once in order; getName, '
     'getNames, getIndex, getIndices and hasName are mutually inverse; identifiers that address nothing raise.',
     ['inputs'],
     'all tables including empty and partially named ones, views and copies, the 4 types, every form of identifier and slice',
     'Identifier forms multiply with types, views and empty axes; tests try a few positive indices and full names.',
     [BASE, AX, 'nimble/core/data/views.py'] + [p for _, p in TYPES4],
     [('__getitem__', BASE), ('_processSingle / _processMultiple / _getIndex', AX), ('view', BASE)])

prop('D11', 'Match functions and query strings select exactly what they say',
     'Each function of nimble.match decides exactly the documented class of values (missing, numeric, boolean, string, '
     'zero, positive, negative, infinite, true, false, ...) and its any/all forms decide it for every value of an object, '
     'point or feature; a query string "name op value" selects exactly the members for which the comparison is true, '
     'whatever the spacing and the operator, and a malformed one raises.',
     ['inputs'],
     'all cell values (numbers, text, missing, infinite, booleans and their numpy forms), all match functions, all operators, '
     'names that contain spaces or operators, the 4 types',
     'Tests list sample values per function; what a function says about numpy scalars, None, nan or text that looks like a '
     'number, and what a query does with names that contain operators, is decided by separate branches.',
     ['nimble/match/match.py', 'nimble/match/query.py'],
     [('match functions', 'nimble/match/match.py'), ('QueryString', 'nimble/match/query.py')])

prop('D14', 'Copies in every form hold the same values, and equality says so',
     'copy(to=...) gives, in each of the formats (the four object types, Python lists, lists of dicts, dict of lists, numpy '
     'arrays and matrices, scipy sparse, pandas), exactly the values of the object in the requested orientation, with its '
     'names where the format has them; isIdentical, == on contents and isApproximatelyEqual are true exactly for objects '
     'with the same contents and names, in either direction, and never change either operand.',
     ['inputs'],
     'all tables (mixed content, missing values, empty axes, partial names), views included, the 4 types, all formats, '
     'pairs of equal and minimally different objects of any types',
     'Each of four types has its own conversion for each format, with extra branches for views and empty objects; tests '
     'cover numeric fully named ones.',
     [BASE] + [p for _, p in TYPES4],
     [('copy', BASE), ('_copy_implementation of each type', 'nimble/core/data'), ('isIdentical / isApproximatelyEqual', BASE)])

prop('D06', 'Views follow their source and are read-only; everything else is independent',
     'A view always shows the current values of its window of its source, no operation succeeds in changing anything '
     'through a view, and every other object (copies in every form and type, transposes, results of operations, parts '
     'taken out, operands, and the raw data an object was built from or converted to) is independent: an operation '
     'changes its receiver and nothing else, and read operations change nothing at all.',
     ['inputs', 'histories'],
     'histories of several objects derived from each other: all those of the model up to 4 steps, and long random ones, on '
     'the 4 types, with raw inputs and outputs overwritten afterwards',
     'Sharing of storage depends on type, dtype, axis, memory order and on which earlier operation produced the object; '
     'tests check one derivation and one edit at a time, rarely looking at the other object.',
     [BASE, 'nimble/core/data/views.py', 'nimble/core/_createHelpers.py'] + [p for _, p in TYPES4],
     [('view', BASE), ('copy', BASE), ('_view_implementation of each type', 'nimble/core/data')])

prop('C01', 'Settings: session changes, saved defaults and hooks never get mixed up',
     'The value of a setting is the last one set in this session, or else the saved one; only saveChanges and setDefault '
     'write to the configuration file, exactly what they name and nothing else, and a new session sees exactly what was '
     'saved, whatever the values contain; get and str answer for one option, a section or everything and change nothing; a '
     'rejected set (an option an interface does not have) changes nothing; a hook is called once with the new value whenever '
     'the value of its option changes.',
     ['histories'],
     'all histories of settings operations over several sections and options (exhaustively up to 3 steps on the real object, '
     'unbounded in the model), including interface sections, values with special characters, hooks that raise and new sessions',
     'The effective value depends on the session changes, the parser and the file, which get out of step only after '
     'particular sequences of set, save, get and set back; tests run one of each.',
     ['nimble/core/configuration.py'],
     [('SessionConfiguration', 'nimble/core/configuration.py'), ('setInterfaceOptions', 'nimble/core/configuration.py')])

prop('R01', 'Randomness: results are a function of the seed and of what was drawn since',
     'Every random operation takes its randomness from nimble.random alone: its result is a function of the seed last set and '
     'of the random operations since, whatever else the program does with the generators of Python and numpy or with '
     'operations that are not random; a seed that is refused changes nothing; alternateControl gives the state of its seed '
     'and, however the block ends, leaves the state exactly as it was; setSeed is refused inside it. A call with a '
     'randomSeed of its own depends on that seed only and consumes nothing from the global state; this includes training, '
     'validation and tuning.',
     ['histories', 'schedules'],
     'all histories of setSeed, alternateControl blocks (nested, left normally or by an exception), seeded and unseeded '
     'random operations and other calls (exhaustively up to 4 steps on the real generators, 6 in the model, long random ones)',
     'Two generators have to be set, saved and restored together, and a leak shows only in what is drawn later; tests '
     'compare two runs of one operation after the same setSeed.',
     ['nimble/random/randomness.py', 'nimble/core/tune.py', 'nimble/core/data/axis.py', 'nimble/core/data/base.py',
      'nimble/core/interfaces/custom_learner.py', 'nimble/core/interfaces/universal_interface.py'],
     [('setSeed, alternateControl, data', 'nimble/random/randomness.py'), ('FoldIterator, Validator', 'nimble/core/tune.py'),
      ('_trainer', 'nimble/core/interfaces/custom_learner.py')])

prop('D15', 'nimble.data builds exactly the table its source and arguments describe',
     'For every source (lists, lists of lists, dictionaries of rows, lists of dictionaries, numpy arrays, pandas objects, '
     'scipy sparse matrices, lists of nimble objects, nimble objects, csv files) nimble.data returns the table of the '
     'source: names taken from the source or from the arguments (as lists or dictionaries) as pointNames and featureNames '
     'say, detected automatically by the stated rules, values in treatAsMissing replaced by replaceMissingWith, exactly the '
     'points and features of keepPoints and keepFeatures in that order, features converted as convertToType says, '
     'rowsArePoints=False meaning the same of the transposed source, in the type asked for; the values of a csv column are '
     'numbers exactly when all are. Neither the source nor the arguments are modified, the result shares nothing with '
     'the source, and inconsistent names or identifiers are refused.',
     ['inputs', 'configurations'],
     'all sources up to 5 x 5, all kinds of cell (numbers, text, booleans, missing, empty fields, quoted csv fields), all '
     'combinations of the arguments, in all four types',
     'The arguments act on each other (names found in the data move the indices that are kept and converted); tests try '
     'each argument with few sources.',
     ['nimble/core/_createHelpers.py', 'nimble/core/create.py'],
     [('initDataObject, createDataFromFile', 'nimble/core/_createHelpers.py'), ('extractNames, _replaceMissingData, _loadcsvUsingPython', 'nimble/core/_createHelpers.py')])

prop('F01', 'Fetched files are downloaded once, stored per url and are what the source sent',
     'fetchFiles stores what a url provides below the configured location, in a place of its own for every host, path and '
     'query, and returns the existing files: the file itself, or what an archive or compressed file contains. A stored url is '
     'never asked for again unless overwrite is True, then everything is replaced by what the server offers now. Removed '
     'contents are restored from the stored file. A download that fails (refused, not data, connection lost, no space) leaves '
     'all files as they were; an archive that cannot be extracted, or would place files elsewhere, is returned itself, always. '
     'UCI names and example pages lead to their files. nimble.data of a url or file holds the data and knows its origin.',
     ['histories', 'fault_sequences', 'configurations'],
     'every history of 3 calls over three urls and two locations from the model, then random histories up to 14 calls over 18 '
     'urls on three hosts, plain / gz / zip / tar / tgz bodies, malicious and damaged archives, cut connections, full disks',
     'Only a history with a fault in the middle, a second location or a second query shows a stale or truncated local file '
     'served for ever after; tests fetch once from a mock that never fails.',
     ['nimble/core/create.py', 'nimble/core/_createHelpers.py'],
     [('fileFetcher', 'nimble/core/_createHelpers.py'), ('_DirectURLManager', 'nimble/core/_createHelpers.py'),
      ('_processArchiveFile', 'nimble/core/_createHelpers.py'), ('createDataFromFile', 'nimble/core/_createHelpers.py')])
prop('D16', 'Saving an object and loading the file gives the object back',
     'save writes every object with points and features, of any type or a view, with all names unless includeNames is False, '
     'and nimble.data on the file (by path, as open file or gzipped, by extension or fileFormat) gives the same values at the '
     'same places and the same names: everything for pickle, numbers and names for mtx, numbers and point names in their order '
     'for hdf5, for csv each column read as the numbers, booleans or strings it shows. Strings and names with separators, '
     'quotes or line breaks, unnamed points or features and missing values survive. What a format cannot hold is refused, '
     'never altered. Saving does not change the object, loading does not change the csv module.',
     ['inputs', 'configurations'],
     'tables up to 14x4 of integers, fractions, booleans, missing values and strings with special characters, all name '
     'patterns, all types and views, 7 formats, several ways to load',
     'A name that contains the separator or one missing value in a text column shifts data silently, only for that content; '
     'tests save a few plain tables.',
     ['nimble/core/data/base.py', 'nimble/core/data/list.py', 'nimble/core/data/matrix.py', 'nimble/core/data/sparse.py',
      'nimble/core/data/dataframe.py', 'nimble/core/_createHelpers.py'],
     [('save', 'nimble/core/data/base.py'), ('_loadmtxForAuto', 'nimble/core/_createHelpers.py'),
      ('_loadhdf5ForAuto', 'nimble/core/_createHelpers.py'), ('_loadcsvUsingPython', 'nimble/core/_createHelpers.py')])
prop('D17', 'High dimension objects treat points as usual and keep each point\'s shape',
     'An object built from data of three or more dimensions holds every value at its place, whatever the type and the source '
     '(nested lists, arrays, conversion, unflatten). Copying, extracting, deleting, sorting, permuting, inserting, replacing '
     'and repeating points, naming, arithmetic, comparisons, views, splitting, pickle and hdf5 act on the points exactly as in '
     'two dimensions and keep the inner dimensions; a single point has a dimension less; flatten and unflatten are inverse. '
     'Exported data and objects made from another are separate from it. '
     'Points of other inner dimensions and all operations that mix or select within points are refused and change nothing.',
     ['inputs', 'configurations', 'histories'],
     'objects up to 3 points of 2-4 dimensions with numbers, strings, missing values, all types and point views, histories of '
     'up to 5 operations, 60 operations that must be refused',
     'Data is kept flattened, so values read fine while the dimensions are lost or do not fit, only for some type and some '
     'operation; tests build a few shapes.',
     ['nimble/core/data/base.py', 'nimble/core/data/axis.py', 'nimble/core/data/sparse.py', 'nimble/core/_createHelpers.py'],
     [('_treatAs2D', 'nimble/core/data/base.py'), ('__getitem__', 'nimble/core/data/axis.py'),
      ('flatten', 'nimble/core/data/base.py'), ('limitedTo2D', 'nimble/core/data/_dataHelpers.py')])

prop('L01', 'The log holds exactly the entries of the calls that logged, in order',
     'Every completed operation that supports logging adds exactly its entries to the log (one entry of its kind; a deep '
     'validation adds one per run, tuning its own entries and the run; alternateControl two) when its useLog says so, or, '
     'with useLog None, when logging is enabled by default; user entries are always added; a call that fails and a nested '
     'call add nothing. showLog shows, oldest first, exactly the stored entries its level, sessions, dates, search text '
     '(taken literally) and maximum select, on screen and in a file alike; entries survive the program, each in the session '
     'that made it, and choosing another location or name leaves the entries of the first as they were. Invalid requests '
     'are refused and change nothing.',
     ['histories'],
     'all histories of logged calls, failing calls, option changes, new sessions, log switches and queries (exhaustively up '
     'to 3 steps on the real log, 6 in the model, long random ones), all filters in combination',
     'What is shown depends on the whole history of calls, options and sessions; tests look at the entry of one call and '
     'at one filter at a time.',
     ['nimble/core/logger/session_logger.py', 'nimble/core/_learnHelpers.py',
      'nimble/core/learn.py', 'nimble/core/data/base.py'],
     [('showLog, SessionLogger', 'nimble/core/logger/session_logger.py'), ('logCapture, handleLogging', 'nimble/core/logger/session_logger.py')])

prop('M01', 'Trained learners: results follow from what they were trained with, and only that',
     'nimble.train, trainAndApply, trainAndTest and the methods of a TrainedLearner (apply, test, getScores, retrain, '
     'incrementalTrain, also after saving and loading it) give exactly what the learner computes for the data it was last successfully trained '
     'with and the arguments it was given then (retrain keeps earlier arguments not given again; arguments of a single '
     'apply hold for that call only). Labels may be given separately, or as identifiers of features of the data with the '
     'same meaning; predictions have the points of the tested data in order and the names of the labels; the score modes '
     'give the label, the best score or all scores of the same prediction. Unknown arguments, data of the wrong shape and '
     'wrong modes are refused; a refused or failing call leaves the learner as it was, and no call modifies its data.',
     ['histories'],
     'all histories of train, retrain, incrementalTrain, apply, test and getScores on several learners and several trained '
     'learners at once (exhaustively up to 4 operations on the real code, 6 in the model, long random ones), with wrong '
     'calls in between, in all types of data',
     'What a trained learner answers depends on its whole history, including failed calls; tests train once and apply once.',
     ['nimble/core/interfaces/universal_interface.py', 'nimble/core/interfaces/custom_learner.py',
      'nimble/core/interfaces/_interface_helpers.py', 'nimble/core/learn.py'],
     [('TrainedLearner', 'nimble/core/interfaces/universal_interface.py'),
      ('CustomLearnerInterface', 'nimble/core/interfaces/custom_learner.py')])

prop('T01', 'Tuning judges every argument set by points the learner was not trained with',
     'When nimble.train (trainAndApply, trainAndTest) tunes, each argument set is judged on held out points only: for cross '
     'validation every point is held out exactly once, in folds whose sizes differ by at most one (as many as folds says; '
     'one point each for leave one out; exactly the groups of foldFeature, without the points whose group is missing, for '
     'leave one group out); for a proportion one random part of that size; for data the given points. The learner judged '
     'is trained with all other points, each with its own label, and with the arguments of the set; all sets of a run are '
     'judged with the same folds. The result of a set is the performance of the predictions for all points held out, the '
     'deep results those of each fold. No data of the user is modified; impossible requests are refused.',
     ['inputs', 'configurations'],
     'all data sets up to 8 points, labels separate or as a feature, in all types of data, all validations and their '
     'parameters, several performance functions, regression and classification learners',
     'A point that leaks into training, a label of another point or folds that change between argument sets still give '
     'plausible results; tests compare a few numbers of a few runs.',
     ['nimble/core/tune.py', 'nimble/core/learn.py', 'nimble/core/_learnHelpers.py'],
     [('FoldIterator, CrossValidator', 'nimble/core/tune.py'), ('HoldoutValidator', 'nimble/core/tune.py')])

prop('T02', 'Tuning tries the sets its selection states, reports them and returns the best',
     'A Tune object has exactly the values of its list or range, or those from start to end by change. Brute force tries '
     'every combination once; consecutive tries the values of one argument after the other (in the order given, repeated '
     'for each loop), the others as in the best set so far, and no set twice; iterative moves from the middle values to '
     'better neighbours until there are none, or maxIterations or the threshold is reached. The Tuning object reports the '
     'results of exactly these sets, best first, the best result and its arguments being those of the first of the best '
     'sets; the learner returned is the one trained with all training points and the best arguments. Using a Tuning object '
     'again changes nothing in earlier learners; wrong requests are refused.',
     ['inputs', 'configurations'],
     'all tables of performances (0 or 1, and up to 3 in the model) of a 2 x 3 grid with every selection, and random tables '
     'of up to 3 arguments and 7 values, for minimum and maximum performance functions',
     'Which set is tried next depends on all results so far; tests use a handful of tables.',
     ['nimble/core/tune.py', 'nimble/core/learn.py'],
     [('Consecutive, Iterative, BruteForce', 'nimble/core/tune.py'), ('Tune, Tuning', 'nimble/core/tune.py')])

prop('M03', 'Multi-class strategies combine the two-class learners as defined',
     'With a multiClassStrategy (name in any case) one learner per label (its points against all others) or one per pair of '
     'labels (only the points of the two) is trained, on the values of the features in their order wherever the labels are '
     'given (object, name or index in the data). apply returns for every point a label with the highest score or most wins, '
     'bestScore that label and its score, allScores the score of every label under its name, for labels of any type; test '
     'measures those labels. After retrain all answers are those of learners trained with the new data, labels and '
     'arguments. The data of the user is unchanged.',
     ['inputs', 'configurations', 'histories'],
     'training data of up to 8 points with 1 to 4 number or string labels in any position, both strategies, all score modes, '
     'train/apply/test/retrain, all types of data and views',
     'One scrambled feature or swapped label in one of the sub-learners still gives labels that exist; the existing tests '
     'have labels last and accept good accuracy.',
     ['nimble/core/interfaces/universal_interface.py', 'nimble/core/interfaces/_interface_helpers.py'],
     [('TrainedLearners', 'nimble/core/interfaces/universal_interface.py'),
      ('extractWinningPredictionLabel', 'nimble/core/interfaces/_interface_helpers.py')])
prop('M04', 'Performance functions give the defined number for every pair of values',
     'Every performance function of nimble.calculate returns exactly its definition for known and predicted values of any '
     'type of data, with or without names, and changes neither: root mean square (featurewise), mean absolute error, '
     'fraction (in)correct, variance fraction remaining and R squared, cosine similarity, the counts and rates of binary '
     'classification. confusionMatrix counts each pair exactly once (points predicted, features known), with the given '
     'labels in order of the values; a value without a label is refused. Confidence intervals are centred at the error, with the '
     'half width of the t distribution. Objects that are empty, differ in size, have missing values or more than one '
     'predicted feature are refused unless the decorator of the function allows it. detectBestResult gives the declared '
     'direction, or that of the trials.',
     ['inputs', 'configurations'],
     'pairs of columns of up to 8 integers, halves, booleans or strings (also several features) in all types of data and '
     'views, all functions and combinations of decorator flags, all forms of labels',
     'A miscounted cell, swapped precision and recall or an error only for one combination of types still gives numbers '
     'between 0 and 1; tests check a few vectors.',
     ['nimble/calculate/loss.py', 'nimble/calculate/binary.py', 'nimble/calculate/similarity.py',
      'nimble/calculate/confidence.py', 'nimble/calculate/utility.py'],
     [('confusionMatrix', 'nimble/calculate/similarity.py'), ('performanceFunction', 'nimble/calculate/utility.py'),
      ('_computeError', 'nimble/calculate/loss.py')])
prop('M05', 'Learners of nimble compute exactly their model; filling with learners fits it',
     'KNNClassifier predicts a label with most votes among the k nearest points (of several the label of the nearest), its '
     'scores are the votes; RidgeRegression and MultiOutputRidgeRegression predict with the least squares weights for their '
     'penalty; what happens to the training objects afterwards changes no trained learner. fillMatching with a learner '
     '(KNNImputation, SimpleImputer) replaces exactly the matched elements in the range asked for, with the values of the '
     'learner trained on the elements that do not match, and keeps all else and all names; normalizeData with a learner '
     'trains on the first object and applies the same transformation to both, changing neither.',
     ['inputs', 'configurations', 'histories'],
     'data of up to 7 points and 3 features (small integers and halves, missing values for filling), exact rational least '
     'squares and distances, all types of data and views, subsets of points and features to fill',
     'Neighbours taken among wrong points, or an imputed value landing in another column, appear only for particular '
     'patterns of missing values or names.',
     ['nimble/learners/knn_classification.py', 'nimble/learners/knn_imputation.py', 'nimble/learners/ridge_regression.py',
      'nimble/learners/multioutput_ridge_regression.py', 'nimble/core/learn.py'],
     [('KNNClassifier', 'nimble/learners/knn_classification.py'), ('fillMatching', 'nimble/core/learn.py'),
      ('normalizeData', 'nimble/core/learn.py')])
