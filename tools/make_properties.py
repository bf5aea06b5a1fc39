import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
      "anchors":{"files":files,"state":state or [],"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe or [],"hook_needed":None}})
S="src/modssc/"
p("C01","Train, validation and test splits partition the data",
 "For every dataset, split plan and seed without class-imbalance, sampling returns in-range, duplicate-free, pairwise disjoint train, validation and test sets that together cover every sample (or node) exactly once, an official test set being returned whole as the test set while the training data is divided between train and validation. Requested hold-out fractions are honoured to the nearest integer, and the test folds obtained by varying only the fold number of a k-fold plan partition the data.",
 ["inputs","configurations"],"all label vectors, sizes (including 0 and 1), plans (hold-out/k-fold, stratified or not, shuffled or not, every policy flag, official masks) and seeds",
 "The tests sample a few dozen (n, y, fraction) triples; disjointness and cover are universal over labels, sizes, rounding cases and RNG draws.",
 [S+"sampling/splitters.py",S+"sampling/services/service.py",S+"sampling/common.py"],
 [("hold-out splitting",S+"sampling/splitters.py:make_holdout_split"),("k-fold splitting",S+"sampling/splitters.py:make_kfold_split"),("assembly of the result",S+"sampling/services/service.py:_sample_inductive")])
p("C02","Labelled and unlabelled sets split the training set as requested",
 "For every training set, label vector, labelling rule, imbalance rule and seed, the labelled set is a duplicate-free subset of the training set, the unlabelled set is exactly its complement there, and fixed labelled indices are returned exactly. A per-class budget gives every class at least min(budget, available) labelled samples as long as the per-class minimum does not exceed it, every class with enough samples gets at least the per-class minimum, and the number of labelled samples is exactly the requested total (rounded fraction, count, or budget times number of classes, limited to the training set), exceeded only as far as the per-class minimum requires; and an imbalance rule only removes samples and never leaves a class above its cap.",
 ["inputs","configurations"],"all label vectors, training index sets, labelling and imbalance specifications and seeds",
 "Quota arithmetic (rounding, remainders, caps, minima) has corner cases for every class-count vector; tests fix a handful.",
 [S+"sampling/labeling.py",S+"sampling/imbalance.py",S+"sampling/services/service.py",S+"sampling/common.py"],
 [("label selection",S+"sampling/labeling.py:select_labeled"),("imbalance",S+"sampling/imbalance.py:apply_imbalance")])
p("C03","Sampling is reproducible and its identity captures the whole request",
 "Two sampling runs with the same dataset identity, labels, plan and seed give identical splits and the same split identity, and any difference in dataset identity, seed or a plan field gives a different split identity. Every plan survives conversion to its dictionary (JSON) form and back unchanged, and a split saved to disk loads back with identical indices, masks, references, plan and identity.",
 ["inputs","configurations","histories"],"all plans, seeds, dataset identities and repeated runs",
 "Tests compare a few fixed plans; identity injectivity is over all pairs of plans and every field.",
 [S+"sampling/plan.py",S+"sampling/fingerprint.py",S+"sampling/services/service.py",S+"sampling/storage.py"],
 [("plan dictionary form",S+"sampling/plan.py:SamplingPlan.as_dict"),("identity hash",S+"sampling/fingerprint.py:stable_hash"),("seed derivation",S+"sampling/fingerprint.py:derive_seed"),("split storage",S+"sampling/storage.py")])
p("C04","Split validation rejects every leaking or malformed split",
 "Validating a split result succeeds only if indices are integers, in range and duplicate-free, train, validation and test do not share a sample, labelled and unlabelled are disjoint and together are exactly the training set (for graphs: masks are boolean, of the right length, labelled inside train, and unlabelled exactly the rest of train); and it succeeds on every split that satisfies this. Node-index lists turned into masks give masks that are true exactly at the listed nodes, and reject out-of-range nodes.",
 ["inputs"],"all combinations of index arrays, base references and masks",
 "Each test exhibits one bad split; the guarantee is that no bad split at all passes and no good one is refused.",
 [S+"sampling/result.py",S+"graph/masks.py"],
 [("validation",S+"sampling/result.py:SamplingResult.validate"),("masks",S+"graph/masks.py:masks_from_indices")])
p("C05","Fitted preprocessing sees only the rows it may fit on",
 "For every fittable preprocessing step and every dataset, the fitted state depends only on the training rows listed as fit rows: changing any other training row, or any test row, changes no output of any row that was itself left unchanged. The fitted state is computed before any output is produced and transforming never changes it.",
 ["inputs","configurations"],"all feature matrices, fit-row sets and step parameters of the built-in fittable steps",
 "Leakage is a two-run (non-interference) property; a test compares single runs on fixed data.",
 [S+"preprocess/steps/core/pca.py",S+"preprocess/steps/core/random_projection.py",S+"preprocess/steps/tabular/standard_scaler.py",S+"preprocess/steps/tabular/impute.py",S+"preprocess/steps/tabular/one_hot.py",S+"preprocess/steps/text/tfidf.py",S+"preprocess/steps/text/vocab_tokenizer.py",S+"preprocess/steps/vision/zca_whitening.py",S+"preprocess/services/pipeline.py"],
 [("row selection",S+"preprocess/steps/base.py:fit_subset"),("fit then transform",S+"preprocess/services/pipeline.py:preprocess")])
p("C06","Preprocessing gives the same result with and without its cache",
 "For every dataset, plan, seed and fit-row set, and whatever was preprocessed before into the same cache, running with the cache (cold, warm or partly filled) gives exactly the arrays that running without the cache gives, and dropping unused artifacts does not change what remains. No step reads an artifact that its cache identity does not cover, and the input dataset is never modified.",
 ["inputs","configurations","histories"],"all histories of preprocessing runs (datasets, plans, parameters, seeds, fit rows) sharing one cache directory",
 "A stale or colliding cache entry needs a particular pair of runs; tests run each plan once or twice.",
 [S+"preprocess/services/pipeline.py",S+"preprocess/cache.py",S+"preprocess/fingerprint.py",S+"preprocess/catalog.py",S+"preprocess/store.py"],
 [("step identity",S+"preprocess/services/pipeline.py"),("artifact storage",S+"preprocess/cache.py"),("declared inputs",S+"preprocess/catalog.py")])
p("C07","Stored values are loaded back unchanged",
 "Every dataset (dense, sparse-free arrays, strings, Python lists and objects the store accepts, labels, edges, masks, JSON-like metadata) saved to a dataset store loads back equal in value, shape and element type (tuples as lists, metadata lists of more than 50 items summarised), and every preprocessing artifact that is saved loads back equal. Distinct artifact names never overwrite one another.",
 ["inputs"],"all values the storage layer accepts, all artifact names",
 "Type-directed encoders lose information on particular dtypes, shapes and names the tests do not enumerate.",
 [S+"data_loader/storage/files.py",S+"data_loader/storage/json.py",S+"preprocess/cache.py"],
 [("dataset store",S+"data_loader/storage/files.py:FileStorage"),("artifact store",S+"preprocess/cache.py")])
p("C08","An interrupted or failing write is never served as a complete entry",
 "If a process stops at any point while it writes a text file atomically, a dataset cache entry, a graph cache entry, a view cache entry or a preprocessing step cache entry, a later reader sees either no entry or a complete one (old or new) whose contents were written together, never a partial or mixed one.",
 ["crash_points","fault_sequences"],"every prefix of the sequence of file-system operations of each write, for fresh and for overwritten entries",
 "Tests never stop a write half-way; the property quantifies over all crash points.",
 [S+"utils/io.py",S+"data_loader/services/service.py",S+"data_loader/cache.py",S+"graph/cache.py",S+"preprocess/cache.py"],
 [("atomic text write",S+"utils/io.py:atomic_write_text"),("graph cache",S+"graph/cache.py:GraphCache.save"),("step cache",S+"preprocess/cache.py")])
p("C09","Dataset cache locking and maintenance touch only what they may",
 "Two processes never hold the lock of the same dataset cache entry at once, and a process that fails to get the lock leaves the holder's lock in place; the lock is released when its holder finishes, normally or by exception. Purging one dataset removes exactly that dataset's entries, keeping only the latest removes exactly the superseded ones, and the cache index lists exactly the entries present after any sequence of stores, purges and rebuilds.",
 ["schedules","histories","fault_sequences"],"all interleavings of lock acquisitions and all sequences of cache operations",
 "Needs contention, exceptions and multi-step histories that unit tests do not enumerate.",
 [S+"data_loader/cache.py"],
 [("lock",S+"data_loader/cache.py:cache_lock"),("index",S+"data_loader/cache.py"),("purge and gc",S+"data_loader/cache.py")])
p("C10","Similarity graphs connect exactly the right neighbours",
 "For every feature matrix, the k-nearest-neighbour graph built by an exact backend gives each node exactly min(k, n-1) distinct neighbours other than itself, none farther than any node left out, and the radius graph connects exactly the pairs within the radius, with the requested self-loop rule; every edge endpoint is a valid node and edge weights are the metric's distances in the documented transformation. Block or batch sizes never change the graph.",
 ["inputs","configurations"],"all feature matrices (duplicate points, ties, n smaller than k), metrics, k, radii and chunk sizes of the exact backends",
 "Neighbour selection, chunk boundaries and duplicates are universal over point sets; tests use small generic ones.",
 [S+"graph/construction/backends/numpy_backend.py",S+"graph/construction/backends/sklearn_backend.py",S+"graph/construction/builder.py",S+"graph/construction/ops/weights.py"],
 [("exact kNN",S+"graph/construction/backends/numpy_backend.py:knn_edges_numpy"),("radius",S+"graph/construction/backends/numpy_backend.py:epsilon_edges_numpy")])
p("C11","Graph post-processing keeps the graph well formed",
 "For every graph, symmetrising yields an edge set that contains (u,v) exactly when the chosen rule (union or intersection of directions) says so, both directions carrying the same combined weight; adding self loops gives exactly one loop to every node that has none and leaves every existing edge alone; normalising rescales each weight by the documented degree factors. Building a graph is a deterministic function of features, specification and seed, never modifies its inputs, and graph artifacts with out-of-range or misaligned edges are refused.",
 ["inputs","configurations"],"all edge lists (duplicates, loops, isolated nodes, weighted or not), specifications and seeds",
 "Set-level identities over all edge lists; tests check a few toy graphs.",
 [S+"graph/construction/ops/symmetrize.py",S+"graph/construction/ops/self_loops.py",S+"graph/construction/ops/normalize.py",S+"graph/construction/builder.py",S+"graph/artifacts.py",S+"graph/validation.py"],
 [("symmetrise",S+"graph/construction/ops/symmetrize.py"),("self loops",S+"graph/construction/ops/self_loops.py"),("normalise",S+"graph/construction/ops/normalize.py"),("artifact validation",S+"graph/artifacts.py")])
p("C12","Cached graphs and graph views equal freshly built ones",
 "For every history of graph constructions and graph-view computations sharing one cache, the graph or view returned from the cache equals the one computed without the cache for the same features, specification and seed. Graph and featurisation specifications survive conversion to dictionary form and back, and specifications that differ in any field have different cache identities.",
 ["histories","inputs","configurations"],"all histories of constructions over features, graphs, specifications and seeds",
 "A collision needs a particular pair of requests; tests use one.",
 [S+"graph/cache.py",S+"graph/construction/services/service.py",S+"graph/featurization/api.py",S+"graph/fingerprint.py",S+"graph/specs.py"],
 [("graph cache",S+"graph/cache.py"),("identity",S+"graph/fingerprint.py"),("specifications",S+"graph/specs.py")])
p("C13","Classical transductive scores are distributions that respect known labels",
 "For every valid node dataset with positive edge weights, label propagation and label spreading return for each node a finite, non-negative score row that sums to one, or is all zero when no label reaches the node; p-Laplace and Laplace learning and TSVM return distributions, and min-cut (of minimum value), lazy random walk and Poisson MBO assign each node to exactly one class. Label propagation, Laplace, p-Laplace and dynamic label propagation and min-cut keep every training node's own label with score one. Clamping sets exactly the labelled rows to their one-hot label and leaves all other rows alone.",
 ["inputs","configurations"],"all graphs (disconnected, isolated nodes), label vectors, masks and parameters",
 "Row-stochasticity and clamping must survive every iteration count and graph shape.",
 [S+"transductive/methods/classic/label_propagation.py",S+"transductive/methods/classic/label_spreading.py",S+"transductive/operators/clamp.py",S+"transductive/solvers/fixed_point.py"],
 [("clamping",S+"transductive/operators/clamp.py"),("iteration",S+"transductive/methods/classic/label_propagation.py")])
p("C14","Labels outside the training mask never influence a transductive method",
 "For every transductive method and node dataset, replacing the labels of nodes outside the training mask (and outside the validation mask, for methods that stop early on validation loss) by other labels of the classes that occur in the training mask leaves all predicted scores unchanged, whatever the state of the global random generators when the same seed is given to fit. The dataset given to a method is never modified.",
 ["inputs","configurations"],"all node datasets and all relabelings of non-training nodes",
 "Test-label leakage is a two-run property; single-run tests cannot see it.",
 [S+"transductive/methods/classic/label_propagation.py",S+"transductive/methods/classic/label_spreading.py",S+"transductive/methods/classic/laplace_learning.py",S+"transductive/methods/classic/lazy_random_walk.py",S+"transductive/methods/classic/dynamic_label_propagation.py",S+"transductive/methods/classic/graph_mincuts.py",S+"transductive/methods/pde",S+"transductive/methods/gnn"],
 [("masked labels",S+"transductive/operators/clamp.py:labels_to_onehot")])
p("C15","Evaluation metrics equal their definitions",
 "For every pair of label vectors, accuracy is the fraction of equal entries, macro F1 the unweighted mean over the classes present in the truth of the F1 score, and balanced accuracy the mean over true classes of recall; all lie in [0,1], equal 1 when prediction equals truth, are unchanged by permuting samples together or renaming classes consistently, and vectors of different shapes are refused. Score matrices are turned into predicted classes by the largest score of each row.",
 ["inputs"],"all pairs of label vectors and score matrices",
 "Definitions are universal over label vectors (missing classes, predicted-only classes, single class).",
 [S+"evaluation/metrics.py"],
 [("metrics",S+"evaluation/metrics.py")])
p("C16","Hyper-parameter search covers exactly the declared space",
 "Grid search yields every combination of the declared values exactly once, consecutively numbered from zero; random search yields the requested number of trials, is a function of space, seed and count, and every sampled value lies within its declared distribution. Applying a trial's patch to a configuration sets exactly the named paths to the trial's values (a mapping value being merged into a mapping), leaves every other setting as it was, and modifies neither input; the best trial is the first with the best objective.",
 ["inputs","configurations"],"all spaces, seeds, trial counts and nested configurations",
 "Coverage and frame conditions are over all nested spaces; tests use tiny ones.",
 [S+"hpo/space.py",S+"hpo/samplers.py",S+"hpo/patching.py"],
 [("grid",S+"hpo/samplers.py:iter_grid"),("random",S+"hpo/samplers.py:iter_random"),("patching",S+"hpo/patching.py")])
p("C17","Feature views select the columns they declare",
 "For every dataset, view plan and seed, each view's columns are sorted, unique and in range; an explicit list is used exactly, a random view has the requested fraction rounded (at least one column), and a complement view holds exactly the columns its reference view lacks. Each view's features are exactly those columns of the (preprocessed) features for train and test alike, labels, edges and masks are untouched, and the input dataset is not modified.",
 ["inputs","configurations"],"all feature counts, column specifications, view orders and seeds",
 "Partition of columns is over all fractions, seeds and view chains.",
 [S+"views/services/service.py",S+"views/plan.py"],
 [("column resolution",S+"views/services/service.py:_resolve_columns"),("view assembly",S+"views/services/service.py:generate_views")])
p("C18","Augmentation is a deterministic, non-destructive function of its context",
 "For every built-in augmentation, input and parameters, the output is a function of input, seed, epoch and sample id alone (independent of any global random state and of what was augmented before), and the input is never modified. Shape is preserved; dropout-like operations change an entry only to the documented fill value, edge dropout keeps a subset of the edges with their own weights, and shuffling operations keep the same multiset of tokens.",
 ["inputs","histories","configurations"],"all inputs (numpy and torch), parameters, contexts and call histories",
 "Hidden state and in-place modification depend on call histories and backends.",
 [S+"data_augmentation/api.py",S+"data_augmentation/utils.py",S+"data_augmentation/ops"],
 [("context generator",S+"data_augmentation/utils.py:make_numpy_rng"),("operations",S+"data_augmentation/ops")])
p("C19","Classifiers predict known labels with normalised scores",
 "For every training set (any label type), label encoding maps labels to consecutive integers that decode back to the same labels; the built-in numpy and torch nearest-neighbour classifiers predict only labels seen in training, return one non-negative score row per query summing to one in the order of the class list, predict the highest-scoring class, and let exactly the k nearest training points vote. Query batch size never changes a result, and every built-in classifier for tables predicts only labels seen in training, by the largest score (calibrated RBF probabilities apart), and is determined by its seed.",
 ["inputs","configurations"],"all training sets, label types, k, metrics, weights and batch sizes",
 "Encodings and ties depend on label types, gaps and batch boundaries.",
 [S+"supervised/utils.py",S+"supervised/base.py",S+"supervised/backends/numpy/knn.py",S+"supervised/backends/torch/knn.py"],
 [("label encoding",S+"supervised/utils.py:encode_labels"),("kNN",S+"supervised/backends/numpy/knn.py")])
p("C20","Filtering, limiting and slicing keep features and labels aligned",
 "For every dataset and every class filter, size limit, seed or row selection, each returned feature row and label come from the same original sample, selected rows appear once and in the documented order, the limit is respected, only the requested classes remain, and repeated calls with the same seed select the same samples. The input is not modified.",
 ["inputs","configurations"],"all datasets, limits, class filters, seeds and index lists",
 "Row misalignment shows only for particular orders and combinations of options.",
 [S+"data_loader/providers/common.py","bench/orchestrators/slicing.py"],
 [("class filter",S+"data_loader/providers/common.py:apply_class_filter"),("limits",S+"data_loader/providers/common.py:limit_samples"),("row selection","bench/orchestrators/slicing.py:select_rows")])
p("C21","Sparse graph operators and solvers compute the mathematical operator",
 "For every edge list, sparse matrix products, degrees, adjacency normalisation and Laplacians equal the dense matrix expressions they stand for (duplicate edges adding up), on the numpy and the torch backend alike. The conjugate-gradient and fixed-point solvers return a solution meeting their tolerance whenever they report convergence, and never report convergence otherwise.",
 ["inputs"],"all edge lists, weights, right-hand sides and symmetric positive definite systems",
 "Algebraic identities over all edge lists; tests compare a few small matrices.",
 [S+"transductive/operators/spmm.py",S+"transductive/operators/laplacian.py",S+"transductive/operators/normalize.py",S+"transductive/solvers/cg.py",S+"transductive/solvers/fixed_point.py",S+"transductive/methods/utils.py",S+"transductive/backends/numpy_backend.py",S+"transductive/backends/torch_backend.py"],
 [("operators",S+"transductive/operators"),("solvers",S+"transductive/solvers")])
p("C22","Names, identifiers and cached paths resolve safely and unambiguously",
 "A relative path taken from cached metadata is only ever resolved to a location inside its base directory, and anything that would leave it is refused. Registering a method under an identifier that is already taken by a different implementation is refused rather than silently replacing it, and dataset identifiers parse to provider and reference so that the same dataset request always has the same identity and different requests have different ones.",
 ["inputs","histories"],"all relative paths, registration sequences and dataset requests",
 "Path shapes and registration histories are unbounded; tests try a few.",
 [S+"runtime/paths.py",S+"utils/registry.py",S+"utils/io.py",S+"data_loader/uri.py",S+"data_loader/types.py",S+"data_loader/services/service.py"],
 [("path containment",S+"data_loader/services/service.py"),("registration",S+"utils/registry.py"),("identity",S+"data_loader/types.py")])
p("C23","Inductive learners never modify their data and are reproducible",
 "Fitting or predicting with an inductive semi-supervised method never modifies the labelled or unlabelled data it is given, repeated fits with the same data and seed give identical predictions, and the returned scores have one non-negative row per sample summing to one while every predicted label is one of the labels seen in fitting. Datasets with mismatched rows, feature counts or views are refused before fitting.",
 ["inputs","configurations","histories"],"all inductive datasets, method parameters and seeds",
 "Mutation and irreproducibility show on particular data and histories.",
 [S+"inductive/validation.py",S+"inductive/adapters/numpy.py",S+"inductive/methods/pseudo_label.py",S+"inductive/methods/self_training.py",S+"inductive/methods/co_training.py"],
 [("validation",S+"inductive/validation.py"),("methods",S+"inductive/methods")])
p("C24","A benchmark run evaluates each split on that split's own rows",
 "For every sampling result, evaluation of a split uses exactly the features and labels of that split's indices in the split's own base (train or official test), so the reported metric equals the metric computed by hand on those rows; preprocessing is fitted on exactly the rows named by the fit-on setting. Sweeping a seed sets that seed in every seeded section and changes nothing else in the configuration.",
 ["inputs","configurations"],"all sampling results, split names, score functions and configurations",
 "Mis-referenced splits need an official test set, particular index orders or a label artifact that tests lack.",
 ["bench/orchestrators/evaluation.py","bench/orchestrators/preprocess.py","bench/seed_sweep.py","bench/orchestrators/slicing.py"],
 [("evaluation","bench/orchestrators/evaluation.py"),("fit rows","bench/orchestrators/preprocess.py:resolve_fit_indices"),("seed sweep","bench/seed_sweep.py")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,sch); assert len(x['title'])<=80
    n=x['statement'].replace('e.g.','').count('. ')+1
    assert n<=3,(x['id'],n)
print(len(P))
