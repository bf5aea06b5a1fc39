# property -> (what is specified and how, oracle / argument, bounded part and its bounds, why beyond tests)
P = {
"C01": ("multiset contracts cnt(a,x) of random/stratified hold-out, plain/stratified k-fold, make_holdout/kfold_split and the two sample() variants; fraction = round to nearest; fold k of n partitions",
        "an arbitrary sample x occurs in exactly one part; every label vector, size, fraction, fold, generator outcome",
        "sample() over generated datasets (n<=60), plans and seeds; official tests, graph masks, grouped runs of all folds"),
"C02": ("select_labeled for the five mode/strategy combinations, fixed indices, apply_imbalance (3 kinds), labelled/unlabelled in sample()",
        "labelled is a duplicate-free subset of train, unlabelled its complement, imbalance only removes; refusals are exactly the invalid parameters",
        "exact totals, per-class minima and caps (loops over classes with data-dependent trims) are decided by the run-time contract only: n<=60, <=6 classes"),
"C03": ("plan <-> dictionary round trip for every plan, the payload of the split identity, seeds of every random stream",
        "as_dict injective, identity payload = (dataset identity, plan, seed, schema); generators only from derive_seed",
        "save/load of splits and repeated runs on generated plans; digests compared for single-field changes"),
"C04": ("validate(): soundness (an arbitrary index satisfies each clause when it returns) and completeness (a split with all clauses does not raise), inductive and graph; masks_from_indices",
        "set clauses of the statement", "single-defect mutations of valid splits (wrong dtype, shape, base, leak, duplicate, range), n<=40"),
"C05": ("fit and transform of the eight fittable steps (relational, flow engine): what fit stores and draws is a function of the fit rows; transform changes nothing that was learnt; preprocess(): fit once per step, on the training data and the fit rows, before train and test are transformed",
        "two runs in lock-step that differ outside the fit rows; all rows, columns, configurations, any number of steps",
        "row locality of transform and lists/sparse/torch inputs: two-run contract, n<=30, chains of <=3 steps"),
"C06": ("preprocess() for any number of steps, with and without cache/fit rows/test split/purging; artifact store; purge; dataset fingerprint",
        "what is stored under a step identity is what that step computes (ghost map cache); cached and computed runs return the same artifacts; the generator of a step is replayed",
        "the cache files, purge keep sets and step inputs: histories of <=5 runs over one cache, single-field alterations, reads traced"),
"C11": ("add_self_loops, normalize_edge_weights (none/rw/sym), masks_from_indices, artifact and edge-index validation",
        "exactly one loop per loop-less node, original edges untouched in place, w/deg, w/sqrt(du dv), refused iff malformed",
        "symmetrize (set algebra of encoded edges) and determinism/frame of build_graph: run-time contract on graphs n<=25"),
"C12": ("spec dictionary round trips, identity payload of graphs and views covers every field, build_graph/graph_to_views save and serve by identity, bench stage",
        "ghost map: invariant 'value under an identity = what building for that identity yields'",
        "histories of requests sharing a cache (<=8 requests, n<=20), single-field differences"),
"C13": ("labels_to_onehot (both), hard_clamp, row_normalize, label propagation and label spreading in numpy and torch (loop invariants: scores non-negative, row sum 0 or 1, clamped rows)",
        "scores >= 0, each row sums to one or is zero, a training node keeps its label (label propagation); every graph, labelling, iteration count",
        "Laplace, p-Laplace, dynamic, TSVM, min-cut, lazy walk, Poisson; reachability; float finiteness: graphs n<=14, <=4 classes"),
"C14": ("fit and predict_proba of all 23 transductive methods (classic, PDE, GNN), whole bodies with their helpers; both conjugate gradient solvers; dataset frame",
        "two runs whose labels differ outside the training mask (GNN: and the validation mask) return equal scores; training steps, loop counts and branches follow released labels; "
        "the global torch generator counts as secret until it is seeded. Excluded by assumption: the set of classes that occur, and `b_strategy=\"true\"` of poisson_mbo, which asks for all labels' class proportions by name",
        "two-run scenarios with labels outside the masks replaced and global generators perturbed; frame by hashing; every registered method, graphs n<=16"),
"C15": ("accuracy, balanced_accuracy, macro_f1, predicted class positions, labels_1d/predict_labels, evaluate/compute_metrics",
        "the statement's formulas over counts of predicates; bounds [0,1]; 1 when equal; shape refusal",
        "hand-written oracle with exact fractions, n<=40, permutation/renaming pairs"),
"C16": ("deep_merge (one level + induction), distribution validation and sampling in range, grid/random enumeration, _assign, _is_better, run_hpo best trial",
        "statement; every space/seed/number of trials", "spaces of <=4 axes, nested patches, NaN objectives"),
"C17": ("_resolve_columns for all/indices/random/complement, generate_views (columns, labels, masks, edges untouched, frame), plan validation",
        "sorted, unique, in range, round(frac*n) at least one, complement exact", "dense, 1-column, mapping features; preprocessing in front; n<=30, d<=12"),
"C18": ("16 operations on numpy inputs: effect per entry, shape, frame, and which stream of (seed, epoch, sample id) feeds them; pipeline; make_numpy_rng",
        "documented effect of each operation; any other randomness source is outside the subset and undecided",
        "every registered op, numpy and torch, lists of texts, 2-D and 3-D inputs; global random state changed in between"),
"C19": ("encode_labels, onehot, ensure_2d, kNN fit and predict (labels among the fitted ones), base predict_scores, the scikit-learn common layer",
        "labels[i]=classes[codes[i]]; predictions decode scores' arg max; refusals", "all table classifiers, numpy/torch, metrics, weights, ties, batch sizes, n<=30; kNN scores against brute force"),
"C20": ("apply_class_filter, limit_samples (+ same seed twice), apply_limits(_to_split), bench select_rows for arrays, lists, mappings",
        "row tags: returned row i and label i come from one sample; order; limit; frame", "datasets with arrays, lists, mappings, graphs; n<=40"),
"C21": ("spmm (numpy, torch, operators, methods), degrees, normalize_edges in all modes, both Laplacians, conjugate gradient and fixed point in numpy and torch",
        "sum over edges into i of w*x; degree; w/deg, w/sqrt(du dv); CG residual r = b - A x as inferred loop invariant, converged only when the reported residual is within the tolerance",
        "dense numpy comparison, duplicates, self loops, mixed weights, n<=12; dense/csr adjacency"),
"C22": ("resolve_relative_path and its two users; method/classifier/backend/op registries; parse_uri and the seven providers; identity payloads",
        "containment or refusal; refused when taken by another implementation; request identity injective",
        "crafted paths (links, .., absolute, NUL), re-registrations in fresh interpreters, request pairs"),
"C23": ("validation of rows/features/views/augmented sets (refused exactly when mismatched), numpy and torch adapters, normalize_scores, select_confident, ensure_1d_labels, PseudoLabel.fit",
        "refused <=> mismatch; rows of scores sum to one keeping order; pseudo-labels only for confident rows, data frozen",
        "all inductive methods fit twice, predict, compare; data hashed before/after; torch methods with tiny bundles"),
"C24": ("_split_data, _views_for_split, evaluate_inductive/transductive, select_rows, resolve_fit_indices, masks from indices, apply_global_seed, seed_for",
        "row i of what is scored is row idx[i] of the split's base; only seed fields change", "hand-computed metrics on generated sampling results; whole runs with toy config"),
}
B = {
"C07": ("save/load equality with element types; name collisions; JSON-like metadata", "all store-able kinds incl. 0-d, empty, nested object arrays, bytes keys"),
"C08": ("crash or OSError injected at every file-system operation of a write (audit events in a forked child), then every reader",
        "all operations of writes up to 14 sampled per case; text, dataset, graph, views, build, step, pipeline"),
"C09": ("lock protocol under injected interleavings at file operations, real two-process races, index histories", "schedules at each audit event; histories of <=12 operations"),
"C10": ("kNN/radius/anchor graphs against brute force with tie tolerance; chunk sizes varied", "n<=40, d<=4, three metrics, numpy/sklearn/faiss-if-present"),
}
WHY = {
"C01":"any sizes/fractions/outcomes of the shuffle","C02":"any class histogram and minimum","C03":"every plan, not the few round-tripped","C04":"completeness needs all valid splits; soundness all leaks",
"C05":"leakage shows only when another row differs","C06":"depends on the history of the cache","C07":"shape/type corners of every value kind","C08":"needs a crash at a particular operation",
"C09":"needs an interleaving or history","C10":"ties, duplicates, blocks of any size","C11":"any multigraph","C12":"depends on earlier requests","C13":"any graph and label placement","C14":"relational: compares two runs",
"C15":"any label vectors incl. absent classes","C16":"any space and nesting","C17":"any column count/fraction","C18":"relational (global state, order of samples)","C19":"ties and label types","C20":"alignment for any filter/limit",
"C21":"duplicates and odd weights","C22":"any text","C23":"relational and any mismatch","C24":"any sampling result",
}
