"""Writes properties.jsonl (kept as Python so that it stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": observe or [], "hook_needed": None}})

MFB = "implicit/cpu/matrix_factorization_base.py"
TOPK = "implicit/cpu/topk.pyx"
SEL = "implicit/cpu/select.h"
ALS = "implicit/cpu/als.py"
_ALS = "implicit/cpu/_als.pyx"
KNN = "implicit/nearest_neighbours.py"
_KNN = "implicit/_nearest_neighbours.pyx"
EVAL = "implicit/evaluation.pyx"
UT = "implicit/utils.py"

p("C01", "MF recommend returns exactly the top-N items by factor dot product",
  "For an ALS, BPR or logistic MF model on the CPU, recommend returns for every queried user N distinct item ids with scores in descending order; each score is the dot product of that user's and that item's factors up to rounding, and no item outside the result scores higher than one inside it. When the catalogue has fewer than N items every item is returned and the left-over positions carry id -1 and the lowest representable score, never a made-up item.",
  ["inputs", "configurations"],
  "all factor matrices (float32/float64, any rank, ties, negative and zero scores), all user batches (sizes around and beyond the internal batch), all N below, at and above the number of items",
  "The tests query one 50x50 block checkerboard (plus a 10x10 one) with N=10 and mostly look at the first id; ties, negative scores, N beyond the catalogue and query batches beyond 100 rows are not covered.",
  [MFB, TOPK, SEL], [("recommend", MFB), ("batched scoring + heap select", TOPK + " / " + SEL)], ["model.recommend(...)"])

p("C02", "Excluded items are never recommended, and eligible ones are never lost to them",
  "With filter_already_liked_items, items present in the passed user_items row are never presented as a recommendation, and ids in filter_items/filter_users are never presented by recommend, similar_items or similar_users; they are absent, or sit behind every eligible item with a sentinel score near the lowest representable value. Filtering never costs results: the eligible items come back exactly as if the excluded ones did not exist, up to N of them.",
  ["inputs", "configurations"],
  "all models (ALS, BPR, LMF, item-item), all like matrices including empty rows and rows that like everything, all filter lists (empty, unsorted, list or array, overlapping the likes, whole catalogue), single and batch queries",
  "The tests filter a couple of ids on a 10/50-item matrix; exhausting the candidate set, overlapping filters, per-row likes in large batches and array-typed filters are not reached.",
  [MFB, TOPK, KNN, _KNN, UT], [("filter_query_items/filter_items masking", TOPK), ("liked/filter masking for item-item models", KNN)], ["model.recommend", "model.similar_items", "model.similar_users"])

p("C03", "Restricting to an item/user subset equals ranking everything, then restricting",
  "recommend(items=S), similar_items(items=S) and similar_users(users=S) return only ids of S, with the same scores and order that ranking the whole catalogue and dropping everything outside S gives; already-liked items of S come last with the lowest score. The order of S does not matter, ids outside the model raise IndexError, combining the subset with an explicit filter raises ValueError, and the deprecated rank_items and recommend_all agree with recommend.",
  ["inputs", "configurations"],
  "all subsets S (singleton, unsorted, whole catalogue, list/tuple/array), all N, single and batch, with and without liked-item filtering, all CPU models",
  "The tests rank three items for one user on one tiny matrix.",
  [MFB, KNN, "implicit/recommender_base.py"], [("items handling and remapping", MFB), ("items handling", KNN)], ["model.recommend(items=)", "model.similar_items(items=)", "model.similar_users(users=)", "rank_items", "recommend_all"])

p("C04", "Batch queries equal single queries, whatever the batch, order or thread count",
  "Row i of recommend, similar_items or similar_users on an array of ids equals the same query made for id i alone (up to rounding, choice among exact ties, and padding of short results), for any order, repetition or number of ids. The result does not depend on num_threads.",
  ["inputs", "schedules", "configurations"],
  "all id arrays (permuted, repeated, empty, 1..>200 ids so that several internal batches run on several threads), all CPU models, all filter/items/recalculate options",
  "The tests compare batch and single calls for 50 users and default options, i.e. a single internal batch and no threads.",
  [MFB, TOPK, UT, KNN], [("batched topk", TOPK), ("_batch_call", UT)], ["model.recommend", "model.similar_items", "model.similar_users"])

p("C05", "similar_items and similar_users return the exact top-N by cosine similarity",
  "For CPU matrix factorization models similar_items and similar_users return, in descending order, the N entries with the highest cosine similarity between factor vectors, each score being that cosine up to rounding (so within [-1, 1], and 1 for the query itself when its vector is non-zero). All-zero factor vectors score 0 and never NaN, and every similarity query reflects the factors the model holds at that time.",
  ["inputs", "histories", "configurations"],
  "all factor matrices incl. zero rows, parallel/antiparallel rows, very different norms; all N; single and batch; after refit and partial fit",
  "The tests check the 50x50 checkerboard's first few neighbours and one zero-vector example.",
  [MFB, TOPK], [("cached norms", MFB), ("topk with item_norms", TOPK)], ["model.similar_items", "model.similar_users"])

p("C06", "Each ALS half-step solves the confidence-weighted ridge regression per row",
  "One ALS sweep replaces every user's factors with the minimiser of the weighted squared error (confidence alpha*value for positive entries with target 1, |alpha*value| for negative entries with target 0, confidence 1 and target 0 for absent entries) plus regularization*|x|^2 given the item factors, then does the same for items; with use_cg it makes at least the progress of the configured number of conjugate-gradient steps on that problem. Rows without interactions become zero; the native and the Python solvers and any thread count give the same solution, and a singular system raises ValueError instead of producing factors.",
  ["inputs", "configurations", "schedules"],
  "all sparse matrices (positive, negative, fractional, large confidences, empty rows/columns), ranks, regularization, alpha, float32/float64, cg_steps, warm starts, thread counts",
  "The tests factorize a 6x7 binary matrix and look at the reconstruction error; they never check optimality, alpha, negative preferences or empty rows against the normal equations.",
  [ALS, _ALS], [("least_squares / _least_squares", _ALS), ("least_squares_cg", _ALS), ("Python solvers", ALS)], ["model.user_factors / item_factors after fit"])

p("C07", "ALS training never increases the weighted squared-error objective",
  "Over the iterations of ALS.fit (Cholesky or CG solver, native or Python, any thread count, cold or warm start, several fits in a row) the regularised implicit-feedback objective of the current factors is non-increasing up to rounding, and one iteration never leaves it above the objective of the starting factors.",
  ["inputs", "histories", "configurations"],
  "all interaction matrices, hyper-parameters and iteration counts, observed after every iteration through the fit callback",
  "The tests only run fixed small fits and look at the end result.",
  [ALS, _ALS], [("alternating sweeps in fit", ALS), ("CG solver", _ALS)], ["fit callback + factors"])

p("C08", "The reported ALS training loss is the mean weighted squared error plus penalty",
  "With calculate_training_loss the loss handed to the fit callback equals, for the factors at that moment, the sum over all user/item pairs of confidence*(preference - score)^2 plus regularization*(|X|^2+|Y|^2), divided by the total confidence of all pairs. It is the same for any thread count and dtype (up to rounding) and honours alpha and negative preferences.",
  ["inputs", "configurations", "schedules"],
  "all interaction matrices incl. negative and fractional confidences, factors, alpha, regularization, thread counts, dtypes",
  "The only loss test compares a tiny all-ones case; negative preferences, alpha and threads are not covered.",
  [_ALS, ALS], [("calculate_loss", _ALS)], ["callback(iteration, time, loss)"])

p("C09", "Training is reproducible from random_state",
  "Two models with equal hyper-parameters and an equal random_state (int, RandomState or Generator in the same state) fitted on equal data end with equal factors, independent of global random state: for ALS and item-item models at any thread count, for BPR with one thread and for logistic MF at any fixed thread count. Different seeds give different factors, and evaluation splits are reproducible from random_state in the same way.",
  ["configurations", "schedules", "inputs"],
  "all models, seeds, seed types, thread counts, interleavings with other numpy/random calls",
  "The tests compare two fits of the checkerboard with one int seed.",
  [UT, ALS, "implicit/cpu/bpr.pyx", "implicit/cpu/lmf.pyx", EVAL, KNN], [("check_random_state", UT), ("per-thread RNG seeding", "implicit/cpu/bpr.pyx, lmf.pyx")], ["fit -> factors", "train_test_split", "leave_k_out_split"])

p("C10", "Any history of fits, updates and queries answers like a fresh, equal model",
  "After any sequence of fit, refit, partial_fit_users, partial_fit_items, recommend, similar_items, similar_users, recalculated queries, explain, pickling and save/load, every query answers exactly as a newly created model holding the same factors would; nothing remembered from earlier states (norms, squared factors, scorers) shows through. partial_fit changes only the rows it names (growing the model with zero rows if needed).",
  ["histories"],
  "all operation sequences up to the generated length on ALS, BPR, LMF and item-item models, with generated data for each step",
  "The tests call one or two operations per model object, so stale caches between operations are invisible to them.",
  [ALS, MFB, "implicit/cpu/bpr.pyx", "implicit/cpu/lmf.pyx", KNN], [("cache invalidation in fit/partial_fit_*", ALS), ("norm caches", MFB)], ["public query API after each step"])

p("C11", "Recalculated and incremental factors are the exact least-squares solution",
  "For ALS, recalculate_user/recalculate_item return for each passed row the minimiser of the weighted ridge regression against the stored item/user factors, one per id and in order, leaving the model unchanged; partial_fit_users/partial_fit_items store exactly those rows. recommend(recalculate_user=True) answers as if those factors had been stored first, similar_items(recalculate_item=True) compares them with the stored item factors, and a matrix with the wrong number of rows raises ValueError.",
  ["inputs", "histories", "configurations"],
  "all models/alpha/regularization/dtypes, new and existing ids, unsorted ids, empty rows, single and batch, negative preferences",
  "The tests recalculate a user of the 50x50 checkerboard and compare the top id.",
  [ALS, MFB, _ALS], [("recalculate_user/item", ALS), ("partial_fit_users/items", ALS)], ["recalculate_*", "partial_fit_*", "recommend(recalculate_user=True)", "similar_items(recalculate_item=True)"])

p("C12", "ALS explain decomposes the recalculated score exactly",
  "explain's total score equals the dot product of the item's factors with the user's recalculated factors, and with N at least the number of liked items its contributions sum to that total. The contributions are the N largest, sorted in descending order, one per positively-rated item of that user with the closed-form value, and passing back the returned user_weights gives the same answer.",
  ["inputs", "configurations", "histories"],
  "all users, items, N, alpha, regularization, negative preferences, dtypes, reuse of user_weights across items",
  "The tests explain two users of one fixed 3x4 matrix.",
  [ALS], [("explain", ALS)], ["model.explain"])

p("C13", "Saving, loading and pickling preserve the model and its answers",
  "For every CPU model class, fitted or not, load(save(m)) and pickle round trips (and deepcopy) give a model of the same class with equal hyper-parameters and bit-identical factors or similarities, which answers every query identically and can be refitted to the same result. Saving works to a path with or without .npz and to a file object, and never alters the saved model.",
  ["inputs", "configurations", "histories"],
  "all models and hyper-parameter values (incl. dtype, alpha, cg_steps, K1/B, random_state int/None/Generator), data, save/load chains",
  "The tests round-trip default-constructed models and a few attributes.",
  ["implicit/recommender_base.py", ALS, "implicit/cpu/bpr.pyx", "implicit/cpu/lmf.pyx", KNN], [("save/load", "each model"), ("__getstate__/__setstate__", KNN)], ["save", "load", "pickle"])

p("C14", "Item-item models keep exactly the K most similar items per item",
  "After fit, an item-item model's similarity row for item i holds the K largest values of the item-item product of the weighted matrix (all of them if fewer items overlap), each equal to the exact product up to rounding: the raw matrix for ItemItemRecommender, unit-norm item vectors for cosine, unit-norm TF-IDF vectors for TF-IDF, BM25-weighted vectors for BM25. The result does not depend on num_threads, and rows that overlap nothing are empty.",
  ["inputs", "configurations", "schedules"],
  "all interaction matrices (fractional counts, empty rows/columns, more items than K, single user/item), K, K1, B, thread counts",
  "The tests build one small checkerboard and compare a TF-IDF product on one fixed matrix without truncation.",
  [KNN, _KNN, "implicit/nearest_neighbours.h"], [("all_pairs_knn", _KNN), ("TopK / SparseMatrixMultiplier", "implicit/nearest_neighbours.h")], ["model.similarity", "similar_items"])

p("C15", "Item-item queries score by likes times similarity, whatever was asked before",
  "For an item-item model recommend returns, in descending order, the N highest values of (the passed user row) x (similarity matrix) over eligible items that share a neighbour with the likes, and similar_items returns the N highest stored similarities of the item. Each answer depends only on that call's arguments, not on earlier or failed calls or on the userid.",
  ["inputs", "histories", "configurations"],
  "all like rows (fractional, negative, explicit, empty, unseen users), N, K, filters, call sequences on one model object",
  "The tests recommend for a checkerboard user and check the top id.",
  [KNN, _KNN, "implicit/nearest_neighbours.h"], [("NearestNeighboursScorer.recommend", _KNN), ("SparseMatrixMultiplier.foreach reset", "implicit/nearest_neighbours.h")], ["recommend", "similar_items"])

p("C16", "TF-IDF, BM25 and normalize follow their formulas and leave the input alone",
  "tfidf_weight gives sqrt(x)*(log N - log(1+df_col)), bm25_weight gives x*(K1+1)/(K1*(1-B+B*len_row/avglen)+x) times the same idf, and normalize scales every non-empty row to unit Euclidean length; entries outside the input's pattern stay absent and shape is kept. All sparse formats and dtypes give the same answer, and the input matrix is not modified.",
  ["inputs", "configurations"],
  "all sparse matrices (CSR/CSC/COO/LIL, int/float dtypes, empty rows/columns, duplicates-free), K1, B",
  "The tests have one fixed TF-IDF expectation and none for BM25 or input preservation.",
  [KNN], [("tfidf_weight, bm25_weight, normalize", KNN)], ["return values"])

p("C17", "train_test_split partitions the ratings",
  "Every stored rating of the input lands in exactly one of train and test with its value, user and item unchanged (stored ratings that are negative or zero and fall into the test part are dropped instead), shapes and dtype are kept, and the input is untouched. The train share follows train_percentage (all for 1, none for 0), and equal random_state gives the equal split.",
  ["inputs", "configurations"],
  "all sparse rating matrices (any format, dtype, negative values), train_percentage in [0,1], random states",
  "The tests check the sum of the two parts on one random matrix.",
  [EVAL], [("train_test_split", EVAL)], ["train_test_split"])

p("C18", "leave_k_out_split holds out exactly K ratings per eligible user",
  "Every rating lands in exactly one of train and test unchanged; every user with more than K+1 ratings who is not reserved for training has exactly K ratings in test and everyone else has none. With train_only_size, max(1, int(fraction*number of users with ratings)) users are reserved, the choice and the held-out items are random but reproducible from random_state, and bad K or fractions raise ValueError.",
  ["inputs", "configurations"],
  "all rating matrices incl. users without ratings and gaps in user ids, K, train_only_size, random states",
  "The tests use dense random matrices where every user id is present and eligible.",
  [EVAL], [("leave_k_out_split, _take_tails, _choose", EVAL)], ["leave_k_out_split"])

p("C19", "Ranking metrics equal their definitions and lie in [0, 1]",
  "ranking_metrics_at_k returns precision (hits over the sum of min(K, test items)), MAP, NDCG and limited AUC computed from the model's own recommendations for the users that have test items, filtering their training items, averaged over those users; every value lies in [0, 1]. precision_at_k, mean_average_precision_at_k, ndcg_at_k and AUC_at_k return the respective entry, for any number of users, sparse format and K, also when the model can recommend fewer than K items.",
  ["inputs", "configurations"],
  "all recommenders (any ranking, short and padded results), train/test matrices, K, user counts around and beyond the internal batch of 1000",
  "The tests use six users and fixed expectations for one K.",
  [EVAL], [("ranking_metrics_at_k", EVAL)], ["ranking_metrics_at_k and the four wrappers"])

p("C20", "ANN-wrapped models return true scores, honour filters and match exact search",
  "Annoy, NMSLib and Faiss wrappers return distinct in-catalogue ids (or -1 padding) in descending order whose scores equal the true dot product (recommend) or cosine (similar_items) up to index rounding, and never return liked or filtered ids. With an exhaustive index setting the result equals the wrapped model's exact result, with approximate_*=False it is the wrapped model's result, and the wrapped model's factors are never changed.",
  ["inputs", "configurations"],
  "all factor matrices, users/items, N, filters, recalculate options, single and batch, each wrapper",
  "The tests run the shared checkerboard suite with default options.",
  ["implicit/ann/annoy.py", "implicit/ann/nmslib.py", "implicit/ann/faiss.py", UT, "implicit/approximate_als.py"], [("recommend/similar_items wrappers", "implicit/ann/*.py"), ("augment_inner_product_matrix, _filter_items_from_results", UT)], ["AnnoyModel/NMSLibModel/FaissModel .recommend/.similar_items"])

p("C21", "Queries change nothing and no call modifies its arguments",
  "No query (recommend, similar_items, similar_users, explain, recalculate_*, rank_items, evaluation) changes the model's factors, similarities or hyper-parameters, and no call, including fit and partial_fit, modifies the matrices, id lists or filters passed in. Arrays returned to the caller are not aliases of model state: writing into them does not change later answers.",
  ["inputs", "histories"],
  "all models, options and argument types (lists, arrays, unsorted CSR), single and batch",
  "The tests never look at arguments or state after a call.",
  [MFB, KNN, ALS, EVAL, UT, "implicit/ann/faiss.py"], [("copies before sorting/filtering", MFB), ("coo conversion copies", KNN)], ["arguments and model state before/after each call"])

p("C22", "Sparse format, dtype and index order of the input do not change the result",
  "Fitting on the same interactions given as CSR, CSC, COO or LIL, with sorted or unsorted indices, integer or float values that are exactly representable, gives the same model up to rounding from summation order (BPR without verify_negative_samples samples in storage order); factorization models warn only for non-CSR input. Queries that require CSR reject other formats with ValueError instead of misreading them.",
  ["inputs", "configurations"],
  "all models, formats, dtypes (bool-like ints, int64, float32, float64), index orders",
  "The tests fit COO and LIL once for shape only.",
  [UT, ALS, "implicit/cpu/bpr.pyx", "implicit/cpu/lmf.pyx", _KNN, EVAL], [("check_csr and dtype conversion", UT)], ["fit, recalculate_*, partial_fit_*, recommend"])

p("C23", "BPR training applies only valid pairwise SGD steps",
  "Each BPR epoch equals a sequence of one SGD step per stored interaction, each for some user/liked item taken from the interactions and some other sampled interaction's item as negative, with the BPR gradient, learning_rate and regularization; with verify_negative_samples an item the user liked is never used as negative. Positives and negatives are drawn uniformly from all stored interactions. Users' bias column stays 1, rows of users and items without interactions are never changed, and the callback's correct/skipped counts fit the steps taken.",
  ["inputs", "configurations", "histories"],
  "all small interaction matrices, factors, learning rates, regularization, dtypes, warm starts (all step sequences enumerated), larger matrices for the invariants",
  "The tests only check that the checkerboard's top recommendations come out right after many epochs.",
  ["implicit/cpu/bpr.pyx", "implicit/cpu/bpr.h"], [("bpr_update", "implicit/cpu/bpr.pyx"), ("has_non_zero", "implicit/cpu/bpr.pyx")], ["factors in the fit callback", "callback counts"])

p("C24", "Logistic MF training applies the AdaGrad ascent step of its likelihood",
  "Each LMF epoch updates every user with interactions and then every item with interactions by one AdaGrad step on the gradient of the confidence-weighted logistic likelihood (positives weighted by value, sampled negatives with weight 1, L2 penalty), with the sum of squared gradients accumulated over the epochs of that fit. With neg_prop=0 this is deterministic for any thread count; the constant columns of the two bias terms stay 1 and factors of users and items without interactions get no gradient step.",
  ["inputs", "configurations", "schedules"],
  "all interaction matrices (weights, empty rows), learning_rate, regularization, neg_prop, factors, epochs, thread counts",
  "The tests only check the checkerboard's top recommendations.",
  ["implicit/cpu/lmf.pyx"], [("lmf_update", "implicit/cpu/lmf.pyx")], ["factors in the fit callback"])

p("C25", "A failed or diverged training is reported, never returned as a model",
  "If training produces NaN factors, or a linear system cannot be solved, fit raises (ModelFitError or ValueError) rather than returning normally; whenever fit returns, all factors are free of NaN. Invalid arguments documented as rejected (unsupported ALS dtype, mismatching row counts, unknown ids) raise the documented exception and leave the model able to answer as before.",
  ["inputs", "configurations", "fault_sequences"],
  "all models, matrices with NaN/inf/huge values, extreme learning rates and regularization, zero regularization, invalid arguments",
  "The tests cover two hand-made NaN inputs.",
  [MFB, _ALS, "implicit/recommender_base.py", "implicit/cpu/bpr.pyx", "implicit/cpu/lmf.pyx"], [("_check_fit_errors", MFB), ("posv error handling", _ALS)], ["exceptions of fit and queries"])

p("C26", "Iterations, callbacks and warm starts compose",
  "fit runs exactly the configured number of iterations and calls the callback once per iteration with consecutive numbers from 0, whether or not progress is shown; it continues from existing factors of the right shape instead of discarding them. For ALS, fitting a and then b iterations equals fitting a+b iterations, and new models start from the documented random initialisation (zero factors for users/items without data in BPR and LMF).",
  ["histories", "configurations"],
  "all iteration counts, splits into several fits, models, callbacks, progress flag, thread counts",
  "The tests check that a callback is called for one fit.",
  [ALS, "implicit/cpu/bpr.pyx", "implicit/cpu/lmf.pyx"], [("fit loops", ALS)], ["callback", "factors"])

p("C27", "Dataset loaders return what is stored and never trust a partial download",
  "A dataset getter returns exactly the matrix and labels stored in the local cache file, downloading it first only if absent; the file that appears in the cache is byte-identical to the remote one. If the download fails or is interrupted at any point, no file is left under the final name, so the next call downloads again.",
  ["inputs", "crash_points", "fault_sequences"],
  "all stored matrices/labels per dataset format, all interruption points of the download, repeated calls",
  "The datasets have no tests at all (they need the network).",
  ["implicit/datasets/_download.py", "implicit/datasets/lastfm.py", "implicit/datasets/movielens.py", "implicit/datasets/reddit.py", "implicit/datasets/sketchfab.py", "implicit/datasets/million_song_dataset.py"], [("download_file", "implicit/datasets/_download.py"), ("get_* loaders", "implicit/datasets/*.py")], ["get_lastfm, get_movielens, get_reddit, get_sketchfab, get_msd_taste_profile, download_file"])

p("C28", "Native kernels never touch memory outside the arrays they are given",
  "No sequence of public calls with well-formed sparse matrices reads or writes outside its buffers, whatever the shapes, N, K, ids and thread counts; matrices whose shape does not fit the model are rejected with an exception instead of being read out of bounds.",
  ["inputs", "configurations", "histories"],
  "all shapes (1xN, Nx1, empty rows, N>items, K>items), factor counts, batch sizes, mismatching shapes, under AddressSanitizer",
  "An out-of-bounds access in nogil code with bounds checks off usually goes unnoticed in a test.",
  [_ALS, TOPK, SEL, _KNN, "implicit/nearest_neighbours.h", "implicit/cpu/bpr.pyx", "implicit/cpu/lmf.pyx", EVAL], [("index arithmetic in nogil loops", "*.pyx"), ("shape validation", "model entry points")], ["AddressSanitizer reports while driving the public API"])

p("C29", "Concurrent queries from several threads answer as if made one at a time",
  "Any number of Python threads querying one fitted model at the same time (recommend, similar_items, similar_users, with any filters) each get exactly the answer the same call gives alone, and leave the model able to answer correctly afterwards. Separate models trained in different threads at the same time end up as when trained alone.",
  ["schedules", "inputs"],
  "all models, query mixes and thread counts; scheduling perturbed through the interpreter switch interval and long native sections",
  "The tests are single-threaded.",
  [_KNN, MFB, TOPK], [("scorer lock", _KNN), ("norm caches", MFB)], ["query results under concurrency"])

p("C30", "Factory functions and converters pass every hyper-parameter through",
  "The public factories (implicit.als/bpr/lmf and the approximate-ALS factories) create a model whose hyper-parameters equal exactly the arguments given, by position or keyword, and the documented defaults otherwise, with the requested approximate index around it. A model made by the factory trains to the same factors as the class constructed directly with those values.",
  ["configurations", "inputs"],
  "all subsets and values of constructor arguments, positional and keyword",
  "The tests construct models through the factories with a few keywords and do not read them back.",
  ["implicit/als.py", "implicit/bpr.py", "implicit/lmf.py", "implicit/approximate_als.py"], [("factory functions", "implicit/als.py etc.")], ["attributes and fit results of created models"])

p("C32", "A dataset file generated from raw data loads back as that data",
  "For the lastfm, reddit, sketchfab, million song and movielens datasets, generate_dataset turns the raw files it is given into a file which the matching getter reads back as exactly the raw data: a CSR matrix with items as rows and users as columns holding every interaction (repeated pairs summed, values unchanged) and nothing else, together with the labels of its rows and columns in the same order.",
  ["inputs"],
  "all raw files in the format of each dataset: any users, items, labels (non-ASCII included), repeated pairs, gaps in ids, labels without metadata",
  "Generation is never tested: it needs pandas and the original raw files.",
  ["implicit/datasets/lastfm.py", "implicit/datasets/reddit.py", "implicit/datasets/sketchfab.py", "implicit/datasets/million_song_dataset.py", "implicit/datasets/movielens.py"],
  [("generate_dataset and the getters", "implicit/datasets/")], ["files written by generate_dataset and values returned by the getters"])

p("C31", "GPU models are numerically equivalent to the CPU models",
  "A GPU ALS or BPR model answers and trains like the CPU model up to float precision, and converting to CPU and back preserves the factors.",
  ["inputs", "configurations"], "all data and options on a CUDA device",
  "The GPU tests are skipped without a CUDA device.",
  ["implicit/gpu/als.py", "implicit/gpu/bpr.py", "implicit/gpu/matrix_factorization_base.py"], [("CUDA kernels", "implicit/gpu/*.cu")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
