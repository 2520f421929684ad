"""Writes known_findings.txt: the fix commits of /repo (hashes from git) and the recorded findings."""
import os
import subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = [  # (commit subject after "fix: ", properties)
    ("accept numpy RandomState as random_state", "C09"),
    ("don't return made-up results when N exceeds the number of items", "C01 C03 C05"),
    ("ranking metrics count missing recommendations as negatives", "C19"),
    ("leave_k_out_split repeats test ratings when user ids have gaps", "C18"),
    ("leave_k_out_split ignores random_state for the held out ratings", "C18 C09"),
    ("leave_k_out_split reserves the wrong users with train_only_size", "C18"),
    ("item-item recommend returns already liked items and more than N results", "C02 C15"),
    ("item-item similar_items fails when items is a list", "C03"),
    ("all_pairs_knn adds a spurious neighbour to item 0", "C14"),
    ("saving an item-item model loses its hyper-parameters", "C13"),
    ("recommend_all raises for any users_items_offset", "C03"),
    ("ALS training loss of disliked items", "C08"),
    ("refitting LogisticMatrixFactorization keeps the old norms", "C05 C10"),
    ("an interrupted download leaves a broken dataset in the cache", "C27"),
    ("sketchfab and million song dataset labels are returned as bytes", "C27"),
    ("Annoy similar_items returns fewer than N items with filter_items", "C20"),
    ("recalculate_user never works with ANN models", "C20"),
    ("ANN recommend fails when filter_items is an array", "C20"),
    ("FaissModel.recommend raises AttributeError with approximate_recommend=False", "C20"),
    ("FaissModel.similar_items overwrites the item factors of its model", "C20 C21"),
    ("batch ANN queries with filter_items fail when fewer than N items are left", "C20"),
    ("recalculate_item reads out of bounds when item_users has too few rows", "C11 C28"),
    ("models with a numpy random_state can't be loaded after saving", "C13"),
    ("normalize turns rows of zeros into NaN", "C16 C14 C02"),
    ("combining items with a filter array isn't rejected reliably", "C03"),
    ("Python CG solver doesn't zero users without interactions", "C06"),
    ("ranking metrics count filtered training items as recommendations", "C19"),
    ("batch NMSLibModel.similar_items fails when fewer than N items are found", "C20 C04"),
    ("NMSLibModel ignores method for the recommend index", "C20 C30"),
    ("concurrent similarity queries can divide by zero norms", "C29"),
    ("BPR and LMF fit reorders the caller's matrix", "C21"),
    ("refitting on a matrix of another shape reads out of bounds", "C28"),
    ("recalculating factors from ids outside of the model reads out of bounds", "C28"),
    ("item-item recommend with itemids outside of the model reads out of bounds", "C28"),
    ("normalize overflows for matrices of integers", "C22 C16"),
    ("ranking metrics with K=0 read out of bounds", "C28"),
    ("item-item models crash when K or N is 0", "C28"),
    ("similarity queries made by a fit callback leave stale norms behind", "C10 C05"),
    ("tfidf_weight rounded the weights of 8 bit integer matrices to half precision", "C16"),
    ("ItemItemRecommender could only be fitted on float64 matrices", "C22"),
    ("item-item recommend raised a TypeError for integer user_items", "C22"),
    ("simultaneous downloads of a dataset wrote to the same temporary file", "C27"),
    ("recommend with items returned already liked items stored as explicit zeros", "C02"),
    ("BPR and LMF read past the interactions of matrices with unused capacity", "C22 C28"),
    ("recalculated factors overflowed for small integers and an integer alpha", "C11 C12 C22"),
    ("million song dataset generation ignored the name of the triplets file", "C32"),
    ("movielens and million song datasets could not be generated", "C32"),
    ("generated lastfm datasets had users as rows instead of artists", "C32"),
    ("all_pairs_knn wrote outside of its buffers when items * K exceeds 32 bits", "C28 C14"),
    ("top-k selection crashed when the offsets of a batch need more than 31 bits", "C01 C28"),
    ("inner product augmentation made the longest float64 factor NaN", "C20"),
]
KNOWN = []
exec(open(os.path.join(ROOT, "tools", "known.py")).read()) if os.path.exists(
    os.path.join(ROOT, "tools", "known.py")) else None
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h\t%s"], stdout=subprocess.PIPE,
                     text=True, check=True).stdout
commits = {s[5:]: h for h, s in (x.split("\t", 1) for x in log.splitlines()) if s.startswith("fix: ")}
lines = ["# known: findings that the checks report as KNOWN-FINDING instead of VIOLATION",
         "# fixed: defects repaired in /repo; these entries suppress nothing"]
lines += ["known: property=%s id=%s %s" % k for k in KNOWN]
for subject, props in PROPS:
    h = commits.pop(subject)
    lines += ["fixed: property=%s %s %s" % (p, h, subject) for p in props.split()]
assert not commits, commits
with open(os.path.join(ROOT, "known_findings.txt"), "w") as fh:
    fh.write("\n".join(lines) + "\n")
