KNOWN = [
    ("C24", "LMF-NEG-CAP", "LogisticMatrixFactorization caps the negatives per row at factors+2 instead of the number of "
     "items/users (lmf.pyx: n_items = item_vectors.shape[1]): a user with 1 of 10 items, neg_prop=8 and factors=1 is "
     "trained with 3 sampled negatives instead of 8"),
]
