#!/usr/bin/env python3
"""Behaviour-preserving rewrites of the library, to see that the checks stay quiet on them.

usage: refactors.py DIR [NAME...]      applies them to the copy of /repo in DIR
"""
import sys

R = []


def r(name, path, *edits):
    R.append((name, path, edits))


r("topk", "implicit/cpu/topk.pyx",
  ("    cdef int batch_size = 100 # TODO\n", "    cdef int batch_size = 37\n"),
  ("    cdef int batches = (query_rows // batch_size)\n    if query_rows % batch_size:\n        batches += 1\n",
   "    cdef int batches = (query_rows + batch_size - 1) // batch_size\n"),
  ("    batch_distances = query[startidx: endidx].dot(items.T)\n    if item_norms is not None:\n        batch_distances = batch_distances / item_norms\n",
   "    batch_distances = _scores(items, query[startidx: endidx], item_norms)\n"),
  ("        for i, idx in enumerate(range(startidx, endidx)):\n            batch_distances[i, filter_query_items[idx].indices] = neginf\n",
   "        for idx in range(startidx, endidx):\n            liked = filter_query_items.indices[filter_query_items.indptr[idx]:filter_query_items.indptr[idx + 1]]\n            batch_distances[idx - startidx, liked] = neginf\n"),
  ("def _topk_batch(items", "def _scores(items, queries, item_norms):\n    if item_norms is None:\n        return np.matmul(queries, items.T)\n    # scale the items instead of the scores\n    scaled = (items / item_norms[:, None]).astype(items.dtype)\n    return np.matmul(queries, scaled.T)\n\n\ndef _topk_batch(items"))

r("select", "implicit/cpu/select.h",
  ("""    results.clear();
    for (int col = 0; col < cols; ++col) {
      T score = batch[row * cols + col];

      if ((results.size() < k) || (score > results[0].first)) {
        if (results.size() >= k) {
          std::pop_heap(results.begin(), results.end(), heap_order);
          results.pop_back();
        }
        results.push_back(std::make_pair(score, col));
        std::push_heap(results.begin(), results.end(), heap_order);
      }
    }

    std::sort_heap(results.begin(), results.end(), heap_order);
""", """    results.resize(cols);
    const T *scores = batch + static_cast<size_t>(row) * cols;
    for (int col = 0; col < cols; ++col) {
      results[col] = std::make_pair(scores[col], col);
    }
    size_t found = std::min<size_t>(std::max(k, 0), cols);
    std::partial_sort(results.begin(), results.begin() + found, results.end(), heap_order);
    results.resize(found);
"""))

r("mfb", "implicit/cpu/matrix_factorization_base.py",
  ("""            norms = np.linalg.norm(self.user_factors, axis=-1)
            # don't divide by zero in similar_items, replace with small value
            norms[norms == 0] = 1e-10
            # only store the finished norms, other threads could be reading them
            self._user_norms = norms
""", """            self._user_norms = _safe_norms(self.user_factors)
"""),
  ("""            norms = np.linalg.norm(self.item_factors, axis=-1)
            # don't divide by zero in similar_items, replace with small value
            norms[norms == 0] = 1e-10
            # only store the finished norms, other threads could be reading them
            self._item_norms = norms
""", """            self._item_norms = _safe_norms(self.item_factors)
"""),
  ("""            if np.isscalar(itemid):
                norm = np.linalg.norm(factor)
                norm = norm if norm != 0 else 1e-10
            else:
                norm = np.linalg.norm(factor, axis=1)
                norm[norm == 0] = 1e-10
""", """            norm = _safe_norms(np.atleast_2d(factor))
            if np.isscalar(itemid):
                norm = norm[0]
"""),
  ("""        if np.isscalar(norm):
            ids, scores = ids[0], scores[0]
            scores /= norm
        else:
            scores /= norm[:, None]
        return ids, scores
""", """        if not np.isscalar(norm):
            return ids, scores / norm[:, None]
        return ids[0], scores[0] / norm
"""),
  ("""    filter_query_items = query_items.tocoo()

    positions = np.searchsorted(items, filter_query_items.col)
    positions = np.clip(positions, 0, len(items) - 1)

    filter_query_items.data[items[positions] != filter_query_items.col] = 0
    filter_query_items.col = positions
    filter_query_items.eliminate_zeros()
    return filter_query_items.tocsr()""", """    coo = query_items.tocoo()
    keep = (coo.data != 0) & np.isin(coo.col, items)
    positions = np.searchsorted(items, coo.col[keep])
    return csr_matrix(
        (coo.data[keep], (coo.row[keep], positions)), shape=(query_items.shape[0], len(items))
    )"""),
  ("""def _filter_items_from_sparse_matrix(""", """def _safe_norms(factors):
    # don't divide by zero in similar_items, replace with small value
    norms = np.sqrt(np.einsum("ij,ij->i", factors, factors))
    return np.where(norms == 0, np.asarray(1e-10, dtype=norms.dtype), norms)


def _filter_items_from_sparse_matrix("""))

r("als", "implicit/cpu/als.py",
  ("""        total_score = 0.0
        h = []
        h_len = 0
        for other_itemid, confidence in nonzeros(user_items, userid):
            if confidence < 0:
                continue

            factor = self.item_factors[other_itemid]
            # s_u^ij = (y_i^t W^u) y_j
            score = weighted_item.dot(factor) * confidence
            total_score += score
            contribution = (score, other_itemid)
            if h_len < N:
                heapq.heappush(h, contribution)
                h_len += 1
            else:
                heapq.heappushpop(h, contribution)

        items = (heapq.heappop(h) for i in range(len(h)))
        top_contributions = list((i, s) for s, i in items)[::-1]
        return total_score, top_contributions, user_weights
""", """        liked = [(i, c) for i, c in nonzeros(user_items, userid) if c >= 0]
        # s_u^ij = (y_i^t W^u) y_j
        contributions = [(c * self.item_factors[i].dot(weighted_item), i) for i, c in liked]
        total_score = float(np.sum([s for s, _ in contributions]))
        best = heapq.nlargest(N, contributions)
        return total_score, [(i, s) for s, i in best], user_weights
"""),
  ("""    # accumulate YtCuY + regularization*I in A
    A = YtY + regularization * np.eye(n_factors)

    # accumulate YtCuPu in b
    b = np.zeros(n_factors)

    for i, confidence in nonzeros(Cui, u):
        factor = Y[i]

        if confidence > 0:
            b += confidence * factor
        else:
            confidence *= -1

        A += (confidence - 1) * np.outer(factor, factor)
    return A, b
""", """    rows = slice(Cui.indptr[u], Cui.indptr[u + 1])
    weights = Cui.data[rows].astype(np.float64)
    factors = Y[Cui.indices[rows]].astype(np.float64)
    A = YtY + regularization * np.eye(n_factors)
    A = A + (factors.T * (np.abs(weights) - 1)).dot(factors)
    b = factors.T.dot(np.maximum(weights, 0))
    return A, b
"""),
  ("""        r = -YtY.dot(x)
        for i, confidence in nonzeros(Cui, u):
            if confidence > 0:
                r += (confidence - (confidence - 1) * Y[i].dot(x)) * Y[i]
            else:
                confidence *= -1
                r += -(confidence - 1) * Y[i].dot(x) * Y[i]
""", """        rows = slice(Cui.indptr[u], Cui.indptr[u + 1])
        Yu, weights = Y[Cui.indices[rows]], Cui.data[rows].astype(Y.dtype)
        extra = np.abs(weights) - 1
        r = Yu.T.dot(np.maximum(weights, 0) - extra * Yu.dot(x)) - YtY.dot(x)
"""),
  ("""            Ap = YtY.dot(p)
            for i, confidence in nonzeros(Cui, u):
                if confidence < 0:
                    confidence *= -1

                Ap += (confidence - 1) * Y[i].dot(p) * Y[i]
""", """            Ap = YtY.dot(p) + Yu.T.dot(extra * Yu.dot(p))
"""),
  ("""            Y = self.item_factors
            self._YtY = Y.T.dot(Y)
""", """            self._YtY = np.einsum("ij,ik->jk", self.item_factors, self.item_factors)
"""),
  ("""        user_factors = self.recalculate_user(userids, user_items)

        # ensure that we have enough storage for any new users
        users, factors = self.user_factors.shape
        max_userid = max(userids)
        if max_userid >= users:
            self.user_factors = np.concatenate(
                [self.user_factors, np.zeros((max_userid - users + 1, factors), dtype=self.dtype)]
            )

        # update the stored factors with the newly calculated values
        self.user_factors[userids] = user_factors
""", """        updated = self.recalculate_user(userids, user_items)
        needed = 1 + int(np.max(userids))
        have, factors = self.user_factors.shape
        if needed > have:
            grown = np.zeros((needed, factors), dtype=self.dtype)
            grown[:have] = self.user_factors
            self.user_factors = grown
        self.user_factors[np.asarray(userids)] = updated
"""))

r("_als", "implicit/cpu/_als.pyx",
  ("""                    if confidence > 0:
                        axpy(&factors, &confidence, &Y[i, 0], &one, b, &one)
                    else:
                        confidence = -1 * confidence

                    # A += Yi^T Cui Yi
                    # Since we've already added in YtY, we subtract 1 from confidence
                    for j in range(factors):
                        temp = (confidence - 1) * Y[i, j]
                        axpy(&factors, &temp, &Y[i, 0], &one, A + j * factors, &one)
""", """                    # A += Yi^T Cui Yi
                    # Since we've already added in YtY, we subtract 1 from confidence
                    temp = -confidence if confidence < 0 else confidence
                    temp = temp - 1
                    for j in range(factors * factors):
                        A[j] = A[j] + temp * (Y[i, j // factors] * Y[i, j % factors])
                    if confidence > 0:
                        for j in range(factors):
                            b[j] = b[j] + Y[i, j] * confidence
"""),
  ("""                    temp = temp - (confidence - 1) * dot(&N, &Y[i, 0], &one, x, &one)
                    axpy(&N, &temp, &Y[i, 0], &one, r, &one)

                memcpy(p, r, sizeof(floating) * N)
""", """                    temp = temp + (1 - confidence) * dot(&N, x, &one, &Y[i, 0], &one)
                    for it in range(N):
                        r[it] = r[it] + Y[i, it] * temp

                for it in range(N):
                    p[it] = r[it]
"""),
  ("""                    temp = rsnew / rsold
                    scal(&N, &temp, p, &one)
                    temp = 1.0
                    axpy(&N, &temp, r, &one, p, &one)
""", """                    temp = rsnew / rsold
                    for index in range(N):
                        p[index] = r[index] + temp * p[index]
"""),
  ("""                loss += dot(&N, r, &one, &X[u, 0], &one)
                user_norm += dot(&N, &X[u, 0], &one, &X[u, 0], &one)
""", """                temp = dot(&N, &X[u, 0], &one, &X[u, 0], &one)
                user_norm += temp
                loss += dot(&N, &X[u, 0], &one, r, &one)
"""))

r("bpr", "implicit/cpu/bpr.pyx",
  ("""            # update the factors via sgd.
            for j in range(factors):
                temp = user[j]
                user[j] += learning_rate * (z * (liked[j] - disliked[j]) - reg * user[j])
                liked[j] += learning_rate * (z * temp - reg * liked[j])
                disliked[j] += learning_rate * (-z * temp - reg * disliked[j])

            # update item bias terms (last column of factorized matrix)
            liked[factors] += learning_rate * (z - reg * liked[factors])
            disliked[factors] += learning_rate * (-z - reg * disliked[factors])
""", """            # update item bias terms (last column of factorized matrix)
            liked[factors] = liked[factors] + learning_rate * z - learning_rate * reg * liked[factors]
            disliked[factors] = disliked[factors] - learning_rate * (z + reg * disliked[factors])

            # update the factors via sgd.
            for j in range(factors):
                temp = user[j]
                user[j] = temp + learning_rate * z * (liked[j] - disliked[j]) - learning_rate * reg * temp
                liked[j] = liked[j] + learning_rate * (z * temp - reg * liked[j])
                disliked[j] = disliked[j] - learning_rate * (z * temp + reg * disliked[j])
"""),
  ("""        userids = np.repeat(np.arange(users), user_counts).astype(user_items.indices.dtype)
""", """        userids = user_items.tocoo().row.astype(user_items.indices.dtype)
"""))

r("lmf", "implicit/cpu/lmf.pyx",
  ("""                # Positive item indices: c_ui* y_i
                for index in range(indptr[u], indptr[u + 1]):
                    i = indices[index]
                    for _ in range(n_factors):
                        deriv[_] += data[index] * item_vectors[i, _]

                # Positive Item Indices (c_ui * exp(y_ui)) / (1 + exp(y_ui)) * y_i
                for index in range(indptr[u], indptr[u + 1]):
                    exp_r = 0
                    i = indices[index]
                    for _ in range(n_factors):
                        exp_r += user_vectors[u, _] * item_vectors[i, _]
                    z = sigmoid(exp_r) * data[index]
                    for _ in range(n_factors):
                        deriv[_] = deriv[_] - z * item_vectors[i, _]
""", """                # Positive item indices: c_ui * (1 - sigmoid(y_ui)) * y_i
                for index in range(indptr[u], indptr[u + 1]):
                    i = indices[index]
                    exp_r = 0
                    for _ in range(n_factors):
                        exp_r += item_vectors[i, _] * user_vectors[u, _]
                    z = data[index] - data[index] * sigmoid(exp_r)
                    for _ in range(n_factors):
                        deriv[_] += z * item_vectors[i, _]
"""),
  ("""    if x >= 0:
        return 1 / (1+exp(-x))
    else:
        z = exp(x)
        return z / (1 + z)
""", """    if x < 0:
        return 1 - 1 / (1 + exp(x))
    return 1 / (1 + exp(-x))
"""))

r("hnn", "implicit/nearest_neighbours.h",
  ("""      std::push_heap(results.begin(), results.end(), heap_order);
    }
  }
""", """      std::push_heap(results.begin(), results.end(), heap_order);
    }
    // (keeps the K largest)
  }
"""),
  ("""    for (int i = 0; i < length; ++i) {
      Index index = head;
      f(index, sums[index]);

      // clear up memory and advance linked list
      head = nonzeros[head];
      sums[index] = 0;
      nonzeros[index] = -1;
    }

    length = 0;
    head = -2;
""", """    while (head != -2) {
      const Index index = head;
      const Value value = sums[index];
      head = nonzeros[index];
      nonzeros[index] = -1;
      sums[index] = 0;
      f(index, value);
    }
    length = 0;
"""))

r("pnn", "implicit/_nearest_neighbours.pyx",
  ("            for i in prange(item_count, schedule='dynamic', chunksize=8):\n", "            for i in prange(item_count, schedule='guided'):\n"),
  ("""                index2 = K * i

                for result in topk.results:
                    rows[index2] = i
                    cols[index2] = result.second
                    values[index2] = result.first
                    index2 = index2 + 1
""", """                for index2 in range(<int> topk.results.size()):
                    rows[K * i + index2] = i
                    cols[K * i + index2] = topk.results[index2].second
                    values[K * i + index2] = topk.results[index2].first
"""))

r("nn", "implicit/nearest_neighbours.py",
  ("""        best = np.argsort(scores)[::-1][:N]
""", """        best = np.argsort(-scores, kind="stable")[:N]
"""),
  ("""    X = coo_matrix(X)

    # calculate IDF
    N = float(X.shape[0])
    idf = log(N) - log1p(bincount(X.col))

    # apply TF-IDF adjustment
    X.data = sqrt(X.data) * idf[X.col]
    return X
""", """    X = coo_matrix(X)
    return coo_matrix((sqrt(X.data) * _idf(X)[X.col], (X.row, X.col)), shape=X.shape)


def _idf(X):
    return log(float(X.shape[0]) / (1.0 + bincount(X.col, minlength=X.shape[1])))
"""),
  ("""    N = float(X.shape[0])
    idf = log(N) - log1p(bincount(X.col))

    # calculate length_norm per document (artist)
    row_sums = np.ravel(X.sum(axis=1))
    average_length = row_sums.mean()
    length_norm = (1.0 - B) + B * row_sums / average_length

    # weight matrix rows by bm25
    X.data = X.data * (K1 + 1.0) / (K1 * length_norm[X.row] + X.data) * idf[X.col]
    return X""", """    idf = _idf(X)

    # calculate length_norm per document (artist)
    row_sums = bincount(X.row, X.data, minlength=X.shape[0])
    relative = row_sums / (row_sums.sum() / X.shape[0])
    length_norm = 1.0 + B * (relative - 1.0)

    # weight matrix rows by bm25
    saturated = X.data / (K1 * length_norm[X.row] + X.data)
    X.data = idf[X.col] * (saturated * (1.0 + K1))
    return X"""),
  ("""    X.data = X.data / norms[X.row]
    return X
""", """    X.data = X.data * (1.0 / norms)[X.row]
    return X
"""),
  ("""        if liked is not None:
            mask = np.in1d(ids, liked, invert=True)
            ids, scores = ids[mask], scores[mask]

        if filter_items is not None:
            mask = np.in1d(ids, filter_items, invert=True)
            ids, scores = ids[mask], scores[mask]
""", """        excluded = [x for x in (liked, filter_items) if x is not None and len(x)]
        if excluded:
            mask = ~np.isin(ids, np.concatenate([np.asarray(x) for x in excluded]))
            ids, scores = ids[mask], scores[mask]

        if filter_items is not None:
            pass
"""))

r("eval", "implicit/evaluation.pyx",
  ("""    train_index = random_index < train_percentage
    test_index = random_index >= train_percentage
""", """    train_index = np.flatnonzero(random_index < train_percentage)
    test_index = np.setdiff1d(np.arange(len(ratings.data)), train_index)
"""),
  ("""    test.data[test.data < 0] = 0
    test.eliminate_zeros()
""", """    test.data = np.where(test.data < 0, 0, test.data).astype(test.dtype)
    test.eliminate_zeros()
"""),
  ("""        shuffled_idx = (sorted_arr + rng.random(arr.shape)).argsort()
""", """        shuffled_idx = np.lexsort((rng.random(arr.shape), sorted_arr))
"""),
  ("""        model, train_user_items, test_user_items, K, show_progress, num_threads)['auc']""",
   """        model, train_user_items, test_user_items, K=K, show_progress=show_progress,
        num_threads=num_threads)['auc']"""),
  ("    batch_size = 1000\n", "    batch_size = 613\n"),
  ("""                        relevant += 1
                        hit += 1
                        ap += hit / (i + 1)
                        ndcg += cg[i] / idcg
""", """                        hit += 1
                        relevant += 1
                        ap += (1.0 / (i + 1)) * hit
                        ndcg += cg[i] * (1.0 / idcg)
"""))

r("utils", "implicit/utils.py",
  ("""        # pad out to N items if we're returned fewer
        missing_items = N - len(batch_ids)
        if missing_items > 0:
            batch_ids = np.append(batch_ids, np.full(missing_items, -1))
            batch_scores = np.append(
                batch_scores, np.full(missing_items, -np.finfo(np.float32).max)
            )

        output_ids[i] = batch_ids[:N]
        output_scores[i] = batch_scores[:N]
""", """        found = min(N, len(batch_ids))
        output_ids[i, :found] = batch_ids[:found]
        output_scores[i, :found] = batch_scores[:found]
"""),
  ("""    output_ids = np.zeros((len(ids), N), dtype=np.int32)
    output_scores = np.zeros((len(ids), N), dtype=np.float32)
""", """    # rows with fewer than N results keep this padding
    output_ids = np.full((len(ids), N), -1, dtype=np.int32)
    output_scores = np.full((len(ids), N), -np.finfo(np.float32).max, dtype=np.float32)
"""),
  ("""    norms = np.linalg.norm(factors, axis=1)
    max_norm = norms.max()

    # add an extra dimension so that the norm of each row is the same
    # (max_norm)
    extra_dimension = np.sqrt(max_norm**2 - norms**2)
    return max_norm, np.append(factors, extra_dimension.reshape(norms.shape[0], 1), axis=1)
""", """    squared = (factors * factors).sum(axis=1)
    # add an extra dimension so that the norm of each row is the same
    # (max_norm)
    extra_dimension = np.sqrt(squared.max() - squared)
    return np.sqrt(squared.max()), np.column_stack([factors, extra_dimension])
"""))

r("annoy", "implicit/ann/annoy.py",
  ("""            self.similar_items_index = annoy.AnnoyIndex(item_factors.shape[1], "angular")
            for i, row in enumerate(item_factors):
                self.similar_items_index.add_item(i, row)
            self.similar_items_index.build(self.n_trees)
""", """            self.similar_items_index = self._build_index(item_factors)
"""),
  ("""            self.recommend_index = annoy.AnnoyIndex(extra.shape[1], "angular")
            for i, row in enumerate(extra):
                self.recommend_index.add_item(i, row)
            self.recommend_index.build(self.n_trees)
""", """            self.recommend_index = self._build_index(extra)

    def _build_index(self, factors):
        index = annoy.AnnoyIndex(factors.shape[1], "angular")
        for i, row in enumerate(factors):
            index.add_item(i, row)
        index.build(self.n_trees)
        return index
"""))

r("download", "implicit/datasets/_download.py",
  ("""            _, headers = urlretrieve(url, partial, reporthook=report)
            os.replace(partial, local_filename)
""", """            from urllib.error import ContentTooShortError
            from urllib.request import urlopen

            with urlopen(url) as response, open(partial, "wb") as out:
                headers = response.info()
                total = int(headers.get("Content-Length", -1))
                count = 0
                while True:
                    block = response.read(8192)
                    if not block:
                        break
                    out.write(block)
                    count += len(block)
                    report(1, len(block), total)
            if 0 <= total and count < total:
                raise ContentTooShortError("incomplete download", (partial, headers))
            os.replace(partial, local_filename)
"""))


def main():
    root, names = sys.argv[1], sys.argv[2:]
    for name, path, edits in R:
        if names and name not in names:
            continue
        p = root + "/" + path
        s = open(p).read()
        for old, new in edits:
            assert s.count(old) == 1, (name, s.count(old), old)
            s = s.replace(old, new)
        open(p, "w").write(s)


if __name__ == "__main__":
    main()
