"""Reference similarity and aggregation functions (parsed by the analysis, never imported or executed)."""
import math
import numpy as np
from scipy.sparse import csr_matrix, lil_matrix, diags
from sklearn.metrics.pairwise import cosine_similarity


def mean(interactions, _):
    if len(interactions) == 0:
        return None
    return sum(interactions) / len(interactions)


def weighted_mean(interactions, similarities):
    total = sum([s for i, s in zip(interactions, similarities)])
    if total > 0:
        return sum([s * i for i, s in zip(interactions, similarities)]) / total
    return None


def cosine_sim(matrix):
    if type(matrix) is not csr_matrix:
        matrix = csr_matrix(matrix)
    return cosine_similarity(matrix, dense_output=False)


def adjusted_cosine_sim(matrix):
    if type(matrix) is not csr_matrix:
        matrix = csr_matrix(matrix)
    return cosine_similarity(subtract_row_mean(matrix), dense_output=False)


def subtract_row_mean(A):
    assert type(A) is csr_matrix
    sums = np.array(A.sum(axis=1).squeeze())[0]
    sizes = np.diff(A.indptr)
    means = np.divide(sums, sizes, where=sizes != 0)
    ones = A.copy()
    ones.data = np.ones_like(A.data)
    return A - diags(means, 0) * ones


def cosine_sim_cf(matrix):
    if type(matrix) is not lil_matrix:
        matrix = lil_matrix(matrix)
    n = matrix.shape[0]
    rows, cols, data = [], [], []
    user_items = [sorted([(item, idx) for idx, item in enumerate(matrix.rows[i])]) for i in range(n)]
    for i in range(n):
        i_ratings, i_items = matrix.data[i], user_items[i]
        for j in range(i, n):
            j_ratings, j_items = matrix.data[j], user_items[j]
            dot, norm_i, norm_j = 0, 0, 0
            a, b = 0, 0
            while a < len(i_items) and b < len(j_items):
                if i_items[a][0] > j_items[b][0]:
                    b += 1
                elif i_items[a][0] < j_items[b][0]:
                    a += 1
                else:
                    x, y = i_ratings[i_items[a][1]], j_ratings[j_items[b][1]]
                    dot += x * y
                    norm_i += x ** 2
                    norm_j += y ** 2
                    a += 1
                    b += 1
            if dot == 0:
                continue
            s = dot / (math.sqrt(norm_i) * math.sqrt(norm_j))
            rows.append(i)
            cols.append(j)
            data.append(s)
            if i != j:
                rows.append(j)
                cols.append(i)
                data.append(s)
    if len(data) == 0:
        return csr_matrix((n, n))
    return csr_matrix((data, (rows, cols)))


def jaccard_sim(matrix):
    if type(matrix) is not csr_matrix:
        matrix = csr_matrix(matrix)
    try:
        return jaccard_matrix(matrix)
    except MemoryError:
        return jaccard_iterative(matrix)


def jaccard_matrix(matrix):
    matrix = matrix.astype(bool).astype(int)
    common = matrix.dot(matrix.T)
    sizes = common.diagonal()
    sizes = sizes[:, None] + sizes
    return csr_matrix(common / (sizes - common))


def jaccard_iterative(matrix):
    matrix = lil_matrix(matrix)
    n = matrix.shape[0]
    rows, cols, data = [], [], []
    user_items = [sorted(matrix.rows[i]) for i in range(n)]
    for i in range(n):
        i_items = user_items[i]
        for j in range(i, n):
            j_items = user_items[j]
            common = 0
            a, b = 0, 0
            while a < len(i_items) and b < len(j_items):
                if i_items[a] > j_items[b]:
                    b += 1
                elif i_items[a] < j_items[b]:
                    a += 1
                else:
                    common += 1
                    a += 1
                    b += 1
            if common == 0:
                continue
            s = common / (len(i_items) + len(j_items) - common)
            rows.append(i)
            cols.append(j)
            data.append(s)
            if i != j:
                rows.append(j)
                cols.append(i)
                data.append(s)
    return csr_matrix((data, (rows, cols)))


def pearson_corr(matrix):
    if type(matrix) is not lil_matrix:
        matrix = lil_matrix(matrix)
    n = matrix.shape[0]
    rows, cols, data = [], [], []
    user_items = [sorted([(item, idx) for idx, item in enumerate(matrix.rows[i])]) for i in range(n)]
    for i in range(n):
        i_ratings, i_items = matrix.data[i], user_items[i]
        for j in range(i, n):
            j_ratings, j_items = matrix.data[j], user_items[j]
            common = []
            mean_i, mean_j = 0, 0
            a, b = 0, 0
            while a < len(i_items) and b < len(j_items):
                if i_items[a][0] > j_items[b][0]:
                    b += 1
                elif i_items[a][0] < j_items[b][0]:
                    a += 1
                else:
                    x, y = i_ratings[i_items[a][1]], j_ratings[j_items[b][1]]
                    common.append((x, y))
                    mean_i += x
                    mean_j += y
                    a += 1
                    b += 1
            if len(common) == 0:
                continue
            mean_i = mean_i / len(common)
            mean_j = mean_j / len(common)
            common = [(x - mean_i, y - mean_j) for x, y in common]
            dot, norm_i, norm_j = 0, 0, 0
            for x, y in common:
                dot += x * y
                norm_i += x ** 2
                norm_j += y ** 2
            if norm_i == 0 or norm_j == 0:
                continue
            s = dot / (math.sqrt(norm_i) * math.sqrt(norm_j))
            rows.append(i)
            cols.append(j)
            data.append(s)
            if i != j:
                rows.append(j)
                cols.append(i)
                data.append(s)
    if len(data) == 0:
        return csr_matrix((n, n))
    return csr_matrix((data, (rows, cols)))


def msd(matrix):
    if type(matrix) is not csr_matrix:
        matrix = csr_matrix(matrix)
    max_diff = matrix.max() - matrix.min()
    if type(matrix) is not lil_matrix:
        matrix = lil_matrix(matrix)
    n = matrix.shape[0]
    rows, cols, data = [], [], []
    user_items = [sorted([(item, idx) for idx, item in enumerate(matrix.rows[i])]) for i in range(n)]
    for i in range(n):
        i_ratings, i_items = matrix.data[i], user_items[i]
        for j in range(i, n):
            j_ratings, j_items = matrix.data[j], user_items[j]
            total, common = 0, 0
            a, b = 0, 0
            while a < len(i_items) and b < len(j_items):
                if i_items[a][0] > j_items[b][0]:
                    b += 1
                elif i_items[a][0] < j_items[b][0]:
                    a += 1
                else:
                    x, y = i_ratings[i_items[a][1]], j_ratings[j_items[b][1]]
                    total += ((x - y) / max_diff) ** 2
                    common += 1
                    a += 1
                    b += 1
            if common == 0:
                continue
            s = 1 - total / common
            rows.append(i)
            cols.append(j)
            data.append(s)
            if i != j:
                rows.append(j)
                cols.append(i)
                data.append(s)
    return csr_matrix((data, (rows, cols)))
