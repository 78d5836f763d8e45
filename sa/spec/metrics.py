"""Reference semantics of the metrics (parsed by the analysis, never executed)."""
import math
from math import sqrt
from sklearn.metrics import mean_squared_error
from sklearn.metrics import mean_absolute_error


class MSE:
    def __call__(self, y_true, y_pred):
        return mean_squared_error(y_true, y_pred)


class RMSE:
    def __call__(self, y_true, y_pred):
        return sqrt(mean_squared_error(y_true, y_pred))


class MAE:
    def __call__(self, y_true, y_pred):
        return mean_absolute_error(y_true, y_pred)


class DCG:
    def __init__(self, strong_relevancy=True):
        self.strong_relevancy = strong_relevancy

    def __call__(self, recommendations, k=None, relevancies=None):
        if relevancies is None:
            return 0
        top = recommendations
        if k is not None:
            top = recommendations[:k]
        total = 0
        for i, r in enumerate(top):
            rel = float(relevancies[r])
            if self.strong_relevancy:
                total += (2 ** rel - 1) / math.log2(2 + i)
            else:
                total += rel / math.log2(2 + i)
        return total


class NDCG:
    def __init__(self, strong_relevancy=True):
        self.dcg = DCG(strong_relevancy=strong_relevancy)

    def __call__(self, recommendations, k=None, relevancies=None):
        if relevancies is None:
            return 0
        ideal = sorted(relevancies.keys(), key=lambda x: -relevancies[x])
        return self.dcg(recommendations, relevancies=relevancies, k=k) / self.dcg(ideal, relevancies=relevancies, k=k)


class HitRatio:
    def __call__(self, recommendations, k=None, relevant_recommendations=None):
        if relevant_recommendations is None:
            return 0
        if k is not None:
            recommendations = recommendations[:k]
        recs = set(str(i) for i in recommendations)
        rel = set(str(i) for i in relevant_recommendations)
        return len(recs.intersection(rel)) / len(rel)


class ReciprocalRank:
    def __call__(self, recommendations, k=None, relevant_recommendation=None):
        if relevant_recommendation is None:
            return 0
        if k is not None:
            recommendations = recommendations[:k]
        if relevant_recommendation in recommendations:
            return 1 / (recommendations.index(relevant_recommendation) + 1)
        return 0


class Recall:
    def __call__(self, recommendations, k=None, relevant_recommendations=None):
        if relevant_recommendations is None:
            return 0
        if k is not None:
            recommendations = recommendations[:k]
        return len(set(recommendations).intersection(set(relevant_recommendations))) / len(relevant_recommendations)


class Precision:
    def __call__(self, recommendations, k=None, relevant_recommendations=None):
        if relevant_recommendations is None:
            return 0
        if k is not None:
            recommendations = recommendations[:k]
        return len(set(recommendations).intersection(set(relevant_recommendations))) / len(recommendations)


class FScore:
    def __init__(self, beta=1):
        self.beta = beta
        self.precision = Precision()
        self.recall = Recall()

    def __call__(self, recommendations, k=None, relevant_recommendations=None):
        if relevant_recommendations is None:
            return 0
        p = self.precision(recommendations, relevant_recommendations=relevant_recommendations, k=k)
        r = self.recall(recommendations, relevant_recommendations=relevant_recommendations, k=k)
        return (1 + self.beta ** 2) * p * r / ((self.beta ** 2 * p) + r)


class AveragePrecision:
    def __init__(self):
        self.precision = Precision()

    def __call__(self, recommendations, k=None, relevant_recommendations=None):
        if relevant_recommendations is None:
            return 0
        if k is not None:
            recommendations = recommendations[:k]
        total = 0
        for i, r in enumerate(recommendations):
            if r in relevant_recommendations and r not in recommendations[:i]:
                total += self.precision(recommendations, relevant_recommendations=relevant_recommendations, k=i + 1)
        if k is None:
            return total / len(relevant_recommendations)
        return total / min(len(relevant_recommendations), k)
