"""A small executable reference model: what the rules of a model mean, independent of the code under test."""
import math


def extract(model, used=True):
    """Returns a list of (conditions, head) with conditions = [(feature, operator, threshold)], head = [(output, score)]."""
    from mlrl.common.cython.rule_model import RuleModelVisitor
    rules = []
    state = {}

    class Visitor(RuleModelVisitor):

        def visit_empty_body(self, body):
            state['body'] = None

        def visit_conjunctive_body(self, body):
            conditions = []
            for kind in ('numerical', 'ordinal', 'nominal'):
                for op in ('leq', 'gr') if kind != 'nominal' else ('eq', 'neq'):
                    indices = getattr(body, f'{kind}_{op}_indices')
                    if indices is not None:
                        thresholds = getattr(body, f'{kind}_{op}_thresholds')
                        conditions += [(int(i), op, float(t), kind) for i, t in zip(indices, thresholds)]
            state['body'] = conditions

        def visit_complete_head(self, head):
            rules.append((state.pop('body'), [(i, float(s)) for i, s in enumerate(head.scores)]))

        def visit_partial_head(self, head):
            rules.append((state.pop('body'), [(int(i), float(s)) for i, s in zip(head.indices, head.scores)]))

    (model.visit_used if used else model.visit)(Visitor())
    return rules


def covers(conditions, x):
    """x: the feature values of an example (float32 converted to float)."""
    for feature, op, threshold, _ in conditions or ():
        v = x[feature]
        if math.isnan(v):  # conditions never hold for missing values
            return False
        if op == 'leq' and not v <= threshold:
            return False
        if op == 'gr' and not v > threshold:
            return False
        if op == 'eq' and v != threshold:
            return False
        if op == 'neq' and v == threshold:
            return False
    return True


def rows(x, kwargs):
    """The values of a feature matrix as lists of floats."""
    import numpy as np
    if hasattr(x, 'toarray'):
        coo = x.tocoo()
        dense = np.full(x.shape, kwargs.get('sparse_feature_value', 0.0), dtype=np.float32)
        dense[coo.coords[0], coo.coords[1]] = coo.data
        x = dense
    return [[float(v) for v in row] for row in x]


def scores(rules, x, num_outputs):
    """Boosting: the sum of what is predicted by the rules that cover an example, in the order of the rules."""
    result = []
    for row in x:
        total = [0.0] * num_outputs
        for conditions, head in rules:
            if covers(conditions, row):
                for output, score in head:
                    total[output] += score
        result.append(total)
    return result


def decisions(rules, x, num_outputs):
    """Separate-and-conquer: the first rule that covers an example and provides a prediction for an output decides."""
    result = []
    for row in x:
        labels = [None] * num_outputs
        for conditions, head in rules:
            if covers(conditions, row):
                for output, score in head:
                    if labels[output] is None:
                        labels[output] = int(score > 0)
        result.append([v or 0 for v in labels])
    return result


def union(rules, x, num_outputs):
    """Separate-and-conquer: the labels that are predicted by any rule that covers an example."""
    return [[int(any(score > 0 and output == i for c, head in rules if covers(c, row) for output, score in head))
             for i in range(num_outputs)] for row in x]
