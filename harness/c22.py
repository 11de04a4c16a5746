"""C22 scikit-learn adapters"""
import math
from .common import *
from .trees import rand_tree, flat, gen, SIG
import eckity.base.untyped_functions as U
from eckity.genetic_encodings.gp import Tree
from eckity.algorithms import SimpleEvolution
from eckity.creators.gp_creators.full import FullCreator
from eckity.genetic_operators import SubtreeCrossover, SubtreeMutation, TournamentSelection
from eckity.sklearn_compatible import ClassificationEvaluator, RegressionEvaluator, SKClassifier, SKRegressor
from sklearn.metrics import accuracy_score, mean_absolute_error, mean_squared_error

DOC = 'evaluators and estimators on random data and programs; stub and real evolutions'
for _f, _n in ((U.f_add, 2), (U.f_sub, 2), (U.f_mul, 2)):
    SIG[_f] = ([None] * _n, None)


class Fixed:
    """an individual with a given output"""

    def __init__(self, fn):
        self.fn, self.seen = fn, []

    def execute(self, X):
        self.seen.append(X)
        return self.fn(X)


class FakeSub:
    def __init__(self, ev):
        self.evaluator = ev


class FakePop:
    def __init__(self, subs):
        self.sub_populations = subs


class FakeAlgo:
    def __init__(self, evs, best, log):
        self.population = FakePop([FakeSub(e) for e in evs])
        self.best_of_run_, self.log, self.evs = best, log, evs

    def evolve(self):
        self.log.append([(e.X, e.y) for e in self.evs])

    def get_individual_evaluator(self):
        return self.evs[0]


def data(rng, rows, cols, classes):
    X = np.array([[rng.uniform(-3, 3) for _ in range(cols)] for _ in range(rows)])
    y = np.array([rng.randrange(classes) for _ in range(rows)])
    return X, y


def fit_case(kind, rows, cols, nev, s):
    rng = random.Random(s)
    X, y = data(rng, rows, cols, 2)
    X2, _ = data(rng, rows + 1, cols, 2)
    log = []
    best = Fixed(lambda Z: Z[:, 0] * 2 - 1)
    evs = [ClassificationEvaluator(n_classes=2) if kind == 'clf' else RegressionEvaluator() for _ in range(nev)]
    est = (SKClassifier if kind == 'clf' else SKRegressor)(FakeAlgo(evs, best, log))
    need(raises(lambda: est.predict(X)), 'predicting before fitting did not raise')
    need(not log and not best.seen, 'something ran before fitting')
    yy = y if kind == 'clf' else y * 1.5
    for k in range(2):
        keep = X.copy(), yy.copy()
        r = est.fit(X, yy)
        need(r is est, 'fit does not return the estimator')
        need(len(log) == k + 1, 'evolution run %d times', len(log))
        for a, b in log[-1]:
            need(a is not None and np.array_equal(a, X) and np.array_equal(b, yy), 'an evaluator had other data when the evolution ran')
        need(np.array_equal(X, keep[0]) and np.array_equal(yy, keep[1]), 'fit changed the data')
        p = est.predict(X2)
        out = X2[:, 0] * 2 - 1
        want = (1 / (1 + np.exp(-out)) >= 0.5).astype(int) if kind == 'clf' else out
        need(np.array_equal(np.asarray(p), want), 'prediction %r, expected %r', p, want)
        need(np.array_equal(best.seen[-1], X2) and len(best.seen[-1]) == rows + 1, 'predicted for other rows')
        need(len(log) == k + 1, 'predicting ran the evolution')
        p2 = est.predict(X)
        need(len(p2) == rows, 'second prediction')
        X, yy = X + 1, yy[::-1].copy()


def score_case(kind, rows, cols, metric, s):
    rng = random.Random(s)
    X, y = data(rng, rows, cols, 3)
    calls = []

    def m1(y_true, y_pred):
        calls.append((np.array(y_true), np.array(y_pred)))
        return float(np.sum(np.asarray(y_true) * 2.0 - np.asarray(y_pred)))
    t = Fixed(lambda Z: Z[:, 0] - Z[:, -1] * 2)
    if kind == 'reg':
        mt = {'default': mean_absolute_error, 'mse': mean_squared_error, 'asym': m1}[metric]
        ev = RegressionEvaluator(X, y) if metric == 'default' else RegressionEvaluator(X, y, metric=mt)
        f = lambda Z, yy: mt(yy, t.fn(Z))
    else:
        mt = {'default': accuracy_score, 'mse': accuracy_score, 'asym': m1}[metric]
        ev = ClassificationEvaluator(X, y, n_classes=3) if metric == 'default' else ClassificationEvaluator(X, y, metric=mt, n_classes=3)
        lab = lambda Z: np.digitize(1 / (1 + np.exp(-t.fn(Z))), [1 / 3, 2 / 3])
        f = lambda Z, yy: mt(y_true=yy, y_pred=lab(Z))
    for _ in range(3):
        got = ev.evaluate_individual(t)
        need(abs(got - f(X, y)) < 1e-9, 'score %r, metric gives %r', got, f(X, y))
        X, y = data(rng, rows + 2, cols, 3)
        ev.set_context((X, y))


def labels(classes, outs, s):
    ev = ClassificationEvaluator(np.zeros((len(outs), 1)), None, n_classes=classes)
    lab = np.asarray(ev.classify_individual(Fixed(lambda Z: np.array(outs, dtype=float))))
    need(lab.shape == (len(outs),), 'one label per row')
    need(all(int(l) == l and 0 <= l <= classes - 1 for l in lab), 'label outside 0..%d: %r', classes - 1, lab)
    o = sorted(range(len(outs)), key=lambda i: outs[i])
    for a, b in zip(o, o[1:]):
        need(lab[a] <= lab[b], 'label decreases from %r to %r as the output grows from %r to %r', lab[a], lab[b], outs[a], outs[b])
    for v, l in zip(outs, lab):
        p = 1 / (1 + math.exp(-v)) if v > -700 else 0.0
        k = p * classes
        if abs(k - round(k)) > 1e-9:
            need(l == int(k), 'output %r of %d classes labelled %r', v, classes, l)


def root_func(method, s):
    def argmax_sum(x, y):
        return (np.asarray(x) > np.asarray(y)).astype(int)

    def softmax_it(x, y):
        return (np.asarray(x) > 0).astype(int)
    X = np.array([[1.0, 2.0], [3.0, 0.0], [-1.0, -2.0]])
    for fn, nm in ((argmax_sum, 'argmax'), (softmax_it, 'softmax'), (U.f_add, 'none')):
        SIG[fn] = ([None] * 2, None)
        t = Tree(fitness=GPFitness(), function_set=[fn], terminal_set=['x0', 'x1'], tree=flat((fn, [('T', 'x0', None), ('T', 'x1', None)])))
        ev = ClassificationEvaluator(X, None, clf_method=method)
        if nm == method:
            need(np.array_equal(ev.classify_individual(t), fn(X[:, 0], X[:, 1])), 'labels of a %s program', method)
        else:
            need(raises(lambda: ev.classify_individual(t)), '%s classification accepted a program with root %s', method, fn.__name__)
    need(raises(lambda: ClassificationEvaluator(clf_method='nonsense')), 'unknown classification method accepted')


def real(kind, s):
    rng = random.Random(s)
    X, y = data(rng, 12, 2, 2)
    ts = ['x0', 'x1', 1]
    cr = FullCreator(init_depth=(1, 2), function_set=[U.f_add, U.f_sub, U.f_mul], terminal_set=ts)
    ev = RegressionEvaluator() if kind == 'reg' else ClassificationEvaluator()
    sp = Subpopulation(ev, creators=cr, operators_sequence=[SubtreeCrossover(), SubtreeMutation(init_depth=(1, 2))], selection_methods=[(TournamentSelection(2, higher_is_better=kind != 'reg'), 1)],
                       population_size=6, higher_is_better=kind != 'reg')
    al = SimpleEvolution(sp, max_generation=3, random_seed=s % 1000, max_workers=1)
    runs = []
    al.register('evolution_finished', lambda *_: runs.append(1))
    est = (SKRegressor if kind == 'reg' else SKClassifier)(al)
    need(raises(lambda: est.predict(X)), 'predict before fit')
    need(est.fit(X, y) is est and runs == [1], 'fit')
    b = al.best_of_run_
    X2, _ = data(rng, 7, 2, 2)
    out = b.execute(X2)
    p = est.predict(X2)
    need(np.array_equal(p, out if kind == 'reg' else (1 / (1 + np.exp(-out)) >= 0.5).astype(int)), 'prediction')
    m = mean_absolute_error(y, b.execute(X)) if kind == 'reg' else accuracy_score(y, (1 / (1 + np.exp(-b.execute(X))) >= 0.5).astype(int))
    need(abs(b.get_pure_fitness() - m) < 1e-9, 'fitness of the best is %r, metric on the training data %r', b.get_pure_fitness(), m)


def run(h):
    r = h.rng
    for kind in ('reg', 'clf'):
        for rows in (2, 5, 20):
            for cols in (1, 3):
                for nev in (1, 2, 3):
                    h.run(fit_case, kind=kind, rows=rows, cols=cols, nev=nev)
                for metric in ('default', 'mse', 'asym'):
                    h.run(score_case, kind=kind, rows=rows, cols=cols, metric=metric)
        for _ in range(h.scale(3)):
            h.run(real, kind=kind)
    edge = [0.0, 1e-12, -1e-12, 30.0, -30.0, 50.0, -50.0, 700.0, -700.0, 1000.0, 37.0, 40.0]
    for c in h.ints([2, 3, 4, 7, 10], 2, 12):
        th = [math.log((k / c) / (1 - k / c)) + d for k in range(1, c) for d in (0, 1e-6, -1e-6)]
        h.run(labels, classes=c, outs=edge + th)
        for _ in range(h.scale(5)):
            h.run(labels, classes=c, outs=[r.uniform(-6, 6) for _ in range(r.choice([1, 5, 40]))])
    for m in ('argmax', 'softmax'):
        h.run(root_func, method=m)
