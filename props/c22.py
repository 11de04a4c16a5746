"""C22: the scikit-learn adapters."""
import z3
from pycv.engine import Contract
from pycv.vals import *
from .common import *
from . import trees
from .trees import cell, put_cell
from .c08 import named

q, p = z3.Ints('q p')
OUT = z3.Function('program_output', I, I, I)             # individual, data -> predictions
METRIC = z3.Function('metric_value', I, I, I, R)         # metric, true values, predictions
LABELS = z3.Function('labels', I, I, I, I)               # evaluator, individual, data
REAL, INT = TList(TReal), TList(TInt)
CE, RE, SW, SC = 'ClassificationEvaluator', 'RegressionEvaluator', 'SklearnWrapper', 'SKClassifier'


def schema(e):
    trees.schema(e)
    for c in (CE, RE):
        for f, t in dict(X=TAny, y=TAny, metric=TFn).items():
            e.ftypes[(c, f)] = t
    e.ftypes[(CE, 'n_classes')] = TInt
    e.ftypes[(CE, 'clf_method')] = TStr
    e.ftypes[(SW, 'algorithm')] = TObj('Algorithm')
    e.ftypes[(SW, 'is_fitted_')] = TBool


def any_args(a, kw):
    return list(a) + list(kw.values())


def execute(u):
    def run(en, s, o, a, kw):
        x = any_args(a, kw)
        if len(x) != 1 or not isinstance(x[0], VAny):
            raise Unsupported('execute with other arguments')
        return [(s, VAny(OUT(o.t, x[0].t)))]
    for c in ('Individual', 'Tree'):
        u.eng.contracts[c + '.execute'] = Contract(c + '.execute: a function of program and data (C09)', run)


def metric(u, f):
    def call(en, s, g, a, kw):
        v = dict(zip(['y_true', 'y_pred'], a))
        v.update(kw)
        en.require(s, 'scores with the configured metric', g.t == f)
        return [(s, VNum(METRIC(g.t, v['y_true'].t, v['y_pred'].t)))]
    u.eng.contracts['callback'] = Contract('the metric(true, predicted): a number, no effects', call)


def context(cn):
    def unit(u):
        e = u.eng
        schema(e)
        st = u.state()
        o = u.obj(st, cn, 'evaluator', exact=True)
        x, y = VAny(z3.Int('X')), VAny(z3.Int('y'))
        outs, rs = u.call(st, cn, 'set_context', o, [VTup([x, y])])
        u.no_raise(cn + '.set_context', rs)
        for s, _ in outs:
            u.ob(cn + '.set_context: the data given become the current data', s, z3.And(u.field(s, o, 'X').t == x.t, u.field(s, o, 'y').t == y.t))
            frame(u, cn + '.set_context', st, s, allow=lambda c, r: r == o.t if '.X:' in c or '.y:' in c else z3.BoolVal(False))
        u.ob(cn + '.set_context: returns', st, z3.BoolVal(bool(outs)))
    return unit


def new_evaluator(cn):
    def unit(u):
        e = u.eng
        schema(e)
        st = u.state()
        e.contracts['SimpleIndividualEvaluator.__init__'] = Contract('SimpleIndividualEvaluator.__init__: no attribute of the evaluators', lambda en, s, o_, a, kw: [(s, VNone)])
        e.contracts['IndividualEvaluator.__init__'] = e.contracts['Operator.__init__'] = e.contracts['SimpleIndividualEvaluator.__init__']
        v = dict(X=VAny(z3.Int('X')), y=VAny(z3.Int('y')), metric=VFnSym(z3.Int('metric')))
        st.assume(z3.Int('metric') > 0)
        ways = [None] if cn == RE else ['sigmoid', 'argmax', 'softmax', 'something else']
        for w in ways:
            if w:
                v.update(n_classes=VNum(z3.Int('n_classes')), clf_method=VStr(w))
            o = e.new_obj(st.copy(), u.repo.classes[cn])
            outs, rs = u.call(st, cn, '__init__', o, [], v)
            if w == 'something else':
                for s, _ in outs:
                    u.ob(cn + ': refuses other methods', s, z3.BoolVal(False))
                for s, x in rs:
                    u.ob(cn + ': refuses other methods with a ValueError', s, z3.BoolVal(x.name == 'ValueError'))
                continue
            u.no_raise(cn + '()', rs)
            for s, _ in outs:
                g = lambda f: u.field(s, o, f)
                u.ob(cn + ': keeps its data and metric', s, z3.And(g('X').t == v['X'].t, g('y').t == v['y'].t, e.to_terms(g('metric'), TFn)[0] == v['metric'].t))
                if w:
                    u.ob(cn + ': keeps the number of classes and the method', s, z3.And(g('n_classes').t == v['n_classes'].t, e.to_terms(g('clf_method'), TStr)[0] == e.to_terms(VStr(w), TStr)[0]))
            u.ob(cn + ': returns', st, z3.BoolVal(bool(outs)))
    return unit


def regression(u):
    e = u.eng
    schema(e)
    execute(u)
    st = u.state()
    o = u.obj(st, RE, 'evaluator', exact=True)
    ind = u.obj(st, 'Tree', 'individual')
    m = u.field(st, o, 'metric').t
    metric(u, m)
    outs, rs = u.call(st, RE, 'evaluate_individual', o, [ind])
    u.no_raise(RE, rs)
    for s, r in outs:
        u.ob(RE + ': the metric of the true against the predicted values of the current data', s, r.t == METRIC(m, u.field(st, o, 'y').t, OUT(ind.t, u.field(st, o, 'X').t)))
        frame(u, RE, st, s)
    u.ob(RE + ': returns', st, z3.BoolVal(bool(outs)))


def classification(u):
    e = u.eng
    schema(e)
    st = u.state()
    o = u.obj(st, CE, 'evaluator', exact=True)
    ind = u.obj(st, 'Tree', 'individual')
    m = u.field(st, o, 'metric').t
    metric(u, m)
    e.contracts[CE + '.classify_individual'] = Contract(CE + '.classify_individual (units classify, sigmoid, root)', lambda en, s, o_, a, kw: [(s, VAny(LABELS(o_.t, any_args(a, kw)[0].t, u.field(s, o_, 'X').t)))])
    outs, rs = u.call(st, CE, 'evaluate_individual', o, [ind])
    u.no_raise(CE, rs)
    for s, r in outs:
        u.ob(CE + ': the metric of the true values against the labels of the current data', s, r.t == METRIC(m, u.field(st, o, 'y').t, LABELS(o.t, ind.t, u.field(st, o, 'X').t)))
        frame(u, CE, st, s)
    u.ob(CE + ': returns', st, z3.BoolVal(bool(outs)))


def classify(u):
    """the configured method decides"""
    e = u.eng
    schema(e)
    W = z3.Function('labels_by', I, I, I, I)
    for k, w in enumerate(('sigmoid', 'argmax', 'softmax')):
        def by(en, s, o_, a, kw, k=k):
            return [(s, VAny(W(k, o_.t, any_args(a, kw)[0].t)))]
        e.contracts['%s._clf_%s' % (CE, w)] = Contract('%s._clf_%s' % (CE, w), by)
    for k, w in enumerate(('sigmoid', 'argmax', 'softmax')):
        st = u.state()
        o = u.obj(st, CE, 'evaluator', exact=True)
        ind = u.obj(st, 'Tree', 'individual')
        e.set_field(st, o.t, CE, 'clf_method', VStr(w))
        outs, rs = u.call(st, CE, 'classify_individual', o, [ind])
        u.no_raise('classify_individual', rs)
        for s, r in outs:
            u.ob('classify_individual: by the configured method (%s)' % w, s, r.t == W(k, o.t, ind.t))
            frame(u, 'classify_individual', st, s)
        u.ob('classify_individual: returns', st, z3.BoolVal(bool(outs)))


def arrays(u, lists):
    """numpy and scipy on one-dimensional arrays of numbers"""
    e = u.eng
    e.lib = dict(e.lib)
    SIG = z3.Function('logistic', R, R)
    x, y = z3.Reals('x y')
    u.eng.init_axioms.append(z3.ForAll([x], z3.And(SIG(x) >= 0, SIG(x) <= 1), patterns=[SIG(x)]))
    u.eng.init_axioms.append(z3.ForAll([x, y], z3.Implies(x <= y, SIG(x) <= SIG(y)), patterns=[z3.MultiPattern(SIG(x), SIG(y))]))

    def new(en, s, ty, n, arr):
        l = VRef(en.alloc(s, 'array'), ty)
        en.set_len(s, l, n)
        en.put_arr(s, l, '', arr)
        return l

    def expit(en, s, a, kw):
        v = a[0]
        n = en.list_len(s.copy(), v)
        arr = en.fresh(s, 'probability', AS(I, R))
        s.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), arr[q] == SIG(elem(u, s, v, q).t)), patterns=[arr[q]]))
        return [(s, new(en, s, REAL, n, arr))]

    def linspace(en, s, a, kw):
        v = dict(zip(['start', 'stop', 'num'], a))
        v.update(kw)
        lo, hi, n = en.as_real(v['start']), en.as_real(v['stop']), v['num'].t
        en.require(s, 'linspace: at least one point', n >= 0)
        arr = en.fresh(s, 'threshold', AS(I, R))
        step = (hi - lo) / z3.ToReal(n - 1)
        s.assume(z3.Implies(n > 1, z3.And(arr[0] == lo, arr[n - 1] == hi)))
        s.assume(z3.Implies(lo <= hi, z3.ForAll([p, q], z3.Implies(z3.And(p >= 0, p < q, q < n), arr[p] <= arr[q]), patterns=[z3.MultiPattern(arr[p], arr[q])])))
        return [(s, new(en, s, REAL, n, arr))]

    def digitize(en, s, a, kw):
        v = dict(zip(['x', 'bins', 'right'], a))
        v.update(kw)
        if 'right' in v:
            raise Unsupported('digitize from the right')
        xs, bs = v['x'], v['bins']
        n, m = en.list_len(s.copy(), xs), en.list_len(s.copy(), bs)
        b = lambda j: elem(u, s, bs, j).t
        g1, g2 = z3.Ints('bin1 bin2')
        en.require(s, 'digitize: increasing thresholds', z3.Implies(z3.And(g1 >= 0, g1 < g2, g2 < m), b(g1) <= b(g2)))
        arr = en.fresh(s, 'label', AS(I, I))
        X = lambda j: elem(u, s, xs, j).t
        s.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), z3.And(arr[q] >= 0, arr[q] <= m)), patterns=[arr[q]]))
        s.assume(z3.ForAll([q, p], z3.Implies(z3.And(q >= 0, q < n, p >= 0, p < m), (p < arr[q]) == (b(p) <= X(q))), patterns=[z3.MultiPattern(arr[q], b(p))]))
        return [(s, new(en, s, INT, n, arr))]
    e.lib['scipy.special.expit'] = expit
    e.lib['numpy.linspace'] = e.lib['np.linspace'] = linspace
    e.lib['numpy.digitize'] = e.lib['np.digitize'] = digitize
    u.assume_note('numpy.linspace, numpy.digitize (increasing thresholds: the number of thresholds not above the value) and the logistic function (increasing, between 0 and 1), as documented')


def sigmoid(u):
    e = u.eng
    schema(e)
    arrays(u, True)
    st = u.state()
    o = u.obj(st, CE, 'evaluator', exact=True)
    ind = u.obj(st, 'Tree', 'individual')
    k = u.field(st, o, 'n_classes').t
    st.assume(k >= 1)
    X = u.field(st, o, 'X').t
    data = u.list(st, TReal, 'outputs')
    n = e.list_len(st, data)

    def run(en, s, o_, a, kw):
        en.require(s, 'labels are those of the current data', z3.And(any_args(a, kw)[0].t == X, o_.t == ind.t))
        return [(s, data)]
    for c in ('Individual', 'Tree'):
        e.contracts[c + '.execute'] = Contract(c + '.execute: one number for every row (C09)', run)
    outs, rs = u.call(st, CE, '_clf_sigmoid', o, [ind])
    u.cover_any('_clf_sigmoid', [s for s, _ in outs])
    u.no_raise('_clf_sigmoid', rs)
    a, b = z3.Ints('one another')
    ina, inb = z3.And(a >= 0, a < n), z3.And(b >= 0, b < n)
    for s, r in outs:
        if not isinstance(r, VRef):
            raise Unsupported('another kind of result')
        la, lb = elem(u, s, r, a).t, elem(u, s, r, b).t
        u.ob('sigmoid: a label for every output', s, e.list_len(s.copy(), r) == n)
        u.ob('sigmoid: labels between 0 and the number of classes minus 1', s, z3.Implies(ina, z3.And(la >= 0, la <= k - 1)))
        u.ob('sigmoid: labels never decrease as the output grows', s, z3.Implies(z3.And(ina, inb, elem(u, st, data, a).t <= elem(u, st, data, b).t), la <= lb), hint=[a, b, lb, elem(u, st, data, a).t, elem(u, st, data, b).t])
        frame(u, '_clf_sigmoid', st, s)
    u.ob('sigmoid: returns', st, z3.BoolVal(bool(outs)))


def root(w):
    def unit(u):
        e = u.eng
        schema(e)
        execute(u)
        st = u.state()
        o = u.obj(st, CE, 'evaluator', exact=True)
        ind = u.obj(st, 'Tree', 'individual')
        l = u.field(st, ind, 'tree')
        K = e.comp(st, 'cls', AS(I, I))
        r0 = elem(u, st, l, z3.IntVal(0))
        st.assume(z3.And(e.list_len(st, l) >= 1, r0.t > 0, K[r0.t] == u.repo.classes['FunctionNode'].code))
        f = e.get_field(st.copy(), r0.t, 'FunctionNode', 'function').t
        st.assume(f > 0)
        nm = z3.Function('fn_name', I, I)(f)
        has = z3.Function('str_contains', I, I, B)(e.to_terms(VStr(w), TStr)[0], nm)
        outs, rs = u.call(st, CE, '_clf_' + w, o, [ind])
        u.cover_any('_clf_' + w, [s for s, _ in outs])
        for s, x in rs:
            u.ob(w + ': refuses only programs with another root function', s, z3.And(z3.BoolVal(x.name == 'ValueError'), z3.Not(has)))
        for s, r in outs:
            u.ob(w + ': only for programs with a root function of that name', s, has)
            u.ob(w + ': the output of the program for the current data', s, r.t == OUT(ind.t, u.field(st, o, 'X').t))
            frame(u, '_clf_' + w, st, s)
        u.ob(w + ': returns', st, z3.BoolVal(bool(outs) and bool(rs)))
    return unit


def fitted(u, o):
    """check_is_fitted of scikit-learn: raises unless fit has set an attribute ending in an underscore"""
    e = u.eng
    e.lib = dict(e.lib)

    def check(en, s, a, kw):
        ok, bad = en.branch(s, en.get_field(s.copy(), a[0].t, SW, 'is_fitted_').t)
        if bad is not None:
            en.do_raise(bad, VExc('NotFittedError'))
        return [(ok, VNone)] if ok is not None else []
    e.lib['sklearn.utils.validation.check_is_fitted'] = check
    e.EXC_PARENTS = dict(e.EXC_PARENTS)
    e.EXC_PARENTS.setdefault('NotFittedError', 'ValueError')
    u.assume_note('scikit-learn: check_is_fitted raises for an estimator without fitted attributes; check_X_y returns the data as arrays')


def world(u, cn):
    e = u.eng
    schema(e)
    st = u.state()
    o = u.obj(st, cn, 'estimator', exact=True)
    alg = u.field(st, o, 'algorithm')
    return e, st, o, alg


def fit(cn):
    def unit(u):
        e, st, o, alg = world(u, cn)
        fitted(u, o)
        X, y = VAny(z3.Int('X')), VAny(z3.Int('y'))
        CX, CY = z3.Function('checked_X', I, I), z3.Function('checked_y', I, I)

        def check_xy(en, s, a, kw):
            v = dict(zip(['X', 'y'], a))
            v.update(kw)
            return [(s, VTup([VAny(CX(v['X'].t)), VAny(CY(v['y'].t))]))]
        e.lib['sklearn.utils.validation.check_X_y'] = check_xy
        sps = e.get_field(st, u.field(st, alg, 'population').t, 'Population', 'sub_populations')
        n = e.list_len(st, sps)
        w = z3.Int('some!subpopulation')
        st.assume(z3.And(w >= 0, w < n))
        ev = lambda s, k: e.get_field(s.copy(), elem(u, s, sps, k).t, 'Subpopulation', 'evaluator')
        V = ev(st, w)
        st.assume(z3.And(V.t > 0, V.t < st.alloc))
        for f, c in (('runs', o), ('data', V), ('target', V)):
            put_cell(u, st, c, f, z3.IntVal(0))
        gx, gy = CX(X.t), CY(y.t)

        def ctx(en, s, o_, a, kw):
            c = any_args(a, kw)[0]
            put_cell(u, s, o_, 'data', c.items[0].t)
            put_cell(u, s, o_, 'target', c.items[1].t)
            return [(s, VNone)]
        for c in ('IndividualEvaluator', 'SimpleIndividualEvaluator', RE, CE):
            e.contracts[c + '.set_context'] = Contract(c + '.set_context (units context)', ctx)

        def evolve(en, s, o_, a, kw):
            en.require(s, 'the evolution runs with the data given to every evaluator', z3.And(cell(u, s, V, 'data') == gx, cell(u, s, V, 'target') == gy))
            en.require(s, 'the evolution of this estimator runs once', z3.And(o_.t == alg.t, cell(u, s, o, 'runs') == 0))
            put_cell(u, s, o, 'runs', cell(u, s, o, 'runs') + 1)
            return [(s, VNone)]
        e.contracts['Algorithm.evolve'] = Contract('Algorithm.evolve (C15)', evolve)
        e.state_invs.append(lambda s, j: [('evaluators so far', z3.Implies(w < j, z3.And(cell(u, s, V, 'data') == gx, cell(u, s, V, 'target') == gy)))])
        outs, rs = u.call(st, cn, 'fit', o, [X, y])
        u.cover_any(cn + '.fit', [s for s, _ in outs])
        u.no_raise(cn + '.fit', rs)
        for s, r in outs:
            u.ob(cn + '.fit: runs the evolution once', s, cell(u, s, o, 'runs') == 1)
            u.ob(cn + '.fit: returns the estimator', s, r.t == o.t)
            u.ob(cn + '.fit: marks it fitted', s, u.field(s, o, 'is_fitted_').t)
            u.ob(cn + '.fit: keeps the algorithm', s, u.field(s, o, 'algorithm').t == alg.t)
        u.ob(cn + '.fit: returns', st, z3.BoolVal(bool(outs)))
    return unit


def predict(cn):
    def unit(u):
        e, st, o, alg = world(u, cn)
        fitted(u, o)
        X = VAny(z3.Int('X'))
        best = u.field(st, alg, 'best_of_run_')
        done = u.field(st, o, 'is_fitted_').t
        st.assume(z3.Implies(done, best.t > 0))
        execute(u)
        outs, rs = u.call(st, cn, 'predict', o, [X])
        u.cover_any(cn + '.predict', [s for s, _ in outs])
        for s, x in rs:
            u.ob(cn + '.predict: refuses only before fitting', s, z3.Not(done))
        for s, r in outs:
            u.ob(cn + '.predict: only after fitting', s, done)
            u.ob(cn + '.predict: the output of the best individual for the given rows', s, r.t == OUT(best.t, X.t))
            frame(u, cn + '.predict', st, s)
        u.ob(cn + '.predict: returns', st, z3.BoolVal(bool(outs) and bool(rs)))
    return unit


def predict_class(u):
    e, st, o, alg = world(u, SC)
    fitted(u, o)
    X = VAny(z3.Int('X'))
    best = u.field(st, alg, 'best_of_run_')
    done = u.field(st, o, 'is_fitted_').t
    st.assume(z3.Implies(done, best.t > 0))
    sps = e.get_field(st, u.field(st, alg, 'population').t, 'Population', 'sub_populations')
    st.assume(e.list_len(st, sps) >= 1)
    V = e.get_field(st, elem(u, st, sps, z3.IntVal(0)).t, 'Subpopulation', 'evaluator')
    V = VRef(V.t, TObj(CE, exact=True))
    st.assume(V.t > 0)

    def ctx(en, s, o_, a, kw):
        c = any_args(a, kw)[0]
        put_cell(u, s, o_, 'data', c.items[0].t)
        return [(s, VNone)]

    def lab(en, s, o_, a, kw):
        return [(s, VAny(LABELS(o_.t, any_args(a, kw)[0].t, cell(u, s, o_, 'data'))))]
    for c in ('IndividualEvaluator', 'SimpleIndividualEvaluator', CE):
        e.contracts[c + '.set_context'] = Contract(c + '.set_context (unit context)', ctx)
        e.contracts[c + '.classify_individual'] = Contract(c + '.classify_individual (units classify, sigmoid, root)', lab)
    e.contracts['Algorithm.get_individual_evaluator'] = e.contracts['SimpleEvolution.get_individual_evaluator'] = Contract('Algorithm.get_individual_evaluator (unit evaluator)', lambda en, s, o_, a, kw: [(s, VRef(V.t, TObj('IndividualEvaluator')))])
    outs, rs = u.call(st, SC, 'predict', o, [X])
    u.cover_any(SC + '.predict', [s for s, _ in outs])
    for s, x in rs:
        u.ob(SC + '.predict: refuses only before fitting', s, z3.Not(done))
    for s, r in outs:
        u.ob(SC + '.predict: only after fitting', s, done)
        u.ob(SC + '.predict: the labels of the best individual for the given rows', s, r.t == LABELS(V.t, best.t, X.t))
    u.ob(SC + '.predict: returns', st, z3.BoolVal(bool(outs) and bool(rs)))


def evaluator(u):
    e = u.eng
    schema(e)
    st = u.state()
    alg = u.obj(st, 'SimpleEvolution', 'algorithm')
    sps = e.get_field(st, u.field(st, alg, 'population').t, 'Population', 'sub_populations')
    st.assume(e.list_len(st, sps) >= 1)
    V = e.get_field(st, elem(u, st, sps, z3.IntVal(0)).t, 'Subpopulation', 'evaluator')
    outs, rs = u.call(st, 'SimpleEvolution', 'get_individual_evaluator', alg, [])
    u.no_raise('get_individual_evaluator', rs)
    for s, r in outs:
        u.ob('get_individual_evaluator: the evaluator of the first sub-population', s, r.t == V.t)
        frame(u, 'get_individual_evaluator', st, s)
    u.ob('get_individual_evaluator: returns', st, z3.BoolVal(bool(outs)))


def new_estimator(u):
    e = u.eng
    schema(e)
    for cn in (SW, SC, 'SKRegressor'):
        st = u.state()
        alg = u.obj(st, 'Algorithm', 'algorithm')
        o = e.new_obj(st, u.repo.classes[cn])
        outs, rs = u.call(st, cn, '__init__', o, [alg])
        u.no_raise(cn, rs)
        for s, _ in outs:
            u.ob(cn + ': wraps the algorithm given', s, u.field(s, o, 'algorithm').t == alg.t)
        u.ob(cn + ': returns', st, z3.BoolVal(bool(outs)))


UNITS = {'context_regression': context(RE), 'context_classification': context(CE), 'new_regression': new_evaluator(RE), 'new_classification': new_evaluator(CE),
         'regression': regression, 'classification': classification, 'classify': classify, 'sigmoid': sigmoid, 'argmax': root('argmax'), 'softmax': root('softmax'),
         'fit': fit(SW), 'fit_regressor': fit('SKRegressor'), 'fit_classifier': fit(SC), 'predict': predict(SW), 'predict_regressor': predict('SKRegressor'), 'predict_class': predict_class,
         'evaluator': evaluator, 'new_estimator': new_estimator}
