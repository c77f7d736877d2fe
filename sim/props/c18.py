"""C18  All views of a trained model agree with each other."""
import re

import numpy as np

from .common import *  # noqa: F401,F403
from . import history
from .. import refmodel as R

ID = 'C18'
RUNS = {'quick': 3200, 'thorough': 45000}
REAL = REAL_CORE
STUB = STUB_CORE + ['asynchronous exceptions', 'progress stream', 'failing optimizer evaluations']
ASSUMPTIONS = ASSUME_CORE + [
    'Printed hyperplanes and probabilities are compared to the printed precision (7 digits).',
    'Rows within 1e-12 (relative) of a hyperplane may be predicted by either side.',
    'Feature importance of a tree without splits is not judged (it is 0/0).',
    'After an operation that failed, the model may be that of the training before or of the one that was asked for.']
RULE = ('A run takes an estimator of any type through a seeded history of trainings, faults, interrupted queries, parameter '
        'changes, copies and restores; whenever the model says it is trained, every view of it is taken and compared with the '
        'others and with gains recomputed by a reference model.  Non-trivial: a tree with at least one split was compared.')
PROBES = ['split-trees', 'leaf-trees', 'depth>=3', 'hyper', 'perp', 'regression', 'pruned', 'delta', 'after-fault', 'copy', 'named', 'name-formats', 'df', 'df-columns',
          'reference-gain', 'recorded-gain', 'refit', 'params', 'sparse', 'precision', 'optfail', 'kill', 'reject']


def gen_plan(rng, tier):
    cls = rng.random() < 0.6
    k = gen.pick_k(rng, [2, 2, 3, 4])
    d = gen.pick_d(rng, [1, 2, 2, 3, 4])
    ms = gen.model_spec(rng, types=('PC', 'HC') if cls else ('PR', 'HR'), k=k, d=d)
    n_data = rng.choice([1, 2])
    data = [gen.data_spec(rng, cls, d=d, k=k) for _ in range(n_data)]
    for s in data:
        if s['fmt'] == 'f32' and ms['sp'] > 0:
            s['fmt'] = 'dense'
    gen.tame(ms, data)
    ops = history.gen_history(rng, ms, n_data, rng.choice([1, 1, 2, 3, 5]))
    ops.append({'op': rng.choice(['fit', 'fit', 'named']), 'data': rng.randrange(n_data)})
    if ops[-1]['op'] == 'named':
        ops[-1]['nf'] = rng.choice(['list', 'list', 'tuple', 'array', 'index', 'series', 'series_rev', 'series_off', 'series_str'])
    for s in data:
        if s['fmt'] == 'df':
            s['cols'] = rng.choice([None, 'int', 'text', 'same', 'mixed', 'multi'])
    for _ in range(rng.choice([0, 0, 1, 2])):
        ops += history.gen_history(rng, ms, n_data, 1)
    return {'model': ms, 'data': data, 'ops': ops, 'q': rng.randrange(1 << 20)}


def bad(kind, msg, *a):
    raise Violation(kind, msg.format(*a))


# ---- the printed tree ---------------------------------------------------------------------------
NUM = r'[-+0-9.einfa]+'


class P:
    """A node as it is printed."""
    def __init__(self):
        self.leaf = True
        self.y = self.n = self.p = self.split = self.normal = self.origin = None
        self.left = self.right = None


def array(s):
    return np.array([float(x) for x in s.replace('\n', ' ').split()], dtype=float)


def parse(text, perp, cls):
    """The printed tree; children follow their parent, marked with the side they are on."""
    if perp:
        head = r'^(?P<anchor>[ \u251C\u2514\u2502]*)(?:(?P<side>[<\u2265])(?P<val>' + NUM + r'): )?'
        split = r'(?P<name>[^\n]+)=(?P<value>' + NUM + r')$'
    else:
        head = r'^(?P<anchor>[ \u251C\u2514\u2502]*)(?:(?P<side>back |front): )?'
        split = r'HP\(origin=\[(?P<origin>[^\]]*)\], normal=\[(?P<normal>[^\]]*)\]\)$'
    leaf = r'y=(?P<y>' + NUM + r'), n=(?P<n>\d+)' + (r', p\(y\)=\[(?P<p>[^\]]*)\]$' if cls else '$')
    rl, rs = re.compile(head + leaf, re.M), re.compile(head + split, re.M)
    pos = [0]

    def node(side, val, level, outer):
        m = rl.match(text, pos[0])
        is_leaf = m is not None
        m = m or rs.match(text, pos[0])
        if m is None:
            bad('print', 'the printed tree can not be read from {!r} on', text[pos[0]:pos[0] + 60])
        pos[0] = m.end() + 1
        if m['side'] is None and level > 0 or m['side'] is not None and (level == 0 or m['side'].strip() != side):
            bad('print', 'node {!r} is printed as the wrong child', m.group(0)[:60])
        if perp and level > 0 and float(m['val']) != val:
            bad('print', 'a child is printed with split value {} of a node split at {}', m['val'], val)
        indent = len(m['anchor'])
        if indent <= outer:
            bad('print', 'node {!r} is not indented more than its parent', m.group(0)[:60])
        q = P()
        q.leaf = is_leaf
        if is_leaf:
            q.y, q.n = float(m['y']), int(m['n'])
            q.p = array(m['p']) if cls else None
        else:
            if perp:
                q.split = m['name'], float(m['value'])
            else:
                q.origin, q.normal = array(m['origin']), array(m['normal'])
            v = q.split[1] if perp else None
            q.left = node('<' if perp else 'back', v, level + 1, indent)
            q.right = node('\u2265' if perp else 'front', v, level + 1, indent)
        return q
    t = node(None, None, 0, -1)
    if pos[0] != len(text) + 1:
        bad('print', 'the printed tree has more nodes than its structure: {!r}', text[pos[0] - 1:pos[0] + 60])
    return t


def close8(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 1.2e-7 * np.maximum(1, np.abs(b))))


def compare_print(p, nd, perp, cls, names):
    if p.leaf != nd.leaf:
        bad('print', 'a {} is printed as a {}', 'leaf' if nd.leaf else 'split', 'leaf' if p.leaf else 'split')
    if nd.leaf:
        if p.n != nd.n:
            bad('print', 'a leaf of {} samples is printed with n={}', nd.n, p.n)
        if p.y != R.leaf_prediction(cls, nd):
            bad('print', 'a leaf predicting {} is printed with y={}', R.leaf_prediction(cls, nd), p.y)
        if cls and not close8(p.p, nd.post / nd.post.sum()):
            bad('print', 'a leaf with probabilities {} is printed with {}', (nd.post / nd.post.sum()).tolist(), p.p.tolist())
        return
    if perp:
        if p.split != (str(names[nd.dim]), nd.value):
            bad('print', 'a split of {} at {!r} is printed as {}', names[nd.dim], nd.value, p.split)
    elif not close8(p.normal, nd.normal) or not close8(p.origin, nd.origin):
        bad('print', 'a hyperplane ({}, {}) is printed as ({}, {})', nd.origin, nd.normal, p.origin, p.normal)
    compare_print(p.left, nd.left, perp, cls, names)
    compare_print(p.right, nd.right, perp, cls, names)


# ---- gains --------------------------------------------------------------------------------------
def gains(nd, cls, X, y, prior, delta, pp, sp, out, level=0):
    """Adds |weight| * gain per feature to out['imp']; what the reference can not decide is taken from the model."""
    if nd.leaf:
        return
    d = X.shape[1]
    w = np.zeros(d)
    if nd.perp:
        w[nd.dim] = 1.0
        x, amb = X[:, nd.dim], False
    else:
        w = np.abs(nd.normal)
        x = X @ nd.normal
        amb = R.gap_ambiguous(x, sp, X, nd.normal)
    left, side = R.goes_left(nd, X)
    k = int(left.sum())
    g = None
    if not amb and not side.any():
        no = R.evidence(cls, prior, y) + R.log_no_split(pp, level)
        pos, order, ll = R.line_candidates(cls, prior, x, y, pp, level, d, sp)
        at = np.where(pos == k)[0]
        if len(at) == 0:
            bad('structure', 'a split does not separate neighbouring distinct samples')
        g = ll[at[0]] - no
        t = 10 * R.tol(max(abs(no), abs(ll[at[0]])), len(y))
        out['tol'] += t
        if abs(g - nd.gain) > 10 * t:
            bad('gain', 'a split is recorded with gain {:.10g} but increases the log-likelihood by {:.10g}', nd.gain, g)
        out['ref'] += 1
    else:
        g = nd.gain
        out['rec'] += 1
        out['tol'] += 1e-9 * abs(g)
    out['imp'] += g * w
    if side.any():
        # the rows of the children are not known exactly; rely on what is recorded below
        for c in (nd.left, nd.right):
            recorded(c, d, out)
        return
    for c, i in ((nd.left, left), (nd.right, ~left)):
        p = R.posterior(cls, prior, y[i], delta) if delta else prior
        gains(c, cls, X[i], y[i], p, delta, pp, sp, out, level + 1)


def recorded(nd, d, out):
    if not nd.leaf:
        out['rec'] += 1
        out['imp'] += nd.gain * np.abs(nd.normal)
        recorded(nd.left, d, out)
        recorded(nd.right, d, out)


# ---- all views ----------------------------------------------------------------------------------
def take(ctx, m, ms, X):
    v = {}
    for n in obs.query_names(ms['t']) + ['repr']:
        r = ctx.do(lambda: obs.call(m, n, X))
        if r[0] == 'exc':
            bad('query-fails', '{} of a trained model raises {}: {}', n, type(r[1]).__name__, str(r[1])[:200])
        v[n] = r[1]
    return v


def views(ctx, m, ms, X, cands):
    t = ms['t']
    cls, perp = gen.is_cls(t), gen.is_perp(t)
    v = take(ctx, m, ms, X)
    tree = R.read_tree(m, perp)
    where, amb = R.leaf_of(tree, X)
    if v['is_fitted'] is not True:
        bad('fitted', 'a trained model says is_fitted() {}', v['is_fitted'])
    # predictions
    y = np.asarray(v['predict'], dtype=float)
    if y.shape != (len(X),):
        bad('shape', 'predict answers an array of shape {} for {} rows', y.shape, len(X))
    if cls:
        p = np.asarray(v['predict_proba'], dtype=float)
        if p.shape != (len(X), len(ms['prior'])):
            bad('shape', 'predict_proba answers an array of shape {} for {} rows', p.shape, len(X))
        if not (p > 0).all() or np.abs(p.sum(axis=1) - 1).max() > 1e-9:
            bad('proba', 'class probabilities {} are not positive or do not sum to one', p[np.argmax(np.abs(p.sum(axis=1) - 1))].tolist())
        for i in range(len(X)):
            if y[i] != int(y[i]) or p[i][int(y[i])] != p[i].max():
                bad('class', 'a row is predicted {} with class probabilities {}', y[i], p[i].tolist())
    for i in range(len(X)):
        if amb[i]:
            continue
        if y[i] != R.leaf_prediction(cls, where[i]):
            bad('leaf', 'a row is predicted {} but its leaf says {}', y[i], R.leaf_prediction(cls, where[i]))
        if cls and not R.close(p[i], where[i].post / where[i].post.sum(), 1e-12):
            bad('leaf', 'a row gets probabilities {} but its leaf has {}', p[i].tolist(), (where[i].post / where[i].post.sum()).tolist())
    # printing and size
    depth, leaves = R.depth_of(tree), R.n_leaves(tree)
    if v['get_depth'] != depth or v['get_n_leaves'] != leaves:
        bad('size', 'a tree of depth {} with {} leaves says depth {} and {} leaves', depth, leaves, v['get_depth'], v['get_n_leaves'])
    if v['str'] != v['repr']:
        bad('print', 'repr() and str() differ')
    pt = parse(v['str'], perp, cls)
    names = None
    errs = []
    if perp:
        by_dim = {}
        for nd in internal(tree):
            by_dim.setdefault(nd.dim, nd.obj.split_feature_name_)
        names = by_dim
    compare_print(pt, tree, perp, cls, names)
    # paths
    if perp:
        paths = v['prediction_paths']
        if len(paths) != len(X):
            bad('paths', '{} paths for {} rows', len(paths), len(X))
        for i, path in enumerate(paths):
            nd = tree
            for step in path:
                if nd.leaf:
                    bad('paths', 'the path of a row goes on below the leaf that predicts it')
                dim, name, value, right = step
                if (dim, value) != (nd.dim, nd.value) or name != names[nd.dim]:
                    bad('paths', 'a path has step {} at a node that splits {} at {!r}', step, nd.dim, nd.value)
                if bool(right) != (not X[i, dim] < value):
                    bad('paths', 'a row with value {!r} has step {} in its path', X[i, dim], step)
                nd = nd.right if right else nd.left
            if not nd.leaf or nd is not where[i]:
                bad('paths', 'the path of a row does not lead to the leaf that predicts it')
    # importance and gains: the model is that of one of the possible trainings
    imp = np.asarray(v['feature_importance'], dtype=float)
    if imp.shape != (X.shape[1],):
        bad('importance', 'feature importance of {} features has shape {}', X.shape[1], imp.shape)
    fits = False
    for D, fms, fnames in cands:
        try:
            against(ctx, tree, v, imp, D, fms, cls, perp, fnames, names)
            fits = True
            break
        except Violation as e:
            errs.append(e)
    if not fits:
        raise errs[0]
    # pruning was done if it was asked for
    ctx.probe('split-trees' if leaves > 1 else 'leaf-trees')
    ctx.probe('depth>=3', depth >= 3)
    ctx.note(v['str'], imp.tobytes())


def internal(nd):
    if not nd.leaf:
        yield nd
        yield from internal(nd.left)
        yield from internal(nd.right)


def against(ctx, tree, v, imp, D, ms, cls, perp, fnames, names):
    if tree.n != D.n:
        bad('size', 'a model trained with {} samples counts {}', D.n, tree.n)
    if names:
        for dim, nm in names.items():
            if nm != fnames[dim]:
                bad('names', 'feature {} called {} is shown as {}', dim, fnames[dim], nm)
    where, amb = R.leaf_of(tree, D.X)
    if not amb.any():
        cnt = {}
        for w in where:
            cnt[id(w)] = cnt.get(id(w), 0) + 1
        for lf in R.leaves(tree):
            if cnt.get(id(lf), 0) != lf.n:
                bad('counts', 'a leaf says n={} but {} training samples reach it', lf.n, cnt.get(id(lf), 0))
    if tree.leaf:
        return
    out = {'imp': np.zeros(D.d), 'tol': 0.0, 'ref': 0, 'rec': 0}
    gains(tree, cls, D.X, D.y, R.root_prior(ms, D.n), ms['delta'] if perp else 0, ms['pp'], ms['sp'], out)
    ctx.probe('reference-gain', out['ref'])
    ctx.probe('recorded-gain', out['rec'])
    total = out['imp'].sum()
    if total > 100 * out['tol']:
        want = out['imp'] / total
        if not np.all(np.abs(imp - want) <= 1e-9 + 4 * out['tol'] / total):
            bad('importance', 'feature importance is {} but the splits of the tree gain {}', imp.tolist(), want.tolist())
        if abs(imp.sum() - 1) > 1e-9 or (imp < -1e-9).any():
            bad('importance', 'feature importance {} is not normalised', imp.tolist())


def run(plan, ctx):
    ms = dict(plan['model'])
    t = ms['t']
    Ds = [gen.build_data(s) for s in plan['data']]
    for D in Ds:
        require(hyper_ok(ms, D.d), 'optimizer')
    Qs = [gen.query_matrix(D, plan['q'], 12) for D in Ds]
    require(plan['ops'], 'no operations')
    X = np.vstack([Qs[0]] + [D.X[:20] for D in Ds])
    m = gen.build_model(ms)
    auto = [['x{}'.format(i) for i in range(D.d)] if not hasattr(D.Xin, 'columns') else list(D.Xin.columns) for D in Ds]
    names = ['feature {}'.format(i) for i in range(Ds[0].d)]
    cands, trained = [], False
    for op in plan['ops']:
        D = Ds[op['data']]
        if op['op'] == 'named':
            fm = gen.format_names(names, op.get('nf', 'list'))
            r = ctx.do(lambda: fit(m, D, names=fm))
            if r[0] == 'exc':
                raise Violation('fit-fails', 'training on valid data raises {}: {}'.format(type(r[1]).__name__, str(r[1])[:200]))
            cands = [(D, dict(ms), names)]
            ctx.probe('named')
            ctx.probe('name-formats', op.get('nf', 'list') != 'list')
        else:
            m = history.apply(ctx, m, ms, op, Ds, Qs)
            if op['op'] == 'params':
                ms.update(op['set'])
            new = (D, dict(ms), auto[op['data']])
            if op['op'] == 'fit':
                ctx.probe('refit', bool(cands))
                cands = [new]
            elif op['op'] in ('fault', 'optfail', 'verbose'):
                cands = cands + [new]
                ctx.probe('after-fault')
        if op['op'] in ('copy', 'params', 'optfail', 'kill', 'reject'):
            ctx.probe(op['op'])
        if m.is_fitted():
            views(ctx, m, plan['model'], X, cands)
            trained = True
    require(trained, 'never trained')
    ctx.probe('perp' if gen.is_perp(t) else 'hyper')
    ctx.probe('regression', not gen.is_cls(t))
    ctx.probe('pruned', ms['prune'])
    ctx.probe('delta', bool(ms['delta']))
    ctx.probe('precision', ms['sp'] > 0)
    ctx.probe('df', any(D.spec['fmt'] == 'df' for D in Ds))
    ctx.probe('df-columns', any(D.spec.get('cols') for D in Ds))
    ctx.probe('sparse', any(D.spec['fmt'] in gen.SPARSE for D in Ds))
