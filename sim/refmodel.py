"""Executable reference: evidence of Dirichlet-categorical and normal-gamma models, written down independently of the
package, and acceptance of a trained tree node by node (ties and rounding are accepted, nothing else)."""
import math

import numpy as np
from scipy.special import gammaln

from .core import Violation

REL = 1e-8


class Shape(Exception):
    pass


# ---- evidence -----------------------------------------------------------------------------------
def counts(y, k):
    return np.array([np.sum(y == c) for c in range(k)], dtype=float)


def cls_evidence(prior, cnt):
    """log p(labels) for rows of class counts; prior shape [k], cnt shape [..., k]."""
    a = np.asarray(prior, dtype=float)
    post = a + cnt
    return (gammaln(post).sum(axis=-1) - gammaln(post.sum(axis=-1))) - (gammaln(a).sum() - gammaln(a.sum()))


def reg_evidence(prior, n, mean, ss):
    """log p(targets) from count, mean and centred sum of squares."""
    mu, kappa, alpha, beta = [float(v) for v in prior]
    kn = kappa + n
    an = alpha + n / 2.0
    bn = beta + 0.5 * ss + 0.5 * kappa * n * (mean - mu) ** 2 / kn
    return (gammaln(an) - math.lgamma(alpha) + alpha * math.log(beta) - an * np.log(bn)
            + 0.5 * np.log(kappa / kn) - 0.5 * n * math.log(2 * math.pi))


def reg_prior_default(n):
    c = max(1, n // 100)
    return (0.0, float(c), c / 2.0, c / 2.0)


def evidence(cls, prior, y):
    if cls:
        return float(cls_evidence(prior, counts(y, len(prior))))
    m = y.mean()
    return float(reg_evidence(prior, len(y), m, ((y - m) ** 2).sum()))


def posterior(cls, prior, y, delta=1.0):
    """The reference posterior parameters with the data weighted by delta."""
    if cls:
        return np.asarray(prior, dtype=float) + delta * counts(y, len(prior))
    mu, kappa, alpha, beta = [float(v) for v in prior]
    n = len(y)
    nd = n * delta
    m = y.mean()
    ss = ((y - m) ** 2).sum()
    return np.array([(kappa * mu + nd * m) / (kappa + nd), kappa + nd, alpha + 0.5 * nd,
                     beta + 0.5 * delta * ss + 0.5 * kappa * nd * (m - mu) ** 2 / (kappa + n)])


def split_evidences(cls, prior, ys, pos):
    """Evidence of splitting the ordered targets before each position in pos (both sides under the same prior)."""
    n = len(ys)
    if cls:
        k = len(prior)
        cum = np.array([[np.sum(ys[:p] == c) for c in range(k)] for p in pos], dtype=float)
        tot = counts(ys, k)
        return cls_evidence(prior, cum) + cls_evidence(prior, tot - cum)
    out = []
    for p in pos:
        a, b = ys[:p], ys[p:]
        out.append(float(reg_evidence(prior, p, a.mean(), ((a - a.mean()) ** 2).sum()))
                   + float(reg_evidence(prior, n - p, b.mean(), ((b - b.mean()) ** 2).sum())))
    return np.array(out)


def log_no_split(pp, level):
    return math.log(1 - pp ** (1 + level))


def log_split(pp, level, n_splits, n_dim):
    return math.log(pp ** (1 + level) / (n_splits * n_dim))


def tol(v, n=1):
    return REL * max(1.0, abs(v)) * max(1, n) ** 0.5 + 1e-9


def line_candidates(cls, prior, x, y, pp, level, n_dim, sp):
    """Splits of rows along the coordinate x: (positions, order, total log-likelihood per position)."""
    order = np.argsort(x, kind='stable')
    xs = x[order]
    pos = 1 + np.where(np.diff(xs) > sp)[0]
    if len(pos) == 0:
        return pos, order, np.zeros(0)
    ll = split_evidences(cls, prior, y[order], pos) + log_split(pp, level, len(pos), n_dim)
    return pos, order, ll


def gap_ambiguous(x, sp, X, n):
    """Some gap between neighbours along the projections x = X @ n is so close to the split precision (or to zero) that
    rounding decides.  Identical rows with identical projections are not ambiguous."""
    order = np.argsort(x, kind='stable')
    xs = x[order]
    g = np.diff(xs)
    scale = max(1e-300, float((np.abs(X) @ np.abs(n)).max()), sp) if len(xs) else 1.0
    near = np.abs(g - sp) < 1e-9 * scale
    if sp > 0:
        near |= (g > 0) & (g < 1e-9 * scale)        # may be reordered, which changes the gaps next to them
    if not near.any():
        return False
    Xs = X[order]
    for i in np.where(near | (g == 0))[0]:
        same = np.array_equal(Xs[i], Xs[i + 1])
        if not (same and g[i] == 0):
            return True
    return False


# ---- reading a tree -----------------------------------------------------------------------------
class Node:
    __slots__ = ('perp', 'leaf', 'dim', 'value', 'normal', 'origin', 'left', 'right', 'n', 'post', 'prior', 'level',
                 'gain', 'obj')


def read_tree(m, perp, depth=0):
    if depth > 500:
        raise Violation('structure', 'tree deeper than 500 levels')
    nd = Node()
    nd.obj = m
    nd.perp = perp
    try:
        nd.leaf = bool(m.is_leaf())
        nd.n = int(m.n_data_)
        p = m.posterior_
        nd.post = np.array([float(v) for v in p])
        nd.prior = m.prior
        nd.level = m.level
        if not nd.leaf:
            if perp:
                nd.dim, nd.value = int(m.split_dimension_), float(m.split_value_)
            else:
                nd.normal = np.array(m.best_hyperplane_normal_, dtype=float)
                nd.origin = np.array(m.best_hyperplane_origin_, dtype=float)
            nd.gain = float(m.best_log_p_data_split_) - float(m.log_p_data_no_split_)
            nd.left, nd.right = read_tree(m.child1_, perp, depth + 1), read_tree(m.child2_, perp, depth + 1)
    except Violation:
        raise
    except Exception as e:
        raise Violation('structure', 'the trained tree is malformed: {}: {}'.format(type(e).__name__, e))
    return nd


def n_leaves(nd):
    return 1 if nd.leaf else n_leaves(nd.left) + n_leaves(nd.right)


def depth_of(nd):
    return 0 if nd.leaf else 1 + max(depth_of(nd.left), depth_of(nd.right))


def leaves(nd):
    if nd.leaf:
        yield nd
    else:
        yield from leaves(nd.left)
        yield from leaves(nd.right)


def goes_left(nd, X):
    """Boolean per row; and rows whose side is a matter of rounding (hyperplanes only)."""
    if nd.perp:
        return X[:, nd.dim] < nd.value, np.zeros(len(X), dtype=bool)
    pr = X @ nd.normal - nd.normal @ nd.origin
    scale = np.abs(X) @ np.abs(nd.normal) + np.abs(nd.normal) @ np.abs(nd.origin)
    return pr < 0, np.abs(pr) <= 1e-12 * np.maximum(scale, 1e-300)


def leaf_of(nd, X):
    """Leaf per row, and which rows are ambiguous."""
    out, amb = [None] * len(X), np.zeros(len(X), dtype=bool)

    def walk(nd, idx):
        if nd.leaf:
            for i in idx:
                out[i] = nd
            return
        left, a = goes_left(nd, X[idx])
        amb[idx[a]] = True
        walk(nd.left, idx[left])
        walk(nd.right, idx[~left])
    walk(nd, np.arange(len(X)))
    return out, amb


def leaf_prediction(cls, nd):
    return int(np.argmax(nd.post)) if cls else float(nd.post[0])


def same_tree(a, b):
    """None if two trees have the same structure, counts and posteriors, else a description."""
    if a.leaf != b.leaf:
        return 'one is a leaf, the other is split (n={})'.format(a.n)
    if a.n != b.n:
        return 'counts {} and {}'.format(a.n, b.n)
    if not np.array_equal(a.post, b.post):
        return 'posteriors {} and {}'.format(a.post.tolist(), b.post.tolist())
    if a.leaf:
        return None
    if a.perp:
        if (a.dim, a.value) != (b.dim, b.value):
            return 'splits {} and {}'.format((a.dim, a.value), (b.dim, b.value))
    elif not (np.array_equal(a.normal, b.normal) and np.array_equal(a.origin, b.origin)):
        return 'different hyperplanes'
    return same_tree(a.left, b.left) or same_tree(a.right, b.right)


def prune_fixpoint(cls, nd):
    """The reference pruning: a copy of the tree with equal-prediction sibling leaves collapsed bottom-up."""
    c = Node()
    for s in Node.__slots__:
        if hasattr(nd, s):
            setattr(c, s, getattr(nd, s))
    if nd.leaf:
        return c
    c.left, c.right = prune_fixpoint(cls, nd.left), prune_fixpoint(cls, nd.right)
    if c.left.leaf and c.right.leaf and leaf_prediction(cls, c.left) == leaf_prediction(cls, c.right):
        c.leaf = True
    return c


# ---- acceptance ---------------------------------------------------------------------------------
def close(a, b, rel=1e-7):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= rel * np.maximum(1e-6, np.abs(a) + np.abs(b))))


def check_posteriors(nd, cls, X, y, prior, delta, rel=1e-6):
    """Counts add up, every node's posterior is its prior updated with exactly its samples (C11)."""
    if nd.n != len(y):
        raise Violation('conservation', 'a node holds {} training samples but counts {}'.format(len(y), nd.n))
    if len(y) == 0:
        raise Violation('conservation', 'a node holds no training sample')
    own = posterior(cls, prior[0], y)
    ok = close(nd.post, own, rel)
    if not ok and nd.leaf and len(np.unique(y)) == 1 and prior[1] is not None:
        # a node with a single target value is never trained further; it is updated from its parent's prior
        ok = close(nd.post, posterior(cls, prior[1], y), rel)
    if not ok:
        raise Violation('posterior', 'node with {} samples has posterior {} instead of {}'.format(
            nd.n, nd.post.tolist(), own.tolist()))
    if nd.leaf:
        return
    left, amb = goes_left(nd, X)
    if amb.any():
        return
    if left.all() or not left.any():
        raise Violation('empty-side', 'a split leaves all {} samples on one side'.format(len(y)))
    for c, i in ((nd.left, left), (nd.right, ~left)):
        d = delta if nd.perp else 0
        p = posterior(cls, prior[0], y[i], d) if d else prior[0]
        check_posteriors(c, cls, X[i], y[i], (p, prior[0]), delta, rel)


def check_perp_optimal(nd, cls, X, y, prior, delta, pp, sp, level=0, stats=None, f32=False):
    """Every decision of a perpendicular tree is the optimum under the reference evidence (C10)."""
    n_dim = X.shape[1]
    stop = len(y) == 1 or len(np.unique(y)) == 1
    no = evidence(cls, prior, y) + log_no_split(pp, level)
    best, cands = -np.inf, []
    for d in range(n_dim):
        pos, order, ll = line_candidates(cls, prior, X[:, d], y, pp, level, n_dim, sp)
        cands.append((pos, order, ll))
        if len(ll):
            best = max(best, ll.max())
    t = tol(no if best == -np.inf else max(abs(no), abs(best)), len(y))
    if stats is not None:
        stats['nodes'] = stats.get('nodes', 0) + 1
    if nd.leaf:
        if best > no + t and not (stop and level > 0):
            raise Violation('leaf', 'a node of {} samples is a leaf (log p {:.9g}) although a split has log p {:.9g}'.format(
                len(y), no, best))
        return
    if stats is not None:
        stats['splits'] = stats.get('splits', 0) + 1
    if best == -np.inf:
        raise Violation('split', 'a node without any possible split is split')
    if not (0 <= nd.dim < n_dim):
        raise Violation('split', 'split dimension {}'.format(nd.dim))
    pos, order, ll = cands[nd.dim]
    xs = X[order, nd.dim]
    k = int(np.sum(xs < nd.value))
    at = np.where(pos == k)[0]
    if len(at) == 0:
        raise Violation('position', 'split value {!r} of feature {} does not separate neighbouring distinct values'.format(
            nd.value, nd.dim))
    a, b = xs[k - 1], xs[k]
    with np.errstate(all='ignore'):
        mid = 0.5 * (a + b)
    if not np.isfinite(mid):        # the sum overflows: any value in between will do
        mid = nd.value if a < nd.value <= b else b
    if not (nd.value == mid or nd.value == b and mid <= a or a < nd.value <= b and abs(nd.value - mid) <= 2 * (
            np.spacing(np.float32(max(abs(a), abs(b)))) if f32 else np.spacing(max(abs(a), abs(b))))):
        raise Violation('midpoint', 'split value {!r} is not midway between {!r} and {!r}'.format(nd.value, a, b))
    v = ll[at[0]]
    if v < best - t:
        raise Violation('suboptimal', 'a node of {} samples is split with log p {:.9g} although {:.9g} is possible'.format(
            len(y), v, best))
    if v < no - t:
        raise Violation('split', 'a node of {} samples is split (log p {:.9g}) although not splitting has {:.9g}'.format(
            len(y), v, no))
    if abs(nd.gain - (v - no)) > 10 * t:
        raise Violation('gain', 'recorded gain {:.9g} of a split is {:.9g} in the reference'.format(nd.gain, v - no))
    left = X[:, nd.dim] < nd.value
    for c, i in ((nd.left, left), (nd.right, ~left)):
        p = posterior(cls, prior, y[i], delta) if delta else prior
        check_perp_optimal(c, cls, X[i], y[i], p, delta, pp, sp, level + 1, stats, f32)


def root_prior(ms, n):
    return ms['prior'] if ms['prior'] is not None else reg_prior_default(n)
