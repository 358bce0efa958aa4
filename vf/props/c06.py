"""C06: dimension edits touch only the dimension they name."""
import numpy as np
from hypothesis import strategies as st

from vf import gen, huge
from vf.core import raises, require, same, sub
from skcurve import Axis, Curve, Point

DT = ('float64', 'float64', 'float32', 'int32', 'uint8')


@st.composite
def dim_cases(draw, odd=False):
    nd = draw(st.integers(2, 5))
    dt = draw(st.sampled_from(gen.ALL_DTYPES if odd else DT))
    n = draw(st.one_of(st.integers(0, 2), st.integers(1, 8)))
    elem = gen.odd_elem(dt) if odd else st.integers(0, 30)
    p = draw(st.lists(st.lists(elem, min_size=nd, max_size=nd), min_size=n, max_size=n))
    ops = []
    for _ in range(draw(st.integers(1, 5))):
        ops.append([draw(st.sampled_from(['insert', 'insert', 'append', 'delete', 'delete_list', 'delete_slice', 'insert_default',
                                          'append_default', 'insert_array', 'undo'])), draw(st.integers(0, 1000)),
                    draw(st.lists(elem, min_size=n, max_size=n)), draw(st.lists(st.integers(0, 1000), min_size=1, max_size=3))])
    return {'p': p, 'nd': nd, 'dt': dt, 'ops': ops, 't': draw(st.booleans())}


@sub('C06', dim_cases(), quick=1500)
def history(case, ev):
    """sequences of insertdim/appenddim/deletedim against the same edits of a list of columns"""
    n, nd, dt = len(case['p']), case['nd'], case['dt']
    cols = [[r[k] for r in case['p']] for k in range(nd)]
    c = Curve(np.array(case['p'], dtype=dt).reshape(n, nd), tdata=list(range(n)) if case['t'] else None)
    done = 0
    for kind, a, v, lst in case['ops']:
        nd = len(cols)
        if kind in ('insert', 'insert_default', 'insert_array', 'undo'):
            ax = a % (2 * nd + 1) - nd
            pos = ax + nd if ax < 0 else ax
            values = [0] * n if kind == 'insert_default' else v
            if kind == 'insert_default':
                d = c.insertdim(ax)
            else:
                d = c.insertdim(axis=ax, values=np.array(v, dtype='float64' if dt[-2:] != '64' else dt) if kind == 'insert_array' else v)
            if kind == 'undo':
                back = d.deletedim(pos)
                same(back.data, c.data, f'deletedim({pos}) after insertdim({ax})', dtype=True)
            c = d
            cols = cols[:pos] + [list(values)] + cols[pos:]
            what = f'{kind} at axis {ax} of {nd}'
        elif kind in ('append', 'append_default'):
            c = c.appenddim() if kind == 'append_default' else c.appenddim(v)
            cols = cols + [[0] * n if kind == 'append_default' else list(v)]
            what = kind
        elif nd == 2:
            for bad in (0, -1, [0], slice(0, 1)):
                raises(ValueError, lambda: c.deletedim(bad), 'deletedim of a 2-dimensional curve')
            ev.label('2d refused')
            continue
        else:
            if kind == 'delete':
                ax = a % (2 * nd) - nd
                gone = {ax % nd}
            elif kind == 'delete_list':
                ax = sorted({i % nd for i in lst})[:nd - 2]
                gone = set(ax)
            else:
                ax = slice(a % nd, a % nd + 1 + lst[0] % 2)
                gone = set(range(*ax.indices(nd)))
                if nd - len(gone) < 2:
                    continue
            c = c.deletedim(ax)
            cols = [col for k, col in enumerate(cols) if k not in gone]
            what = f'{kind} {ax} of {nd}'
        done += 1
        expected = np.array(cols, dtype=dt).T.reshape(n, len(cols))
        require(type(c) is Curve, '{} gives {}', what, type(c))
        same(c.data, expected, what, dtype=True)
        require(not c.isparametric, '{} keeps a parametrization', what)
        ev.label(kind)
        if len(cols) > 8:
            break
    ev.nontrivial(done >= 2 and n > 1)


sub('C06', dim_cases(odd=True), quick=500, name='odd_values')(history)


@sub('C06', st.fixed_dictionaries({'c': st.one_of(gen.curve(0, 8, ndims=(2, 3, 4, 5), dtypes=DT), gen.odd_curve(0, 6, (2, 3, 4, 5))), 'axis': st.integers(-5, 4),
                                   'np': st.booleans()}), quick=500)
def values(case, ev):
    """values(axis) is the named column, values() all columns in order"""
    c = gen.make(case['c'])
    a = gen.array(case['c'])
    cols = [v for v in c.values()]
    require(len(cols) == c.ndim, 'values() gives {} columns of {}', len(cols), c.ndim)
    for k, v in enumerate(cols):
        same(v, np.array([r[k] for r in case['c']['p']], dtype=a.dtype), f'column {k}')
    ax = case['axis']
    if ax >= c.ndim:
        raises(ValueError, lambda: c.values(ax), f'values({ax}) of a {c.ndim}-dimensional curve')
        ev.label('outside')
    elif ax >= -c.ndim:
        v = c.values(np.int64(ax) if case['np'] else ax)
        same(v, np.array([r[ax] for r in case['c']['p']], dtype=a.dtype), f'values({ax})')
        require(v.dtype == a.dtype, 'values dtype {}', v.dtype)
    else:
        raises((ValueError, IndexError), lambda: c.values(ax), f'values({ax}) of a {c.ndim}-dimensional curve')
    for k, axis in enumerate([Axis.X, Axis.Y, Axis.Z][:c.ndim]):
        same(c.values(axis), cols[k], f'values({axis})')
    if c.size:      # a sequence of numbers
        same(c.appenddim(Point(cols[0], dtype=c.dtype)).data[:, -1], cols[0], 'the coordinates of a point as values of a new dimension')
    if c.ndim == 2:
        raises(ValueError, lambda: c.values(Axis.Z), 'values(Z) of a plane curve')
    raises(ValueError, lambda: c.values(0.5), 'values of a fractional axis')
    ev.nontrivial(c.size > 1)


@sub('C06', st.fixed_dictionaries({'c': gen.curve(1, 6, ndims=(2, 3, 4), dtypes=DT), 'k': st.integers(1, 4), 'neg': st.booleans(),
                                   'what': st.sampled_from(['insert', 'delete', 'delete_list', 'size', 'append_size'])}), quick=400)
def rejects(case, ev):
    """axes outside the curve raise IndexError, value vectors of another size ValueError"""
    c = gen.make(case['c'])
    nd, k = c.ndim, case['k']
    what = case['what']
    if what == 'insert':
        ax = -nd - k if case['neg'] else nd + k
        raises(IndexError, lambda: c.insertdim(ax, np.zeros(c.size)), f'insertdim({ax}) of {nd}')
    elif what in ('delete', 'delete_list'):
        ax = -nd - k if case['neg'] else nd + k - 1
        exc = ValueError if nd == 2 else IndexError
        raises(exc, lambda: c.deletedim(ax if what == 'delete' else [0, ax]), f'deletedim({ax}) of {nd}')
    else:
        size = c.size + k
        f = (lambda: c.insertdim(0, np.ones(size))) if what == 'size' else (lambda: c.appenddim([1] * size))
        if c.size != 1:
            raises(ValueError, f, f'{size} values for {c.size} points')
        for shape in ((c.size, 1), (1, c.size), (c.size, 2), (size, c.size), (1, 1), (c.size, 1, 1)):
            raises(ValueError, lambda: c.insertdim(0, np.ones(shape)), f'values of the shape {shape} for a new dimension')
            raises(ValueError, lambda: c.appenddim(np.ones(shape).tolist()), f'values of the shape {shape} for a new last dimension')
        raises(ValueError, lambda: c.insertdim(0, c), 'a curve as the values of a new dimension')
    same(c.data, gen.array(case['c']), 'receiver')
    ev.label(what)
    ev.nontrivial()


@sub('C06', st.fixed_dictionaries({'c': gen.long_curve(ndims=(2, 3, 4, 5), dtypes=DT), 'v': gen.long_curve(160, 160, nd=2, dtypes=('uint8',)), 'a': st.integers(0, 5)}), quick=80)
def long_curves(case, ev):
    """values, insertdim, appenddim and deletedim of long curves"""
    c, a = gen.make(case['c']), gen.array(case['c'])
    n, nd = a.shape
    v = np.array(case['v']['p'])[:n, 0]
    ax = case['a'] % (nd + 1)
    d = c.insertdim(ax, v)
    same(d.data, np.concatenate([a[:, :ax], v[:, None].astype(a.dtype), a[:, ax:]], axis=1), f'insertdim({ax})', dtype=True)
    same(d.deletedim(ax).data, a, f'deletedim({ax})', dtype=True)
    same(c.appenddim(v).data, np.concatenate([a, v[:, None].astype(a.dtype)], axis=1), 'appenddim', dtype=True)
    for k, x in enumerate(c.values()):
        same(x, a[:, k], f'column {k}', dtype=True)
    ev.nontrivial()


@sub('C06', st.fixed_dictionaries({'c': gen.near_integers(1, 5), 'v': st.lists(st.integers(0, 3), min_size=5, max_size=5), 'ax': st.integers(-2, 2)}), quick=150)
def big_integers(case, ev):
    """dimension edits keep integers exactly which no float64 represents"""
    c, ax, n = gen.make(case['c']), case['ax'], len(case['c']['p'])
    v = [2 ** 53 + x for x in case['v'][:n]]
    pos = ax + c.ndim if ax < 0 else ax
    for values in (v, np.array(v, dtype=case['c']['dt'])):
        d = c.insertdim(ax, values)
        require(d.data.tolist() == [r[:pos] + [x] + r[pos:] for r, x in zip(case['c']['p'], v)], 'insertdim: {}', d.data.tolist())
        require(d.values(pos).tolist() == v, 'values of the new axis: {}', d.values(pos).tolist())
        require(d.deletedim(pos).data.tolist() == case['c']['p'], 'deletedim: {}', d.deletedim(pos).data.tolist())
        require(d.dtype == c.dtype == np.dtype(case['c']['dt']), 'dtype {}', d.dtype)
    e = c.appenddim(v)
    require(e.data.tolist() == [r + [x] for r, x in zip(case['c']['p'], v)], 'appenddim: {}', e.data.tolist())
    ev.nontrivial()

sub('C06', huge.curves(), quick=20, name='huge')(huge.dimensions)
