"""C04: edits behave like edits of the list of points."""
import numpy as np
from hypothesis import strategies as st

from vf import gen, huge
from vf.core import fail, raises, require, same, sub
from skcurve import Curve, Point

DT = ('float64', 'float64', 'float32', 'int32', 'uint8')


def insert_rows(rows, index, new):
    """The documented insertion: one position takes all new rows, several positions take one row each (or all the same)."""
    n = len(rows)
    if isinstance(index, slice):
        index = list(range(*index.indices(n)))
    if isinstance(index, int):
        i = index + n if index < 0 else index
        return rows[:i] + new + rows[i:]
    pos = [i + n if i < 0 else i for i in index]
    if len(new) == 1:
        new = new * len(pos)
    order = sorted(range(len(pos)), key=lambda k: pos[k])
    out, k = [], 0
    for i in range(n + 1):
        while k < len(order) and pos[order[k]] == i:
            out.append(new[order[k]])
            k += 1
        if i < n:
            out.append(rows[i])
    return out


def expect(c, rows, nd, dt, what):
    require(type(c) is Curve, '{} gives {}', what, type(c))
    same(c.data, np.array(rows, dtype=dt).reshape(len(rows), nd), what)
    require(c.dtype == np.dtype(dt), '{}: dtype {} instead of {}', what, c.dtype, dt)
    require(len(c) == len(rows) and c.ndim == nd, '{}: size {} ndim {}', what, len(c), c.ndim)


@st.composite
def operand(draw, nd, lo=0, elem=st.integers(0, 20)):
    if draw(st.booleans()):
        return {'point': draw(st.lists(elem, min_size=nd, max_size=nd))}
    return {'curve': draw(st.lists(st.lists(elem, min_size=nd, max_size=nd), min_size=lo, max_size=4))}


@st.composite
def edit_histories(draw, odd=False):
    nd = draw(st.integers(2, 5))
    dt = draw(st.sampled_from(gen.ALL_DTYPES if odd else DT))
    elem = gen.odd_elem(dt) if odd else st.integers(0, 20)
    p = draw(st.lists(st.lists(elem, min_size=nd, max_size=nd), min_size=0, max_size=7))
    ops = []
    for _ in range(draw(st.integers(1, 8))):
        kind = draw(st.sampled_from(['insert', 'insert', 'append', 'delete', 'delete_list', 'delete_slice', 'concat', 'reverse',
                                     'insert_list', 'insert_slice', 'mixed_concat', 'slice']))
        pos = draw(st.integers(-1000, 1000))
        ops.append([kind, pos, draw(operand(nd, 0, elem)), draw(st.lists(st.integers(0, 1000), min_size=1, max_size=4)),
                    draw(st.integers(-5, 5)), draw(st.integers(-3, 3).filter(bool))])
    return {'p': p, 'nd': nd, 'dt': dt, 't': draw(st.booleans()), 'ops': ops}


def real(o, nd, dt):
    if 'point' in o:
        p = o['point']      # a list gives a point of floats
        return (Point(p) if max(map(abs, p)) < 100 else Point(p, dtype=dt)), [p]
    return Curve(np.array(o['curve'], dtype=dt).reshape(len(o['curve']), nd)), [list(r) for r in o['curve']]


@sub('C04', edit_histories(), quick=1600)
def history(case, ev):
    """a sequence of edits against the same edits of a Python list, comparing after every step"""
    nd, dt = case['nd'], case['dt']
    rows = [list(r) for r in case['p']]
    c = Curve(np.array(rows, dtype=dt).reshape(len(rows), nd), tdata=list(range(len(rows))) if case['t'] else None)
    changed = 0
    for kind, pos, o, lst, k, step in case['ops']:
        n = len(rows)
        obj, new = real(o, nd, dt)
        what = f'{kind} on {n} points'
        if kind == 'insert':
            i = pos % (2 * n + 1) - n
            what += f' at {i}'
            c, rows = c.insert(np.int64(i) if pos % 3 == 0 else i, obj), insert_rows(rows, i, new)
        elif kind == 'insert_list':
            idx = [v % (2 * n + 1) - n for v in lst]
            if len(new) != 1:
                idx = (idx * 4)[:len(new)]
                if not idx:
                    continue
                if len(idx) == 1:
                    idx = idx[0]
                obj = Curve(np.array(new, dtype=dt).reshape(len(new), nd))
            what += f' at {idx}'
            c, rows = c.insert(idx, obj), insert_rows(rows, idx, new)
        elif kind == 'insert_slice':
            s = slice(k, None, step)
            m = len(range(*s.indices(n)))
            if m < 2:
                continue
            if len(new) != 1:
                new = ([r for r in new] * 8)[:m] if new else [[1] * nd] * m
                if len(new) != m:
                    continue
                obj = Curve(np.array(new, dtype=dt).reshape(m, nd))
            what += f' at {s}'
            c, rows = c.insert(s, obj), insert_rows(rows, s, new)
        elif kind == 'append':
            c, rows = c.append(obj), rows + new
        elif kind == 'delete' and n:
            i = pos % (2 * n) - n
            what += f' at {i}'
            c, rows = c.delete(i), [r for j, r in enumerate(rows) if j != i % n]
        elif kind == 'delete_list' and n:
            idx = [v % (2 * n) - n for v in lst]
            what += f' at {idx}'
            gone = {i % n for i in idx}
            mask = np.zeros(n, dtype=bool)
            mask[idx] = True
            c, rows = c.delete(mask if pos % 5 == 3 else idx if pos % 2 else np.array(idx)), [r for j, r in enumerate(rows) if j not in gone]
        elif kind == 'delete_slice':
            s = slice(k, None if pos % 2 else k + abs(pos) % 5, step)
            what += f' at {s}'
            gone = set(range(*s.indices(n)))
            c, rows = c.delete(s), [r for j, r in enumerate(rows) if j not in gone]
        elif kind == 'concat':
            d = Curve(np.array(new, dtype=dt).reshape(len(new), nd), tdata=list(range(len(new))) if pos % 2 else None)
            c, rows = c + d, rows + new
        elif kind == 'mixed_concat':
            d = Curve(np.array(new, dtype=dt).reshape(len(new), nd))
            c, rows = d + c, new + rows
        elif kind == 'reverse':
            c, rows = c.reverse(), rows[::-1]
        elif kind == 'slice':
            s = slice(k, None, step)
            c, rows = c[s], rows[s]
        else:
            continue
        changed += 1
        ev.label(kind)
        expect(c, rows, nd, dt, what)
        if len(rows) > 40:
            break
    ev.nontrivial(changed >= 2)


sub('C04', edit_histories(odd=True), quick=500, name='odd_values')(history)


@sub('C04', st.fixed_dictionaries({
    'c': gen.curve(0, 8, ndims=(2, 3, 4), dtypes=DT), 'o': st.integers(0, 3), 'k': st.integers(1, 4),
    'what': st.sampled_from(['insert', 'insert_list', 'delete', 'delete_list', 'ndim_insert', 'ndim_append', 'ndim_add', 'add_type',
                             'insert_type', 'append_type']),
    'neg': st.booleans(), 'curve': st.booleans(), 'nd2': st.integers(2, 6)}), quick=600)
def rejects(case, ev):
    """positions outside the curve raise IndexError, other dimensions ValueError, other types TypeError"""
    c = gen.make(case['c'])
    n, nd = c.size, c.ndim
    nd2 = case['nd2'] if case['nd2'] != nd else nd + 1
    out = -n - case['k'] if case['neg'] else n + case['k']
    good = Curve(np.ones((2, nd))) if case['curve'] else Point([1.0] * nd)
    alien = Curve(np.ones((2, nd2))) if case['curve'] else Point([1.0] * nd2)
    what = case['what']
    if what == 'insert':
        raises(IndexError, lambda: c.insert(out, good), f'insert at {out} into {n} points')
    elif what == 'insert_list':
        raises(IndexError, lambda: c.insert([0, out], good), f'insert at [0, {out}] into {n} points')
    elif what == 'delete':
        o = out - 1 if not case['neg'] else out
        raises(IndexError, lambda: c.delete(o), f'delete {o} from {n} points')
    elif what == 'delete_list':
        o = out if case['neg'] else out - 1
        raises(IndexError, lambda: c.delete([o, o]), f'delete [{o}] from {n} points')
    elif what == 'ndim_insert':
        raises(ValueError, lambda: c.insert(0, alien), 'insert of another dimension')
    elif what == 'ndim_append':
        raises(ValueError, lambda: c.append(alien), 'append of another dimension')
    elif what == 'ndim_add':
        alien = Curve(np.ones((2, nd2)))
        raises(ValueError, lambda: c + alien, 'concatenation with another dimension')
    elif what == 'add_type':
        raises(TypeError, lambda: c + [1, 2], 'concatenation with a list')
    else:
        class Thing:
            ndim = nd
        f = (lambda: c.insert(0, Thing())) if what == 'insert_type' else (lambda: c.append(Thing()))
        raises(TypeError, f, what)
    same(c.data, gen.array(case['c']), 'receiver after the rejected edit', dtype=True)
    ev.label(what)
    ev.nontrivial()


@sub('C04', st.fixed_dictionaries({
    'a': gen.curve(2, 6, nd=3, dtypes=DT), 'b': gen.curve(1, 6, nd=3, dtypes=('float64',)),
    'i': st.integers(0, 6), 'j': st.integers(0, 6)}), quick=500)
def laws(case, ev):
    """delete undoes insert; reverse is an involution; concatenation is associative and splits"""
    a = gen.make(case['a'])
    b = Curve(gen.array(case['b']).astype('int64').astype(case['a']['dt']) if case['a']['dt'] != 'uint8'
              else np.abs(gen.array(case['b'])).astype('uint8'))
    i = min(case['i'], a.size)
    ins = a.insert(i, b)
    same(ins.data, np.vstack([a.data[:i], b.data, a.data[i:]]), 'insert', dtype=True)
    back = ins.delete(slice(i, i + b.size))
    same(back.data, a.data, 'delete after insert', dtype=True)
    same(a.reverse().reverse().data, a.data, 'reverse twice', dtype=True)
    if a.isparametric:
        same(a.reverse().reverse().t, a.t, 'parameters after reversing twice')
    j = min(case['j'], a.size)
    same((a[:j] + a[j:]).data, a.data, 'concatenation of the two parts', dtype=True)
    same(((a + b) + a).data, (a + (b + a)).data, 'associativity')
    same((a + b).reverse().data, (b.reverse() + a.reverse()).data, 'reverse of a concatenation')
    ev.nontrivial(a.size > 1 and b.size > 0)


@sub('C04', st.fixed_dictionaries({'a': gen.odd_curve(0, 5, nd=3), 'b': gen.odd_curve(0, 5, nd=3)}), quick=300)
def mixed_sums(case, ev):
    """the sum of curves of different types has the points of both in their common type"""
    x, y = gen.array(case['a']), gen.array(case['b'])
    dt = np.result_type(x.dtype, y.dtype)
    for r, v in ((gen.make(case['a']) + gen.make(case['b']), (x, y)), (gen.make(case['b']) + gen.make(case['a']), (y, x))):
        same(r.data, np.array([q for part in v for q in part.astype(dt).tolist()], dtype=dt).reshape(-1, 3), f'sum of {v[0].dtype} and {v[1].dtype} curves', dtype=True)
    ev.nontrivial(x.dtype != y.dtype and len(x) and len(y))


sub('C04', st.fixed_dictionaries({
    'a': gen.long_curve(nd=3, dtypes=DT), 'b': gen.long_curve(nd=3, lo=1), 'i': st.integers(0, 160), 'j': st.integers(0, 160)}), quick=120, name='laws_long')(laws)


@sub('C04', st.fixed_dictionaries({'c': gen.long_curve(dtypes=DT), 'seed': st.integers(0, 2 ** 32 - 1), 'k': st.integers(1, 120)}), quick=120)
def many_positions(case, ev):
    """insertion at and deletion of many positions of a long curve against the same edits of a list"""
    c, nd, dt = gen.make(case['c']), case['c']['nd'], case['c']['dt']
    rows = [list(r) for r in case['c']['p']]
    n = len(rows)
    rs = np.random.RandomState(case['seed'])
    idx = rs.randint(-n, n, case['k']).tolist()
    gone = {i % n for i in idx}
    expect(c.delete(idx), [r for i, r in enumerate(rows) if i not in gone], nd, dt, f'delete {idx}')
    mask = np.array([i in gone for i in range(n)])
    expect(c.delete(mask), [r for i, r in enumerate(rows) if i not in gone], nd, dt, f'delete of the mask {mask}')
    if len(idx) > 1:
        new = rs.randint(0, 20, (len(idx), nd)).tolist()
        expect(c.insert(idx, Curve(np.array(new, dtype=dt).reshape(len(new), nd))), insert_rows(rows, idx, new), nd, dt, f'insert at {idx}')
        expect(c.insert(idx, Point(new[0])), insert_rows(rows, idx, new[:1]), nd, dt, f'insert a point at {idx}')
    ev.nontrivial(len(gone) > 1)


@sub('C04', st.fixed_dictionaries({'c': gen.near_integers(0, 7), 'o': st.lists(st.lists(st.integers(0, 2), min_size=2, max_size=3), min_size=1, max_size=3),
                                   'i': st.integers(-7, 7), 'j': st.integers(-7, 7)}), quick=200)
def big_integers(case, ev):
    """the edits keep integers exactly which no float64 represents"""
    c, i, j = gen.make(case['c']), case['i'], case['j']
    n, nd, dt = c.size, c.ndim, case['c']['dt']
    rows = [list(r) for r in case['c']['p']]
    new = [[2 ** 53 + q[k % len(q)] for k in range(nd)] for q in case['o']]
    o = Curve(np.array(new, dtype=dt))
    at = min(max(i, -n), n)
    pos = at + n if at < 0 else at
    for what, r, ref in [('insert', c.insert(at, o), rows[:pos] + new + rows[pos:]), ('append', c.append(o), rows + new),
                         ('concatenation', c + o, rows + new), ('reverse', c.reverse(), rows[::-1]),
                         ('delete of a slice', c.delete(slice(i, j)), [r for k, r in enumerate(rows) if k not in range(n)[i:j]])]:
        require(r.dtype == np.dtype(dt), '{}: dtype {}', what, r.dtype)
        require(r.data.tolist() == ref, '{}: {} instead of {}', what, r.data.tolist(), ref)
    if n:
        r = c.delete(i % n)
        require(r.data.tolist() == rows[:i % n] + rows[i % n + 1:], 'delete of {}: {}', i % n, r.data.tolist())
    ev.nontrivial()

sub('C04', huge.curves(), quick=20, name='huge')(huge.edits)
