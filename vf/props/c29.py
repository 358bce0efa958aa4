"""C29: plotting draws exactly the curve."""
import contextlib

import numpy as np
from hypothesis import strategies as st

from vf import gen
from vf.core import close, quiet, raises, require, same, sub
from skcurve import Curve

import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt  # noqa: E402
from matplotlib.collections import LineCollection, PathCollection  # noqa: E402
from matplotlib.colors import to_rgba  # noqa: E402
from matplotlib.quiver import Quiver  # noqa: E402
from mpl_toolkits.mplot3d import Axes3D  # noqa: E402
from mpl_toolkits.mplot3d.art3d import Line3DCollection  # noqa: E402

from skcurve.plot import CurvePlot, curveplot  # noqa: E402


@contextlib.contextmanager
def figures():
    try:
        yield
    finally:
        plt.close('all')


def line_points(line):
    """The points of a drawn line, in 2-D or 3-D."""
    xs = line.get_data_3d() if hasattr(line, 'get_data_3d') else line.get_data()
    return np.stack([np.asarray(v, dtype=float) for v in xs], axis=1)


def collection_segments(col):
    segs = col._segments3d if isinstance(col, Line3DCollection) else col.get_segments()
    return np.array([np.asarray(s, dtype=float) for s in segs])


def new_axes(nd):
    fig = plt.figure()
    return fig.add_subplot(1, 1, 1, projection='3d') if nd == 3 else fig.add_subplot(1, 1, 1)


def check_axes(axes, nd, what):
    require(isinstance(axes, plt.Axes), '{}: axes are {!r}', what, axes)
    require(isinstance(axes, Axes3D) == (nd == 3), '{} of a {}-d curve: axes are {}', what, nd, type(axes).__name__)


STYLES = [[[], {}], [['r--'], {}], [[], {'color': 'green', 'linewidth': 3.5}], [['o'], {'label': 'a curve'}], [[], {'marker': 's', 'linestyle': ':', 'alpha': 0.5}],
          [['k-'], {'zorder': 7, 'label': 'other'}]]


def check_style(line, args, kw):
    if args:
        want = {'r--': ('r', '--'), 'k-': ('k', '-')}.get(args[0])
        if want:
            require(to_rgba(line.get_color()) == to_rgba(want[0]) and line.get_linestyle() == want[1], 'format {} gave {} {}', args[0], line.get_color(), line.get_linestyle())
        else:
            require(line.get_marker() == 'o', 'format o gave the marker {}', line.get_marker())
    for k, v in kw.items():
        got = getattr(line, 'get_' + k)()
        require(got == v, '{}={} was passed, the line has {}', k, v, got)


@sub('C29', st.fixed_dictionaries({'c': gen.either(9, gen.curve(lo=0, hi=8, ndims=(2, 3), dtypes=('float64', 'float64', 'int32', 'float32')), gen.long_walk(60, 260, ndims=(2, 3))), 'style': st.integers(0, len(STYLES) - 1),
                                   'axes': st.booleans(), 'draw': st.sampled_from([True] + [False] * 9)}), quick=250, thorough=3000)
def plain(case, ev):
    """one line through exactly the points, on new or given axes of the right kind, with the plot arguments passed on"""
    with figures():
        c, nd = gen.make(case['c']), case['c']['nd']
        data = gen.array(case['c'])
        args, kw = STYLES[case['style']]
        given = new_axes(nd) if case['axes'] else None
        figs = len(plt.get_fignums())
        r = curveplot(c, *args, axes=given, **kw) if case['axes'] else curveplot(c, *args, **kw)
        require(isinstance(r, CurvePlot), 'curveplot returns {!r}', r)
        check_axes(r.axes, nd, 'curveplot')
        if case['axes']:
            require(r.axes is given, 'the given axes are not used')
            require(len(plt.get_fignums()) == figs, 'a figure was made although axes are given')
        else:
            require(len(plt.get_fignums()) == 1 and len(r.axes.figure.axes) == 1, 'not exactly one figure with one pair of axes')
        require(len(r.axes.lines) == 1, '{} lines are drawn', len(r.axes.lines))
        require(len(r.axes.collections) == 0, '{} collections are drawn', len(r.axes.collections))
        same(line_points(r.axes.lines[0]), data.astype(float), 'points of the drawn line')
        check_style(r.axes.lines[0], args, kw)
        same(c.data, data, 'data of the plotted curve', dtype=True)
        if case['draw']:
            r.axes.figure.canvas.draw()
        ev.label(f'{nd}-d', 'given axes' if case['axes'] else 'new axes', f'style {case["style"]}')
        ev.nontrivial(len(data) > 1)


PARAMS = {2: ['t', 'cumarclen', 'curvature', 'speed', 'chordlen'], 3: ['t', 'cumarclen', 'curvature', 'torsion', 'speed', 'chordlen']}


@st.composite
def param_cases(draw):
    c = draw(gen.either(9, gen.walk(lo=3, hi=8, ndims=(2, 3)), gen.long_walk(60, 260, ndims=(2, 3))))
    return {'c': c, 'param': draw(st.sampled_from(PARAMS[c['nd']])), 'cmap': draw(st.sampled_from([None, 'viridis', 'jet'])), 'axes': draw(st.booleans()),
            'marker': draw(st.sampled_from([None, None, 'o', 's'])), 'lw': draw(st.sampled_from([None, 4.0])), 'draw': draw(st.sampled_from([True] + [False] * 9))}


@sub('C29', param_cases(), quick=200, thorough=2500)
def coloured(case, ev):
    """one coloured piece per segment between consecutive points, coloured by the parameter over its full range"""
    with figures():
        c, nd = gen.make(case['c']), case['c']['nd']
        data = gen.array(case['c']).astype(float)
        kw = {'param': case['param']}
        if case['cmap']:
            kw['param_cmap'] = case['cmap']
        if case['marker'] and case['param'] != 'chordlen':
            kw['marker'] = case['marker']
        if case['lw']:
            kw['linewidth'] = case['lw']
        if case['axes']:
            kw['axes'] = new_axes(nd)
        r = curveplot(c, **kw)
        check_axes(r.axes, nd, 'coloured plot')
        if case['axes']:
            require(r.axes is kw['axes'], 'the given axes are not used')
        lines = [x for x in r.axes.collections if isinstance(x, LineCollection)]
        require(len(lines) == 1 and not r.axes.lines, '{} collections and {} lines are drawn', len(lines), len(r.axes.lines))
        col = lines[0]
        require(isinstance(col, Line3DCollection) == (nd == 3), 'pieces of a {}-d curve are drawn as {}', nd, type(col).__name__)
        same(collection_segments(col), np.stack([data[:-1], data[1:]], axis=1), 'drawn pieces')
        values = getattr(c, case['param'])
        same(np.asarray(col.get_array()), values, f'colour values for {case["param"]}')
        # matplotlib adjusts a range which is empty or not finite
        spread = np.all(np.isfinite(values)) and np.max(values) > np.min(values)
        require(not spread or col.norm.vmin == np.min(values) and col.norm.vmax == np.max(values), 'colours span {}..{} instead of {}..{}', col.norm.vmin, col.norm.vmax,
                np.min(values), np.max(values))
        require(col.get_cmap().name == (case['cmap'] or 'plasma'), 'colour map {}', col.get_cmap().name)
        if case['lw']:
            require(col.get_linewidth()[0] == case['lw'], 'line width {}', col.get_linewidth())
        dots = [x for x in r.axes.collections if isinstance(x, PathCollection)]
        if 'marker' in kw:
            require(len(dots) == 1, '{} sets of markers', len(dots))
            if nd == 2:
                same(np.asarray(dots[0].get_offsets()), data, 'marker positions')
        else:
            require(not dots, 'markers are drawn')
        labels = [a.get_ylabel() for a in r.axes.figure.axes if a is not r.axes]
        require(labels == [case['param']], 'colour bar labels {}', labels)
        # everything drawn lies inside the axes
        lims = [r.axes.get_xlim(), r.axes.get_ylim()] + ([r.axes.get_zlim()] if nd == 3 else [])
        for k, (lo, hi) in enumerate(lims):
            span = 1e-9 * (1 + np.max(np.abs(data)))
            require(min(lo, hi) <= data[:, k].min() + span and data[:, k].max() - span <= max(lo, hi), 'axis {} shows {}..{} only', k, lo, hi)
        same(c.data, data, 'data of the plotted curve')
        if case['draw']:
            r.axes.figure.canvas.draw()
        ev.label(f'{nd}-d', case['param'], 'markers' if 'marker' in kw else 'no markers')
        ev.nontrivial(len(data) > 2)


@sub('C29', st.fixed_dictionaries({'c': gen.either(6, gen.walk(lo=3, hi=8, ndims=(2, 2, 2, 3)), gen.long_walk(60, 260, ndims=(2,))), 'param': st.sampled_from([None, 'curvature']), 'axes': st.booleans()}), quick=120, thorough=1500)
def normals(case, ev):
    """show_normals draws the unit normals at the points of a plane curve; 3-D normals are refused"""
    with figures():
        c, nd = gen.make(case['c']), case['c']['nd']
        kw = {'show_normals': True}
        if case['param']:
            kw['param'] = case['param']
        if case['axes']:
            kw['axes'] = new_axes(nd)
        if nd == 3:
            raises(NotImplementedError, lambda: curveplot(c, **kw), 'normals of a 3-d curve')
            ev.label('3-d')
            return
        r = curveplot(c, **kw)
        q = [x for x in r.axes.collections if isinstance(x, Quiver)]
        require(len(q) == 1, '{} sets of arrows', len(q))
        same(np.asarray(q[0].get_offsets() if not hasattr(q[0], 'XY') else q[0].XY, dtype=float), gen.array(case['c']).astype(float), 'foot points of the normals')
        same(np.stack([np.asarray(q[0].U), np.asarray(q[0].V)], axis=1), c.frenet2, 'drawn normals')
        require((len(r.axes.lines) == 1) == (case['param'] is None), '{} lines', len(r.axes.lines))
        plain_plot = curveplot(c)
        require(not [x for x in plain_plot.axes.collections if isinstance(x, Quiver)], 'normals are drawn without being asked for')
        ev.label('2-d', 'coloured' if case['param'] else 'plain')
        ev.nontrivial(bool(np.any(c.frenet2)))


OPTIONS = {'linewidth': [3.0, 0.5], 'linestyle': ['--', ':'], 'marker': ['o', 's'], 'alpha': [0.25, 0.75], 'label': ['first', 'second'], 'zorder': [7, 9]}


@st.composite
def chain_cases(draw):
    nd = draw(st.sampled_from([2, 3]))
    links = []
    for i in range(draw(st.integers(2, 4))):
        kw = {k: draw(st.sampled_from(v)) for k, v in OPTIONS.items() if draw(st.integers(0, 2)) == 0}
        links.append({'c': draw(gen.walk(lo=3, hi=5, nd=3, parametric=None)), 'kw': kw, 'fmt': draw(st.sampled_from([None, 'r', 'g', 'b'])),
                      'param': draw(st.sampled_from([None, None, None, 't', 'speed'])), 'cmap': draw(st.sampled_from([None, 'jet', 'viridis'])),
                      'normals': nd == 2 and draw(st.integers(0, 3)) == 0})
    return {'nd': nd, 'links': links, 'axes': draw(st.booleans())}


@sub('C29', chain_cases(), quick=150, thorough=2000)
def chains(case, ev):
    """chained plots draw every curve on the same axes, in order, each with its own options and no others"""
    with figures(), quiet():
        nd = case['nd']
        axes = new_axes(nd) if case['axes'] else None
        given, r, lines, pieces, normals = axes, None, [], [], 0
        for x in case['links']:
            a = gen.array(x['c'])[:, :nd]
            c = Curve(a, tdata=x['c']['t'])
            kw = dict(x['kw'])
            if x['param']:
                kw = {k: v for k, v in kw.items() if k in ('linewidth', 'alpha')}
                pieces.append((a, getattr(c, x['param']), dict(kw), x['cmap'] or 'plasma'))
                kw['param'] = x['param']
                if x['cmap']:
                    kw['param_cmap'] = x['cmap']
            else:
                lines.append((a, x['fmt'], dict(kw)))
            if x['normals']:
                kw['show_normals'] = True
                normals += 1
            args = (x['fmt'],) if x['fmt'] and not x['param'] else ()
            passed = dict(kw)
            r = (curveplot if r is None else r.curveplot)(c, *args, **kw, **({'axes': given} if r is None and given else {}))
            require(kw == passed, 'the plot arguments become {}', kw)
            axes = axes or r.axes
            require(isinstance(r, CurvePlot) and r.axes is axes, 'a chained plot uses other axes')
        require(len(plt.get_fignums()) == 1, '{} figures', len(plt.get_fignums()))
        require(len(axes.lines) == len(lines), '{} lines for {} curves', len(axes.lines), len(lines))
        for line, (a, fmt, kw) in zip(axes.lines, lines):
            same(line_points(line), a, 'points of a chained line')
            if fmt:
                require(to_rgba(line.get_color())[:3] == to_rgba(fmt)[:3], 'colour {} instead of {}', line.get_color(), fmt)
            got = {'linewidth': line.get_linewidth(), 'linestyle': line.get_linestyle(), 'marker': line.get_marker(), 'alpha': line.get_alpha(), 'zorder': line.get_zorder()}
            ref = dict({'linewidth': plt.rcParams['lines.linewidth'], 'linestyle': '-', 'marker': 'None', 'alpha': None}, **{k: v for k, v in kw.items() if k != 'label'})
            for k, v in ref.items():
                if k != 'zorder' or nd == 2:        # 3-D axes keep the order of depth
                    require(got[k] == v, 'a line has {} {} instead of {}', k, got[k], v)
            label = line.get_label()
            require(label == kw['label'] if 'label' in kw else label.startswith('_'), 'label {} instead of {}', label, kw.get('label'))
        cols = [x for x in axes.collections if isinstance(x, LineCollection)]
        require(len(cols) == len(pieces), '{} coloured curves instead of {}', len(cols), len(pieces))
        for col, (a, values, kw, cmap) in zip(cols, pieces):
            same(collection_segments(col), np.stack([a[:-1], a[1:]], axis=1), 'pieces of a chained coloured curve')
            require(col.get_cmap().name == cmap, 'colour map {} instead of {}', col.get_cmap().name, cmap)
            same(col.get_array(), values, 'colour values of a chained coloured curve')
            require(col.get_alpha() == kw.get('alpha'), 'alpha of a coloured curve is {} instead of {}', col.get_alpha(), kw.get('alpha'))
            width = kw.get('linewidth', plt.rcParams['lines.linewidth'])
            require(all(w == width for w in col.get_linewidth()), 'width of a coloured curve is {} instead of {}', col.get_linewidth(), width)
        rest = [x for x in axes.collections if not isinstance(x, LineCollection)]
        require(len(rest) == normals, '{} further artists for {} curves with normals', len(rest), normals)
        ev.label(f'{nd}-d', f'{len(case["links"])} curves', 'options')
        ev.nontrivial()


@sub('C29', st.fixed_dictionaries({'c': gen.curve(lo=3, hi=6, ndims=(3, 4, 5, 6)), 'param': st.sampled_from([None, 't', 'curvature']), 'chain': st.booleans()}), quick=120, thorough=1500)
def rejects(case, ev):
    """more than three dimensions raise ValueError; a 3-D curve on 2-D axes raises TypeError; nothing is drawn"""
    with figures():
        c, nd = gen.make(case['c']), case['c']['nd']
        kw = {} if case['param'] is None else {'param': case['param']}
        if nd > 3:
            raises(ValueError, lambda: curveplot(c, **kw), f'plot of a {nd}-d curve')
            require(not plt.get_fignums(), 'a figure was made for a refused plot')
        axes = new_axes(2)
        first = Curve([[0.0, 1, 2], [0, 1, 0]])
        exc = ValueError if nd > 3 else TypeError
        if case['chain']:
            start = curveplot(first, axes=axes)
            raises(exc, lambda: start.curveplot(c, **kw), f'chained plot of a {nd}-d curve on 2-d axes')
            require(len(axes.lines) == 1, '{} lines after a refused plot', len(axes.lines))
        else:
            raises(exc, lambda: curveplot(c, axes=axes, **kw), f'plot of a {nd}-d curve on 2-d axes')
            require(not axes.lines, 'lines after a refused plot')
        require(not axes.collections, 'collections after a refused plot')
        raises(AttributeError, lambda: curveplot(first, param='no_such_parameter'), 'plot of an unknown parameter')
        ev.label(f'{nd}-d')
        ev.nontrivial()
