"""Records what a drawing puts on its pages: a light stand-in for matplotlib's figure, and the same record read from a real figure."""
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import numpy as np
plt.switch_backend('Agg')


class Unsupported(Exception):
    pass


def _floats(v):
    return tuple(float(x) for x in np.atleast_1d(v))


class Axes:
    def __init__(self, canvas):
        self.canvas, self.items, self.deleted = canvas, [], False

    def set_title(self, s, *a, **kw):
        self.items.append(('title', s))

    def axis(self, *a, **kw):
        pass

    def plot(self, *args, **kw):
        args = list(args)
        fmt = args.pop() if len(args) in (2, 3) and isinstance(args[-1], str) else ''
        if len(args) != 2:
            raise Unsupported('plot with %d arguments' % len(args))
        x, y = _floats(args[0]), _floats(args[1])
        marker = kw.get('marker', 'o' if 'o' in fmt else 'None')
        self.items.append(('line', x, y, str(marker), float(1 if kw.get('alpha') is None else kw['alpha']), str(kw.get('color', ''))))
        return [None]

    def annotate(self, text, xy, xytext=None, **kw):
        p = xy if xytext is None else xytext
        self.items.append(('text', text, float(p[0]), float(p[1])))

    def text(self, x, y, s, **kw):
        self.items.append(('text', s, float(x), float(y)))

    def add_patch(self, patch):
        self.items.append(('rect', float(patch.get_x()), float(patch.get_y()), float(patch.get_width()), float(patch.get_height())))

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported('axes.' + name)


class Figure:
    def __init__(self, canvas):
        self.canvas = canvas

    def delaxes(self, ax):
        ax.deleted = True

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported('figure.' + name)


class Canvas:
    """context manager; .shown lists the records of the figures, in the order in which they were shown"""
    def __init__(self, real=False):
        self.real, self.shown, self.pages = real, [], None

    def __enter__(self):
        self.saved = plt.subplots, plt.show
        if self.real:
            plt.show = lambda *a, **kw: self._show_real()
        else:
            plt.subplots, plt.show = (lambda *a, **kw: self._subplots(*a, **kw)), (lambda *a, **kw: self._show())
        return self

    def __exit__(self, *a):
        plt.subplots, plt.show = self.saved
        if self.real:
            plt.close('all')

    def _subplots(self, nrows=1, ncols=1, squeeze=True, **kw):
        arr = np.empty((nrows, ncols), dtype=object)
        for i in range(nrows):
            for j in range(ncols):
                arr[i, j] = Axes(self)
        self.pages = [arr[i, j] for i in range(nrows) for j in range(ncols)]
        if squeeze:
            raise Unsupported('squeeze')
        return Figure(self), arr

    def _show(self, *a, **kw):
        if self.pages is None:
            raise Unsupported('show without subplots')
        self.shown.append([list(p.items) for p in self.pages if not p.deleted])
        self.pages = None

    def _show_real(self, *a, **kw):
        for num in plt.get_fignums():
            self.shown.append([_read(ax) for ax in plt.figure(num).axes])
        plt.close('all')


def _read(ax):
    """record of real axes"""
    res = []
    if ax.get_title():
        res.append(('title', ax.get_title()))
    for art in ax.get_children():
        if isinstance(art, matplotlib.lines.Line2D):
            a = art.get_alpha()
            res.append(('line', _floats(art.get_xdata()), _floats(art.get_ydata()), str(art.get_marker()), float(1 if a is None else a), str(art.get_color())))
        elif isinstance(art, matplotlib.text.Annotation):
            p = art.xyann if art.xyann is not None else art.xy
            res.append(('text', art.get_text(), float(p[0]), float(p[1])))
        elif isinstance(art, matplotlib.text.Text):
            if art.get_text() and art is not ax.title:
                res.append(('text', art.get_text(), float(art.get_position()[0]), float(art.get_position()[1])))
        elif isinstance(art, matplotlib.patches.Rectangle) and art is not ax.patch:
            res.append(('rect', float(art.get_x()), float(art.get_y()), float(art.get_width()), float(art.get_height())))
    return res


def draw(f, real=False):
    """records of the figures shown by f(); falls back to real figures for calls the stand-in does not know"""
    if not real:
        try:
            with Canvas() as c:
                f()
            return c.shown
        except Unsupported:
            pass
    with Canvas(real=True) as c:
        f()
    return c.shown
