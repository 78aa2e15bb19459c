"""stand-ins for figures: which data is drawn under which label"""
from ..oblig import *
from ..interp import Ext
from .world import frozen

SOURCE = '''
class Axes:
    def __init__(self, fig):
        self.figure = fig
    def plot(self, x, y, *style, label=None, **more):
        drawn(self.figure.number, 'line', list(x), list(y), label)
    def scatter(self, x, y, *style, label=None, **more):
        if type(x) in (list, tuple):
            drawn(self.figure.number, 'points', list(x), list(y), label)
        else:
            drawn(self.figure.number, 'point', x, y, label)
    def set_xlabel(self, text, **more):
        drawn(self.figure.number, 'x-axis', text, None, None)
    def set_ylabel(self, text, **more):
        drawn(self.figure.number, 'y-axis', text, None, None)
    def set_title(self, text, **more):
        drawn(self.figure.number, 'title', text, None, None)
    def annotate(self, text, xy=None, **more):
        drawn(self.figure.number, 'note', text, None, None)
    def text(self, x, y, text, **more):
        drawn(self.figure.number, 'note', text, None, None)
    def get_xticks(self):
        return [0]
    def get_legend_handles_labels(self):
        return 0, 0
    def set(self, xlabel=None, ylabel=None, title=None, **more):
        if xlabel is not None:
            self.set_xlabel(xlabel)
        if ylabel is not None:
            self.set_ylabel(ylabel)
        if title is not None:
            self.set_title(title)
%(quiet)s

class Figure:
    def __init__(self, number):
        self.number = number
        self.axes = []
    def add_subplot(self, *a, **k):
        self.axes.append(Axes(self))
        return self.axes[0]
    def gca(self):
        return self.axes[0]
    def savefig(self, name, **more):
        drawn(self.number, 'saved', name, None, None)
%(quiet)s

def drawn(number, what, x, y, label):
    pass
'''
QUIET = ''.join('    def %s(self, *a, **k):\n        return None\n' % n for n in (
    'grid', 'legend', 'set_axisbelow', 'set_xlim', 'set_ylim', 'set_xticks',
    'set_yticks', 'set_aspect', 'tick_params', 'axis', 'margins',
    'tight_layout', 'subplots_adjust', 'add_artist', 'minorticks_on',
    'set_facecolor', 'set_dpi', 'set_size_inches', 'autofmt_xdate'))
SOURCE = SOURCE % dict(quiet=QUIET)


def figure(I, name, args, kw, st, node):
    I.figures = getattr(I, 'figures', 0) + 1
    return I.call(I.lookup('figure.Figure'), [num(I.figures)], {}, st, node)


def subplots(I, name, args, kw, st, node):
    f = figure(I, name, args, kw, st, node)
    ax = I.call(I.getattr(f, 'add_subplot', st), [], {}, st, node)
    return lit([f, ax])


def drawn(I, f, args, kw, st, node):
    I.log('drawn', 'drawn', [frozen(I, a, st) for a in args], st, node)
    return NONE


def nothing(I, name, args, kw, st, node):
    return NONE


FIGURE = {'pygfunction.utilities._initialize_figure': figure,
          'pygfunction.gfunction._initialize_figure': figure,
          'matplotlib.pyplot.figure': figure,
          'matplotlib.pyplot.subplots': subplots,
          'matplotlib.pyplot.rc': nothing, 'matplotlib.pyplot.close': nothing,
          'figure.drawn': drawn}


def picture(v, run):
    """everything drawn, in order, then the texts around it"""
    out, texts = [], []
    for e in run.events:
        if e.kind in ('drawn', 'disk'):
            if e.loops:
                raise Undecided('drawn in a loop')
            t = ite(e.cond, lit([string(e.name)] + list(e.args)), NONE)
            what = e.args[1] if e.kind == 'drawn' else None
            if t is NONE:
                continue
            if what is not None and what.op == 'str' and \
                    what.args[0] in ('x-axis', 'y-axis', 'title'):
                texts.append((what.args[0], t))
            else:
                out.append(t)
    texts.sort(key=lambda x: x[0])
    return lit(out + [t for _, t in texts])
