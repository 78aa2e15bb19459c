"""obligations that settle more than one property

A property is about what a user sees, so the check of a property also runs the
obligations of the constructs its statement reaches through: names are prefixes
of the obligations of the other rule module."""
import importlib

SHARE = {
    'P01': [('p13', ['loads and state']), ('p14', ['candidate field'])],
    'P02': [('p01', ['excess temperature', 'extremes']),
            ('p13', ['loads and state'])],
    'P03': [('p01', ['']), ('p14', ['candidate field', 'start of a search'])],
    'P04': [('p03', ['']), ('p02', ['height', 'root']), ('p01', ['excess']),
            ('p14', ['candidate field', 'flow of']), ('p32', [''])],
    'P06': [('p05', ['rectangle', 'empty', 'transposed'])],
    'P07': [('p05', ['rectangle', 'open', 'zoned', 'transposed']),
            ('p06', ['boreholes along', 'length', 'spacing along'])],
    'P08': [('p05', ['rectangle', 'transposed'])],
    'P09': [('p13', ['loads and state of a hourly'])],
    'P10': [('p09', ['signs', 'watts', 'both', 'loads given'])],
    'P11': [('p10', ['calendar', 'monthly total, peak and average']),
            ('p12', ['peak of a month', 'peaks of a year', 'energy'])],
    'P12': [('p10', ['calendar', 'monthly total, peak and average'])],
    'P13': [('p09', ['loads after']), ('p17', ['']),
            ('p11', ['sequence of loads'])],
    'P14': [('p16', ['live'])],
    'P17': [('p15', ['2 curves, default', '3 curves, default', 'radius'])],
    'P20': [('p02', ['root'])],
    'P22': [('p06', ['near-square', 'rectangular', 'boreholes along']),
            ('p07', ['nested'])],
    'P23': [('p15', ['%d curves, %s after' % (n, k) for n in (2, 3, 5)
                     for k in ('default', 'lagrange', 'linear')]),
            ('p18', ['single', 'parallel 2', 'coaxial']),
            ('p04', ['']), ('p13', ['']),
            ('p14', ['candidate field', 'flow of'])],
    'P25': [('p26', ['JSON', 'indented']), ('p17', [''])],
    'P32': [('p16', ['live'])],
}


class Borrow:
    def __init__(self, C, names):
        self.C, self.names = C, tuple(names)

    def __getattr__(self, name):
        return getattr(self.C, name)

    def equiv(self, name, *a, **k):
        if name.startswith(self.names):
            return self.C.equiv(name, *a, **k)

    def judge(self, name, *a, **k):
        if name.startswith(self.names):
            return self.C.judge(name, *a, **k)


def shared(C):
    for module, names in SHARE.get(C.pid, ()):
        C.sources = []
        importlib.import_module('sa.rules.' + module).rules(Borrow(C, names))
