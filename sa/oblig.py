"""Obligations: 'the code's value number is the reference's value number'.

One property is a list of obligations.  Each names a construct of the repository
(an anchor) and a reference definition of what it has to compute.  Both are
interpreted by the same abstract interpreter (sa.interp) from source, never
executed, and the two resulting terms are compared.
"""
import ast
import json
import os
import signal
import sys
import time
import traceback

from . import terms as X
from .terms import (T, mk, string, lit, num, TRUE, FALSE, and_, or_, not_, sym,
                    equal, show, bsum, ite, simp, gt0, bfor, ONE, ZERO, NONE)
from .interp import (Interp, Method, State, Undecided, AnalysisBroken, Dead, Func,
                     Class, Obj, pyval, py)
from .terms import subst, exists
from . import evalt

PROVED, REFUTED, UNDECIDED = 'proved', 'refuted', 'undecided'

# what the attributes of the library's own data objects are
SHAPES = {
    'nPipes': 'posint', 'n_pipes': 'posint', 'r_in': 'pos', 'r_out': 'pos',
    'mu': 'pos', 'rho': 'pos', 'cp': 'pos', 'k': 'pos', 'rhoCp': 'pos',
    'H': 'pos', 'D': 'pos', 'r_b': 'pos', 'tilt': 'nonneg',
    'orientation': 'real', 's': 'pos', 'eps': 'pos', 'ugt': 'real',
    'start_month': 'posint', 'end_month': 'posint',
    'max_EFT_allowable': 'real', 'min_EFT_allowable': 'real',
    'max_Height': 'pos', 'min_Height': 'pos', 'h_f': 'pos', 'R_f': 'pos',
    'R_p': 'pos', 'h_fluid_a_in': 'pos', 'h_fluid_a_out': 'pos',
    'm_flow_borehole': 'pos', 'm_flow_pipe': 'pos', 'B': 'pos',
    'length': 'pos', 'width': 'pos', 'B_min': 'pos', 'B_max_x': 'pos',
    'B_max_y': 'pos', 'k_s': 'pos', 'k_g': 'pos', 'R_fp': 'pos', 'R_ff': 'pos',
    't_s': 'pos', 'B_spacing': 'pos', 'nbh': 'pos', 'V_flow': 'pos',
    'V_flow_borehole': 'pos', 'V_flow_system': 'pos',
    'r_inner': 'seq', 'r_outer': 'seq', 'pos': 'seq',
    'monthly_total': 'seq', 'monthly_peak': 'seq', 'monthly_average': 'seq',
    'monthly_peak_day': 'seq', 'monthly_peak_duration': 'seq', 'hourly': 'seq',
    'b': 'obj', 'borehole': 'obj', 'soil': 'obj', 'grout': 'obj',
    'pipe': 'obj', 'fluid': 'obj', 'bhe': 'obj', 'bhe_eq': 'obj',
    'sim_params': 'obj', 'GFunction': 'obj', 'radial_numerical': 'obj',
    'hybrid_load': 'obj', 'ghe': 'obj', 'bore_locations': 'seq',
    'log_time': 'seq', 'HPEFT': 'seq', 'dTb': 'seq', 'load': 'array',
    'hour': 'array', 'lntts': 'array', 'g': 'array', 'g_sts': 'any',
}


evalt.ATTRIBUTES.update(SHAPES)


class Timeout(Exception):
    pass


class Fallback(Exception):
    pass


class Token:
    """a call of a helper that has an obligation of its own is an
    uninterpreted function of its (bound) arguments"""

    def __init__(self, name, n, drop_self=False, arr=False, check=None):
        self.name, self.n, self.drop, self.arr = name, n, drop_self, arr
        evalt.TRUSTED.add(name)

    def __call__(self, I, f, args, kw, st, node):
        b = I.bind(f, args, kw, st)
        names = [x.arg for x in f.node.args.posonlyargs + f.node.args.args]
        if self.drop:
            names = names[1:]
        if len(names) < self.n:
            raise Undecided('%s takes %d arguments' % (f.qual, len(names)))
        return mk('fn', self.name, *[I.freeze(b[x], st, None)
                                          for x in names[:self.n]])


def used_tokens(cuts, run):
    names = {h.name for h in (cuts or {}).values() if isinstance(h, Token)}
    if not names or run.value is None:
        return set()
    found = set()
    seen = set()

    def go(t):
        if t in seen:
            return
        seen.add(t)
        if t.op == 'fn' and t.args[0] in names:
            found.add(t.args[0])
        if t.op == 'poly':
            for m, c in t.args[0]:
                for x, e in m:
                    go(x)
        else:
            for x in t.args:
                if isinstance(x, T):
                    go(x)
    go(run.value)
    go(run.raises)
    return found


def depy(t):
    """classes and functions of the repository by name"""
    if t is None:
        return t
    m = {}
    for x in t.syms:
        if x.op == 'py':
            v = pyval(x)
            if isinstance(v, Class) or (isinstance(v, Func) and
                                        v.closure is None):
                m[x] = sym('def:' + v.qual, 'obj')
            elif isinstance(v, Method) and v.obj.op == 'fn':
                o = depy(v.obj)
                if not any(y.op in ('py', 'ref') for y in o.syms):
                    m[x] = mk('fn', 'attribute', o, string(v.name))
    return subst(t, m) if m else t


class Ob:
    def __init__(self, name, where, rule):
        self.name, self.where, self.rule = name, where, rule
        self.status = None
        self.detail = ''
        self.file = self.line = None
        self.witness = None
        self.seconds = 0.0

    def as_dict(self):
        d = dict(obligation=self.name, construct=self.where, rule=self.rule,
                 status=self.status, seconds=round(self.seconds, 2))
        if self.file:
            d['file'], d['line'] = self.file, self.line
        if self.detail:
            d['detail'] = self.detail
        if self.witness:
            d['witness'] = self.witness
        return d


class Run:
    """the observable result of one interpreted scenario"""

    def __init__(self, value, raises, st, events, args, I=None):
        self.I = I
        self.value, self.raises = value, raises
        self.st, self.events, self.args = st, events, args


class Checker:
    def __init__(self, pid, repo='/repo', tier='quick', seed=1, only=None,
                 verbose=False):
        self.pid, self.repo, self.tier, self.seed = pid, repo, tier, seed
        self.obs = []
        self.functions = set()
        self.only = only
        self.verbose = verbose
        self.sources = []
        self.t0 = time.time()
        self.stmts = 0
        self.anchors = set()
        self.limit = 500 if tier == 'thorough' else 260
        self.tries = 60000 if tier == 'thorough' else 3000
        self.seconds = 150 if tier == "thorough" else 60

    # ------------------------------------------------------------- set-up
    def interp(self, shapes=None, cuts=None, **kw):
        I = Interp(self.repo, **kw)
        for k, v in SHAPES.items():
            I.shapes[('*', k)] = v
        for k, v in (shapes or {}).items():
            I.shapes[k if isinstance(k, tuple) else ('*', k)] = v
        for n, text in self.sources:
            I.add_source(n, text)
        for q, h in (cuts or {}).items():
            I.cuts[q] = h
        if self.tier == 'thorough':
            I.budget = 4000000
        return I

    def load(self, text, name='spec'):
        self.sources.append((name, text))

    def anchor(self, dotted):
        """every public construct the property is about has to exist"""
        I = self.interp()
        v = I.lookup(dotted)
        self.anchors.add(dotted)
        return pyval(v)

    # ------------------------------------------------------------- running
    def run(self, I, target, inputs, kwargs=None, setup=None):
        st = State()
        args = []
        kw = {}
        for n, k in inputs:
            v = k(I, st, n) if callable(k) else \
                k if isinstance(k, T) else I.make_input(n, k, st)
            args.append(v)
        for n, k in (kwargs or {}).items():
            kw[n] = k(I, st, n) if callable(k) else \
                k if isinstance(k, T) else I.make_input(n, k, st)
        if setup is not None:
            setup(I, st, args)
        I.events = []
        I.raise_stack = [[]]
        f = I.lookup(target)
        try:
            v = I.call(f, args, kw, st)
            val = I.freeze(v, st, None)
        except Dead:
            val = None
        r = FALSE
        for e in I.events:
            if e.kind == 'raise':
                r = or_(r, exists(e.cond, e.loops))
        return Run(val, r, st, list(I.events), args, I)

    def guard(self, ob, f):
        def onalarm(*_):
            raise Timeout()
        old = signal.signal(signal.SIGALRM, onalarm)
        signal.alarm(int(max(3, min(self.limit,
                                780 - (time.time() - self.t0)))))
        t = time.time()
        try:
            f()
        except Undecided as e:
            ob.status, ob.detail = UNDECIDED, 'not decided: %s' % e
        except Timeout:
            ob.status, ob.detail = UNDECIDED, 'time limit'
        except AnalysisBroken:
            raise
        except Dead:
            ob.status, ob.detail = UNDECIDED, 'no path returns'
        except RecursionError:
            ob.status, ob.detail = UNDECIDED, 'term too deep'
        except Exception as e:            # engine limitation, never an alarm
            tb = traceback.extract_tb(e.__traceback__)[-1]
            ob.status = UNDECIDED
            ob.detail = 'engine: %r at %s:%d' % (e, os.path.basename(
                tb.filename), tb.lineno)
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
            ob.seconds = time.time() - t
        if self.verbose:
            print('  %-9s %6.2fs %s %s' % (ob.status, ob.seconds, ob.name,
                                          ob.detail[:600]))
            if ob.witness and ob.status == REFUTED:
                print('      ', str(ob.witness)[:1500])
            sys.stdout.flush()

    def new(self, name, where, rule):
        ob = Ob(name, where, rule)
        if self.only and self.only not in name:
            ob.status = 'skipped'
            return ob
        X.CURRENT.clear()
        self.obs.append(ob)
        self.locate(ob)
        return ob

    def locate(self, ob):
        """file and line of the construct"""
        try:
            f = self.anchor(ob.where)
        except AnalysisBroken:
            raise
        n = getattr(f, 'node', None)
        m = getattr(f, 'module', None)
        if n is not None and m is not None:
            ob.file = os.path.relpath(m.path, self.repo) if m.path else None
            ob.line = n.lineno

    # ------------------------------------------------------------- rules
    def equiv(self, name, where, spec, inputs, code=None, kwargs=None,
              shapes=None, cuts=None, assume=None, domains=None, cmp=None,
              seqlen=None, raises=True, rule=None, pick=None, tries=None,
              tolerate=(), want=2, setup=None, literal_cuts=None, ikw=None,
              recorded=None):
        """the construct computes what the reference computes.  `recorded` is
        a second reference: the defective behaviour of a finding on file; code
        that still shows exactly that is reported as that finding"""
        ob = self.new(name, where, rule or
                      'value number equals that of reference %s' % spec)
        if ob.status == 'skipped':
            return ob

        def go():
            settle(spec)
            if recorded is None or ob.status == PROVED:
                return
            main = ob.status, ob.detail, ob.witness
            settle(recorded)
            if ob.status == PROVED or \
                    ob.status == UNDECIDED and main[0] == REFUTED:
                ob.name += ' (as recorded)'
                ob.status, ob.witness = REFUTED, main[2]
                ob.detail = main[1] or 'differs from reference %s' % spec
            elif ob.status == REFUTED and main[0] == REFUTED:
                ob.status, ob.detail, ob.witness = main
            else:
                ob.status, ob.detail, ob.witness = UNDECIDED, main[1], None

        def settle(spec):
            try:
                once(cuts, spec)
            except Fallback:
                once(None, spec)

        def once(cuts, spec):
            I = self.interp(shapes, cuts, **(ikw or {}))
            a = self.run(I, code or where, inputs, kwargs, setup)
            fns = {f for f in I.functions if not f.startswith('spec')}
            self.functions |= fns
            I2 = self.interp(shapes, cuts, **(ikw or {}))
            I2.nid = I.nid + 100000
            b = self.run(I2, spec if '.' in spec else 'spec.' + spec, inputs,
                         kwargs, setup)
            ta, tb = used_tokens(cuts, a), used_tokens(cuts, b)
            if ta != tb:
                # a helper was inlined or split: look through all of them
                raise Fallback()
            asm = [c(a, I) if callable(c) else c for c in (assume or [])]
            va, vb = a.value, b.value
            if pick is not None:
                va = pick(va, a) if va is not None else None
                vb = pick(vb, b) if vb is not None else None
            va, vb = depy(va), depy(vb)
            self.compare(ob, va, vb, a.raises if raises else FALSE,
                         b.raises if raises else FALSE, asm, domains, cmp,
                         seqlen, tries, tolerate, want)
        self.guard(ob, go)
        return ob

    def compare(self, ob, va, vb, ra, rb, asm, domains, cmp, seqlen, tries=None,
                tolerate=(), want=2):
        tries = tries or self.tries
        why = []
        asm = [c for c in asm if c is not TRUE]
        if ra is not rb:
            facts = ()
            for c in asm:
                facts += tuple(X.flat_facts(c))
            sa = X.context(simp(ra, facts))
            sb = X.context(simp(rb, facts))
            if sa is not sb and not equal(sa, sb):
                sa, sb = X.deep(sa, facts), X.deep(sb, facts)
            if sa is not sb and not equal(sa, sb):
                r = self.differ(ob, ite(ra, ONE, ZERO), ite(rb, ONE, ZERO),
                                asm, domains, None, seqlen, tries, tolerate,
                                want)
                if r == REFUTED:
                    ob.detail = 'raises under other conditions than the ' \
                        'reference: ' + ob.detail
                    return
                why.append('exception conditions: ' + ob.detail)
        if va is None or vb is None:
            if (va is None) == (vb is None) and not why:
                ob.status = PROVED
                return
            ob.status = UNDECIDED
            ob.detail = 'one side never returns; ' + '; '.join(why)
            return
        if va is vb or equal(va, vb):
            ok = True
        else:
            facts = ()
            for c in asm + [not_(ra), not_(rb)]:
                facts += tuple(X.flat_facts(c))
            ok = False
            for norm in (lambda v: simp(v, facts) if facts else v,
                         lambda v: X.deep(v, facts),
                         lambda v: X.deep(v, facts, unroll=13)):
                try:
                    sa, sb = norm(va), norm(vb)
                    ok = sa is sb or equal(sa, sb)
                except (Undecided, RecursionError, KeyError, TypeError,
                        AttributeError, IndexError, ValueError):
                    ok = False
                if ok:
                    break
        if not ok and all(x.op == 'bv' for x in va.syms | vb.syms) and \
                not evalt.opaque_names(va) and not evalt.opaque_names(vb):
            # closed terms have one value
            ok = evalt.constant(va, vb)
        if not ok:
            r = self.differ(ob, va, vb, asm + [not_(ra), not_(rb)], domains,
                            cmp, seqlen, tries, tolerate, want)
            if r == REFUTED:
                return
            why.append('value: ' + ob.detail)
        if why:
            ob.status, ob.detail = UNDECIDED, '; '.join(why)
        else:
            ob.status, ob.detail = PROVED, ''

    def differ(self, ob, va, vb, asm, domains, cmp, seqlen, tries, tolerate,
               want=2):
        oa, obn = evalt.opaque_names(va), evalt.opaque_names(vb)
        extra = {n for n in oa - obn if n not in tolerate}
        if extra:
            ob.status = UNDECIDED
            ob.detail = 'uninterpreted in the code: %s' % sorted(extra)
            return UNDECIDED
        spent = time.time() - self.t0
        left = (700 if self.tier == 'thorough' else 400) - spent
        r = evalt.separate(va, vb, [c for c in asm if c is not TRUE], domains,
                           tries=tries, want=want, seed=self.seed, cmp=cmp,
                           seqlen=seqlen, seconds=max(1, min(self.seconds,
                                                           left / 4)))
        if r['status'] == 'differ':
            ob.status = REFUTED
            ob.witness = r['witness']
            ob.detail = 'code gives %s, reference gives %s' % (r['a'], r['b'])
            return REFUTED
        ob.status = UNDECIDED
        ob.detail = '%s on %d assignments' % (r['status'], r['valid'])
        return UNDECIDED

    def judge(self, name, where, rule, f):
        """f(I) -> None when the rule holds, else text / Undecided raised"""
        ob = self.new(name, where, rule)
        if ob.status == 'skipped':
            return ob

        def go():
            r = f(ob)
            if r is None:
                ob.status = PROVED
            else:
                ob.status, ob.detail = REFUTED, r
        self.guard(ob, go)
        return ob

    # ------------------------------------------------------------- reports
    def finish(self, root, known):
        viol = [o for o in self.obs if o.status == REFUTED]
        und = [o for o in self.obs if o.status == UNDECIDED]
        prov = [o for o in self.obs if o.status == PROVED]
        finds = 0
        new = []
        for o in viol:
            k = '%s :: %s' % (o.where, o.name)
            if k in known:
                print('KNOWN-FINDING: property=%s %s: %s' % (
                    self.pid, k, known[k]))
                finds += 1
            else:
                new.append(o)
        os.makedirs(os.path.join(root, 'evidence'), exist_ok=True)
        ev = dict(
            property=self.pid, tier=self.tier, seed=self.seed, level='other',
            coverage=dict(
                explanation='Static: every listed construct of the current '
                'source was abstractly interpreted into a value number and '
                'compared with that of the reference definition of the '
                'property (or judged by the named effect rule). "proved" = '
                'identical normal forms for all inputs; "undecided" = the '
                'normal form does not settle it and random interpretation of '
                'the two terms found no difference, or the source is outside '
                'the analysed subset; neither raises an alarm.',
                obligations=len(self.obs), discharged=len(prov),
                undecided=len(und), refuted=len(viol),
                known_findings=finds,
                functions_analysed=sorted(self.functions),
                function_count=len(self.functions),
                anchors=sorted(self.anchors),
                samples=[o.as_dict() for o in self.obs]),
            wall_s=round(time.time() - self.t0, 2), violations=len(new))
        with open(os.path.join(root, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        rp = os.path.join(root, 'evidence', self.pid + '.violations.json')
        if os.path.exists(rp):
            os.remove(rp)
        print('%s: %d obligations over %d functions: %d proved, %d undecided, '
              '%d refuted (%.1fs)' % (
                  self.pid, len(self.obs), len(self.functions), len(prov),
                  len(und), len(viol), time.time() - self.t0))
        for o in und:
            print('UNDECIDED %s at %s: %s' % (o.name, o.where, o.detail[:300]))
        if new:
            with open(rp, 'w') as f:
                json.dump([o.as_dict() for o in new], f, indent=1, default=str)
            for o in new:
                print('%s:%s: %s [%s]: %s' % (o.file, o.line, o.where, o.name,
                                             o.detail[:800]))
                if o.witness:
                    print('    for example with %s' % (str(o.witness)[:800]))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        return 0


# ---------------------------------------------------------------- scenarios
def instance(dotted, **attrs):
    """an object of a class of the repository whose other attributes are
    symbolic"""
    def mkinst(I, st, name):
        cls = pyval(I.lookup(dotted))
        o = I.alloc(st, Obj(cls, {}, name))
        c = I.cell(o, st)
        at = {}
        for k, v in attrs.items():
            at[k] = v(I, st, '%s.%s' % (name, k)) if callable(v) else \
                v if isinstance(v, T) else \
                I.make_input('%s.%s' % (name, k), v, st)
        st.heap[o.args[0]] = Obj(c.cls, at, name)
        return o
    return mkinst


def outcome(*paths, value=True, arg=0):
    """the returned value together with the final values of some attributes
    of the receiver (dotted paths)"""
    def pick(v, run):
        out = [v] if value else []
        for p in paths:
            x = run.args[arg]
            for a in p.split('.'):
                x = run.I.getattr(x, a, run.st)
            out.append(run.I.freeze(x, run.st, None))
        return lit(out)
    return pick


def fixed(v):
    return lambda I, st, n: v


def empty_dict(I, st, n):
    return I.newdict(st)


def empty_list(I, st, n):
    return I.newlist(st, lit([]))


# ---------------------------------------------------------------- comparisons
def points(a, b, ev):
    """two borehole fields: the same points, with the same first pair (the pair
    the nominal spacing is taken from)"""
    r = evalt.close(a, b, ev)
    if r is not False:
        return r
    if not isinstance(a, list) or not isinstance(b, list):
        return r
    try:
        pa = [tuple(round(float(ev.num(x)), 6) for x in ev.seq(p)) for p in a]
        pb = [tuple(round(float(ev.num(x)), 6) for x in ev.seq(p)) for p in b]
    except (evalt.Bad, TypeError):
        return False
    return sorted(pa) == sorted(pb) and _gap(pa) == _gap(pb)


def _gap(p):
    if len(p) < 2:
        return 0
    return round((p[0][0] - p[1][0]) ** 2 + (p[0][1] - p[1][1]) ** 2, 4)


def point_list(r):
    from fractions import Fraction
    return [[Fraction(r.randint(0, 40), 4), Fraction(r.randint(0, 40), 4)]
            for _ in range(r.randint(1, 6))]
