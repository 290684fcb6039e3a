"""Rules, obligations and reports."""
import json
import os
import sys
import time
import traceback

from . import loader
from .engine import Deadline, Frame, HObj, Interp, Limit, State, Undecided, tail
from .terms import *  # noqa

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

RULES = {}          # property -> [(name, text, function)]


class Anchor(Exception):
    """A public name the property is about is gone."""


def rule(prop, text):
    def deco(f):
        RULES.setdefault(prop, []).append((f.__name__, text, f))
        return f
    return deco


_loaded = {}


def interp(stubs=(), **config):
    """A fresh interpreter over the current source, with models of the
    named libraries."""
    key = (tuple(stubs),) + tuple(sorted(config.items()))
    if key not in _loaded:
        if 'mods' not in _loaded:
            _loaded['mods'] = loader.read_modules()
        mods = dict(_loaded['mods'])
        for name in stubs:
            mods[name] = loader.read_stub(name)
        I = Interp(mods, config)
        I.load()
        prepare(I)
        _loaded[key] = (I, dict((k, v) for k, v in I.__dict__.items()))
    I, saved = _loaded[key]
    # undo what an earlier rule configured.
    for k in ('policy', 'elem_types', 'inline_limit', 'yield_raises',
              'escapes', 'load_events'):
        setattr(I, k, saved[k])
    for k in ('handlers', 'next_hook', 'concrete_ok', 'unroll_symbolic',
              'maxstack', 'xworld', 'summaries', 'while_rounds',
              'deepest', 'MAXDEPTH'):
        I.__dict__.pop(k, None)
    I.opaque = set()
    I.ext_over = {}
    I.rets = {}
    I.ret_types = {}
    I.field_types = dict(saved['field_types0'])
    I.notes = []
    I.visited = set()
    I.steps = 0
    I.stack = []
    I.trydepth = 0
    I.recursions = set()
    I.loops = {}
    return I


def prepare(I):
    """Fills what the interpreter knows about fields from the sources."""
    import ast
    stored, known = set(), set()
    by_qual = {}
    for q, r in I.classes.items():
        by_qual[q] = r
    for m in I.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(
                    n.ctx, (ast.Store, ast.Del)):
                stored.add(n.attr)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) \
                    and n.func.id in ('setattr', 'delattr') and \
                    len(n.args) > 1:
                if isinstance(n.args[1], ast.Constant):
                    stored.add(n.args[1].value)
    for q, r in I.classes.items():
        o = I.world.get(r)
        for name, v in o.attrs.items():
            f = I.world.get(v) if v[0] == 'r' else None
            if f is None or f.kind != 'func':
                continue
            node = f.meta['node']
            pos = f.meta['pos']
            if not pos or name not in ('__init__', '__new__'):
                continue
            for n in ast.walk(node):
                if isinstance(n, ast.Attribute) and isinstance(
                        n.ctx, ast.Store) and isinstance(
                        n.value, ast.Name) and (n.value.id == pos[0] or
                                                name == '__new__'):
                    known.add((r, n.attr))
    I.stored_names = frozenset(stored)
    I.field_known = frozenset(known)
    I.field_types0 = {}


class Cx(object):
    """What one property check does and found."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.obs = []           # (rule, construct, status, msg, loc)
        self.notes = []
        self.functions = set()
        self.npaths = 0
        self.nevents = 0
        self.rule_name = ''
        self.sites = set()

    # -- obligations

    def ob(self, construct, ok, msg='', loc=None, rule=None):
        """One obligation: True holds, False is violated, None undecided."""
        ok = None if ok is None else bool(ok)
        self.obs.append((rule or self.rule_name, construct, ok, msg, loc))
        if loc:
            self.sites.add(tuple(loc))
        return ok

    def note(self, msg):
        self.notes.append('%s: %s' % (self.rule_name, msg))

    # -- lookups

    def cls(self, I, name):
        r = I.cls(name)
        if r is None:
            raise Anchor('class %s' % name)
        return r

    def func(self, I, name):
        hits = [r for q, r in I.functions.items()
                if q == name or q.endswith('.' + name)]
        if len(hits) > 1:
            hits = [r for q, r in I.functions.items() if q == name] or hits
        if not hits:
            raise Anchor('function %s' % name)
        return hits[0]

    def modvar(self, I, mod, name):
        m = I.modrefs.get(mod)
        if m is None:
            raise Anchor('module %s' % mod)
        o = I.world.get(m)
        if name not in o.attrs:
            raise Anchor('%s.%s' % (mod, name))
        return o.attrs[name]

    # -- running

    def call(self, I, st, f, args=(), kw=None, mod=None):
        """Every path of a call -> [(st, value, exc)]."""
        fr = top(mod)
        outs = I.call(st, f, list(args), dict(kw or {}), None, fr)
        self.done(I, outs)
        return outs

    def method(self, I, st, obj, name, args=(), kw=None):
        """Every path of obj.name(...)."""
        fr = top()
        out = []
        for s, f, exc in I.ga(st, obj, name, None, fr):
            if exc is not None:
                out.append((s, None, exc))
            else:
                out.extend(I.call(s, f, list(args), dict(kw or {}), None,
                                  fr))
        self.done(I, out)
        return out

    def attr(self, I, st, obj, name):
        return I.ga(st, obj, name, None, top())

    def done(self, I, outs):
        self.npaths += len(outs)
        self.functions |= I.visited
        for s, __, __ in outs:
            self.nevents += s.nev


def top(mod=None):
    return Frame(None, mod or 'profiling', qual='<entry>', depth=-1)


def snippet(cx, I, st, src, env=None, mod='profiling'):
    """Interprets a scenario written in Python over the target's sources.

    -> [(st, variables, exc)]; variables holds what the scenario bound.
    """
    import ast
    import textwrap
    tree = ast.parse(textwrap.dedent(src))
    scope = I.new(st, HObj('scope', attrs=dict(env or {}), meta={
        'parent': I.modrefs[mod], 'kind': 'module', 'module': mod,
        'locals': frozenset(), 'globals': frozenset()}))
    # as a module of its own, so that names are looked up there first.
    o = st.mut(scope)
    o.kind = 'module'
    o.meta = {'name': '<scenario>', 'path': '<scenario>'}
    o.attrs.update(env or {})
    fr = Frame(scope, '<scenario>', qual='<scenario>', depth=-1)
    out = []
    for s, kind, val in I.ex(tree.body, st, fr):
        out.append((s, s.get(scope).attrs, val if kind == 'raise' else None))
    cx.npaths += len(out)
    cx.functions |= I.visited
    for s, __, __ in out:
        cx.nevents += s.nev
    return out


def distinct(I, st, *vs):
    """Assumes the values are pairwise different."""
    for i, a in enumerate(vs):
        for b in vs[i + 1:]:
            I.assume(st, I.mkcmp('==', a, b), False)
            I.assume(st, I.mkcmp('is', a, b), False)


def construct(cx, I, st, cref, args=(), kw=None):
    """Instances of a class as its constructor leaves them (no raise)."""
    outs = cx.call(I, st, cref, args, kw)
    return [(s, v) for s, v, exc in outs if exc is None]


# -- reporting

def load_known():
    out = []
    path = os.path.join(HERE, 'known_findings.txt')
    if not os.path.exists(path):
        return out
    for line in open(path):
        line = line.strip()
        if line.startswith('finding: '):
            # finding: property=<id> key=<rule|construct> <what>
            parts = line[9:].split(None, 2)
            d = dict(p.split('=', 1) for p in parts[:2])
            out.append((d['property'], d['key'], parts[2]
                        if len(parts) > 2 else ''))
    return out


LEVEL_EXPL = (
    'Static analysis of the sources in /repo/profiling, read on this run: '
    'every module is interpreted abstractly (values are terms, unknown '
    'conditions split the path, loops are summarised, no code of the target '
    'runs, no solver), and each obligation of the rules is decided on all '
    'paths so obtained.')


#: seconds a check may take; what is not decided by then stays undecided.
BUDGET = 700


def run(prop, tier, seed):
    from . import rules  # noqa: loads all rule modules
    t0 = time.time()
    cx = Cx(prop, tier, seed)
    todo = RULES.get(prop, [])
    if not todo:
        print('no rules for %s' % prop)
        return 2
    texts = []
    anchors = []
    for name, text, f in todo:
        cx.rule_name = name
        texts.append('%s: %s' % (name, text))
        n0 = len(cx.obs)
        # one rule may take what the rules so far left of the budget.
        Deadline.at = min(t0 + BUDGET, time.time() + BUDGET / 2)
        try:
            f(cx)
        except Anchor as e:
            # what the rule looks at is gone or renamed: nothing was decided
            # by this rule.
            anchors.append('%s: anchor gone: %s' % (name, e))
            cx.ob('(whole rule)', None, 'anchor gone: %s' % e)
        except (Undecided, RecursionError) as e:
            cx.ob('(whole rule)', None, 'undecided: %s' % e)
        except Exception as e:
            if os.environ.get('VERIF_DEBUG'):
                traceback.print_exc()
            tb = traceback.extract_tb(sys.exc_info()[2])[-1]
            cx.ob('(whole rule)', None, 'analysis error: %s: %s (%s:%d)' % (
                type(e).__name__, e, os.path.basename(tb[0]), tb[1]))
        if len(cx.obs) == n0:
            cx.ob('(whole rule)', None, 'no instance found')
    bad, undec = {}, []
    for r, c, ok, msg, loc in cx.obs:
        if ok is False:
            bad.setdefault('%s|%s' % (r, c.replace(' ', '_')), (r, c, msg,
                                                                loc))
        elif ok is None:
            undec.append('%s: %s: %s' % (r, c, msg))
    known = dict((k, w) for p, k, w in load_known() if p == prop)
    new = [k for k in sorted(bad) if k not in known]
    for k in sorted(bad):
        if k in known:
            print('KNOWN-FINDING: property=%s %s: %s' % (
                prop, bad[k][1], known[k] or bad[k][2]))
    decided = [o for o in cx.obs if o[2] is not None]
    held = [o for o in cx.obs if o[2] is True]
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    distinct = sorted(set((o[0], o[1]) for o in decided))
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': LEVEL_EXPL,
            'rules': texts,
            'obligations': len(cx.obs),
            'discharged': len(held),
            'undecided': undec[:50],
            'known_findings': [k for k in sorted(bad) if k in known],
            'distinct_instances': len(distinct),
            'functions_analysed': sorted(cx.functions),
            'paths': cx.npaths,
            'events': cx.nevents,
            'sites': sorted('%s:%s' % s for s in cx.sites)[:200],
            'samples': ['%s: %s: %s%s' % (
                o[0], o[1], 'holds' if o[2] else 'VIOLATED',
                ' (%s)' % o[3] if o[3] else '')
                for o in decided[:60]],
            'notes': cx.notes[:50],
        },
        'assumptions': [
            'calls out of the repository behave as documented and may raise '
            'where the rule says so',
            'attributes are not redefined from outside of the repository'],
        'wall_s': round(time.time() - t0, 3),
        'violations': len(new),
    }
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as fp:
        json.dump(ev, fp, indent=1)
        fp.write('\n')
    for u in undec[:12]:
        print('UNDECIDED %s' % u[:400])
    for a in anchors:
        print('BROKEN %s' % a)
    if new:
        os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
        for i, k in enumerate(new):
            r, c, msg, loc = bad[k]
            path = os.path.join(HERE, 'evidence', 'replay',
                                '%s-%d.txt' % (prop, i))
            text = dict((n, t) for n, t, __ in todo).get(r.split('/')[0], '')
            with open(path, 'w') as fp:
                fp.write('property %s\nrule %s: %s\nconstruct %s\n%s\nat %s\n'
                         % (prop, r, text, c, msg,
                            '%s:%s' % tuple(loc) if loc else '?'))
            if i < 12:
                print('%s%s: %s: %s' % ('%s:%s: ' % tuple(loc) if loc else '',
                                        r, c, msg[:600]))
                print('VIOLATION property=%s replay=%s' % (prop, path))
        if len(new) > 12:
            print('%d more violations' % (len(new) - 12))
        return 1
    if not decided:
        print('nothing could be decided')
        return 2
    print('%s: %d obligations, %d hold, %d undecided, %d functions, '
          '%d paths' % (prop, len(cx.obs), len(held), len(undec),
                        len(cx.functions), cx.npaths))
    return 0
