"""Obligation bookkeeping, verdicts, reports and evidence."""
import json
import os
import sys
import time
import traceback
from . import den as D
from . import rinterp
from .values import *
from .harness import H, AnchorMissing, NoResult, Raised, ROOT
from . import lib_tf as TF
from . import lib_np as NP
from . import bdd

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Bad(Exception):
    """the analysed code violates the rule"""

    def __init__(self, msg, site=None):
        Exception.__init__(self, msg)
        self.site = site


class Undec(Exception):
    """the analysis cannot tell"""


def site_str(s):
    return str(s) if s is not None else ''


class Check(object):
    def __init__(self, pid, tier='quick'):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.held = 0
        self.viol = []          # (rule, construct, instance, msg, site)
        self.undec = []
        self.rules = {}         # rule -> [instances, held, undecided, violated]
        self.constructs = {}
        self.samples = []
        self.funcs = {}
        self.interps = []
        self.errors = []
        self.deadline = None

    @property
    def thorough(self):
        return self.tier == 'thorough'

    # --------------------------------------------------------------- engine
    def h(self, **kw):
        h = H(**kw)
        self.interps.append(h)
        return h

    def note(self, I):
        for k in I.funcs_seen:
            self.funcs[':'.join(k)] = 1

    # ---------------------------------------------------------- obligations
    def ob(self, rule, construct, inst, fn):
        """one obligation: fn() returns normally (holds), raises Bad or Undec"""
        r = self.rules.setdefault(rule, [0, 0, 0, 0])
        r[0] += 1
        self.constructs[(rule, construct)] = self.constructs.get((rule, construct), 0) + 1
        if time.time() - self.t0 > (700 if self.thorough else 300):
            r[2] += 1
            self.undec.append((rule, construct, inst, 'time budget'))
            return None
        try:
            out = fn()
            r[1] += 1
            self.held += 1
            if len(self.samples) < 12 and r[1] <= 2:
                self.samples.append('%s | %s | %s: holds%s' % (rule, construct, inst, (' (%s)' % out) if isinstance(out, str) else ''))
            return True
        except Bad as e:
            r[3] += 1
            self.viol.append((rule, construct, inst, str(e), site_str(e.site)))
            return False
        except Undec as e:
            why = str(e)
        except AnchorMissing:
            raise
        except Raised as e:
            s = e.exc.site
            if s is not None and not getattr(e, 'lossy', False):
                r[3] += 1
                self.viol.append((rule, construct, inst, 'raises %s for a valid input' % e.exc, site_str(s)))
                return False
            why = 'raised %s after an imprecise step' % e.exc
        except NoResult as e:
            why = str(e)
        except RecursionError:
            why = 'term too deep'
        except (Unsupported, D.ShapeErr, D.Undecided, Dead) as e:
            why = '%s: %s' % (type(e).__name__, e)
        except Exception as e:
            why = 'analysis error %s: %s' % (type(e).__name__, e)
            self.errors.append((rule, construct, inst, traceback.format_exc()))
        r[2] += 1
        self.undec.append((rule, construct, inst, why[:300]))
        return None

    def broken(self, fn, e):
        """a rule could not be set up: everything it had left to ask is undecided"""
        r = self.rules.setdefault(fn.__name__, [0, 0, 0, 0])
        r[0] += 1
        r[2] += 1
        self.undec.append((fn.__name__, self.pid, 'rest of the rule', 'analysis error %s: %s' % (type(e).__name__, str(e)[:200])))
        self.errors.append((fn.__name__, self.pid, '', traceback.format_exc()))

    # -------------------------------------------------------------- compare
    def leaves(self, h, v):
        I = h.I
        v = I.simp(v)
        if isinstance(v, GVal):
            return [(g, x) for g, x in I.alts(v)]
        return [(bdd.TRUE, v)]

    def eq(self, h, got, want, what='result', dtype=None, site=None):
        """the abstract value got denotes want on every path"""
        I = h.I
        for g, leaf in self.leaves(h, got):
            d = h.den(leaf)
            s = getattr(leaf, 'site', None) or site
            cond = '' if g == bdd.TRUE else ' when %s' % bdd.describe(g)
            if bdd.unsure(g):
                raise Undec('%s depends on a condition that is not tracked' % what)
            if leaf is None:
                raise Bad('%s is None%s' % (what, cond), s)
            if d is None:
                raise Undec('%s not tracked: %s' % (what, str(leaf)[:120]))
            self.eqd(d, want, what + cond, s)
            if dtype is not None:
                dt = getattr(leaf, 'dtype', None)
                if dt is None and isinstance(leaf, Ref):
                    o = I.obj(leaf)
                    if o.kind == 'ndarray':
                        dt = o.data[1]
                dt = getattr(dt, 'name', dt)
                if dt is None:
                    raise Undec('dtype of %s not tracked' % what)
                if str(dt).replace('_ref', '') != dtype:
                    raise Bad('%s has dtype %s, expected %s' % (what, dt, dtype), s)

    def eqd(self, d, want, what='result', site=None):
        if D.equal(d, want)[0]:
            return
        r = rinterp.compare(d, want)
        if r == 'equal':
            return
        if r[0] == 'differ':
            raise Bad('%s is %s, specified %s; %s' % (what, D.clip(repr(d), 260), D.clip(repr(want), 260), r[1]), site)
        raise Undec('%s: %s' % (what, r[1]))

    # --------------------------------------------------------------- finish
    def report(self, explanation, assumptions=()):
        known = load_known()
        groups = {}
        for v in self.viol:
            groups.setdefault((v[0], v[1]), []).append(v)
        fresh = {k: vs for k, vs in groups.items() if (self.pid, k[0], k[1]) not in known}
        for k, vs in groups.items():
            if k not in fresh:
                print('KNOWN-FINDING: property=%s rule=%s construct=%s %s' % (self.pid, k[0], k[1], vs[0][3][:200]))
        wall = time.time() - self.t0
        for h in self.interps:
            self.note(h.I)
        n = sum(r[0] for r in self.rules.values())
        cov = {
            'explanation': explanation,
            'obligations': n, 'discharged': self.held, 'undecided': len(self.undec), 'violated': len(self.viol),
            'rules': {k: {'instances': r[0], 'hold': r[1], 'undecided': r[2], 'violated': r[3]} for k, r in sorted(self.rules.items())},
            'constructs': sorted('%s @ %s (%d)' % (k[0], k[1], c) for k, c in self.constructs.items()),
            'functions_analysed': sorted(self.funcs),
            'undecided_list': ['%s | %s | %s: %s' % u for u in self.undec[:40]],
            'samples': self.samples,
            'root': ROOT,
        }
        ev = {'property': self.pid, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
              'coverage': cov, 'assumptions': list(assumptions) or ASSUME, 'wall_s': round(wall, 2), 'violations': sum(len(v) for v in fresh.values())}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
            f.write('\n')
        print('%s: %d obligations, %d hold, %d undecided, %d violated (%.1fs)' % (self.pid, n, self.held, len(self.undec), len(self.viol), wall))
        for u in self.undec[:5]:
            print('  UNDECIDED %s | %s | %s: %s' % u)
        for e in self.errors[:1]:
            sys.stderr.write(e[3])
        if fresh:
            rp = os.path.join(VERIF, 'evidence', self.pid + '.violation.txt')
            with open(rp, 'w') as f:
                for k, vs in sorted(fresh.items()):
                    for v in vs[:20]:
                        f.write('rule %s\nconstruct %s\ninstance %s\nsite %s\n  %s\n\n' % (v[0], v[1], v[2], v[4], v[3]))
            for k, vs in sorted(fresh.items()):
                v = vs[0]
                print('  [%s] %s (%s) at %s: %s  (%d instance%s)' % (v[0], v[1], v[2], v[4], v[3][:600], len(vs), 's' if len(vs) > 1 else ''))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        if n == 0 or self.held == 0:
            print('%s: nothing could be decided' % self.pid)
            return 2
        return 0


ASSUME = ['documented semantics of the TensorFlow 1.x / NumPy / csv / Python operations used (modelled in /verif/tdsa/lib_*.py)',
          'exact real arithmetic: rounding is not modelled']


def load_known():
    out = set()
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding:'):
                kv = dict(x.split('=', 1) for x in line[len('finding:'):].split(' | ')[0].split() if '=' in x)
                out.add((kv.get('property'), kv.get('rule'), kv.get('construct')))
    return out
