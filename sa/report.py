"""Obligations, and what became of them.

An obligation is one rule applied to one anchor (a public operation, a kind of source type, a target
type, an impl ...).  It is discharged when the rule holds on every path the analysis enumerated for
that anchor; the first path that breaks it is kept as the finding."""
import contextlib
import traceback
from engine import Incomplete, Infeasible
from sem import Missing


class Report:
    def __init__(self, props):
        self.want = set(props)
        self.obs = {}        # (rule, anchor) -> {'props','n','bad':[msg],'where'}
        self.undecided = {}  # (unit) -> reason
        self.missing = []
        self.stats = {}
        self.time = {}

    def ob(self, props, rule, anchor, ok, msg='', where=''):
        if isinstance(props, str):
            props = props.split()
        o = self.obs.get((rule, anchor))
        if o is None:
            o = self.obs[(rule, anchor)] = {'props': set(props), 'n': 0, 'bad': [], 'where': where}
        o['props'] |= set(props)
        o['n'] += 1
        if where and not o['where']:
            o['where'] = where
        if not ok:
            o['bad'].append((msg() if callable(msg) else msg, where))
        return ok

    @contextlib.contextmanager
    def unit(self, props, name):
        if isinstance(props, str):
            props = props.split()
        try:
            yield
        except Missing as x:
            self.missing.append((set(props), name, str(x)))
        except Incomplete as x:
            self.undecided[name] = (set(props), 'analysis incomplete: %s' % x)
        except Infeasible:
            self.undecided[name] = (set(props), 'no feasible path')
        except RecursionError:
            self.undecided[name] = (set(props), 'recursion limit')
        except Exception as x:
            self.undecided[name] = (set(props), 'unexpected shape: %s: %s' % (type(x).__name__, traceback.format_exc(limit=-3)))

    def count(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n
