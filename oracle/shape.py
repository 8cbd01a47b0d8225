"""Do the trees the parser builds have the shape the contracts of validation and rendering assume
(pyvc/specs/nodes.py)?  Constructors of grammar/sql.py record what they are given; reported as evidence."""
import functools
import inspect

from pyvc.specs import nodes

from . import base, sqlgen


def fits(v, t):
    k = t[0]
    if k in ('str', 'lit'):
        return isinstance(v, str)
    if k == 'int':
        return type(v) is int or isinstance(v, str) and v.lstrip('-').isdigit()     # int() of it is kept
    if k == 'float':
        return isinstance(v, (float, str))     # float() of it is kept
    if k == 'bool':
        return v is None or isinstance(v, (bool, str, int))     # used for its truth only
    if k == 'type':
        return isinstance(v, type)
    if k == 'obj':
        return type(v).__name__ in t[1]
    if k == 'opt':
        return v is None or fits(v, t[1])
    if k == 'union':
        return any(fits(v, x) for x in t[1])
    if k == 'list':
        return isinstance(v, (list, tuple)) and all(fits(x, t[1]) for x in v)
    if k == 'tup':
        return isinstance(v, (list, tuple)) and len(v) == len(t[1]) and all(fits(x, y) for x, y in zip(v, t[1]))
    return False


def facts(name, a):
    """The facts of nodes.install, on real values."""
    kind = lambda x: type(x).__name__
    if name == 'Condition' and a['predicate'].lower() == 'between':
        return kind(a['right_hand']) == 'BooleanCondition'
    if name == 'LimitClause':
        return bool(a['limit_all']) or a['expression'] is not None
    if name == 'ChainedColumns':
        return len(a['args']) >= 1
    if name in ('GroupByClause', 'OrderByClause'):
        return len(a['args']) >= 1
    if name == 'SelectStatement':
        return a['from_statement'] is None or from_item(a['from_statement'])
    if name == 'Join':
        return from_item(a['left_from']) and from_item(a['right_from'])
    if name == 'Boolean':
        return str(a['value']).lower() in ('true', 'yes', 'false', 'no')
    if name == 'ReplaceClause':
        return all(not isinstance(x.alias, str) for x in a['args'])
    return True


def from_item(x):
    """What stands where FROM items stand: brackets hold one item, an alias is a name or a literal."""
    if type(x).__name__ == 'Parenthesis':
        return len(x.args) == 1 and from_item(x.args[0])
    if type(x).__name__ == 'Alias':
        return (isinstance(x.alias, str) or type(x.alias).__name__ == 'String') and from_item(x.expression)
    return True


class Recorder:
    def __init__(self):
        base.load()
        from sqlvalidator.grammar import sql
        self.log, self.checked, self.bad, self.kinds = [], 0, {}, set()
        for name in nodes.SCHEMA:
            c = getattr(sql, name, None)
            if c is not None and name != '_FieldInfo':
                self.wrap(c)

    def wrap(self, c):
        init = c.__init__
        try:
            sig = inspect.signature(init)
        except (TypeError, ValueError):
            return
        rec = self

        @functools.wraps(init)
        def wrapped(self, *a, **kw):
            init(self, *a, **kw)
            if type(self) is c:
                b = sig.bind(self, *a, **kw)
                b.apply_defaults()
                args = {k: v for k, v in b.arguments.items() if k != next(iter(sig.parameters))}
                rec.log.append((c.__name__, {n: args.get(n) for n in args}))
        c.__init__ = wrapped

    def look(self, text):
        self.log = []
        try:
            q = sqlgen.parse(text)
        except (Exception, RecursionError):
            return
        if q is None:
            return
        for name, a in self.log:
            self.checked += 1
            self.kinds.add(name)
            schema = dict(nodes.SCHEMA[name])
            for k, v in a.items():
                t = schema.get(k) or (schema.get(next(iter(schema), None)) if len(a) == 1 and len(schema) == 1 else None)
                if t is not None and not fits(v, t):
                    self.bad.setdefault('%s.%s' % (name, k), [text, repr(v)[:200]])
            try:
                if not facts(name, a):
                    self.bad.setdefault('%s: fact' % name, [text])
            except (KeyError, AttributeError, TypeError):
                pass


def run(seconds, seed):
    import time
    rng, r, t0, n = base.Rng(seed), Recorder(), time.time(), 0
    from . import val
    a, b, c = val.cases(rng, 10 ** 6, []), sqlgen.wild(rng, 10 ** 6), 0
    while time.time() - t0 < seconds:
        n += 1
        r.look(next(a)[0])
        r.look(next(b))
    return {'texts': 2 * n, 'nodes_checked': r.checked, 'classes_seen': sorted(r.kinds), 'mismatches': r.bad}


if __name__ == '__main__':
    import json
    import sys
    sys.setrecursionlimit(1500)
    print(json.dumps(run(float(sys.argv[1]), int(sys.argv[2]))))
