"""Folds of an automaton over a sequence: the state after reading the elements in order.  Over an unknown
chunk the state is an uninterpreted function of the chunk and the state before it; over known elements it
is computed."""
import z3

from .engine import *
from .values import *


class Fold:
    def __init__(self, name, sorts, step):
        self.name, self.sorts, self.step = name, sorts, step

    def run(self, e, segs, state):
        """State after reading segs from state (a tuple of terms)."""
        self.link(e)
        return self.read(e, segs, state)

    def link(self, e):
        """Chunks read earlier that were taken apart since then."""
        log = e.ghost.get('folds', ())
        for k, fold, ch, state, after in log:
            if k not in e.lits_seen and tid(ch.t) in e.chunkdefs:
                e.lits_seen.add(k)
                for a, b in zip(after, fold.read(e, (('c', ch),), state)):
                    e.solver.add(a == b)

    def read(self, e, segs, state):
        for s in e.expand(segs):
            if s[0] == 'e':
                state = self.element(e, state, s[1])
            elif s[0] == 'c':
                after = tuple(z3.Function('%s%d' % (self.name, i), SEQ, *[x.sort() for x in state], so)(
                    s[1].t, *state) for i, so in enumerate(self.sorts))
                n = LENF()(s[1].t)
                for a, b in zip(after, state):      # reading nothing changes nothing
                    e.axiom(z3.Implies(n <= 0, a == b))
                k = ('fold', self.name, tid(s[1].t), tuple(tid(x) for x in state))
                log = e.ghost.get('folds', ())
                if all(x[0] != k for x in log):
                    e.ghost['folds'] = log + ((k, self, s[1], state, after),)
                state = after
            elif s[0] == 'o':
                inner = self.read(e, s[2], state)
                state = tuple(z3.simplify(z3.If(s[1], a, b)) for a, b in zip(inner, state))
            else:
                raise Unsupported('automaton over a mapped sequence')
        return state

    def element(self, e, state, v):
        if isinstance(v, CaseV):
            out = None
            for c, x in v.cases:
                st = self.element(e, state, x)
                out = st if out is None else tuple(z3.If(c, a, b) for a, b in zip(st, out))
            return out
        return tuple(z3.simplify(t) for t in self.step(e, state, v))


def fold_template(fold, init, preds):
    """Candidates preds(e, ctx, state of a list) -> [(name, term)]."""
    from .templates import pred, heap_lists

    def template(e, ctx):
        out = []
        acc, _ = heap_lists(ctx)
        for o in acc:
            if o not in ctx.entry.heap:
                continue

            def names(o=o):
                try:
                    st = fold.run(e, e.heap[o].segs, init(e) if callable(init) else init)
                except (Unsupported, KeyError):
                    return {}
                return dict(preds(e, ctx, st))
            for nm in names():
                out.append(pred('%s of %d: %s' % (fold.name, o, nm), e,
                                lambda nm=nm, names=names: names().get(nm)))
        return out
    return template
