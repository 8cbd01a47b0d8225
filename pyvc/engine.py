"""Path exploration, solver access, normal forms and the equality prover."""
import copy
import itertools
import os
import time

import z3

from .solver import Solver
from .values import *

SOLVER_MS = 4000
QUICK_MS = 400
TRACE = float(os.environ.get('VP_TRACE', 0))


class Stop(Exception):
    """The current path ends here (infeasible, or its obligation has been discharged)."""


class Unsupported(Exception):
    """The verifier cannot interpret this construct: the function is undecided."""


class Restart(Exception):
    """A candidate invariant was dropped or a havoc set grew: run the exploration again."""


class Budget(Exception):
    pass


class SubRes:
    __slots__ = ('out', 'val', 'conds', 'facts', 'snap', 'rfacts')

    def __init__(self, out, val, conds, facts, snap, rfacts):
        self.out = out
        self.val = val
        self.conds = conds
        self.facts = facts
        self.snap = snap
        self.rfacts = rfacts

    @property
    def cond(self):
        return z3.simplify(z3.And(self.conds)) if self.conds else z3.BoolVal(True)


def LENF():
    return z3.Function('LEN', SEQ, INT)


WS = (' ', '\n', '\t')


def strip_ws(s):
    return s.replace(' ', '').replace('\n', '').replace('\t', '')


_GEN = {}           # tid -> generic constant


def generic(name, sort):
    c = z3.Const(name, sort)
    _GEN[tid(c)] = c
    return c


_FG = {}


def free_generics(t):
    """Generic constants occurring in a z3 term, in order of first occurrence."""
    i = tid(t)
    r = _FG.get(i)
    if r is None:
        if i in _GEN:
            r = (t,)
        else:
            seen, out = set(), []
            for ch in t.children():
                for g in free_generics(ch):
                    if g.get_id() not in seen:
                        seen.add(g.get_id())
                        out.append(g)
            r = tuple(out)
        _FG[i] = r
    return r


class Collect:
    """Generic constants occurring free in a value."""

    def __init__(self):
        self.gens = {}
        self.bound = set()

    def __call__(self, t):
        for g in free_generics(t):
            self.gens.setdefault(g.get_id(), g)

    def free(self):
        return [g for i, g in self.gens.items() if i not in self.bound]


def walk_terms(v, f):
    """Apply f to every z3 term in a value, piece or segment tuple."""
    if v is None or isinstance(v, (bool, int, float, str, Ref)):
        return
    if isinstance(v, tuple):
        for x in v:
            walk_terms(x, f)
    elif isinstance(v, (SInt, SBool, TypeV, Atom, ObjV, Chunk)):
        f(v.t)
    elif isinstance(v, SStr):
        for p in v.ps:
            walk_terms(p, f)
    elif isinstance(v, JoinP):
        walk_terms(v.sep, f)
        walk_terms(v.segs, f)
    elif isinstance(v, (CaseP, CaseV)):
        for c, x in v.cases:
            f(c)
            walk_terms(x, f)
    elif isinstance(v, FnP):
        walk_terms(v.arg, f)
    elif isinstance(v, STuple):
        walk_terms(v.segs, f)
    elif isinstance(v, RecV):
        for x in v.fields.values():
            walk_terms(x, f)
    elif isinstance(v, Lam):
        bound = {p.get_id() for p in v.params}
        if isinstance(f, Collect):
            f.bound |= bound
        for c, fs, x in v.cases:
            f(c)
            walk_terms(x, f)
    elif isinstance(v, z3.ExprRef):
        f(v)
    elif isinstance(v, Opaque):
        walk_terms(v.data, f)


def ground_condition(pred, params):
    """A condition in pred that does not depend on params."""
    ids = {p.get_id() for p in params}
    dep = {}

    def depends(t):
        r = dep.get(t.get_id())
        if r is None:
            r = dep[t.get_id()] = t.get_id() in ids or any(depends(c) for c in t.children())
        return r

    def walk(t):
        if t.sort() == BOOL and not depends(t) and not z3.is_true(t) and not z3.is_false(t):
            return t
        for c in t.children():
            r = walk(c)
            if r is not None:
                return r
        return None
    return walk(pred)


def lift(pred, params):
    """(pred with the texts and numbers that do not depend on params replaced by placeholders, the placeholders'
    values): equal values then give equal counts."""
    ids = {p.get_id() for p in params}
    seen, subs, dep = {}, [], {}

    def depends(t):
        r = dep.get(t.get_id())
        if r is None:
            r = dep[t.get_id()] = t.get_id() in ids or any(depends(c) for c in t.children())
        return r

    def walk(t):
        if depends(t):
            for c in t.children():
                walk(c)
        elif t.sort() in (STR, INT) and not z3.is_string_value(t) and not z3.is_int_value(t) and t.get_id() not in seen:
            g = generic('lift%d_%s' % (len(subs), t.sort().name()), t.sort())
            seen[t.get_id()] = g
            subs.append((t, g))
        else:
            for c in t.children():
                if c.sort() in (STR, INT) or c.sort() == BOOL:
                    walk(c)
    walk(pred)
    return (zsub(pred, subs) if subs else pred), [(g, t) for t, g in subs]


class Engine:
    def __init__(self, program):
        self.program = program
        self.counts = {}
        self.obl = {}               # name -> dict(status, paths, time, detail)
        self.stats = {'paths': 0, 'queries': 0, 'solver_s': 0.0, 'unknown': 0, 'max_query_s': 0.0}
        self.memo = {}              # structural key -> UF (decl)
        self.memo_n = itertools.count()
        self.oids = {}              # allocation site -> identity of the heap object
        self.persist = {}           # survives restarts: loop knowledge
        self.chunkrules = {}        # (hom or '', uf name) -> callable(term) -> rope (concatenation)
        self.chunkfacts = {}        # uf name -> f(chunk term, element terms) -> facts
        self.hom_facts = []
        self.homrules = {}          # (hom, uf name) -> callable(term) -> rope
        self.functional = {}        # misc registries used by contracts
        self.deadline = None
        self.lits = {}
        self.subs_used = set()
        self.cur = None
        self.inliteral = True
        self.used = {'contract': set(), 'body': set(), 'external': set()}
        self.finished = 0           # paths that reached the end under satisfiable assumptions
        self.reset()

    # ------------------------------------------------------------ state
    def reset(self):
        self.solver = Solver(self.view_first)
        self.solver.set('timeout', SOLVER_MS)
        self.pc = []
        self.rfacts = []
        self.heap = {}
        self.objs = {}
        self.chunkdefs = {}
        self.foralls = {}
        self.ghost = {}
        self.count_log = ()
        self.frames = []
        self.params = []
        self.n = 0
        self.sites = {}
        self.subn = 0
        self.defs = []
        self.lits_seen = set()
        self.joins = {}
        self.written = []           # frame violations: writes to objects that are not fresh
        self.prove_cache = {}
        self.depth = 0
        self.callstack = []
        self.loopctx = []
        self.pcver = 0

    def snapshot(self):
        return (dict((k, v.clone()) for k, v in self.heap.items()),
                dict((k, v.clone()) for k, v in self.objs.items()),
                dict(self.chunkdefs), dict((k, list(v)) for k, v in self.foralls.items()),
                dict(self.ghost),
                [(f, dict(f.vars)) for f in self.frames], len(self.pc), len(self.rfacts),
                list(self.written), set(self.lits_seen), len(self.params), len(self.callstack),
                self.depth)

    def restore(self, s):
        (heap, objs, cd, fa, ghost, frames, npc, nrf, written, lits, nparams, ncs, depth) = s
        self.heap = dict((k, v.clone()) for k, v in heap.items())
        self.objs = dict((k, v.clone()) for k, v in objs.items())
        self.chunkdefs = dict(cd)
        self.foralls = dict((k, list(v)) for k, v in fa.items())
        self.ghost = dict(ghost)
        self.frames = [f for f, _ in frames]
        for f, vs in frames:
            f.vars = dict(vs)
        del self.pc[npc:]
        del self.rfacts[nrf:]
        self.written = list(written)
        self.lits_seen = set(lits)
        del self.params[nparams:]
        del self.callstack[ncs:]
        self.depth = depth
        self.pcver += 1

    # ------------------------------------------------------------ symbols
    def name(self, base):
        self.n += 1
        return '%s!%d' % (base, self.n)

    def fresh(self, base, sort):
        nm = self.name(base)
        if self.params:
            return z3.Function(nm, *([p.sort() for p in self.params] + [sort]))(*self.params)
        return z3.Const(nm, sort)

    def memo_const(self, key_value, sort, tag):
        """Term of the given sort determined by a structural value (an UF of its generic constants)."""
        col = Collect()
        walk_terms(key_value, col)
        gens = col.free()
        if gens:
            subs = []
            for i, g in enumerate(gens):
                subs.append((g, z3.Const('##%d_%s' % (i, g.sort().name()), g.sort())))
            kv = subst_any(key_value, subs)
        else:
            kv = key_value
        key = (tag, sort.name(), anykey(kv), tuple(g.sort().name() for g in gens))
        d = self.memo.get(key)
        if d is None:
            nm = '%s#%d' % (tag, next(self.memo_n))
            d = z3.Function(nm, *([g.sort() for g in gens] + [sort]))
            self.memo[key] = d
        return d(*gens)

    # ------------------------------------------------------------ solver
    def add(self, c, kind):
        if isinstance(c, bool):
            c = z3.BoolVal(c)
        if z3.is_true(c):
            return
        self.pc.append((kind, c))
        self.solver.add(c)
        self.note_lits(c)
        self.pcver += 1

    def axiom(self, c):
        """A fact that holds on every path; it outlives the branch that needed it first."""
        k = ('ax', tid(c))
        if k in self.lits_seen:
            return
        self.lits_seen.add(k)
        self.solver.add(c)
        self.defs.append(c)
        self.pcver += 1

    def assume(self, c):
        self.add(c, 'f')

    def assume_branch(self, c):
        self.add(c, 'b')

    def check(self, *cs):
        if self.deadline and time.time() > self.deadline:
            raise Budget()
        t0 = time.time()
        for c in cs:
            self.note_lits(c)
        r = self.solver.check(*cs)
        dt = time.time() - t0
        if TRACE and dt > TRACE:
            print('SLOW %.1f %s %s' % (dt, r, [str(c)[:300] for c in cs]), flush=True)
        self.stats['queries'] += 1
        self.stats['solver_s'] += dt
        self.stats['max_query_s'] = max(self.stats['max_query_s'], dt)
        if r == z3.unknown:
            self.stats['unknown'] += 1
        return r

    def quick(self, c):
        """Feasibility with a short time limit: an undecided branch is explored."""
        self.solver.set('timeout', QUICK_MS)
        try:
            return self.check(c) != z3.unsat
        finally:
            self.solver.set('timeout', SOLVER_MS)

    # ground facts about string literals ------------------------------------
    UNARY = {
        'LOWER': lambda s: s.lower(), 'UPPER': lambda s: s.upper(), 'NOWS': strip_ws,
    }

    def note_lits(self, t):
        todo = [t]
        seen = self._lit_terms = getattr(self, '_lit_terms', {})
        while todo:
            x = todo.pop()
            i = tid(x)
            r = seen.get(i)
            if r is None:
                r = self._scan(x)
                seen[i] = r
            for lit in r:
                if lit not in self.lits_seen:
                    self.lits_seen.add(lit)
                    self.lit_axioms(lit)

    def _scan(self, t):
        out, todo, done = set(), [t], set()
        while todo:
            x = todo.pop()
            if x.get_id() in done:
                continue
            done.add(x.get_id())
            if z3.is_string_value(x):
                out.add(pystr(x))
            else:
                todo.extend(x.children())
        return out

    def lit_axioms(self, s):
        if len(s) > 40:
            return
        v = sval(s)
        ax = [uf('LOWER', STR, STR)(v) == sval(s.lower()),
              uf('UPPER', STR, STR)(v) == sval(s.upper()),
              uf('ISDIGIT', STR, BOOL)(v) == z3.BoolVal(s.isdigit()),
              uf('NOWS', STR, STR)(v) == sval(strip_ws(s)),
              uf('NODOT', STR, STR)(v) == sval(s.replace('.', ''))]
        for sub in self.subs_used:
            ax.append(uf('CONT', STR, STR, BOOL)(v, sval(sub)) == z3.BoolVal(sub in s))
        for g in self.functional.get('lit_axioms', ()):
            ax.extend(g(s, v))
        for a in ax:
            self.solver.add(a)

    # ------------------------------------------------------------ branching
    def branch(self, cond):
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(d)
            if d in (0, 1):                 # both sides were feasible
                self.assume_branch(cond if d else z3.Not(cond))
                return bool(d)
            return d == 3                   # forced: 2 False, 3 True
        t, f = self.quick(cond), self.quick(z3.Not(cond))
        self.pos += 1
        if t and f:
            self.pending.append(self.trace + [0])
            self.trace.append(1)
            self.assume_branch(cond)
            return True
        if not t and not f:
            raise Stop()
        self.trace.append(3 if t else 2)
        return t

    def choose(self, n, label=''):
        """Nondeterministic choice: all of 0..n-1 are explored."""
        if n == 1:
            return 0
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(d)
            return d
        self.pos += 1
        for k in range(n - 1, 0, -1):
            self.pending.append(self.trace + [k])
        self.trace.append(0)
        return 0

    view_first = False
    defer = False
    kept = None         # obligations of the explorations before this one
    dropping = []       # candidates found wrong in this exploration

    def explore(self, thunk, max_paths=20000):
        """Run thunk on every path from a fresh state."""
        while True:
            try:
                pending = [[]]
                n = 0
                self.subcache = {}
                while pending:
                    self.reset()
                    self.prefix, self.pos, self.trace, self.pending = pending.pop(), 0, [], pending
                    n += 1
                    self.stats['paths'] += 1
                    if n > max_paths:
                        raise Budget()
                    try:
                        thunk()
                    except Stop:
                        pass
                    except Unsupported:
                        if not self.dropping:
                            raise
                        raise Restart()
                if self.dropping:
                    raise Restart()
                return n
            except Restart:
                for info, nm in self.dropping:
                    info['dropped'].add(nm)
                self.dropping = []
                self.stats['restarts'] = self.stats.get('restarts', 0) + 1
                if self.stats['restarts'] > 300:
                    raise Unsupported('no stable loop invariant')
                if self.kept is not None:
                    self.obl = copy.deepcopy(self.kept)
                    continue
                for o in list(self.obl):
                    if self.obl[o].get('run') == self.cur:
                        del self.obl[o]
                continue

    def sub(self, thunk, salt=()):
        """Explore thunk on all its paths from the current state; restore the state afterwards."""
        self.subn += 1
        key = (tuple(self.trace[:]), self.subn, salt)
        if key in self.subcache:
            results, nmax, subn, smax, defs = self.subcache[key]
            for c in defs:
                self.axiom(c)
            self.n, self.subn = nmax, subn
            self.sites = dict(smax)
            return results
        results = []
        snap = self.snapshot()
        saved = (self.prefix, self.pos, self.trace, self.pending)
        nmax = self.n
        n0 = self.n
        s0, smax = dict(self.sites), dict(self.sites)
        subn0 = self.subn
        subn = self.subn
        ndefs = len(self.defs)
        pending = [[]]
        base_trace = list(self.trace)
        npaths = 0
        try:
            while pending:
                self.restore(snap)
                self.n = n0
                self.sites = dict(s0)
                self.subn = subn0
                self.solver.push()
                self.prefix, self.pos, self.trace, self.pending = pending.pop(), 0, [], pending
                npaths += 1
                if npaths > 3000:
                    raise Budget()
                npc, nrf = len(self.pc), len(self.rfacts)
                cache_keep = self.subcache
                self.subcache = {}
                try:
                    out, val = thunk()
                    ok = True
                except Stop:
                    ok = False
                finally:
                    self.subcache = cache_keep
                if ok:
                    conds = [c for k, c in self.pc[npc:] if k == 'b']
                    facts = [c for k, c in self.pc[npc:] if k == 'f']
                    results.append(SubRes(out, val, conds, facts, self.snapshot(),
                                          list(self.rfacts[nrf:])))
                nmax = max(nmax, self.n)
                for k, c in self.sites.items():
                    smax[k] = max(c, smax.get(k, 0))
                subn = max(subn, self.subn)
                self.solver.pop()
        finally:
            self.prefix, self.pos, self.trace, self.pending = saved
        self.restore(snap)
        self.n = nmax
        self.sites = smax
        self.subn = subn
        self.subcache[key] = (results, nmax, subn, dict(smax), list(self.defs[ndefs:]))
        for c in self.subcache[key][4]:
            self.axiom(c)
        return results

    def scoped(self, *facts):
        return Scope(self, facts)

    # ------------------------------------------------------------ proving
    def valid(self, c):
        """'yes', 'no' or 'unknown'."""
        if isinstance(c, bool):
            c = z3.BoolVal(c)
        c = z3.simplify(c)
        if z3.is_true(c):
            return 'yes'
        key = (tid(c), self.pcver)
        r = self.prove_cache.get(key)
        if r is None:
            q = self.check(z3.Not(c))
            r = {'unsat': 'yes', 'sat': 'no'}.get(str(q), 'unknown')
            self.prove_cache[key] = r
        return r

    def clear(self, c):
        """Valid without z3's string theory; 'no' means not seen."""
        c = z3.simplify(zbool_(c) if not isinstance(c, bool) else z3.BoolVal(c))
        if z3.is_true(c):
            return 'yes'
        key = ('v', tid(c), self.pcver)
        r = self.prove_cache.get(key)
        if r is None:
            r = self.prove_cache[key] = 'yes' if self.solver.clear(z3.Not(c)) else 'no'
        return r

    def implied(self, c):
        return self.valid(c) == 'yes'

    def feasible(self, *cs):
        self.solver.set('timeout', QUICK_MS)
        try:
            return self.check(*cs) != z3.unsat
        finally:
            self.solver.set('timeout', SOLVER_MS)

    def oblige(self, name, goal, detail=None):
        """Record the obligation for the current path. goal: z3 Bool, bool or callable -> status."""
        t0 = time.time()
        st = goal() if callable(goal) else self.valid(goal)
        if st is True:
            st = 'yes'
        elif st is False:
            st = 'no'
        if st != 'yes' and self.check() == z3.unsat:
            st = 'yes'                      # the path itself is infeasible
        o = self.obl.setdefault(name, {'status': 'yes', 'paths': 0, 'time': 0.0, 'detail': None,
                                       'run': self.cur})
        o['paths'] += 1
        o['time'] += time.time() - t0
        if st != 'yes' and (o['status'] == 'yes' or (o['status'] == 'unknown' and st == 'no')):
            o['status'] = st
            d = detail() if callable(detail) else detail
            o['detail'] = {'goal': str(d if d is not None else goal)[:2000],
                           'path': [str(c)[:200] for k, c in self.pc if k == 'b'][-30:]}
            if st == 'no' and not callable(goal):
                try:
                    if self.solver.real.check(z3.Not(goal)) == z3.sat:
                        o['detail']['model'] = str(self.solver.real.model())[:2000]
                except z3.Z3Exception:
                    pass
        return st

    # ------------------------------------------------------------ sequences
    def len_segs(self, segs):
        total, terms = 0, []
        for s in self.expand(segs):
            if s[0] == 'e':
                total += 1
            elif s[0] == 'c':
                terms.append(self.len_chunk(s[1]))
            elif s[0] == 'o':
                n = self.len_segs(s[2])
                terms.append(z3.If(s[1], zint(n), z3.IntVal(0)))
            else:
                terms.append(self.len_fm(s[1], s[2]))
        if not terms:
            return total
        return SInt(z3.simplify(z3.Sum([z3.IntVal(total)] + terms)))

    def len_chunk(self, ch):
        t = LENF()(ch.t)
        self.nonneg(t)
        return t

    def nonneg(self, t):
        k = ('nn', tid(t))
        if k not in self.lits_seen:
            self.lits_seen.add(k)
            if self.params and free_generics(t):
                self.pc.append(('f', t >= 0))
            self.solver.add(t >= 0)

    def len_fm(self, ch, lam):
        lens = [self.len_segs(x) for _, _, x in lam.cases]
        if lens and all(isinstance(n, int) for n in lens):
            if len(set(lens)) == 1:
                return lens[0] * self.len_chunk(ch)
            if set(lens) <= {0, 1}:
                pred = z3.Or([c for (c, _, x), n in zip(lam.cases, lens) if n == 1])
                return self.count(ch, lam.params, pred)
        t = self.memo_const((ch, lam), INT, 'SUMLEN')
        self.nonneg(t)
        return t

    def count(self, ch, params, pred):
        """Number of elements of a chunk satisfying pred (over params)."""
        segs = self.expand((('c', ch),))
        if segs != (('c', ch),):
            terms = []
            for s in segs:
                if s[0] == 'e':
                    terms.append(z3.If(zsub(pred, self.bind(params, s[1])),
                                       z3.IntVal(1), z3.IntVal(0)))
                elif s[0] == 'c':
                    terms.append(self.count(s[1], params, pred))
                else:
                    raise Unsupported('count over %s' % (s,))
            return z3.simplify(z3.Sum(terms)) if terms else z3.IntVal(0)
        pred = z3.simplify(pred)
        if z3.is_false(pred):
            return z3.IntVal(0)
        if z3.is_true(pred):
            return self.len_chunk(ch)
        if self.functional.get('equal_counts'):
            g = ground_condition(pred, params)
            if g is not None:
                yes, no = (self.count(ch, params, zsub(pred, [(g, z3.BoolVal(b))])) for b in (True, False))
                yes, no = (z3.IntVal(n) if isinstance(n, int) else n for n in (yes, no))
                return z3.simplify(z3.If(g, yes, no))
        skel, back = lift(pred, params)
        l = Lam(params, [(skel, [], ())])
        t = zsub(self.memo_const((ch, l), INT, 'COUNT'), back)
        self.nonneg(t)
        if self.functional.get('equal_counts'):
            self.equal_counts(ch, params, pred, t)
        k = ('cl', tid(t))
        if k not in self.lits_seen:
            self.lits_seen.add(k)
            self.axiom(t <= self.len_chunk(ch))
        return t

    def equal_counts(self, ch, params, pred, t):
        """Conditions that are equivalent for every element hold equally often."""
        log = self.count_log
        if any(x[4].eq(t) for x in log):
            return
        self.count_log = log + ((ch, params, pred, self.pcver, t),)
        # (every count met so far: one on this path may come from a sub-computation that was not run again)
        known = list(self.counts.values())
        self.counts[tid(t)] = (ch, params, pred, self.pcver, t)
        _, ps, facts = self.generic_elem(ch.et)
        if [p.sort() for p in ps] != [p.sort() for p in params]:
            return
        pairs = list(zip(ps, params))
        for c2, p2, q, _, t2 in known:
            if not t2.eq(t) and c2.t.eq(ch.t) and [p.sort() for p in p2] == [p.sort() for p in params]:
                with self.scoped(*[zsub(f, pairs) for f in facts]):
                    same = self.valid(pred == zsub(q, list(zip(p2, params)))) == 'yes'
                if same:
                    self.solver.add(t == t2)
                    self.pcver += 1

    def bind(self, params, v):
        atoms = []

        def flat(x):
            if isinstance(x, tuple):
                for y in x:
                    flat(y)
            elif isinstance(x, str) or isinstance(x, SStr):
                atoms.append(self.zstr(x))
            elif isinstance(x, (SInt, SBool, ObjV, TypeV)):
                atoms.append(x.t)
            elif isinstance(x, bool):
                atoms.append(z3.BoolVal(x))
            elif isinstance(x, int):
                atoms.append(z3.IntVal(x))
            elif isinstance(x, RecV):
                atoms.append(self.memo_const(x, OBJ, 'REC'))
            else:
                raise Unsupported('element %r as lambda argument' % (x,))
        flat(v)
        if len(atoms) != len(params) or any(a.sort() != p.sort() for a, p in zip(atoms, params)):
            raise Unsupported('lambda argument shape')
        return list(zip(params, atoms))

    def apply_lam(self, lam, v, assume=True):
        """Segments of lam at element v."""
        pairs = self.bind(lam.params, v)
        out = []
        for c, fs, x in lam.cases:
            c2 = z3.simplify(zsub(c, pairs))
            if z3.is_false(c2):
                continue
            if assume:
                for f in fs:
                    f2 = zsub(f, pairs)
                    self.assume(f2 if z3.is_true(c2) else z3.Implies(c2, f2))
            y = subst_segs(x, pairs)
            if z3.is_true(c2):
                return tuple(out) + y
            if y:
                if all(k[0] == 'o' for k in y):
                    out.extend(('o', z3.And(c2, k[1]), k[2]) for k in y)
                else:
                    out.append(('o', c2, y))
        return tuple(out)

    def expand(self, segs):
        """Unfold decomposed chunks."""
        out = []
        for s in segs:
            if s[0] == 'c' and tid(s[1].t) in self.chunkdefs:
                out.extend(self.expand(self.chunkdefs[tid(s[1].t)]))
            elif s[0] == 'f':
                inner = self.expand((('c', s[1]),))
                if inner == (('c', s[1]),):
                    out.append(s)
                else:
                    for k in inner:
                        if k[0] == 'e':
                            out.extend(self.expand(self.apply_lam(s[2], k[1])))
                        elif k[0] == 'c':
                            out.append(('f', k[1], s[2]))
                        elif k[0] == 'f':
                            out.extend(self.compose(k, s[2]))
                        else:
                            raise Unsupported('nested optional segment')
            elif s[0] == 'o':
                c = z3.simplify(s[1])
                if z3.is_true(c):
                    out.extend(self.expand(s[2]))
                elif not z3.is_false(c):
                    out.append(('o', c, self.expand(s[2])))
            else:
                out.append(s)
        return tuple(out)

    def compose(self, fseg, lam):
        """('f', ch, lam0) mapped by lam."""
        cases = []
        for c, fs, x in fseg[2].cases:
            cases.append((c, fs, self.map_segs(x, lam)))
        return (('f', fseg[1], Lam(fseg[2].params, cases)),)

    def map_segs(self, segs, lam):
        """flatmap of segments by lam."""
        out = []
        for s in self.expand(segs):
            if s[0] == 'e':
                out.extend(self.apply_lam(lam, s[1], assume=False))
            elif s[0] == 'c':
                out.append(('f', s[1], lam))
            elif s[0] == 'o':
                out.append(('o', s[1], self.map_segs(s[2], lam)))
            else:
                out.extend(self.compose(s, lam))
        return tuple(out)

    # ------------------------------------------------------------ strings as z3 terms
    def zstr(self, v):
        ts = []
        for p in pieces(v):
            if isinstance(p, str):
                ts.append(sval(p))
            elif isinstance(p, Atom):
                ts.append(p.t)
            elif isinstance(p, FnP):
                if p.fn in ('upper', 'lower'):
                    ts.append(uf(p.fn.upper(), STR, STR)(self.zstr(p.arg)))
                else:
                    ts.append(uf('%s%r' % (p.fn, p.extra), STR, STR)(self.zstr(p.arg)))
            elif isinstance(p, CaseP):
                t = self.zstr(p.cases[-1][1])
                for c, x in reversed(p.cases[:-1]):
                    t = z3.If(c, self.zstr(x), t)
                ts.append(t)
            else:
                t = self.memo_const(p, STR, 'TXT')
                ts.append(t)
                if isinstance(p, JoinP) and p.sep != '':
                    self.link_join(p, t)
        if not ts:
            return sval('')
        if len(ts) == 1:
            return ts[0]
        return z3.Concat(*ts)

    def link_join(self, p, t):
        """sep.join(segs) + sep is the concatenation of e + sep, unless there is no element."""
        k = ('lj', tid(t))
        if k in self.lits_seen or free_generics(t):
            return
        self.lits_seen.add(k)
        self.joins[k] = p
        saved, self.rfacts = self.rfacts, []
        try:
            n = zint(self.len_segs(p.segs))
            z = self.zstr(self.nf(self.sigma(p.segs, p.sep)))
        finally:
            self.rfacts = saved
        self.solver.add(z3.If(n == 0, t == sval(''), z3.Concat(t, self.zstr(p.sep)) == z))

    # ------------------------------------------------------------ homomorphisms on text
    def hom(self, h, v):
        """Apply the text homomorphism h ('nows' or 'keep') to a rope."""
        out = []
        for p in pieces(v):
            if isinstance(p, str):
                out.append(strip_ws(p))
            elif isinstance(p, Atom):
                if h == 'keep' and p.lit:
                    out.append(p)
                    continue
                t = p.t
                if z3.is_app(t):
                    nm = t.decl().name()
                    r = self.homrules.get((h, nm))
                    if r is not None:
                        out.append(r(t))
                        continue
                    if nm == 'NOWS' or nm == 'KEEP':
                        out.append(p)
                        continue
                    if nm in ('UPPER', 'LOWER'):
                        out.append(FnP(nm.lower(), self.hom(h, rope(Atom(t.arg(0))))))
                        continue
                out.append(Atom(uf('NOWS', STR, STR)(t)))
            elif isinstance(p, FnP):
                if p.fn == 'replace' and not strip_ws(p.extra[0]) and not strip_ws(p.extra[1]) \
                        and p.extra[0] and (h == 'nows' or p.extra[0] == '\n'):
                    out.append(self.hom(h, p.arg))
                elif p.fn in ('upper', 'lower') and (h == 'nows' or not has_lit(p.arg)):
                    a = self.hom(h, p.arg)
                    out.append(self.case_fn(p.fn, a))
                elif p.fn in ('strip',) and (h == 'nows' or not has_lit(p.arg)):
                    out.append(self.hom(h, p.arg))
                else:
                    out.append(FnP(h, rope(p)))
            elif isinstance(p, CaseP):
                out.append(CaseP([(c, self.hom(h, x)) for c, x in p.cases]))
            elif isinstance(p, JoinP):
                q = JoinP(self.hom(h, p.sep), self.hom_segs(h, p.segs, p.sep == ''))
                self.link_empty(h, p, q)
                out.append(q)
            else:
                raise Unsupported('text piece %r' % (p,))
        return rope(*out)

    def link_empty(self, h, p, q):
        """The image of an empty text is empty."""
        k = ('le', h, vkey(rope(p)))
        if k in self.lits_seen or self.params:
            return
        self.lits_seen.add(k)
        saved, self.rfacts = self.rfacts, []
        try:
            a, b = self.zstr(rope(p)), self.zstr(self.nf(rope(q)))
        finally:
            self.rfacts = saved
        if not free_generics(a) and not free_generics(b):
            self.solver.add(z3.Implies(a == sval(''), b == sval('')))

    def case_fn(self, fn, v):
        """upper/lower distributed over the pieces (characters are mapped independently)."""
        out = []
        for p in pieces(v):
            if isinstance(p, str):
                out.append(getattr(p, fn)())
            elif isinstance(p, Atom):
                nm = p.t.decl().name() if z3.is_app(p.t) else ''
                if nm == fn.upper():
                    out.append(p)
                else:
                    out.append(Atom(uf(fn.upper(), STR, STR)(p.t), p.lit))
            elif isinstance(p, CaseP):
                out.append(CaseP([(c, self.case_fn(fn, x)) for c, x in p.cases]))
            elif isinstance(p, FnP) and p.fn == fn:
                out.append(p)
            else:
                out.append(FnP(fn, rope(p)))
        return rope(*out)

    def str_lam(self, et, f):
        """Lam over a generic element of type et; f(value) -> segs."""
        v, params, facts = self.generic_elem(et)
        return Lam(params, [(z3.BoolVal(True), [], f(v))])

    def hom_segs(self, h, segs, concat=False):
        out = []
        for s in segs:
            if s[0] == 'e':
                out.append(('e', self.hom(h, s[1])))
            elif s[0] == 'c':
                r = self.chunkrules.get((h, s[1].t.decl().name())) if concat else None
                if r is not None:
                    out.append(('e', r(s[1].t)))
                    continue
                out.append(('f', s[1], self.str_lam(s[1].et, lambda x: (('e', self.hom(h, x)),))))
            elif s[0] == 'o':
                out.append(('o', s[1], self.hom_segs(h, s[2], concat)))
            else:
                r = self.homrules.get((h, 'elements'))
                if r is not None:
                    r(s[1])
                cases = []
                for c, fs, x in s[2].cases:
                    if not self.homrules:
                        cases.append((c, fs, self.hom_segs(h, x, concat)))
                        continue
                    # rules may depend on the case, and leave facts about its elements
                    with self.scoped(c, *fs):
                        outer, self.hom_facts = self.hom_facts, []
                        try:
                            y = self.hom_segs(h, x, concat)
                        finally:
                            left, self.hom_facts = self.hom_facts, outer
                    ids = {p.get_id() for p in s[2].params}
                    self.hom_facts.extend(f for f in left if not any(g.get_id() in ids for g in free_generics(f)))
                    cases.append((c, list(fs) + left, y))
                out.append(('f', s[1], Lam(s[2].params, cases)))
        return tuple(out)

    # ------------------------------------------------------------ normal forms
    def nf(self, v, deep=True):
        out = []
        for p in pieces(v):
            out.append(self.nf_piece(p, deep))
        return rope(*out)

    def nf_piece(self, p, deep):
        if isinstance(p, str):
            return p
        if isinstance(p, Atom):
            r = self.homrules.get(('nf', p.t.decl().name())) if z3.is_app(p.t) else None
            if r is not None:
                x = r(p.t)
                if x is not None:
                    return self.nf(x, deep)
            return p
        if isinstance(p, FnP):
            a = self.nf(p.arg, deep)
            if p.fn in ('upper', 'lower'):
                return self.case_fn(p.fn, a)
            if p.fn == 'replace':
                return replace_text(a, *p.extra)
            return FnP(p.fn, a, p.extra)
        if isinstance(p, CaseP):
            cases = []
            for c, x in p.cases:
                c = z3.simplify(c)
                if z3.is_false(c):
                    continue
                st = self.clear(c)
                if st == 'yes':
                    return self.nf(x, deep)
                if self.clear(z3.Not(c)) == 'yes':
                    continue
                cases.append((c, self.nf(x, deep)))
            if not cases:
                raise Stop()
            keys = {vkey(x) for _, x in cases}
            if len(keys) == 1:
                return cases[0][1]
            return CaseP(cases)
        if isinstance(p, JoinP):
            sep = self.nf(p.sep, deep)
            segs = self.nf_segs(p.segs, deep)
            if all(s[0] == 'e' for s in segs):
                parts = []
                for i, s in enumerate(segs):
                    if i:
                        parts.append(sep)
                    parts.append(s[1])
                return rope(*parts)
            if sep == '':
                parts = []
                for s in segs:
                    if s[0] == 'e':
                        parts.append(s[1])
                    elif s[0] == 'o':
                        parts.append(CaseP([(s[1], rope(JoinP('', s[2]))), (z3.Not(s[1]), '')]))
                    else:
                        parts.append(self.join_chunk(s))
                r = rope(*parts)
                if all(isinstance(q, (str, Atom)) for q in pieces(r)) or len(parts) == 1:
                    return r if len(parts) != 1 or not isinstance(parts[0], CaseP) \
                        else self.nf_piece(parts[0], deep)
                return rope(*[q if isinstance(q, (str, JoinP)) else self.nf_piece(q, deep)
                              for q in pieces(r)])
            return JoinP(sep, segs)
        raise Unsupported('piece %r' % (p,))

    def join_chunk(self, s):
        """Canonical piece for the concatenation of a 'c' or 'f' segment of strings."""
        if s[0] == 'c':
            r = self.chunkrules.get(('', s[1].t.decl().name()))
            return r(s[1].t) if r is not None else JoinP('', (s,))
        lam = s[2]
        cases = []
        for c, fs, x in lam.cases:
            with self.scoped(c, *fs):
                if self.check() == z3.unsat:
                    continue
                try:
                    cases.append((c, fs, self.nf(rope(JoinP('', x)))))
                except Stop:
                    continue
        # one text for all cases when it fits them all
        for c, fs, x in cases:
            for d, gs, y in cases:
                if y is x:
                    continue
                with self.scoped(d, *gs):
                    if vkey(x) != vkey(y) and self.eq_nf(x, y) != 'yes':
                        break
            else:
                if x == '':
                    return ''
                if isinstance(x, SStr) and len(x.ps) == 1 and isinstance(x.ps[0], Atom) and \
                        len(lam.params) == 1 and z3.eq(x.ps[0].t, lam.params[0]):
                    return JoinP('', (('c', s[1]),))
                return JoinP('', (('f', s[1], Lam(lam.params, [(z3.BoolVal(True), [], (('e', x),))])),))
        return JoinP('', (('f', s[1], Lam(lam.params, [(c, fs, (('e', x),) if x != '' else ())
                                                       for c, fs, x in cases])),))

    def sigma(self, segs, sep=''):
        """Concatenation of e + sep over the elements e."""
        out = []
        for s in self.expand(segs):
            if s[0] == 'e':
                out.append(rope(s[1], sep))
            elif s[0] == 'c':
                if sep == '':
                    out.append(rope(JoinP('', (s,))))
                else:
                    out.append(rope(JoinP('', (('f', s[1], self.str_lam(
                        s[1].et, lambda x: (('e', rope(x, sep)),))),))))
            elif s[0] == 'f':
                out.append(rope(JoinP('', (('f', s[1], Lam(s[2].params, [
                    (c, fs, (('e', self.sigma(x, sep)),)) for c, fs, x in s[2].cases])),))))
            else:
                out.append(rope(CaseP([(s[1], self.sigma(s[2], sep)), (z3.Not(s[1]), '')])))
        return rope(*out)

    def split_path(self):
        """Split the path on the parts of its undecided disjunctive conditions."""
        def parts(c, sign):
            if z3.is_not(c):
                parts(c.arg(0), not sign)
            elif (z3.is_and(c) and not sign) or (z3.is_or(c) and sign):
                for x in c.children():
                    parts(x, sign if not z3.is_not(x) else sign)
                    self.branch(x)
        for k, c in list(self.pc):
            if k == 'b':
                parts(c, True)

    def facts_of(self, t):
        """What is known of every element of a chunk: [function(element terms) -> facts]."""
        out = list(self.foralls.get(tid(t), ()))
        if z3.is_app(t):
            f = self.chunkfacts.get(t.decl().name())
            if f is not None:
                out.append(lambda ps: f(t, ps))
        return out

    def every(self, segs, prop):
        """Does prop (value -> term) hold for every element? 'yes', 'no' or 'unknown'."""
        worst = 'yes'
        for s in self.expand(segs):
            if s[0] == 'e':
                st = self.valid(zbool_(prop(s[1])))
            elif s[0] == 'o':
                with self.scoped(s[1]):
                    st = self.every(s[2], prop)
            elif s[0] == 'c':
                v, params, facts = self.generic_elem(s[1].et)
                for fa in self.facts_of(s[1].t):
                    facts.extend(fa(params))
                with self.scoped(*facts):
                    st = self.valid(zbool_(prop(v)))
            else:
                st = 'yes'
                for c, fs, x in s[2].cases:
                    with self.scoped(c, *fs):
                        if self.check() != z3.unsat:
                            st = self.every(x, prop)
                    if st != 'yes':
                        break
            if st == 'no':
                return 'no'
            if st != 'yes':
                worst = st
        return worst

    def enc(self, segs):
        """The sequence as a text: each element coded by the uninterpreted, injective and prefix-free
        code ENC, so that equal texts mean equal sequences."""
        out = []
        for s in self.expand(segs):
            if s[0] == 'e':
                out.append(self.enc_text(s[1]))
            elif s[0] == 'c':
                r = self.chunkrules.get(('enc', s[1].t.decl().name()))
                out.append(r(s[1].t) if r is not None else rope(JoinP('', (('f', s[1], self.str_lam(
                    s[1].et, lambda x: (('e', self.enc_text(x)),))),))))
            elif s[0] == 'f':
                out.append(rope(JoinP('', (('f', s[1], Lam(s[2].params, [
                    (c, fs, (('e', self.enc(x)),)) for c, fs, x in s[2].cases])),))))
            else:
                out.append(rope(CaseP([(s[1], self.enc(s[2])), (z3.Not(s[1]), '')])))
        return rope(*out)

    def enc_text(self, v):
        if isinstance(v, CaseV):
            return rope(CaseP([(c, self.enc_text(x)) for c, x in v.cases]))
        return rope(Atom(uf('ENC', STR, STR)(self.zstr(v))))

    def nf_segs(self, segs, deep=True):
        out = []
        for s in self.expand(segs):
            if s[0] == 'e':
                out.append(('e', self.nf(s[1], deep) if is_str(s[1]) else s[1]))
            elif s[0] in ('c', 'f'):
                if deep and self.clear(self.len_chunk(s[1]) == 0) == 'yes':
                    continue
                if s[0] == 'f':
                    cases = []
                    for c, fs, x in s[2].cases:
                        if z3.is_false(z3.simplify(c)):
                            continue
                        cases.append((c, fs, tuple(
                            (k[0], self.nf(k[1], False)) if k[0] == 'e' and is_str(k[1]) else k
                            for k in x)))
                    if all(not x for _, _, x in cases):
                        continue
                    out.append(('f', s[1], Lam(s[2].params, cases)))
                else:
                    out.append(s)
            else:
                st = self.valid(s[1]) if deep else 'unknown'
                if st == 'yes':
                    out.extend(self.nf_segs(s[2], deep))
                elif deep and self.valid(z3.Not(s[1])) == 'yes':
                    continue
                else:
                    inner = self.nf_segs(s[2], deep)
                    if inner:
                        out.append(('o', s[1], inner))
        return tuple(out)

    # ------------------------------------------------------------ equality
    def eq_text(self, a, b, hom=None):
        """Prove that two texts (or their images under hom) are equal: 'yes', 'no', 'unknown'."""
        if hom and hom != 'enc':
            a, b = self.hom(hom, a), self.hom(hom, b)
        try:
            a, b = self.nf(a), self.nf(b)
        except Stop:
            return 'yes'
        return self.eq_nf(a, b, hom)

    def eq_nf(self, a, b, hom=None):
        pa, pb = list(pieces(a)), list(pieces(b))
        pa, pb = self.strip_common(pa, pb)
        if not pa and not pb:
            return 'yes'
        # split on a conditional piece
        for side in (pa, pb):
            for i, p in enumerate(side):
                if isinstance(p, CaseP):
                    sts = []
                    for c, x in p.cases:
                        with self.scoped(c):
                            if self.check() == z3.unsat:
                                st = 'yes'
                            else:
                                try:
                                    na = self.nf(rope(*pa))
                                    nb = self.nf(rope(*pb))
                                    st = self.eq_nf(na, nb, hom)
                                except Stop:
                                    st = 'yes'
                        sts.append(st)
                        if st == 'no':
                            break
                    if 'no' in sts:
                        return 'no'
                    return 'unknown' if 'unknown' in sts else 'yes'
        if not any(isinstance(p, JoinP) for p in pa + pb) or self.rfacts:
            za, zb = self.zstr(rope(*pa)), self.zstr(rope(*pb))
            try:
                facts = self.rope_facts(hom)
            except Stop:
                return 'yes'
            if facts:
                r = self.check(za != zb, *facts)
                return {'unsat': 'yes', 'sat': 'no'}.get(str(r), 'unknown')
            return self.valid(za == zb)
        za, zb = self.zstr(rope(*pa)), self.zstr(rope(*pb))
        r = self.valid(za == zb)
        return r

    def add_rfact(self, x, y, h=None, axiom=False):
        """Hypothesis: x and y are equal texts (h: they are images under the homomorphism h;
        axiom: it holds on every path)."""
        self.rfacts.append((x, y, h, axiom))
        self.prove_cache.clear()
        self.emit_rfacts(len(self.rfacts) - 1)

    def emit_rfacts(self, start=0):
        if self.params:
            return
        saved = self.rfacts
        for x, y, h, _ in saved[start:]:
            if h is not None:
                continue
            self.rfacts = []
            try:
                f = self.zstr(self.nf(x, False)) == self.zstr(self.nf(y, False))
            finally:
                self.rfacts = saved
            self.assume(f)

    def rope_facts(self, hom=None):
        facts = []
        if hom and hom != 'enc':
            for k in [k for k in self.lits_seen if k in self.joins]:
                self.hom(hom, rope(self.joins[k]))
        for x, y, h, _ in self.rfacts:
            if h != hom and (h is not None or hom == 'enc'):
                continue
            if hom and h is None:
                x, y = self.hom(hom, x), self.hom(hom, y)
            saved, self.rfacts = self.rfacts, []
            try:
                facts.append(self.zstr(self.nf(x)) == self.zstr(self.nf(y)))
            finally:
                self.rfacts = saved
        return facts

    def strip_common(self, pa, pb):
        def strip(pa, pb, forward=False):
            while pa and pb:
                x, y = pa[0], pb[0]
                if forward:
                    for l, u, v in ((pa, x, y), (pb, y, x)):
                        if isinstance(u, CaseP) and isinstance(v, str):
                            n = common_prefix(u)
                            if n:
                                l[0:1] = [n, drop_prefix(u, len(n))]
                    x, y = pa[0], pb[0]
                if isinstance(x, str) and isinstance(y, str):
                    n = 0
                    while n < len(x) and n < len(y) and x[n] == y[n]:
                        n += 1
                    if n == 0:
                        break
                    pa[0:1] = [x[n:]] if x[n:] else []
                    pb[0:1] = [y[n:]] if y[n:] else []
                    if n < len(x) and n < len(y):
                        break
                    continue
                if self.eq_piece(x, y):
                    del pa[0]
                    del pb[0]
                    continue
                break
        strip(pa, pb, True)
        ra = [p[::-1] if isinstance(p, str) else p for p in reversed(pa)]
        rb = [p[::-1] if isinstance(p, str) else p for p in reversed(pb)]
        strip(ra, rb)
        return ([p[::-1] if isinstance(p, str) else p for p in reversed(ra)],
                [p[::-1] if isinstance(p, str) else p for p in reversed(rb)])

    def eq_piece(self, x, y):
        if isinstance(x, str) or isinstance(y, str):
            return False
        if vkey(x) == vkey(y):
            return True
        if isinstance(x, Atom) and isinstance(y, Atom):
            return self.implied(x.t == y.t)
        if isinstance(x, JoinP) and isinstance(y, JoinP):
            return self.eq_text(x.sep, y.sep) == 'yes' and self.eq_segs(x.segs, y.segs) == 'yes'
        if isinstance(x, FnP) and isinstance(y, FnP) and x.fn == y.fn and x.extra == y.extra:
            return self.eq_text(x.arg, y.arg) == 'yes'
        if isinstance(x, CaseP) and isinstance(y, CaseP):
            if len(x.cases) == len(y.cases) and all(
                    self.valid(c == d) == 'yes' and self.eq_text(v, w) == 'yes'
                    for (c, v), (d, w) in zip(x.cases, y.cases)):
                return True
            for c, v in x.cases:
                for d, w in y.cases:
                    with self.scoped(c, d):
                        if self.check() != z3.unsat and self.eq_text(v, w) != 'yes':
                            return False
            return True
        return False

    def eq_value(self, a, b):
        if vkey(a) == vkey(b):
            return 'yes'
        if is_str(a) and is_str(b):
            return self.eq_text(a, b)
        if is_int(a) and is_int(b):
            return self.valid(zint(a) == zint(b))
        if is_bool(a) and is_bool(b):
            return self.valid(zbool(a) == zbool(b))
        if isinstance(a, ObjV) and isinstance(b, ObjV):
            return self.valid(a.t == b.t)
        if isinstance(a, TypeV) and isinstance(b, TypeV):
            return self.valid(a.t == b.t)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return worst(self.eq_value(x, y) for x, y in zip(a, b))
        if isinstance(a, RecV) and isinstance(b, RecV) and a.cls is b.cls:
            return worst(self.eq_value(a.fields[k], b.fields[k]) for k in a.fields)
        if isinstance(a, STuple) and isinstance(b, STuple):
            return self.eq_segs(a.segs, b.segs)
        return 'no'

    def eq_segs(self, a, b):
        a, b = list(self.nf_segs(a)), list(self.nf_segs(b))
        if len(a) != len(b):
            return 'unknown'
        return worst(self.eq_seg(x, y) for x, y in zip(a, b))

    def eq_seg(self, x, y):
        if segkey((x,)) == segkey((y,)):
            return 'yes'
        if x[0] == 'e' and y[0] == 'e':
            return self.eq_value(x[1], y[1])
        if x[0] == 'c' and y[0] == 'c':
            return self.valid(x[1].t == y[1].t)
        if x[0] == 'o' and y[0] == 'o':
            return worst([self.valid(x[1] == y[1]), self.eq_segs(x[2], y[2])])
        if x[0] in 'cf' and y[0] in 'cf':
            if self.valid(x[1].t == y[1].t) != 'yes':
                return 'unknown'
            lx, ly = self.as_lam(x), self.as_lam(y)
            return self.eq_lam(lx, ly, x[1])
        return 'unknown'

    def as_lam(self, s):
        if s[0] == 'f':
            return s[2]
        return self.str_lam(s[1].et, lambda v: (('e', v),))

    def eq_lam(self, l1, l2, ch=None):
        if len(l1.params) != len(l2.params):
            return 'unknown'
        l2 = subst_lam(Lam(l2.params, l2.cases), list(zip(l2.params, l1.params)))
        sts = ['yes']
        for c1, f1, x1 in l1.cases:
            for c2, f2, x2 in l2.cases:
                with self.scoped(*([c1, c2] + list(f1) + list(f2))):
                    if ch is not None:
                        for fa in self.facts_of(ch.t):
                            for z in fa(l1.params):
                                self.add(z, 'f')
                    if self.check() != z3.unsat:
                        sts.append(self.eq_segs(x1, x2))
                if sts[-1] == 'no':
                    return 'no'
        return worst(sts)

    # multisets of segments: is every segment of `need` in `have`? returns leftover or None
    def match_segs(self, need, have):
        need, have = list(self.nf_segs(need)), list(self.nf_segs(have))
        rest = list(have)
        missing = []
        for n in need:
            for i, h in enumerate(rest):
                if self.eq_seg(n, h) == 'yes':
                    del rest[i]
                    break
            else:
                missing.append(n)
        return missing, rest


class Scope:
    def __init__(self, e, facts):
        self.e = e
        self.facts = facts

    def __enter__(self):
        e = self.e
        e.solver.push()
        self.npc = len(e.pc)
        self.nrf = len(e.rfacts)
        self.lits = set(e.lits_seen)
        self.defs = dict(e.chunkdefs)
        for f in self.facts:
            e.add(f, 'f')
        return e

    def __exit__(self, *exc):
        e = self.e
        e.solver.pop()
        del e.pc[self.npc:]
        del e.rfacts[self.nrf:]
        e.lits_seen = self.lits
        e.chunkdefs = self.defs
        e.pcver += 1
        return False


_UF = {}


def uf(name, *sorts):
    k = (name,) + tuple(s.name() for s in sorts)
    if k not in _UF:
        _UF[k] = z3.Function(name, *sorts)
    return _UF[k]


def worst(sts):
    r = 'yes'
    for s in sts:
        if s == 'no':
            return 'no'
        if s == 'unknown':
            r = 'unknown'
    return r


def zint(v):
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    return z3.IntVal(v) if isinstance(v, int) else v.t


def zbool(v):
    return z3.BoolVal(v) if isinstance(v, bool) else v.t


def has_lit(v):
    for p in pieces(v):
        if isinstance(p, Atom):
            if p.lit or (z3.is_app(p.t) and p.t.decl().name() in ('TR', 'KFLAT')):
                return True
        elif isinstance(p, FnP):
            if has_lit(p.arg):
                return True
        elif isinstance(p, CaseP):
            if any(has_lit(x) for _, x in p.cases):
                return True
        elif isinstance(p, JoinP):
            return True
    return False


def replace_text(v, a, b):
    """v.replace(a, b) for a single-character a, pushed through the pieces."""
    if isinstance(v, str):
        return v.replace(a, b)
    if len(a) != 1:
        return rope(FnP('replace', v, (a, b)))
    out = []
    for p in pieces(v):
        if isinstance(p, str):
            out.append(p.replace(a, b))
        elif isinstance(p, CaseP):
            out.append(CaseP([(c, replace_text(x, a, b)) for c, x in p.cases]))
        else:
            out.append(FnP('replace', rope(p), (a, b)))
    return rope(*out)


def subst_any(v, pairs):
    if isinstance(v, tuple):
        if v and isinstance(v[0], tuple) and v[0] and isinstance(v[0][0], str) \
                and v[0][0] in ('e', 'c', 'f', 'o') and len(v[0]) in (2, 3):
            return subst_segs(v, pairs)
        return tuple(subst_any(x, pairs) for x in v)
    if isinstance(v, z3.ExprRef):
        return zsub(v, pairs)
    if isinstance(v, str) or v is None:
        return v
    if isinstance(v, (JoinP, FnP, CaseP, Lam)):
        return subst(v, pairs)
    return subst(v, pairs)


def anykey(v):
    if isinstance(v, tuple):
        if v and isinstance(v[0], tuple) and v[0] and isinstance(v[0][0], str) \
                and v[0][0] in ('e', 'c', 'f', 'o') and len(v[0]) in (2, 3):
            return segkey(v)
        return tuple(anykey(x) for x in v)
    if isinstance(v, z3.ExprRef):
        return ('z', tid(v))
    if isinstance(v, Lam):
        return ('lam', lamkey(v))
    return vkey(v)


def common_prefix(p):
    """The literal text that every case of a conditional piece starts with."""
    out = None
    for _, v in p.cases:
        n = ''
        for q in pieces(v):
            n += q if isinstance(q, str) else common_prefix(q) if isinstance(q, CaseP) else ''
            if not isinstance(q, str):
                break
        if out is None:
            out = n
        else:
            while not n.startswith(out):
                out = out[:-1]
        if not out:
            return ''
    return out or ''


def drop_prefix(p, n):
    cases = []
    for c, v in p.cases:
        ps, k = list(pieces(v)), n
        while k:
            q = ps[0]
            if isinstance(q, str):
                m = min(k, len(q))
                ps[0:1] = [q[m:]] if q[m:] else []
            else:
                m = min(k, len(common_prefix(q)))
                ps[0] = drop_prefix(q, m)
            k -= m
        cases.append((c, rope(*ps)))
    return CaseP(cases)


def zbool_(t):
    return z3.BoolVal(t) if isinstance(t, bool) else t
