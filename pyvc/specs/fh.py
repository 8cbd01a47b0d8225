"""Contracts of the command line: which literals of a file are rewritten, which files are read and written,
what is counted and reported (C13 to C19)."""
import tokenize as pytokenize

import z3

from ..engine import *
from ..folds import Fold
from ..interp import CLS, Bound, Builtin, Exc, Ext, PyRaise, T_INT, T_LIST, T_OBJ, T_STR, T_TUP
from ..task import guarded, sym
from ..templates import pred, unread_left
from ..values import *

COMMENT, STRING, END = pytokenize.COMMENT, pytokenize.STRING, pytokenize.ENDMARKER
TOKEN = T_TUP(T_INT, T_STR, T_OBJ(), T_OBJ(), T_STR)


def fn(name, *sorts):
    return uf(name, *sorts)


# what the contracts of other functions and the ghost state of the tokens are called
ORIGT, ORIGV = fn('ORIGT', OBJ, INT), fn('ORIGV', OBJ, STR)     # type and text of the token at a position
ORIGE, ORIGL = fn('ORIGE', OBJ, OBJ), fn('ORIGL', OBJ, STR)     # its end and its line
ROW = fn('ROW', OBJ, INT)
SELECT = fn('SELECT', STR, BOOL)        # is_select_string
FMT = fn('FMT', STR, STR)               # handle_sql_string: the rewritten literal
QUERY = fn('QUERY', STR, OBJ)           # handle_sql_string: the query
VALID, ERRS = fn('VALID', OBJ, BOOL), fn('ERRS', OBJ, OBJ)
CONS, CONSE = fn('CONS', OBJ, OBJ, OBJ), fn('CONSE', OBJ, INT, OBJ, OBJ)
NIL = z3.Const('NIL', OBJ)


def setup(e):
    e.view_first = True
    e.functional['general_loops'] = True
    e.functional['string_sets'] = True
    e.functional['havoc_obj'] = lambda e, o: None
    e.functional['index_obj'] = lambda e, o, i: SInt(ROW(o.t)) if i == 0 else unsupported('part of a position')
    e.functional['ext_consts'] = {'tokenize.COMMENT': COMMENT, 'tokenize.STRING': STRING, 'tokenize.ENDMARKER': END}


def unsupported(what):
    raise Unsupported(what)


def may_raise(e, what):
    if e.choose(2, what) == 1:
        raise PyRaise(Exc(Exception, (), 'external: ' + what))


def bterm(v):
    return v.t if isinstance(v, SBool) else z3.BoolVal(bool(v))


# ------------------------------------------------------------------ compute_file_content
def token_facts(ps):
    """A token of the file; the end marker comes last and only there."""
    ty, val, s, en, ln = ps
    out = [ORIGT(s) == ty, ORIGV(s) == val, ORIGE(s) == en, ORIGL(s) == ln]
    if s.decl().name().startswith('HD') and s.arg(0).decl().name().split('!')[0] in ('tokens', 'loop', 'TL'):
        out.append((ty == END) == (LENF()(uf('TL', SEQ, SEQ)(s.arg(0))) == 0))
    return out


def seq_fold():
    """Which tokens, in which order."""
    return Fold('TOKENS', (OBJ,), lambda e, st, v: (CONS(st[0], e.force(v[2]).t),))


def err_fold():
    return Fold('ERRORS', (OBJ,), lambda e, st, v: (CONSE(st[0], zint(v[0]), v[1].t),))


PEND, LIT, PCHG, PROW, CNT, NERR, EH, WRONG = range(8)


def out_fold(fmt, val):
    """Reading what was written, token by token: the state after the last token and the one before it.
    fmt, val: formatting and validation asked for."""
    sorts = (BOOL, STR, BOOL, INT, INT, INT, OBJ, BOOL)
    return Fold('OUT', sorts + sorts, lambda e, st, v: take(e, resolve(e, st[:8], v, fmt, val), v) + tuple(st[:8]))


def resolve(e, st, v, fmt, val):
    """A literal waiting for its comment is settled by the next comment, string or the end."""
    ty, o = zint(v[0]), ORIGV(v[2].t)
    pend, lit, pchg, prow, cnt, nerr, eh, wrong = st
    at = z3.And(pend, z3.Or(ty == COMMENT, ty == STRING, ty == END))
    noform = z3.And(ty == COMMENT, zbool_(e.contains_term(rope(Atom(o)), 'nosqlformat')))
    noval = z3.And(ty == COMMENT, zbool_(e.contains_term(rope(Atom(o)), 'nosqlvalidation')))
    bad = z3.And(at, z3.Or(z3.And(pchg, noform), z3.And(fmt, z3.Not(noform), FMT(lit) != lit, z3.Not(pchg))))
    err = z3.And(at, val, z3.Not(noval), z3.Not(VALID(QUERY(lit))))
    return (z3.And(pend, z3.Not(at)), lit, pchg, prow, cnt, z3.If(err, nerr + 1, nerr),
            z3.If(err, CONSE(eh, prow, ERRS(QUERY(lit))), eh), z3.Or(wrong, bad))


def take(e, st, v):
    pend, lit, pchg, prow, cnt, nerr, eh, wrong = st
    ty, z, s, en, ln = zint(v[0]), e.zstr(v[1]), v[2].t, v[3].t, e.zstr(v[4])
    o = ORIGV(s)
    keep = z3.And(ty == ORIGT(s), en == ORIGE(s), ln == ORIGL(s))
    sel = z3.And(ty == STRING, SELECT(o))
    changed = z != o
    ok = z3.Implies(changed, z3.And(sel, z == FMT(o)))
    return (z3.Or(pend, sel), z3.If(sel, o, lit), z3.If(sel, changed, pchg), z3.If(sel, ROW(s), prow),
            cnt + z3.If(changed, 1, 0), nerr, eh, z3.Or(wrong, z3.Not(keep), z3.Not(ok)))


OUT0 = (z3.BoolVal(False), sval(''), z3.BoolVal(False), z3.IntVal(0), z3.IntVal(0), z3.IntVal(0), NIL,
        z3.BoolVal(False)) * 2


def zbool_(t):
    return z3.BoolVal(t) if isinstance(t, bool) else t


class Content:
    """compute_file_content on an arbitrary token sequence."""

    def __init__(self, e):
        self.e = e
        self.f = e.program.find('file_handler:compute_file_content')
        self.fmt, self.val = z3.Bool('should_format'), z3.Bool('should_validate')
        self.OUT, self.SEQ, self.ERR = out_fold(self.fmt, self.val), seq_fold(), err_fold()
        e.externals['tokenize.generate_tokens'] = self.generate
        e.externals['tokenize.untokenize'] = self.untokenize
        e.contracts['file_handler:is_select_string'] = lambda e, f, a: SBool(SELECT(e.zstr(first(a))))
        e.contracts['file_handler:handle_sql_string'] = self.literal
        e.contracts['sql_validator:SQLQuery.is_valid'] = lambda e, f, a: SBool(VALID(first(a).t))
        e.virtual['errors'] = lambda e, o, name, args: ObjV(ERRS(o.t))
        e.contracts['file_handler:handle_string_token'] = self.string_token
        e.loop_templates = [self.main_loop, self.search_loop, unread_left]

    def stream(self, segs_or_none=None):
        e = self.e
        ch = Chunk(e.fresh('tokens', SEQ), TOKEN)
        e.foralls[tid(ch.t)] = [token_facts]
        e.len_chunk(ch)
        return ch

    def generate(self, e, pos, kw):
        ch = self.stream()
        e.assume(e.len_chunk(ch) > 0)
        it = e.new_list((('c', ch),), 'iter')
        e.heap[it.oid].raises = True
        e.ghost['tokens'] = it.oid
        e.ghost['all'] = ObjV(self.SEQ.run(e, (('c', ch),), (NIL,))[0])
        return it

    def untokenize(self, e, pos, kw):
        (k, arg), = pos
        st = self.OUT.run(e, e.segs_of(arg), OUT0)
        self.final = st
        e.oblige('compute_file_content: every token is written back, in order',
                 self.SEQ.run(e, e.segs_of(arg), (NIL,))[0] == e.ghost['all'].t)
        e.oblige('compute_file_content: only SELECT literals change, and only to their formatted form; tokens keep '
                 'their kind and place; opt-out comments of the formatter are honoured; every other literal that '
                 'can change does', z3.Not(z3.Or(st[WRONG], st[PEND])))
        return rope(Atom(fn('UNTOKENIZE', OBJ, STR)(self.SEQ.run(e, e.segs_of(arg), (NIL,))[0])))

    def literal(self, e, f, a):
        v = first(a)
        may_raise(e, 'handle_sql_string')
        q = ObjV(QUERY(e.zstr(v)))
        c = e.program.cls('SQLQuery')
        e.assume(CLS(q.t) == c.id)
        return (rope(Atom(FMT(e.zstr(v)))), q)

    # -------------------------------------------------- the state shared with handle_string_token
    def shared(self, fr):
        """(tokens, counters of changes and errors, list of errors) of compute_file_content."""
        r = {}
        for nm in ('tokens', 'count_changed_sql', 'count_has_errors', 'errors_locations'):
            f = fr.find(nm)
            if f is None:
                raise Unsupported('variable %s of compute_file_content' % nm)
            r[nm] = (f, f.vars[nm])
        return r

    def state(self, fr):
        e = self.e
        r = self.shared(fr)
        return (self.OUT.run(e, e.segs_of(r['tokens'][1]), OUT0),
                zint(r['count_changed_sql'][1]), zint(r['count_has_errors'][1]),
                self.ERR.run(e, e.segs_of(r['errors_locations'][1]), (NIL,))[0])

    def agree(self, st, cnt, nerr, eh):
        return z3.And(z3.Not(st[WRONG]), st[CNT] == cnt, st[NERR] == nerr, st[EH] == eh)

    def rest(self, fr):
        """Tokens written and to come."""
        e = self.e
        h = e.heap[e.ghost['tokens']]
        t = self.shared(fr)['tokens'][1]
        return self.SEQ.run(e, h.segs, self.SEQ.run(e, e.segs_of(t), (NIL,)))[0]

    def main_loop(self, e, ctx):
        if ctx.frame.func is not self.f:
            return []

        def agree():
            st, cnt, nerr, eh = self.state(ctx.frame)
            return z3.And(self.agree(st, cnt, nerr, eh), z3.Not(st[PEND]))
        return [pred('written so far', e, agree),
                pred('all tokens', e, lambda: self.rest(ctx.frame) == e.ghost['all'].t)]

    def search_loop(self, e, ctx):
        """while loop of handle_string_token: what is read settles nothing but at its last token."""
        if ctx.frame.func is self.f or 'tokens' not in e.ghost:
            return []
        out = []
        names = sorted(ctx.names)
        ints = [n for n in names if is_int(ctx.var(n)) and n in ctx.entry.vals]
        strs = [n for n in names if is_str(ctx.var(n)) and n in ctx.entry.vals]
        objs = [n for n in names if isinstance(ctx.var(n), ObjV) and n in ctx.entry.vals]

        def two(a, b, mk):
            def term():
                x, y = ctx.var(a), ctx.var(b)
                try:
                    return mk(x, y)
                except (AttributeError, Unsupported, z3.Z3Exception):
                    return None
            return term
        for o in objs:
            for i in ints:
                out.append(pred('%s type %s' % (o, i), e, two(o, i, lambda x, y: ORIGT(x.t) == zint(y))))
            for s in strs:
                out.append(pred('%s text %s' % (o, s), e, two(o, s, lambda x, y: ORIGV(x.t) == e.zstr(y))))
                out.append(pred('%s line %s' % (o, s), e, two(o, s, lambda x, y: ORIGL(x.t) == e.zstr(y))))
            for p in objs:
                out.append(pred('%s ends %s' % (o, p), e, two(o, p, lambda x, y: ORIGE(x.t) == y.t)))
        for i in ints:
            out.append(pred('%s is the end marker iff nothing is left' % i, e, lambda i=i: (
                (zint(ctx.var(i)) == END) == (zint(e.len_segs(e.heap[e.ghost['tokens']].segs)) == 0)
                if is_int(ctx.var(i)) else None)))
        # what has been read since the literal
        token = self.given(ctx.frame)
        if token is None:
            return out
        t = self.shared(ctx.frame)['tokens'][1]
        lists = [o for o in sorted(ctx.info['heap']) if isinstance(e.heap.get(o), HList) and o != t.oid
                 and e.heap[o].kind == 'list' and o in ctx.entry.heap]
        for o in lists:
            for name, text in (('unchanged', token[1]), ('changed', rope(Atom(FMT(e.zstr(token[1])))))):
                for p in objs:
                    def term(o=o, text=text, p=p):
                        v = ctx.var(p)
                        if not isinstance(v, ObjV):
                            return None
                        st = self.OUT.run(e, e.segs_of(t) + (('e', (token[0], text) + token[2:]),), OUT0)
                        got = self.OUT.run(e, e.heap[o].segs, st)
                        return z3.And([a == b for a, b in zip(got, self.OUT.element(e, st, same(v)))])
                    out.append(pred('read since, %s, %d %s' % (name, o, p), e, term))

            for p in objs:
                def last(o=o, p=p):
                    segs, v = e.expand(e.heap[o].segs), ctx.var(p)
                    if not segs or not isinstance(v, ObjV):
                        return None
                    if segs[-1][0] == 'e':
                        return e.force(segs[-1][1])[2].t == v.t
                    return uf('LAST2o', SEQ, OBJ)(segs[-1][1].t) == v.t if segs[-1][0] == 'c' else None
                out.append(pred('last of %d is %s' % (o, p), e, last))

            def total(o=o):
                a = self.SEQ.run(e, e.segs_of(t) + (('e', token),), (NIL,))
                return self.SEQ.run(e, e.heap[e.ghost['tokens']].segs,
                                    self.SEQ.run(e, e.heap[o].segs, a))[0] == e.ghost['all'].t
            out.append(pred('all tokens %d' % o, e, total))
            out.append(pred('some read %d' % o, e, lambda o=o: zint(e.len_segs(e.heap[o].segs)) > 0))
        return out

    def given(self, fr):
        """The token handle_string_token was called with."""
        if fr.func.closure is None or len(fr.func.node.args.args) != 6:
            return None
        return tuple(fr.vars[a.arg] for a in fr.func.node.args.args[1:])

    # -------------------------------------------------- contract of handle_string_token
    nested = False      # verify its body

    def before(self, fr, token):
        """It is called on the string token that was read last; the literal before it is settled by it."""
        e = self.e
        st, cnt, nerr, eh = self.state(fr)
        r = resolve(e, st[:8], token, self.fmt, self.val)
        ty, s = zint(token[0]), token[2].t
        t = self.shared(fr)['tokens'][1]
        seq = self.SEQ.run(e, e.heap[e.ghost['tokens']].segs,
                           self.SEQ.run(e, e.segs_of(t) + (('e', token),), (NIL,)))[0]
        return [('a string token', z3.And(ty == STRING, ORIGT(s) == ty, ORIGV(s) == e.zstr(token[1]),
                                          ORIGE(s) == token[3].t, ORIGL(s) == e.zstr(token[4]))),
                ('every other token has been kept', seq == e.ghost['all'].t),
                ('some token is left', zint(e.len_segs(e.heap[e.ghost['tokens']].segs)) > 0),
                ('the counts are right', self.agree(r, cnt, nerr, eh))]

    def after(self, fr):
        st, cnt, nerr, eh = self.state(fr)
        return [('every token is kept, in order', self.rest(fr) == self.e.ghost['all'].t),
                ('no literal is left waiting', z3.Not(st[PEND])),
                ('the right literals changed and are counted', self.agree(st, cnt, nerr, eh))]

    def havoc(self, fr, ends):
        e = self.e
        r = self.shared(fr)
        e.heap[r['tokens'][1].oid].segs = (('c', e.fresh_chunk('written', TOKEN)),)
        e.heap[r['errors_locations'][1].oid].segs = (('c', e.fresh_chunk('errors', T_TUP(T_INT, T_OBJ()))),)
        for nm in ('count_changed_sql', 'count_has_errors'):
            r[nm][0].vars[nm] = SInt(e.fresh(nm, INT))
        h = e.heap[e.ghost['tokens']]
        h.segs = () if ends else (('c', self.stream()),)

    def string_token(self, e, func, a):
        fr = func.closure
        vs = list(a.values())
        if fr is None or len(vs) != 6 or fr.func is not self.f:
            return NotImplemented
        token = tuple(e.force(v) for v in vs[1:])
        name = 'handle_string_token'
        if self.nested and 'inside' not in e.ghost:
            e.ghost['inside'] = True
            self.havoc(fr, False)
            args = dict(zip(a, [vs[0]] + list(e.make(TOKEN, lambda s, so: e.fresh('given' + s, so), []))))
            token = tuple(args.values())[1:]
            for _, t in self.before(fr, token):
                e.assume(t)
            e.ghost['unread'] = e.len_segs(e.heap[e.ghost['tokens']].segs)
            e.run_body(func, args)
            for n, t in self.after(fr):
                e.oblige('%s: %s' % (name, n), t)
            e.finished += 1
            raise Stop()
        for n, t in self.before(fr, token):
            e.oblige('%s is called on %s' % (name, n) if n.startswith('a ') else
                     '%s is called when %s' % (name, n), t)
        left = zint(e.len_segs(e.heap[e.ghost['tokens']].segs))
        if 'unread' in e.ghost:
            e.oblige('%s: recursive call with fewer tokens left' % name, left < zint(e.ghost['unread']))
        may_raise(e, name)
        self.havoc(fr, bool(e.choose(2, 'tokens end')))
        e.assume(zint(e.len_segs(e.heap[e.ghost['tokens']].segs)) <= left)
        for n, t in self.after(fr):
            e.assume(t)
        return None

    def run(self):
        e = self.e
        r = e.call_func(self.f, [('e', Opaque('file')), ('e', SBool(self.fmt)), ('e', SBool(self.val))], {},
                        inline=True)
        if self.nested:
            return
        changed, content, errors, locations = [e.force(s[1]) for s in e.expand(e.segs_of(r))]
        st, name = self.final, 'compute_file_content'
        e.oblige('%s: the count of changed queries is the number of literals that changed' % name,
                 zint(changed) == st[CNT])
        e.oblige('%s: the count of invalid queries is the number of invalid literals not opted out' % name,
                 zint(errors) == st[NERR])
        e.oblige('%s: each invalid literal is located at its own line with its own errors' % name,
                 self.ERR.run(e, e.segs_of(locations), (NIL,))[0] == st[EH])
        e.oblige('%s: the content is that of the tokens' % name,
                 e.zstr(content) == fn('UNTOKENIZE', OBJ, STR)(e.ghost['all'].t))


def same(p):
    """The token at a position, as it was."""
    t = p.t
    return (SInt(ORIGT(t)), rope(Atom(ORIGV(t))), p, ObjV(ORIGE(t)), rope(Atom(ORIGL(t))))


def first(a):
    return next(iter(a.values()))


def task_content(e):
    c = Content(e)
    guarded(e, c.f.name, c.run, (Exception,))


def task_string_token(e):
    c = Content(e)
    c.nested = True
    guarded(e, c.f.name, c.run, (Exception,))


# ------------------------------------------------------------------ files, directories, inputs
ABS = fn('ABSPATH', STR, STR)
PJOIN = fn('PATHJOIN', STR, STR, STR)
CHG, INV = fn('CHANGED', STR, BOOL, BOOL, INT), fn('INVALID', STR, BOOL, BOOL, INT)
TEXT = fn('NEWTEXT', STR, BOOL, BOOL, STR)
ISDIR, ISFILE = fn('ISDIR', STR, BOOL), fn('ISFILE', STR, BOOL)
NAMES = ('num_changed_files', 'num_changed_sql', 'num_invalid_files', 'num_invalid_sql')


class Files:
    """The ghost state of a run: which absolute names were read (watched: an arbitrary name P), what was written,
    which failures were not reported yet, and the totals of the files analysed."""

    def __init__(self, e, fname):
        self.e, self.name = e, fname
        self.f = e.program.find('file_handler:' + fname)
        self.opt = {k: z3.Bool(k) for k in ('format', 'check', 'validate', 'verbose')}
        self.P = z3.Const('P', STR)
        x = e.externals
        x['os.path.abspath'] = lambda e, p, kw: self.text(ABS(e.zstr(p[0][1])))
        x['os.path.join'] = self.join
        x['os.path.isdir'] = lambda e, p, kw: SBool(ISDIR(e.zstr(p[0][1])))
        x['os.path.isfile'] = lambda e, p, kw: SBool(ISFILE(e.zstr(p[0][1])))
        x['print'] = self.print_
        x['sys.exit'] = self.exit_
        e.externals['attr:class.__name__'] = lambda e, o: rope(Atom(e.fresh('exception', STR)))

    def text(self, t):
        return rope(Atom(t))

    def join(self, e, pos, kw):
        a, b = (s[1] for s in pos)
        return self.text(PJOIN(e.zstr(a), e.zstr(b)))

    def options(self, n=None):
        """The four options as they are given on the command line."""
        return [('e', SBool(self.opt[k])) for k in ('format', 'check', 'validate', 'verbose')]

    def asked(self):
        o = self.opt
        return z3.Or(o['format'], o['check']), z3.Or(o['validate'], o['verbose'])

    def outcome(self, name):
        """(changed, invalid) of the file with this absolute name."""
        f, v = self.asked()
        return CHG(name, f, v), INV(name, f, v)

    def same_options(self, what, vs):
        e = self.e
        e.oblige('%s: the options asked for are passed on' % what, z3.And(
            [zbool_(e.truth_term(v)) == self.opt[k] for k, v in
             zip(('format', 'check', 'validate', 'verbose'), vs)]))

    def set_term(self, v):
        e = self.e
        v = e.force(v)
        if v is None:
            return z3.EmptySet(STR)
        h = e.heap[v.oid]
        if isinstance(h, HZSet):
            return h.t
        t = z3.EmptySet(STR)
        for s in e.expand(h.segs):
            if s[0] != 'e':
                raise Unsupported('set of names')
            t = z3.SetAdd(t, e.zstr(s[1]))
        return t

    def fields(self, info):
        e = self.e
        return [zint(e.get_attr(info, n)) for n in NAMES]

    def print_(self, e, pos, kw):
        names = [e.ghost.get('failed')]
        if names[0] is not None:
            name = e.zstr(names[0])
            said = z3.Or([z3.BoolVal(False)] + [
                e.zstr(rope(p)) == name for s in pos if is_str(e.force(s[1])) for p in pieces(e.force(s[1]))
                if isinstance(p, Atom)])
            e.ghost['unreported'] = SBool(z3.And(bterm(e.ghost['unreported']), z3.Not(said)))
        e.ghost['printed'] = True
        return None

    def exit_(self, e, pos, kw):
        raise PyRaise(Exc(SystemExit, tuple(s[1] for s in pos), 'sys.exit'))

    # -------------------------------------------------- the file system, for analyse_file
    def open_(self, e, pos, kw):
        name = pos[0][1]
        mode = e.force(pos[1][1] if len(pos) > 1 else kw.get('mode', 'r'))
        if not isinstance(mode, str):
            raise Unsupported('mode of open')
        if mode in ('r', 'rt'):
            e.oblige('%s: no file is read before it is noted as seen, nor one that was seen' % self.name, z3.And(
                z3.IsMember(ABS(e.zstr(name)), self.set_term(self.seen)),
                z3.Not(z3.IsMember(ABS(e.zstr(name)), self.seen0)), z3.BoolVal(not e.ghost['read'])))
            e.oblige('%s: the file read is the given one' % self.name, e.zstr(name) == e.zstr(self.given))
            e.ghost['read'] = True
        elif 'w' in mode or 'a' in mode or '+' in mode or 'x' in mode:
            e.oblige('%s: only the given file is written, with --format, once its formatted text is known and '
                     'differs, and once' % self.name, z3.And(
                         e.zstr(name) == e.zstr(self.given), self.opt['format'],
                         z3.BoolVal(bool(e.ghost['computed'])), z3.BoolVal(not e.ghost['opened']),
                         z3.BoolVal(mode in ('w', 'wt')), self.outcome(ABS(e.zstr(name)))[0] > 0))
            e.ghost['opened'] = True
        else:
            raise Unsupported('mode of open')
        may_raise(e, 'open')
        return Opaque('file', (name, mode))

    def with_(self, e, v, what):
        if not (isinstance(v, Opaque) and v.tag == 'file'):
            raise Unsupported('with')
        return v

    def write(self, e, pos, kw):
        f, text = pos[0][1], pos[1][1]
        name, mode = f.data
        e.oblige('%s: what is written is the formatted text, once' % self.name, z3.And(
            z3.BoolVal(not e.ghost['wrote']), e.zstr(text) == TEXT(ABS(e.zstr(name)), *self.asked())))
        may_raise(e, 'write')
        e.ghost['wrote'] = True
        return SInt(e.fresh('written', INT))

    def compute(self, e, f, a):
        file, sf, sv = (e.force(v) for v in a.values())
        if not (isinstance(file, Opaque) and file.tag == 'file'):
            raise Unsupported('file given to compute_file_content')
        fmt, val = self.asked()
        e.oblige('%s: formatting and validating as asked' % self.name, z3.And(
            zbool_(e.truth_term(sf)) == fmt, zbool_(e.truth_term(sv)) == val))
        may_raise(e, 'compute_file_content')
        name = ABS(e.zstr(file.data[0]))
        e.ghost['computed'] = True
        n, k = self.outcome(name)
        e.assume(z3.And(n >= 0, k >= 0))
        ch = e.fresh_chunk('locations', T_TUP(T_INT, T_LIST(T_STR)))
        return (SInt(n), self.text(TEXT(name, fmt, val)), SInt(k), e.new_list((('c', ch),)))

    def file(self):
        e = self.e
        e.externals['open'] = self.open_
        e.externals['with'] = self.with_
        e.externals['file.write'] = self.write
        e.contracts['file_handler:compute_file_content'] = self.compute
        e.ghost.update(read=False, opened=False, wrote=False, computed=False, printed=False)
        self.given = sym(e, 'filename')
        self.seen0 = z3.Const('seen', z3.SetSort(STR))
        self.seen = e.alloc(HZSet(self.seen0, False))
        name = ABS(e.zstr(self.given))
        try:
            r = e.call_func(self.f, [('e', self.given)] + self.options() + [('e', self.seen)], {}, inline=True)
        except PyRaise:
            e.oblige('%s: a file that fails has been noted as seen' % self.name,
                     self.set_term(self.seen) == z3.SetAdd(self.seen0, name))
            raise
        new = z3.Not(z3.IsMember(name, self.seen0))
        n, k = self.outcome(name)
        e.oblige('%s: the file has been noted as seen, and nothing else' % self.name,
                 self.set_term(self.seen) == z3.SetAdd(self.seen0, name))
        e.oblige('%s: a file is read once, unless it was seen before' % self.name,
                 new if e.ghost['read'] else z3.Not(new))
        e.oblige('%s: with --format a file whose text changes is written, no other' % self.name,
                 z3.BoolVal(bool(e.ghost['wrote'])) == z3.And(new, self.opt['format'], n > 0))
        want = [z3.If(n > 0, 1, 0), n, z3.If(k > 0, 1, 0), k]
        for nm, got, w in zip(NAMES, self.fields(r), want):
            e.oblige('%s: %s is exact' % (self.name, nm), got == z3.If(new, w, 0))
        e.oblige('%s: the names it reports as seen were seen' % self.name, z3.IsSubset(
            self.set_term(e.get_attr(r, 'seen_files')), self.set_term(self.seen)))


def task_analyse_file(e):
    guarded(e, 'analyse_file', lambda: Files(e, 'analyse_file').file(), (Exception,))


WALK = T_TUP(T_STR, T_OBJ(), T_LIST(T_STR, 'tuple'))
DIROCC = fn('DIROCC', STR, BOOL, BOOL)


def occ_files(P):
    """Is P one of the .py files of a directory?"""
    def step(e, st, v):
        b, root = st
        name = e.zstr(v)
        py = zbool_(e.truth_term(e.bi_str_endswith(e.force(v), '.py')))
        return (z3.Or(b, z3.And(py, ABS(PJOIN(root, name)) == P)), root)
    return Fold('OCCF', (BOOL, STR), step)


def occ_walk(P):
    inner = occ_files(P)

    def step(e, st, v):
        root, _, files = (e.force(x) for x in e.force(v))
        return (inner.run(e, e.segs_of(files), (st[0], e.zstr(root)))[0],)
    return Fold('OCCW', (BOOL,), step)


def occ_input(P):
    def step(e, st, v):
        s = e.zstr(v)
        return (z3.If(ISDIR(s), DIROCC(s, st[0]), z3.If(ISFILE(s), z3.Or(st[0], ABS(s) == P), st[0])),)
    return Fold('OCCI', (BOOL,), step)


class Run(Files):
    """Directories and inputs, over the contract of analyse_file."""

    def __init__(self, e, fname):
        super().__init__(e, fname)
        self.OCCF, self.OCCW, self.OCCI = occ_files(self.P), occ_walk(self.P), occ_input(self.P)
        e.externals['os.walk'] = self.walk
        e.contracts['file_handler:analyse_file'] = self.c_file
        if fname != 'analyse_dir':
            e.contracts['file_handler:analyse_dir'] = self.c_dir
        if fname == 'handle_inputs':
            e.contracts['file_handler:handle_one_input'] = self.c_input
            e.contracts['file_handler:print_format_summary'] = self.c_summary
            e.contracts['file_handler:print_validation_summary'] = self.c_summary
        e.loop_templates = [self.invariants]
        self.outer = None
        g = z3.Bool('P_was_read')
        e.ghost['read'] = SBool(g)
        e.ghost['failed'] = rope(Atom(e.fresh('none', STR)))
        e.ghost['unreported'] = SBool(z3.BoolVal(False))
        self.g0 = g
        self.t0 = [z3.Int('T%d' % i) for i in range(4)]
        for i, t in enumerate(self.t0):
            e.ghost['T%d' % i] = SInt(t)

    def g(self):
        return bterm(self.e.ghost['read'])

    def total(self, i):
        return zint(self.e.ghost['T%d' % i])

    def add(self, vs):
        for i, v in enumerate(vs):
            self.e.ghost['T%d' % i] = SInt(z3.simplify(self.total(i) + v))

    def info_of(self, vs, seen):
        e = self.e
        kw = {n: SInt(z3.simplify(v)) for n, v in zip(NAMES, vs)}
        kw['seen_files'] = seen
        return e.construct(e.program.cls('InputSQLAnalyseInfo'), [], kw)

    def sets(self):
        e = self.e
        return [(o, h) for o, h in sorted(e.heap.items()) if isinstance(h, HZSet)]

    def write_set(self, seen, t):
        """The callee adds names to the set it is given."""
        e = self.e
        e.wr(seen)
        h = e.heap[seen.oid]
        if isinstance(h, HZSet):
            h.t = t
        else:
            e.heap[seen.oid] = HZSet(t, h.fresh)

    # -------------------------------------------------- contracts of callees
    def c_file(self, e, f, a):
        vs = [e.force(v) for v in a.values()]
        self.same_options('%s: analyse_file' % self.name, vs[1:5])
        seen = self.set_term(vs[5])
        name = ABS(e.zstr(vs[0]))
        e.oblige('%s: what was read has been noted as seen when a file is analysed' % self.name,
                 z3.Implies(self.g(), z3.IsMember(self.P, seen)))
        self.write_set(vs[5], z3.SetAdd(seen, name))
        e.ghost['read'] = SBool(z3.simplify(z3.Or(self.g(), name == self.P)))
        k = e.choose(3, 'analyse_file')
        if k:
            e.ghost['unreported'] = SBool(z3.BoolVal(True))
            e.ghost['failed'] = vs[0]
            raise PyRaise(Exc(RecursionError if k == 1 else Exception, (), 'analyse_file'))
        n, k = self.outcome(name)
        e.assume(z3.And(n >= 0, k >= 0))
        new = z3.Not(z3.IsMember(name, seen))
        vs2 = [z3.If(z3.And(new, c), x, 0) for c, x in (
            (n > 0, z3.IntVal(1)), (z3.BoolVal(True), n), (k > 0, z3.IntVal(1)), (z3.BoolVal(True), k))]
        self.add(vs2)
        some = e.fresh('reported', z3.SetSort(STR))
        e.assume(z3.IsSubset(some, self.set_term(vs[5])))
        return self.info_of(vs2, e.alloc(HZSet(some)))

    def c_group(self, what, vs, read):
        """analyse_dir and handle_one_input: everything they read was noted in the set given or the one returned."""
        e = self.e
        self.same_options('%s: %s' % (self.name, what), vs[1:5])
        seen = self.set_term(vs[5])
        e.oblige('%s: what was read has been noted as seen when %s is called' % (self.name, what),
                 z3.Implies(self.g(), z3.IsMember(self.P, seen)))
        e.ghost['read'] = SBool(z3.simplify(read(self.g())))
        more, new = e.fresh('seen', z3.SetSort(STR)), e.fresh('reported', z3.SetSort(STR))
        self.write_set(vs[5], z3.SetUnion(seen, more))
        e.assume(z3.Implies(self.g(), z3.IsMember(self.P, z3.SetUnion(self.set_term(vs[5]), new))))
        d = [e.fresh('total', INT) for _ in NAMES]
        self.add(d)
        return self.info_of(d, e.alloc(HZSet(new)))

    def c_dir(self, e, f, a):
        vs = [e.force(v) for v in a.values()]
        return self.c_group('analyse_dir', vs, lambda g: DIROCC(e.zstr(vs[0]), g))

    def c_input(self, e, f, a):
        vs = [e.force(v) for v in a.values()]
        return self.c_group('handle_one_input', vs, lambda g: self.OCCI.element(e, (g,), vs[0])[0])

    def c_summary(self, e, f, a):
        vs = [e.force(v) for v in a.values()]
        if 'format' in f.name:
            i, n = 0, 'format'
            e.oblige('%s: the format summary says whether it is a check' % self.name,
                     zbool_(e.truth_term(vs[2])) == self.opt['check'])
        else:
            i, n = 2, 'validate'
        e.oblige('%s: the %s summary is given the totals' % (self.name, n), z3.And(
            zint(vs[0]) == self.total(i), zint(vs[1]) == self.total(i + 1)))
        e.ghost['summary ' + n] = e.ghost.get('summary ' + n, 0) + 1
        return None

    def walk(self, e, pos, kw):
        e.oblige('%s: the directory given is walked' % self.name, z3.And(
            e.zstr(pos[0][1]) == e.zstr(self.given), z3.BoolVal(len(pos) == 1 and not kw)))
        ch = Chunk(fn('WALK', STR, SEQ)(e.zstr(pos[0][1])), WALK)
        e.len_chunk(ch)
        self.all = (('c', ch),)
        return e.new_list(self.all, 'iter')

    # -------------------------------------------------- loop invariants
    def invariants(self, e, ctx):
        if ctx.it is None:
            return []
        h = e.heap.get(ctx.it.oid)
        if any(s[0] not in 'ec' for s in h.segs):       # no invariant says what a filtered list holds
            raise Unsupported('loop over a filtered or mapped sequence')
        et = next((s[1].et for s in h.segs if s[0] == 'c'), None)
        if et == WALK:
            self.outer = ctx.it.oid
        out = [pred('reported', e, lambda: z3.Not(bterm(e.ghost['unreported'])))]
        # a set bound to a name, or kept in an object
        held = [(n, (lambda n=n: ctx.frame.vars.get(n))) for n in sorted(ctx.frame.vars)]
        for k, i in sorted(e.objs.items(), key=lambda x: str(x[0])):
            held += [('%s.%s' % (k, n), (lambda k=k, n=n: e.objs[k].fields[n])) for n in sorted(i.fields or ())]
        for n, get in held:
            def known(get=get):
                v = e.force(get())
                hs = e.heap.get(v.oid) if isinstance(v, Ref) else None
                return z3.Implies(self.g(), z3.IsMember(self.P, hs.t)) if isinstance(hs, HZSet) else None
            if isinstance(e.force(get()), Ref):
                out.append(pred('seen ' + n, e, known))
        for k, i in sorted(e.objs.items(), key=lambda x: str(x[0])):
            if i.fields and all(n in i.fields for n in NAMES):
                for j, n in enumerate(NAMES):
                    def exact(k=k, j=j, n=n):
                        v = e.objs[k].fields[n]
                        return zint(v) == self.total(j) - self.t0[j] if is_int(e.force(v)) else None
                    out.append(pred('%s of %s' % (n, k), e, exact))
        if self.name == 'handle_inputs':
            out.append(pred('inputs', e, lambda: self.OCCI.run(e, e.heap[ctx.it.oid].segs, (self.g(),))[0] ==
                            self.OCCI.run(e, self.all, (self.g0,))[0]))
        elif self.outer is not None and self.outer in e.heap:
            def walked(root=None):
                g = self.g()
                if root is not None:
                    v = ctx.frame.vars.get(root)
                    if not is_str(e.force(v)):
                        return None
                    g = self.OCCF.run(e, e.heap[ctx.it.oid].segs, (g, e.zstr(v)))[0]
                return self.OCCW.run(e, e.heap[self.outer].segs, (g,))[0] == \
                    self.OCCW.run(e, self.all, (self.g0,))[0]
            if ctx.it.oid == self.outer:
                out.append(pred('walked', e, walked))
            elif et == T_STR:
                for nm, v in sorted(ctx.frame.vars.items()):
                    if is_str(v) and nm not in ctx.names:
                        out.append(pred('walked %s' % nm, e, lambda nm=nm: walked(nm)))
        return out

    # -------------------------------------------------- what is verified
    def begin(self):
        e = self.e
        self.given = sym(e, 'given')
        self.seen0 = z3.Const('seen', z3.SetSort(STR))
        self.seen = e.alloc(HZSet(self.seen0, False))
        e.assume(z3.Implies(self.g0, z3.IsMember(self.P, self.seen0)))

    def end(self, r, read):
        e = self.e
        e.oblige('%s: every file to analyse has been analysed, and no other' % self.name, self.g() == read)
        e.oblige('%s: what was read has been noted as seen' % self.name, z3.Implies(self.g(), z3.IsMember(
            self.P, z3.SetUnion(self.set_term(self.seen), self.set_term(e.get_attr(r, 'seen_files'))))))
        e.oblige('%s: a file that fails is reported by its name' % self.name,
                 z3.Not(bterm(e.ghost['unreported'])))
        for j, (nm, got) in enumerate(zip(NAMES, self.fields(r))):
            e.oblige('%s: %s is the total over the files analysed' % (self.name, nm),
                     got == self.total(j) - self.t0[j])

    def dir(self):
        e = self.e
        self.begin()
        self.all = None
        r = e.call_func(self.f, [('e', self.given)] + self.options() + [('e', self.seen)], {}, inline=True)
        if self.all is None:
            raise Unsupported('no os.walk')
        self.end(r, self.OCCW.run(e, self.all, (self.g0,))[0])

    def one(self):
        e = self.e
        self.begin()
        r = e.call_func(self.f, [('e', self.given)] + self.options() + [('e', self.seen)], {}, inline=True)
        self.end(r, self.OCCI.element(e, (self.g0,), self.given)[0])

    def inputs(self):
        e = self.e
        e.assume(z3.Not(self.g0))
        for t in self.t0:
            e.assume(t == 0)
        ch = Chunk(z3.Const('src_inputs', SEQ), T_STR)
        e.len_chunk(ch)
        self.all = (('c', ch),)
        fmt, val = self.asked()
        o = self.opt
        status = None
        try:
            e.call_func(self.f, [('e', e.new_list(self.all))] + self.options(), {}, inline=True)
        except PyRaise as x:
            if x.exc.cls is not SystemExit:
                raise
            status = e.force(x.exc.args[0]) if x.exc.args else None
            e.oblige('handle_inputs: the run ends with status 1 or normally', status == 1 or status in (0, None))
        e.oblige('handle_inputs: every file to analyse has been analysed, and no other',
                 self.g() == self.OCCI.run(e, self.all, (z3.BoolVal(False),))[0])
        bad = z3.Or(z3.And(o['check'], self.total(1) > 0), z3.And(val, self.total(3) > 0))
        e.oblige('handle_inputs: status 1 exactly when something would change under --check-format or is '
                 'invalid under validation', bad == z3.BoolVal(status == 1))
        e.oblige('handle_inputs: the format summary is printed once exactly when asked for',
                 z3.BoolVal(e.ghost.get('summary format', 0) == 1) == fmt)
        e.oblige('handle_inputs: the validation summary is printed once exactly when asked for',
                 z3.BoolVal(e.ghost.get('summary validate', 0) == 1) == val)


def task_analyse_dir(e):
    guarded(e, 'analyse_dir', lambda: Run(e, 'analyse_dir').dir())


def task_one_input(e):
    guarded(e, 'handle_one_input', lambda: Run(e, 'handle_one_input').one())


def task_inputs(e):
    guarded(e, 'handle_inputs', lambda: Run(e, 'handle_inputs').inputs())


# ------------------------------------------------------------------ one literal
FORMAT = fn('FORMATTED', STR, STR)
LETTERS = ' \n\'"`ufbr'
PREFIXES = [''] + sorted({''.join(y) for x in ('r', 'u', 'f', 'b', 'fr', 'rf', 'br', 'rb')
                          for y in __import__('itertools').product(*[(c, c.upper()) for c in x])})


def literal(e, prefix, q):
    """An arbitrary string literal of Python, with its body."""
    body = sym(e, 'body')
    if len(q) == 1:
        # otherwise it is the empty literal followed by another, or a triple quoted one
        e.assume(z3.Not(z3.PrefixOf(sval(q), e.zstr(body))))
    return rope(prefix, q, body, q), body


def task_sql_string(e):
    name = 'handle_sql_string'
    f = e.program.find('file_handler:' + name)

    def run():
        # PREFIXES x QUOTES, one at a time
        k = e.choose(len(PREFIXES) * 4, 'literal')
        prefix, q = PREFIXES[k // 4], ("'", '"', "'''", '"""')[k % 4]
        text, body = literal(e, prefix, q)

        def fmt(e, f, a):
            may_raise(e, 'format')
            sql = e.get_attr(first(a), 'sql')
            e.oblige('%s: what is formatted is the body of the literal' % name, e.zstr(sql) == e.zstr(body))
            return rope(Atom(FORMAT(e.zstr(sql))))
        e.contracts['sql_validator:SQLQuery.format'] = fmt
        r = e.call_func(f, [('e', text)], {}, inline=True)
        got, query = [e.force(s[1]) for s in e.expand(e.segs_of(r))]
        new = rope(Atom(FORMAT(e.zstr(body))))
        lines = e.branch(zbool_(e.contains_term(new, '\n')))
        nq = q * 3 if lines and len(q) == 1 else q
        want = rope(prefix, nq, '\n', new, '\n', nq) if lines else rope(prefix, nq, new, nq)
        e.oblige('%s: prefix and quotes are kept, tripled for several lines, around the formatted body' % name,
                 e.zstr(got) == e.zstr(want))
        e.oblige('%s: the query is that of the body' % name, e.zstr(e.get_attr(query, 'sql')) == e.zstr(body))
    guarded(e, name, run, (Exception,))


def task_is_select(e):
    """What counts as a literal that starts with SELECT."""
    name = 'is_select_string'
    f = e.program.find('file_handler:' + name)
    e.functional['split1_facts'] = e.functional['words'] = ('select',)

    def run():
        text = sym(e, 'token')
        low = e.case_fn('lower', text)
        rest = e.zstr(e.bi_str_lstrip(low, LETTERS))
        e.axiom(z3.SuffixOf(rest, e.zstr(low)))
        r = e.call_func(f, [('e', text)], {}, inline=True)
        r = e.truth_term(r)
        e.oblige('%s: only a literal that starts with SELECT' % name,
                 z3.Implies(zbool_(r), z3.PrefixOf(sval('select'), rest)))
        some = z3.Or([z3.PrefixOf(sval('select' + c), rest) for c in ' \n'] + [rest == sval('select')])
        e.oblige('%s: every literal that starts with the word SELECT' % name, z3.Implies(some, zbool_(r)))
    guarded(e, name, run)


# ------------------------------------------------------------------ the command line
def task_summaries(e):
    def shows(text, n):
        """The number appears in the text, as one of the things it is put together from."""
        t = e.zstr(e.to_str(SInt(n)))
        return z3.Or([z3.BoolVal(False)] + [e.zstr(rope(p)) == t for p in pieces(text) if isinstance(p, Atom)])

    def run():
        which = e.choose(2, 'summary')
        name = ('print_format_summary', 'print_validation_summary')[which]
        said = []
        e.externals['print'] = lambda e, pos, kw: said.append(e.to_str(pos[0][1]))
        files, sql, check = z3.Int('files'), z3.Int('queries'), z3.Bool('check')
        e.assume(z3.And(files >= 0, sql >= 0, (files > 0) == (sql > 0)))
        args = [('e', SInt(files)), ('e', SInt(sql))] + ([] if which else [('e', SBool(check))])
        e.call_func(e.program.find('file_handler:' + name), args, {}, inline=True)
        e.oblige('%s: one line is printed' % name, len(said) == 1)
        if len(said) == 1:
            e.oblige('%s: the totals are shown when there is something to report' % name, z3.Implies(
                sql > 0, z3.And(shows(said[0], files), shows(said[0], sql))))
    guarded(e, 'summaries', run)


OPTIONS = {'--format': 'format', '--check-format': 'check', '--validate': 'validate',
           '--verbose-validate': 'verbose'}


def task_main(e):
    name = '_main'
    f = e.program.find('main:' + name)
    opt = {k: z3.Bool(k) for k in ('format', 'check', 'validate', 'verbose')}

    def add(e, pos, kw):
        given = [e.force(s[1]) for s in pos[1:]]
        e.ghost['declared'] = e.ghost['declared'] + ((tuple(given), tuple(sorted(
            (k, e.force(v)) for k, v in kw.items() if k in ('action', 'nargs', 'dest', 'default', 'const', 'type')))),)
        return None

    def parse(e, pos, kw):
        return Opaque('args')

    def attr(e, o, a):
        if a == 'SRC':
            return e.new_list((('c', e.fresh_chunk('src', T_STR)),))
        for flag, k in OPTIONS.items():
            if flag[2:].replace('-', '_') == a:
                return SBool(opt[k])
        raise Unsupported('attribute %s of the arguments' % a)

    def error(e, pos, kw):
        raise PyRaise(Exc(SystemExit, (2,), 'parser.error'))

    def run():
        e.ghost['declared'], called = (), []
        e.externals['argparse.ArgumentParser'] = lambda e, p, kw: Opaque('parser')
        e.externals['parser.add_argument'] = add
        e.externals['parser.add_mutually_exclusive_group'] = lambda e, p, kw: Opaque('parser')
        e.externals['parser.add_argument_group'] = lambda e, p, kw: Opaque('parser')
        e.externals['parser.parse_args'] = parse
        e.externals['parser.error'] = error
        for a in ['SRC'] + [k[2:].replace('-', '_') for k in OPTIONS]:
            e.externals['attr:args.' + a] = lambda e, o, a=a: attr(e, o, a)

        def inputs(e, f, a):
            called.append([e.force(v) for v in a.values()])
        e.contracts['file_handler:handle_inputs'] = inputs
        asked = z3.Or(list(opt.values()))
        try:
            e.call_func(f, [], {}, inline=True)
            status = None
        except PyRaise as x:
            if x.exc.cls is not SystemExit:
                raise
            status = e.force(x.exc.args[0])
            e.oblige('_main: refused with status 2', status == 2)
        e.oblige('_main: the inputs are handled, once, when an option is given and refused otherwise',
                 asked if status is None and len(called) == 1 else
                 z3.Not(asked) if status and not called else False)
        if called:
            e.oblige('_main: the options given are passed on', z3.And(
                [zbool_(e.truth_term(v)) == opt[k] for k, v in
                 zip(('format', 'check', 'validate', 'verbose'), called[0][1:])]))
        want = {(x,): (('action', 'store_true'),) for x in OPTIONS}
        want[('SRC',)] = (('nargs', '+'),)
        got = {k: v for k, v in e.ghost['declared'] if k in want}
        if got != want:
            raise Unsupported('how the options are declared')
        e.oblige('_main: the options are plain switches and inputs are given', got == want)
    guarded(e, name, run)


# ------------------------------------------------------------------ SQLQuery
def task_query(e):
    """Every state of a query that its methods reach, whatever their order: parsing and validating are functions
    of the text, so that the states are finitely many terms; all of them are visited."""
    OK, TREE, ERRLIST = fn('PARSES', STR, BOOL), fn('TREE', STR, OBJ), fn('VALIDATION', OBJ, SEQ)
    WHY, TRANS = fn('REASON', STR, STR), fn('TRANSFORMED', OBJ, STR)
    done = {}       # state -> the operations that reached it first

    def tokens(e, f, a):
        return Opaque('tokens', first(a))

    def parse(e, f, a):
        t = e.force(list(a.values())[-1])
        if not (isinstance(t, Opaque) and t.tag == 'tokens'):
            raise Unsupported('what is parsed')
        s = e.zstr(t.data)
        if not e.branch(OK(s)):
            # refused, or another exception: which one is the same each time
            k = e.ghost.get('how')
            if k is None:
                k = e.ghost['how'] = e.choose(2, 'how parsing fails')
            text = rope(Atom(WHY(s)))
            raise PyRaise(Exc(e.program.cls('ParsingError') if k == 0 else ValueError, (text,), 'parse'))
        return ObjV(TREE(s))

    def c_validate(e, pos, kw):
        ch = Chunk(ERRLIST(pos[0][1].t), T_STR)
        e.len_chunk(ch)
        return e.new_list((('c', ch),))

    def values(o):
        """State of the query, as a key."""
        i = e.objs[tid(o.t)]
        out = []
        for k in sorted(i.fields):
            v = e.force(i.fields[k])
            out.append((k, segkey(e.expand(e.segs_of(v))) if isinstance(v, Ref) else vkey(v)))
        return tuple(out), e.ghost.get('how'), tuple(str(x) for k, x in e.pc)

    def verdict(text):
        """(valid, errors as segments) of a text on this path."""
        s = e.zstr(text)
        if e.branch(OK(s)):
            ch = Chunk(ERRLIST(TREE(s)), T_STR)
            return e.len_chunk(ch) == 0, (('c', ch),)
        return z3.BoolVal(False), None

    def run():
        e.contracts['tokeniser:to_tokens'] = tokens
        e.contracts['lexer:SQLStatementParser.parse'] = parse
        for m in ('validate', 'transform'):
            e.virtual[m] = lambda e, o, n, a: Builtin('tree.' + n, o) if 'TREE' in str(o.t.decl()) else NotImplemented
        e.externals['tree.validate'] = c_validate
        e.externals['tree.transform'] = lambda e, pos, kw: rope(Atom(TRANS(pos[0][1].t)))
        text = rope(Atom(z3.Const('sql', STR)))
        q = e.construct(e.program.cls('SQLQuery'), [('e', text)], {})
        ops = ()
        for _ in range(40):
            if done.setdefault(values(q), ops) != ops:
                break
            op = e.choose(2, 'operation')
            ops += (op,)
            if op == 0:
                v = e.truth_term(e.call(e.get_attr(q, 'is_valid'), [], {}))
                ok, errs = verdict(text)
                got = e.segs_of(e.get_attr(q, 'errors'))
                e.oblige('SQLQuery.is_valid: the verdict is that of the text, each time', zbool_(v) == ok)
                e.oblige('SQLQuery.is_valid: valid exactly when there are no errors',
                         zbool_(v) == (zint(e.len_segs(got)) == 0))
                e.oblige('SQLQuery.is_valid: the errors are those of the text, each time',
                         (lambda: e.eq_segs(e.expand(got), errs)) if errs is not None else
                         zint(e.len_segs(got)) >= 1)
            else:
                try:
                    r = e.call(e.get_attr(q, 'format'), [], {})
                    e.oblige('SQLQuery.format: the formatted text is that of the text, each time',
                             z3.And(OK(e.zstr(text)), e.zstr(r) == TRANS(TREE(e.zstr(text)))))
                except PyRaise as x:
                    c = e.program.cls('ParsingError')
                    e.oblige('SQLQuery.format: raises no exception but ParsingError, on a text that is refused',
                             z3.And(z3.Not(OK(e.zstr(text))), z3.BoolVal(x.exc.isinst(c))), lambda: repr(x.exc))
        else:
            raise Unsupported('states of a query')
    guarded(e, 'SQLQuery', run)
