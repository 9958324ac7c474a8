"""Path exploration by re-execution, and the decision procedure for branch conditions and assertions."""
import time
import machine as mc
import terms as T
from terms import Term, not_, eq, ult, and_
import solve
from solve import IntEnc, IntSolver, BvSolver, Stats


class Controller:
    """Decides branches.  mode 'int' or 'bv' selects the encoding used for feasibility."""

    def __init__(self, mode='int', fork_udiv=False, feas_timeout=2000, fork_select=None):
        self.mode = mode
        self.int_mode = mode == 'int'
        self.fork_select = self.int_mode if fork_select is None else fork_select
        self.fork_shift = self.int_mode
        self.fork_udiv = fork_udiv
        self.conc_urem = 0      # remainders below this are forked over their values
        self.stats = Stats()
        self.enc = IntEnc()
        self.int = IntSolver(self.enc, False, feas_timeout, self.stats)
        self.bvs = BvSolver(feas_timeout, self.stats)
        self.sol = self.int if self.int_mode else self.bvs
        self.pre = []
        self.deadline = None
        self.deadline2 = None
        self.truncated = False
        self.begin([], None)

    def begin(self, prefix, env):
        self.prefix = prefix        # decisions to replay: bool, or ('v', value)
        self.pos = 0
        self.trace = []             # decisions taken
        self.pc = list(self.pre)
        self.known = {}
        for c in self.pre:
            self.learn(c)
        self.pending = []           # alternatives found on this path: (prefix, env)
        self.env = env
        self.ep = T.new_epoch() if env is not None else 0
        self.uncertain = False

    def learn(self, c):
        if c.op == 'not':
            self.known[c.a.id] = 0
        else:
            self.known[c.id] = 1
        if c.op == 'and':
            for x in (c.a, c.b):
                if x.__class__ is Term:
                    self.learn(x)
        elif c.op == 'not' and c.a.op == 'or':
            for x in (c.a.a, c.a.b):
                if x.__class__ is Term:
                    self.learn(not_(x))

    def assume(self, c):
        """precondition (before running)"""
        if c.__class__ is int:
            if not c:
                raise mc.Infeasible()
            return
        self.pre.append(c)

    def genuine(self, env):
        """the model satisfies the real path condition"""
        ep = T.new_epoch()
        for n, x in env.items():
            v = T.VARS.get(n)
            if v is not None and not v.lo <= x <= v.hi:
                return 0
        for c in self.pc:
            if T.evaluate(c, env, ep) != 1:
                return 0
        return ep

    def branch(self, c):
        if c.__class__ is int:
            return c
        neg = 0
        if c.op == 'not':
            c = c.a
            neg = 1
        k = self.known.get(c.id)
        if k is not None:
            return k ^ neg
        if self.int_mode:
            f = self.enc.formula(c)
            if f is True or f is False:
                return int(f) ^ neg
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            if d.__class__ is tuple:
                raise RuntimeError('decision trace out of step')
        else:
            d = self.decide(c)
        if d == 2:      # forced: holds without being recorded as a decision
            d = 1
        self.trace.append(d)
        self.known[c.id] = d
        cc = c if d else not_(c)
        self.pc.append(cc)
        self.learn(cc)
        return d ^ neg

    def decide(self, c):
        if self.deadline and time.time() > self.deadline:
            # out of time: finish this path along its model, leaving the alternatives unexplored
            if self.env is None or time.time() > self.deadline2:
                raise mc.Budget('time')
            self.truncated = True
            self.pos += 1
            return T.evaluate(c, self.env, self.ep)
        nc = not_(c)
        if self.env is not None:
            v = T.evaluate(c, self.env, self.ep)
            other = nc if v else c
            r = self.check(other)
            if r != 'unsat':
                self.alt(1 - v, r)
            self.pos += 1
            return v
        r1 = self.check(c)
        e1 = self.sol.env
        if r1 == 'unsat':
            self.pos += 1
            return 0
        r0 = self.check(nc)
        e0 = self.sol.env
        if r0 == 'unsat':
            self.pos += 1
            self.adopt(c, e1 if r1 == 'sat' else None)
            return 1
        # both possible
        self.sol.env = e0
        self.alt(0, r0)
        self.pos += 1
        self.adopt(c, e1 if r1 == 'sat' else None)
        return 1

    def adopt(self, c, env):
        if env is None:
            return
        ep = T.new_epoch()
        for x in self.pc:
            if T.evaluate(x, env, ep) != 1:
                return
        if T.evaluate(c, env, ep) != 1:
            return
        self.env = env
        self.ep = ep

    def check(self, c):
        return self.sol.check(self.pc, c)

    def alt(self, d, r):
        env = self.sol.env if r == 'sat' else None
        self.pending.append((self.trace + [d], env))

    def forced(self, t):
        """the value of t if the truth of decided conditions fixes it"""
        known = self.known
        ep = T.new_epoch()
        stack = [t]
        n = 0
        while stack:
            x = stack[-1]
            if x.ep == ep:
                stack.pop()
                continue
            k = known.get(x.id) if x.w == 1 else None
            if k is None:
                n += 1
                if x.op == 'var' or n > 200:
                    return None
                if x.op == 'ite' and x.a.ep == ep:
                    y = x.b if x.a.ev else x.c
                    if y.__class__ is Term and y.ep != ep:
                        stack.append(y)
                        continue
                    k = y if y.__class__ is int else y.ev
                else:
                    need = False
                    for y in (x.a,) if x.op == 'ite' else (x.a, x.b, x.c):
                        if y.__class__ is Term and y.ep != ep:
                            stack.append(y)
                            need = True
                    if need or x.op == 'ite':
                        continue
                    k = T.eval1(x, {})
            stack.pop()
            x.ev = k
            x.ep = ep
        return t.ev

    def concretize(self, t):
        v = self.forced(t)
        if v is not None:
            return v
        tried = set()
        while True:
            if self.pos < len(self.prefix):
                d = self.prefix[self.pos]
                if d.__class__ is not tuple:
                    raise RuntimeError('decision trace out of step (value)')
                v = d[1]
                self.pos += 1
            else:
                v = self.pick(t, tried)
                self.pos += 1
            self.trace.append(('v', v))
            if self.branch(eq(t, v, t.w)):
                return v
            if v in tried:
                raise mc.Budget('no value to pick')
            tried.add(v)

    def pick(self, t, tried):
        if self.env is not None:
            v = T.evaluate(t, self.env, self.ep)
            if v not in tried:
                return v
            # the model is not one of this path
            self.env = None
        r = self.sol.check(self.pc, 1)
        if r == 'unsat':
            raise mc.Infeasible()
        env = self.sol.env
        if env is not None:
            v = T.evaluate(t, env, T.new_epoch())
            if v in tried:
                env = None
        if env is None:
            # no model: the next value not excluded yet
            if t.hi - t.lo > 1000:
                raise mc.Budget('no model to pick a value from')
            for v in range(t.lo, t.hi + 1):
                e = eq(t, v, t.w)
                if e.__class__ is int:
                    if e:
                        return v
                elif self.known.get(e.id) != 0 and v not in tried:
                    return v
            raise mc.Infeasible()
        return v

    def quotient(self, a, b, w):
        """fork over the values of a/b (b != 0), with the conditions q*b <= a < (q+1)*b"""
        t = T.udiv(a, b, w)
        if t.__class__ is int:
            return t
        W = 2 * w + 2
        az, bz = T.zext(a, W), T.zext(b, W)
        tried = set()
        while True:
            if self.pos < len(self.prefix):
                d = self.prefix[self.pos]
                if d.__class__ is not tuple:
                    raise RuntimeError('decision trace out of step (quotient)')
                v = d[1]
                self.pos += 1
            else:
                v = self.pick(t, tried)
                self.pos += 1
            self.trace.append(('v', v))
            c1 = not_(ult(az, T.mul(bz, v, W), W))
            c2 = ult(az, T.mul(bz, v + 1, W), W)
            c = and_(c1, c2, 1)
            if self.branch(c) if c.__class__ is not int else c:
                return v
            if v in tried:
                raise mc.Budget('no quotient to pick')
            tried.add(v)


def thrown(e):
    return mc.prog.names.get(e.ti, '?').replace('@_ZTI', '')


def run_path(ctl, fn, prefix, env):
    """One execution.  -> (status, value)"""
    mc.ctl = ctl
    mc.prog.reset()
    ctl.begin(prefix, env)
    try:
        v = fn()
        return ('ok', v)
    except mc.CppThrow as e:
        return ('throw', thrown(e))
    except mc.Fault as e:
        return ('fault', (e.kind, e.what))
    except mc.Infeasible:
        return ('infeasible', None)
    except mc.Unsup as e:
        return ('unsupported', str(e))
    except mc.Budget as e:
        return ('budget', str(e))
    except RecursionError:
        return ('fault', ('fuel', 'recursion without end'))


def monovars(ctl, conds):
    """variables that occur in products (of two non-constants), with their number of occurrences"""
    out = {}
    seen = set()
    enc = ctl.enc
    atoms_seen = set()

    def poly(p):
        st = list(p)
        while st:
            m = st.pop()
            if len(m) > 1:
                for v in set(m):
                    for x in leaves(v):
                        out[x] = out.get(x, 0) + 1
            for i in m:
                if i not in atoms_seen:
                    atoms_seen.add(i)
                    a = enc.atoms[i]
                    if a.kind in ('floor', 'name'):
                        st += list(a.x)
                    elif a.kind == 'ite':
                        st += list(a.d[0]) + list(a.d[1])
                        form(enc.formula(a.x))
                    elif a.kind == 'b2i':
                        form(enc.formula(a.x))
                    elif a.kind == 'pdiv':
                        st += list(a.x[0]) + list(a.x[1])
                    elif a.kind == 'udiv':
                        for y in a.x:
                            st += list(enc.uview(y)[0])
                        if a.x[1].__class__ is Term:
                            out_terms(a.x[1])

    def out_terms(t):
        for m in enc.uview(t)[0]:
            for i in m:
                for x in leaves(i):
                    out[x] = out.get(x, 0) + 3

    lv = {}

    def leaves(i):
        r = lv.get(i)
        if r is not None:
            return r
        lv[i] = ()
        a = enc.atoms[i]
        r = set()
        if a.kind == 'var':
            r = {a.x.a}
        elif a.kind in ('floor', 'name'):
            for m in a.x:
                for j in m:
                    r |= set(leaves(j))
        lv[i] = r
        return r

    def form(f):
        if f.__class__ is bool:
            return
        if f[0] in ('le', 'eq'):
            poly(f[1])
        else:
            for g in f[1:]:
                form(g)

    for c in conds:
        if c.__class__ is Term and c.id not in seen:
            seen.add(c.id)
            form(enc.formula(c))
    return out


def probe(ctl, conds, env, timeout, tries=4):
    """Look for a genuine model: fix some factors of the products to constants, which makes the query linear and exact.
    Every model is checked by evaluation; finding none proves nothing."""
    occ = monovars(ctl, conds)
    if not occ:
        return None
    end = time.time() + timeout / 1000.0
    order = sorted(occ, key=lambda n: -occ[n])
    cand = []
    half = order[:max(1, (len(order) + 1) // 2)]
    for frac in (half, order):
        for kind in range(tries):
            cand.append((frac, kind))
    base = env or {}
    for names, kind in cand:
        if time.time() > end:
            return None
        fix = []
        for n in names:
            v = T.VARS.get(n)
            if v is None:
                continue
            if kind == 0:
                x = base.get(n, v.lo)
            elif kind == 1:
                x = v.hi
            elif kind == 2:
                x = v.lo
            else:
                x = v.lo + (v.hi - v.lo) // 2 + 1
            x = min(max(x, v.lo), v.hi)
            c = eq(v, x, v.w)
            if c.__class__ is Term:
                fix.append(c)
        s = IntSolver(ctl.enc, False, 2000, ctl.stats)
        r = s.check(fix + conds, 1, 2000)
        if r == 'sat':
            e = dict(s.env)
            ep = T.new_epoch()
            if all(T.evaluate(c, e, ep) == 1 for c in conds):
                return e
    return None


def has_wide_mul(conds, limit=14):
    seen = set()
    st = list(conds)
    while st:
        x = st.pop()
        if x.__class__ is not Term or x.id in seen:
            continue
        seen.add(x.id)
        if x.op in ('mul', 'udiv', 'urem', 'sdiv', 'srem', 'dvd') and (x.b.__class__ is Term or x.op != 'mul') and (x.c if x.op == 'dvd' else x.w) > limit:
            return True
        if x.op != 'var':
            st += [x.a, x.b, x.c]
    return False


def model(ctl, conds, timeout, hard=True):
    """-> ('unsat', how) | ('sat', env, how) | ('unknown',): decide the conjunction of conds (a list of i1 terms)"""
    def genuine(env):
        ep = T.new_epoch()
        for n, x in env.items():
            v = T.VARS.get(n)
            if v is not None and not v.lo <= x <= v.hi:
                return False
        return all(T.evaluate(c, env, ep) == 1 for c in conds)
    if not ctl.int_mode:
        r = ctl.bvs.check(conds[:-1], conds[-1], timeout)
        if r == 'unsat':
            return ('unsat', 'bv')
        if r == 'sat' and genuine(ctl.bvs.env):
            return ('sat', dict(ctl.bvs.env), 'bv')
        return ('unknown',)
    r = ctl.int.check(conds[:-1], conds[-1], timeout)
    if r == 'unsat':
        return ('unsat', 'lin')
    env = None
    if r == 'sat':
        env = dict(ctl.int.env)
        if genuine(env):
            return ('sat', env, 'lin')
    e = probe(ctl, conds, env, timeout)
    if e is not None:
        return ('sat', e, 'lin')
    if not hard:
        return ('unknown',)
    if len(ctl.enc.atoms) <= 400:
        s = IntSolver(ctl.enc, True, timeout, ctl.stats)
        r = s.check(conds, 1, timeout)
        if r == 'unsat':
            return ('unsat', 'nia')
        if r == 'sat' and genuine(s.env):
            return ('sat', dict(s.env), 'nia')
    try:
        r = ctl.bvs.check(conds[:-1], conds[-1], min(timeout, 5000) if has_wide_mul(conds) else timeout)
    except KeyError:
        return ('unknown',)
    if r == 'unsat':
        return ('unsat', 'bv')
    if r == 'sat' and genuine(ctl.bvs.env):
        return ('sat', dict(ctl.bvs.env), 'bv')
    return ('unknown',)


def prove(ctl, cond, timeout, hard=True):
    """Decide pc => cond.  -> ('proved', None, how) | ('cex', env, how) | ('undecided', None, how)"""
    neg = not_(T.B(cond))
    if neg.__class__ is int:
        if not neg:
            # the negated assertion simplified to false; the solver still gets the (trivial) query
            ctl.stats.queries += 1
            ctl.stats.unsat += 1
            return 'proved', None, 'folded'
        r = model(ctl, ctl.pc, timeout, hard) if ctl.pc else ('sat', {}, 'lin')
    else:
        env = ctl.env
        if env is not None and ctl.genuine(env) and T.evaluate(neg, env, T.new_epoch()) == 1:
            # the solver's model of this path already violates the assertion
            return 'cex', dict(env), 'path model'
        r = model(ctl, ctl.pc + [neg], timeout, hard)
    if r[0] == 'unsat':
        return 'proved', None, r[1]
    if r[0] == 'sat':
        return 'cex', r[1], r[2]
    return 'undecided', None, 'none'
