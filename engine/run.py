"""Builds the IR and the native driver from /repo's working tree, runs jobs in parallel, replays counterexamples,
validates the translation, writes the evidence file."""
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import struct
import sys
import tempfile
import threading
import time
import traceback
import multiprocessing as mp

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)

import terms as T
from terms import Term, Z, land, lor, lnot, zvalue, zsigned, zunsigned, zite
import machine as mc
import explore
import fp  # registers the floating point operations

CAP = 4096
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'


# ---------------------------------------------------------------- build

def sources():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, 'src')):
        for f in sorted(fs):
            if f.endswith(('.cpp', '.cc', '.cxx')):
                out.append(os.path.join(d, f))
    return sorted(out)


def incs():
    return ['-I' + os.path.join(REPO, 'include/public'), '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(VERIF, 'harness')]


IRFLAGS = ['-std=c++17', '-O1', '-fno-pic', '-fwrapv', '-fno-strict-aliasing', '-fno-vectorize', '-fno-slp-vectorize',
           '-fno-unroll-loops', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-w', '-Xclang', '-disable-lifetime-markers']
UBFLAGS = ['-fsanitize=undefined,float-cast-overflow', '-fno-sanitize=vptr,null,alignment,object-size,function',
           '-fsanitize-trap=all']


ASSUMPTIONS = [
    'the IR is clang 18 -O1 -fwrapv of /repo/src and /verif/harness/harness.cpp; the shipped gcc build is trusted to agree '
    '(up to three paths per job are replayed natively and compared)',
    'operator new never fails; libm, iostream and the unwinder are modelled, not encoded',
    'z3, cvc5 and the engine in /verif/engine are trusted; every reported violation is replayed against the native build first',
    'nothing is claimed outside the operand shapes listed in bounds',
]


PYTHON = '/opt/vp/venv/bin/python'


class BuildError(Exception):
    pass


def par(cmds, cwd):
    ps = [(c, subprocess.Popen(c, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)) for c in cmds]
    for c, p in ps:
        out, _ = p.communicate()
        if p.returncode:
            raise BuildError(' '.join(c) + '\n' + out.decode(errors='replace')[-3000:])


class Build:
    def __init__(self, ub=False, native=True, py=False):
        self.dir = tempfile.mkdtemp(prefix='verif-build-')
        t0 = time.time()
        d = self.dir
        self.py = py
        src = sources() + [os.path.join(VERIF, 'harness/pybind.cpp' if py else 'harness/harness.cpp')]
        self.incs = incs()
        if py:
            self.bindings()
        cmds = []
        lls = []
        flags = list(IRFLAGS)
        if ub:
            flags.remove('-fwrapv')
            flags += UBFLAGS
        for i, s in enumerate(src + [os.path.join(VERIF, 'harness/models.cpp')]):
            o = os.path.join(d, '%d.ll' % i)
            lls.append(o)
            cmds.append(['clang++'] + flags + self.incs + ['-S', '-emit-llvm', s, '-o', o])
        nat = []
        if native and py:
            for i, s in enumerate(src[:-1] + [self.pysrc]):
                o = os.path.join(d, 'n%d.o' % i)
                nat.append(o)
                cmds.append(['g++', '-std=c++17', '-O1', '-g0', '-w', '-fPIC', '-fvisibility=hidden'] + incs() + self.pyincs() + ['-c', s, '-o', o])
        elif native:
            for i, s in enumerate(src + [os.path.join(VERIF, 'harness/driver.cpp')]):
                o = os.path.join(d, 'n%d.o' % i)
                nat.append(o)
                cmds.append(['g++', '-std=c++17', '-O2', '-g0', '-w'] + incs() + ['-c', s, '-o', o])
        par(cmds, d)
        if native and py:
            cmds = [['g++', '-shared'] + nat + ['-o', os.path.join(d, 'pybiginteger.so')]]
        elif native:
            cmds = [['g++', '-rdynamic'] + nat + ['-ldl', '-o', os.path.join(d, 'driver')]]
        else:
            cmds = []
        cmds.append(['llvm-link', '-S'] + lls + ['-o', os.path.join(d, 'all.ll')])
        par(cmds, d)
        if native and py:
            w = os.path.join(d, 'driver')
            with open(w, 'w') as f:
                f.write('#!/bin/sh\nexec %s %s %s "$@"\n' % (PYTHON, os.path.join(VERIF, 'harness/pydriver.py'), d))
            os.chmod(w, 0o755)
        self.ll = open(os.path.join(d, 'all.ll')).read()
        self.time = time.time() - t0
        self.asan_built = False
        self.src = src

    def bindings(self):
        """the bindings source in a tree of its own beside the current headers, and the generated version.h if it was not generated yet"""
        t = os.path.join(self.dir, 'tree')
        shutil.copytree(os.path.join(REPO, 'include'), os.path.join(t, 'include'))
        shutil.copytree(os.path.join(REPO, 'bindings'), os.path.join(t, 'bindings'))
        v = os.path.join(t, 'include/public/bigintegercpp/version.h')
        if not os.path.exists(v):
            with open(v, 'w') as f:
                f.write('#pragma once\nstatic constexpr auto BIGINTEGERCPP_VERSION = "0";\n')
        self.pysrc = os.path.join(t, 'bindings/python/python-bindings.cpp')
        self.incs = ['-I' + os.path.join(VERIF, 'harness/py'), '-DBINDINGS_SOURCE="%s"' % self.pysrc] + self.incs

    def pyincs(self):
        p = subprocess.run([PYTHON, '-m', 'pybind11', '--includes'], stdout=subprocess.PIPE)
        return p.stdout.decode().split()

    def asan(self):
        """address+UB sanitizer build of the driver, made only when a fault has to be confirmed"""
        p = os.path.join(self.dir, 'driver_asan')
        if not os.path.exists(p):
            cmds = []
            objs = []
            for i, s in enumerate(self.src + [os.path.join(VERIF, 'harness/driver.cpp')]):
                o = os.path.join(self.dir, 'a%d.o' % i)
                objs.append(o)
                cmds.append(['clang++', '-std=c++17', '-O1', '-g0', '-w', '-fsanitize=address,undefined,float-cast-overflow',
                             '-fno-sanitize=vptr,function', '-fno-sanitize-recover=all'] + self.incs + ['-c', s, '-o', o])
            par(cmds, self.dir)
            par([['clang++', '-rdynamic', '-fsanitize=address,undefined'] + objs + ['-ldl', '-o', p]], self.dir)
        return p

    def valgrind(self, request):
        """memcheck on the native driver: does the request use uninitialised memory?"""
        if self.py:
            return None
        try:
            p = subprocess.run(['valgrind', '-q', '--error-exitcode=79', '--trace-children=yes', os.path.join(self.dir, 'driver'), '60'],
                               input=(request + '\n').encode(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
        except (OSError, subprocess.TimeoutExpired):
            return None
        m = re.search(r'(Conditional jump|Use of uninit|Invalid read|Invalid write)[^\n]*', p.stdout.decode(errors='replace'))
        return 'valgrind: ' + m.group(0) if m else None

    def clean(self):
        shutil.rmtree(self.dir, ignore_errors=True)


class Native:
    """A driver process: one request per line."""

    def __init__(self, path, secs=10, asan=False):
        env = dict(os.environ)
        if asan:
            env['ASAN_OPTIONS'] = 'detect_leaks=0:exitcode=77:allocator_may_return_null=0'
            env['UBSAN_OPTIONS'] = 'exitcode=78:halt_on_error=1'
        self.p = subprocess.Popen([path, str(secs)], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.PIPE if False else subprocess.DEVNULL, env=env)

    def run(self, req):
        self.p.stdin.write((req + '\n').encode())
        self.p.stdin.flush()
        out = []
        while True:
            l = self.p.stdout.readline()
            if not l:
                return ['driver-died']
            l = l.decode().strip()
            if l == '.':
                return out
            out.append(l)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()


# ---------------------------------------------------------------- inputs and outputs of a run

class InBig:
    def __init__(self, sign, limbs):
        self.sign = sign      # 32-bit word (int/Term)
        self.limbs = limbs

    @property
    def n(self):
        return len(self.limbs)

    def mag(self):
        return zvalue(self.limbs)

    def val(self):
        if not self.limbs:
            return zsigned(self.sign, 32)
        v = self.mag()
        return v if T.sgn(self.sign, 32) > 0 else -v

    def neg(self):
        """i1: negative"""
        if not self.limbs:
            return T.slt(self.sign, 0, 32)
        return int(T.sgn(self.sign, 32) < 0)


class Inputs:
    def __init__(self):
        self.big = {}
        self.k = {}
        self.buf = None
        self.assume = []
        self.concrete = False

    # builders -----------------------------------------------------
    def sym(self, name, w=32, lo=0, hi=None):
        return T.var(name, w, lo, hi)

    def small(self, i, lo=-(2**31 - 1), hi=2**31 - 1, name=None):
        """a value that fits the small representation"""
        if lo == hi:
            self.big[i] = InBig(lo & 0xFFFFFFFF, [])
            return
        name = name or 'abcd'[i]
        if lo >= 0:
            s = T.var(name, 32, lo, hi)
        elif hi < 0:
            s = T.sub(0, T.var(name, 32, -hi, -lo), 32)
        else:
            s = T.var(name, 32)
            self.assume.append(T.not_(T.slt(s, lo & 0xFFFFFFFF, 32)))
            self.assume.append(T.not_(T.slt(hi & 0xFFFFFFFF, s, 32)))
        self.big[i] = InBig(s, [])

    def large(self, i, n, sign, limbs=None, name=None):
        """n limbs; limbs[j] is an int, a Term, or None for a fresh symbolic limb"""
        name = name or 'abcd'[i]
        limbs = list(limbs or [None] * n)
        for j in range(n):
            if limbs[j] is None:
                lo = 0
                if j == n - 1:
                    lo = 1 << 31 if n == 1 else 1
                limbs[j] = T.var('%s%d' % (name, j), 32, lo)
        self.big[i] = InBig(sign & 0xFFFFFFFF, limbs)

    def num(self, i, v):
        """a concrete operand"""
        self.big[i] = concrete_big(v)

    def operand(self, i, shape, name=None):
        """shape: 0 small symbolic; +n/-n: n symbolic limbs and that sign; ('c', v) concrete; ('l', sign, [limbs])"""
        if shape.__class__ is tuple:
            if shape[0] == 'c':
                self.num(i, shape[1])
            elif shape[0] == 'l':
                self.large(i, len(shape[2]), shape[1], shape[2], name)
            elif shape[0] == 's':
                self.small(i, shape[1], shape[2], name)
            return
        if shape == 0:
            self.small(i, name=name)
        else:
            self.large(i, abs(shape), 1 if shape > 0 else -1, name=name)

    # concrete instance ----------------------------------------------
    def instance(self, env):
        ep = T.new_epoch()
        ev = lambda x: T.evaluate(x, env, ep)
        r = Inputs()
        r.concrete = True
        for i, b in self.big.items():
            r.big[i] = InBig(ev(b.sign), [ev(x) for x in b.limbs])
        for i, v in self.k.items():
            r.k[i] = ev(v)
        if self.buf is not None:
            r.buf = [ev(x) for x in self.buf]
        return r

    def request(self, fn):
        s = [fn]
        for i, b in self.big.items():
            s.append('in %d %d %d %s' % (i, T.sgn(b.sign, 32), len(b.limbs), ' '.join(map(str, b.limbs))))
        for i, v in self.k.items():
            s.append('k %d %d' % (i, v))
        if self.buf is not None:
            s.append('buf %d %s' % (len(self.buf), ' '.join(map(str, self.buf))))
        return ' '.join(s)

    def describe(self):
        d = {}
        for i, b in self.big.items():
            d['in%d' % i] = str(b.val()) if b.limbs else str(T.sgn(b.sign, 32))
        for i, v in self.k.items():
            d['k%d' % i] = v
        if self.buf is not None:
            d['buf'] = self.buf
        return d


def concrete_big(v):
    if -(2**31) < v < 2**31:
        return InBig(v & 0xFFFFFFFF, [])
    m = abs(v)
    limbs = []
    while m:
        limbs.append(m & 0xFFFFFFFF)
        m >>= 32
    return InBig((1 if v > 0 else -1) & 0xFFFFFFFF, limbs)


class OutBig:
    def __init__(self, sign, limbs):
        self.sign = sign
        self.limbs = limbs

    @property
    def n(self):
        return len(self.limbs)

    def mag(self):
        return zvalue(self.limbs)

    def val(self):
        if not self.limbs:
            return zsigned(self.sign, 32)
        m = self.mag()
        if self.sign.__class__ is int:
            s = T.sgn(self.sign, 32)
            return m if s == 1 else -m if s == -1 else m * s
        return zite(T.slt(self.sign, 0, 32), -m if m.__class__ is int else -m, m)

    def canon(self):
        """the unique representation of its value"""
        if not self.limbs:
            return lnot(T.eq(self.sign, 1 << 31, 32))
        c = lor(T.eq(self.sign, 1, 32), T.eq(self.sign, 0xFFFFFFFF, 32))
        top = self.limbs[-1]
        if len(self.limbs) == 1:
            return land(c, lnot(T.ult(top, 1 << 31, 32)))
        return land(c, lnot(T.eq(top, 0, 32)))

    def same(self, b):
        """identical representation to the input b"""
        if len(b.limbs) != len(self.limbs):
            return 0
        r = T.eq(self.sign, b.sign, 32)
        for x, y in zip(self.limbs, b.limbs):
            r = land(r, T.eq(x, y, 32))
        return r


class Outputs:
    def __init__(self):
        self.status = 'ok'
        self.exc = None
        self.out = {}
        self.r = {}
        self.obuf = None
        self.olen = None
        self.fresh = None

    def ok(self):
        return self.status == 'ok'


# symbolic side ------------------------------------------------------

def make_ctx(I):
    base = mc.new_obj(416, 'g', bytes(416))
    for i in range(4):
        b = I.big.get(i)
        limbs = b.limbs if b else []
        p = mc.new_obj(4 * len(limbs), 'g')
        for j, x in enumerate(limbs):
            mc.st4(p + 4 * j, x)
        mc.st4(base + 16 * i, b.sign if b else 0)
        mc.st4(base + 16 * i + 4, len(limbs))
        mc.st8(base + 16 * i + 8, p)
    for i, v in I.k.items():
        mc.st8(base + 64 + 8 * i, v)
    buf = I.buf or []
    p = mc.new_obj(len(buf), 'g')
    for j, x in enumerate(buf):
        mc.st1(p + j, x)
    mc.st8(base + 128, p)
    mc.st8(base + 136, len(buf))
    outs = []
    for i in range(8):
        p = mc.new_obj(4 * CAP, 'g')
        mc.st4(base + 144 + 16 * i + 4, 0xFFFFFFFF)
        mc.st8(base + 144 + 16 * i + 8, p)
        outs.append(p)
    ob = mc.new_obj(4 * CAP, 'g')
    mc.st8(base + 400, ob)
    mc.st8(base + 408, (1 << 64) - 1)
    return base, outs, ob


def read_ctx(ctx, O, u32=False):
    base, outs, ob = ctx
    for i in range(8):
        n = mc.conc(mc.ld4(base + 144 + 16 * i + 4))
        if n != 0xFFFFFFFF:
            O.out[i] = OutBig(mc.ld4(base + 144 + 16 * i), [mc.ld4(outs[i] + 4 * j) for j in range(n)])
    for i in range(16):
        O.r[i] = mc.ld8(base + 272 + 8 * i)
    n = mc.conc(mc.ld8(base + 408))
    if n != (1 << 64) - 1:
        O.olen = n
        O.obuf = [mc.ld4(ob + 4 * j) for j in range(n)] if u32 else [mc.ld1(ob + j) for j in range(n)]
    return O


def parse_native(lines, u32=False):
    O = Outputs()
    if not lines:
        O.status = 'fault'
        O.exc = 'no output'
        return O
    l = lines[0].split()
    if len(lines) > 1 and not lines[-1].startswith(('ok', 'throw')):
        O.status = 'fault'
        O.exc = ' '.join(lines)
        return O
    if l[0] == 'throw':
        O.status = 'throw'
        O.exc = l[1]
        return O
    if l[0] != 'ok':
        O.status = 'fault'
        O.exc = lines[0]
        return O
    i = 1
    while i < len(l):
        if l[i] == 'out':
            n = int(l[i + 3])
            O.out[int(l[i + 1])] = OutBig(int(l[i + 2]) & 0xFFFFFFFF, [int(x) for x in l[i + 4:i + 4 + n]])
            i += 4 + n
        elif l[i] == 'r':
            O.r[int(l[i + 1])] = int(l[i + 2])
            i += 3
        elif l[i] == 'obuf':
            n = int(l[i + 1])
            O.olen = n
            b = [int(x) for x in l[i + 2:]]
            if u32:
                b = [sum(b[4 * j + q] << (8 * q) for q in range(4)) for j in range(n)]
            O.obuf = b
            i = len(l)
        else:
            raise ValueError(l[i])
    return O


# ---------------------------------------------------------------- jobs

class Job:
    """One harness entry point on one operand shape.

    setup(I)       fills the symbolic inputs
    oracle(I, O)   -> list of (label, condition); called with symbolic or concrete values
    prelude        [(fn, Inputs -> Inputs)]: calls made before, in the same process; the oracle sees what the call gives
                   in a fresh process as O.fresh
    """

    def __init__(self, name, fn, setup, oracle, mode='int', budget=60, maxpaths=2000, vc_timeout=10000, fork_udiv=False,
                 feas_timeout=2000, fork_select=None, weight=1, limit=2 * 10**6, hard=True, bounds=None, on_throw=None,
                 fault_ok=None, conc_urem=0, safety=False, qb=None, prelude=()):
        self.__dict__.update(locals())
        del self.__dict__['self']


class Result:
    pass


def run_job(job, build_driver):
    """Explore every path of the job and discharge the assertions."""
    T.reset()
    t0 = time.time()
    ctl = explore.Controller(job.mode, job.fork_udiv, job.feas_timeout, job.fork_select)
    ctl.conc_urem = job.conc_urem
    I = Inputs()
    job.setup(I)
    for c in I.assume:
        ctl.assume(c)
    mc.limit[0] = job.limit
    mc.prog.used.clear()
    u32 = job.fn == 'h_u32'
    R = dict(job=job.name, fn=job.fn, paths=0, ok=0, throw=0, fault=0, infeasible=0, decisions=0, proved=0, undecided=[],
             violations=[], incomplete=None, validated=0, mismatches=[], samples=[], hows={}, unsupported=None, spurious=0,
             witnesses=0, vcs=0)
    ctl.deadline = t0 + job.budget
    ctl.deadline2 = t0 + job.budget * 1.2
    stack = [([], None)]
    native = None
    val_left = 3
    seen_keys = set()

    before = [(f, p(I)) for f, p in job.prelude]
    pre = lambda env: ''.join((p if p.concrete else p.instance(env)).request(f) + ' ; ' for f, p in before)

    fresh = [None]

    def body():
        if before:
            ctx = make_ctx(I)
            try:
                mc.prog.fn(job.fn)(ctx[0])
                fresh[0] = read_ctx(ctx, Outputs(), u32)
            except mc.CppThrow as e:
                fresh[0] = Outputs()
                fresh[0].status, fresh[0].exc = 'throw', explore.thrown(e)
            mc.prog.restore()
        for f, p in before:
            mc.record()
            ctx = make_ctx(p)
            try:
                mc.prog.fn(f)(ctx[0])
            except mc.CppThrow:
                pass
            mc.recycle()
        ctx = make_ctx(I)
        mc.prog.fn(job.fn)(ctx[0])
        return read_ctx(ctx, Outputs(), u32)

    def get_native():
        nonlocal native
        if native is None:
            native = Native(build_driver)
        return native

    def real_env(hard=False):
        """a model of the current path condition, checked by evaluation; False if there is none"""
        if ctl.env is not None and ctl.genuine(ctl.env):
            return dict(ctl.env)
        if not ctl.pc:
            return {}
        r = explore.model(ctl, ctl.pc, job.vc_timeout if hard else 3000, hard)
        return False if r[0] == 'unsat' else r[1] if r[0] == 'sat' else None

    def violation(label, env, kind):
        inst = I.instance(env)
        key = (label,)
        if key in seen_keys and len(R['violations']) > 3:
            return
        req = pre(env) + inst.request(job.fn)
        if kind == 'probe':
            n = Native(build_driver, 1)
            O = parse_native(n.run(req), u32)
            n.close()
        else:
            O = parse_native(get_native().run(req), u32)
        conf = None
        if kind == 'leak':
            out = get_native().run('leak ' + req)
            if out and out[0].startswith('leak ') and int(out[0].split()[1]) > 0:
                conf = 'native run leaves %s more blocks allocated on each call' % out[0].split()[1]
        elif O.status == 'fault' and kind == 'probe':
            conf = ('long', None)
        elif O.status == 'fault':
            conf = 'native run ended with: ' + str(O.exc)
        else:
            try:
                if before:
                    O.fresh = parse_native(get_native().run(inst.request(job.fn)), u32)
                bad = [l for l, c in job.oracle(inst, O) if not T.B(c[1] if c.__class__ is tuple else c)]
            except Exception as e:
                bad = ['oracle: %r' % e]
            if bad:
                conf = 'fails: ' + '; '.join(bad)
        if conf is None and kind in ('memory', 'fault', 'divide', 'ub', 'unreachable', 'trap'):
            conf = ('asan', None)
        if conf is None and kind == 'uninit':
            conf = ('valgrind', None)
        if conf is None and kind == 'probe':
            return
        seen_keys.add(key)
        R['violations'].append(dict(label=label, kind=kind, request=req, inputs=inst.describe(), confirmed=conf, job=job.name))

    probes = [3]

    def probe(what):
        """nothing was decided here: at least the real code is run on a model of the path"""
        if probes[0] > 0 and not job.safety:
            probes[0] -= 1
            env = real_env()
            if env is not None and env is not False:
                violation(what, env, 'probe')

    while stack:
        if time.time() > t0 + job.budget:
            R['incomplete'] = 'time budget %ss, %d alternatives left' % (job.budget, len(stack))
            break
        if R['paths'] >= job.maxpaths:
            R['incomplete'] = 'path budget %d, %d alternatives left' % (job.maxpaths, len(stack))
            break
        prefix, env = stack.pop()
        st, v = explore.run_path(ctl, body, prefix, env)
        stack += ctl.pending
        R['paths'] += 1
        R['decisions'] += len(ctl.trace)
        if ctl.truncated:
            R['incomplete'] = 'time budget %ss, alternatives of the last path left' % job.budget
        if st == 'budget':
            R['incomplete'] = 'time budget %ss inside a path' % job.budget
            probe('a path that was not finished')
            break
        if st == 'infeasible':
            R['infeasible'] += 1
            continue
        if st == 'unsupported':
            R['unsupported'] = v
            R['incomplete'] = 'unsupported: ' + v
            break
        if st == 'fault':
            R['fault'] += 1
            env = real_env(True)
            if env is False:
                R['infeasible'] += 1
                R['proved'] += 1
                R['vcs'] += 1
            elif env is None:
                R['vcs'] += 1
                R['undecided'].append('reachability of %s' % (v,))
            else:
                R['vcs'] += 1
                violation('%s: %s' % v, env, v[0])
            if len(R['violations']) >= 4:
                break
            continue
        if st == 'ok':
            R['ok'] += 1
            O = v
        else:
            R['throw'] += 1
            O = Outputs()
            O.status = 'throw'
            O.exc = v
        O.fresh = fresh[0]
        if job.safety:
            R['vcs'] += 2
            lk = mc.leaked()
            uu = [c for c in ctl.pc if has_undef(c)] + ([1] if has_undef(*shown(O)) else [])
            if not lk and not uu:
                R['proved'] += 2
            else:
                env = real_env(True)
                if env is False:
                    R['proved'] += 2
                elif env is None:
                    R['undecided'].append('reachability of a leak or uninitialised read')
                else:
                    if lk:
                        violation('leak: %s' % ', '.join('%d bytes from %s' % x for x in lk[:4]), env, 'leak')
                    if uu:
                        violation('uninitialised memory decides a branch or is part of the result', env, 'uninit')
        # translation validation: a model of this path, run natively, gives the outputs the terms predict
        if val_left > 0:
            env = real_env()
            if env:
                val_left -= 1
                R['witnesses'] += 1
                inst = I.instance(env)
                N = parse_native(get_native().run(pre(env) + inst.request(job.fn)), u32)
                m = compare(O, N, env, (0,) if job.fn == 'h_log' else (1,) if job.fn == 'h_py' else (), job.fn == 'h_py')
                R['validated'] += 1
                if m:
                    R['mismatches'].append(dict(job=job.name, inputs=inst.describe(), what=m))
                if len(R['samples']) < 1:
                    R['samples'].append(dict(job=job.name, path_decisions=len(ctl.trace), inputs=inst.describe(),
                                             native=N.status if N.status == 'ok' else '%s %s' % (N.status, N.exc)))
        nund = len(R['undecided'])
        for label, cond in job.oracle(I, O):
            R['vcs'] += 1
            left = t0 + job.budget * 1.3 - time.time()
            if left < 0.2:
                R['undecided'].append(label + ' (job budget)')
                continue
            verdict = None
            if cond.__class__ is tuple:
                # (a condition that implies the assertion and is easier to decide, the assertion)
                suff, cond = cond
                verdict, env, how = explore.prove(ctl, suff, int(min(job.vc_timeout, left * 1000)), job.hard)
            if verdict != 'proved':
                verdict, env, how = explore.prove(ctl, cond, int(min(job.vc_timeout, left * 1000)), job.hard)
            R['hows'][how] = R['hows'].get(how, 0) + 1
            if verdict == 'proved':
                R['proved'] += 1
            elif verdict == 'cex':
                violation(label, env, 'uninit' if has_undef(*shown(O)) else 'assertion')
            else:
                R['undecided'].append(label)
        if len(R['undecided']) > nund:
            probe('an undecided assertion')
        if len(R['violations']) >= 4:
            R['incomplete'] = 'stopped after the first violations'
            break
    if native:
        native.close()
    R['queries'] = ctl.stats.queries
    R['sat'], R['unsat'] = ctl.stats.sat, ctl.stats.unsat
    R['functions'] = sorted(mc.prog.used)
    R['solver_s'] = ctl.stats.time
    R['unknown'] = ctl.stats.unknown
    R['time'] = time.time() - t0
    R['atoms'] = len(ctl.enc.atoms)
    return R


def isnan64(x):
    return x is not None and x & ~(1 << 63) & (1 << 64) - 1 > 0x7FF << 52


def compare(O, N, env, nan_r=(), py=False):
    """nan_r: results that are doubles; which NaN the hardware makes is not modelled"""
    if O.status != N.status:
        return 'engine %s, native %s %s' % (O.status, N.status, N.exc)
    if O.status == 'throw':
        # the bindings' exceptions are translated by the real module
        return None if O.exc == N.exc or py else 'engine throws %s, native %s' % (O.exc, N.exc)
    ep = T.new_epoch()
    ev = lambda x: T.evaluate(x, env, ep)
    try:
        if py and O.r.get(0) == 8 and N.r.get(0) == 2 and 0 in O.out:
            # a float that the interpreter makes of an integer
            b = O.out[0]
            v = sum(ev(x) << 32 * i for i, x in enumerate(b.limbs)) * (-1 if T.sgn(ev(b.sign), 32) < 0 else 1) if b.limbs else T.sgn(ev(b.sign), 32)
            return None if struct.unpack('<Q', struct.pack('<d', float(v)))[0] == N.r.get(1) else 'float differs'
        for i, b in O.out.items():
            if i not in N.out:
                return 'out%d missing' % i
            if [ev(b.sign)] + [ev(x) for x in b.limbs] != [N.out[i].sign] + N.out[i].limbs:
                return 'out%d differs' % i
        for i, x in O.r.items():
            if x.__class__ is int or not has_undef(x):
                if ev(x) != N.r.get(i) and not (i in nan_r and isnan64(ev(x)) and isnan64(N.r.get(i))):
                    return 'r%d: engine %d native %s' % (i, ev(x), N.r.get(i))
        if O.obuf is not None and [ev(x) for x in O.obuf] != N.obuf:
            return 'buffer differs'
    except KeyError:
        return None
    return None


def shown(O):
    return [x for b in O.out.values() for x in [b.sign] + b.limbs] + list(O.obuf or ())


def has_undef(*ts):
    seen = set()
    st = list(ts)
    while st:
        x = st.pop()
        if x.__class__ is not Term or x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'var' and x.a.startswith('undef'):
            return True
        if x.op != 'var':
            st += [x.a, x.b, x.c]
    return False


def _worker(args):
    idx, = args
    job = JOBS[idx]
    try:
        return idx, run_job(job, DRIVER)
    except Exception as e:
        return idx, dict(job=job.name, fn=job.fn, error=traceback.format_exc(), paths=0, ok=0, throw=0, fault=0, infeasible=0,
                         decisions=0, proved=0, undecided=[], violations=[], incomplete='engine error: %r' % e, validated=0,
                         mismatches=[], samples=[], hows={}, unsupported=None, spurious=0, witnesses=0, vcs=0, queries=0,
                         solver_s=0, unknown=0, time=0, atoms=0)


JOBS = []
DRIVER = None


def deep(f):
    """run f with a large stack"""
    sys.setrecursionlimit(60000)
    threading.stack_size(512 * 1024 * 1024)
    box = []

    def g():
        try:
            box.append(('ok', f()))
        except BaseException as e:
            box.append(('err', e, traceback.format_exc()))
    t = threading.Thread(target=g)
    t.start()
    t.join()
    if box[0][0] == 'err':
        sys.stderr.write(box[0][2])
        raise box[0][1]
    return box[0][1]


def child(conn, idxs):
    def f():
        for i in iter(conn.recv, None):
            conn.send(_worker((i,)))
    deep(f)


def run_jobs(jobs, build, nproc=None, wall=None, stop_on_violation=True, progress=None):
    """Run jobs in forked workers.  A worker that dies or overruns is replaced; its job counts as incomplete."""
    global JOBS, DRIVER
    JOBS = jobs
    DRIVER = os.path.join(build.dir, 'driver')
    nproc = nproc or min(8, os.cpu_count() or 4)
    order = sorted(range(len(jobs)), key=lambda i: jobs[i].weight)   # cheap first: breadth before depth
    results = {}
    ctx = mp.get_context('fork')
    from multiprocessing.connection import wait
    workers = {}
    t0 = time.time()

    def spawn():
        a, b = ctx.Pipe()
        p = ctx.Process(target=child, args=(b, None), daemon=True)
        p.start()
        b.close()
        workers[a] = [p, None, 0]
        return a

    def feed(c):
        if order:
            i = order.pop(0)
            workers[c][1] = i
            workers[c][2] = time.time()
            c.send(i)
        else:
            workers[c][1] = None

    for _ in range(min(nproc, len(jobs))):
        feed(spawn())
    hit = False
    while any(w[1] is not None for w in workers.values()):
        ready = wait([c for c in workers if workers[c][1] is not None], timeout=1)
        for c in ready:
            p, i, _ = workers[c]
            try:
                idx, R = c.recv()
                results[idx] = R
                if progress:
                    progress(R)
                if stop_on_violation and any(v['confirmed'].__class__ is str for v in R['violations']):
                    hit = True
                if hit:
                    order.clear()
                feed(c)
            except EOFError:
                results[i] = dead(jobs[i], 'worker died')
                del workers[c]
                feed(spawn())
        now = time.time()
        for c in list(workers):
            p, i, s = workers[c]
            if i is not None and (now - s > jobs[i].budget * 1.5 + (3 if TIER == 'quick' else 10) or (wall and now - t0 > wall)):
                p.kill()
                results[i] = dead(jobs[i], 'overran its budget')
                del workers[c]
                feed(spawn())
        if wall and now - t0 > wall:
            order.clear()
        if hit and False:
            break
    for c in workers:
        try:
            c.send(None)
        except Exception:
            pass
        workers[c][0].join(2)
        if workers[c][0].is_alive():
            workers[c][0].kill()
    for i in range(len(jobs)):
        if i not in results:
            results[i] = dead(jobs[i], 'not run (wall budget or earlier violation)')
    return [results[i] for i in range(len(jobs))]


def dead(job, why):
    return dict(job=job.name, fn=job.fn, paths=0, ok=0, throw=0, fault=0, infeasible=0, decisions=0, proved=0, undecided=[],
                violations=[], incomplete=why, validated=0, mismatches=[], samples=[], hows={}, unsupported=None, spurious=0,
                witnesses=0, vcs=0, queries=0, solver_s=0, unknown=0, time=0, atoms=0)
