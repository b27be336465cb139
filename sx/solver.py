"""Incremental SMT-LIB2 solver process (z3 over a pipe) with one-shot fallbacks (z3, cvc5)."""
import os
import re
import select
import subprocess
import time
from fractions import Fraction
from . import expr as X

Z3 = os.environ.get('SX_Z3', 'z3-new')
FALLBACKS = [['z3-new', '-T:{t}', '-in'], ['cvc5', '--lang=smt2', '--tlimit={tm}', '--produce-models', '-'], ['z3', '-T:{t}', '-in']]

_tok = re.compile(r'\(|\)|[^\s()]+')


def parse_sexpr(s):
    stack = [[]]
    for m in _tok.finditer(s):
        t = m.group()
        if t == '(':
            stack.append([])
        elif t == ')':
            x = stack.pop()
            stack[-1].append(x)
        else:
            stack[-1].append(t)
    return stack[0]


def parse_value(x, sort):
    if isinstance(x, str):
        if x == 'true':
            return True
        if x == 'false':
            return False
        try:
            f = Fraction(x)
        except Exception:
            return None
        return int(f) if sort == 'I' else f
    if len(x) == 2 and x[0] == '-':
        v = parse_value(x[1], sort)
        return None if v is None else -v
    if len(x) == 3 and x[0] == '/':
        a, b = parse_value(x[1], 'R'), parse_value(x[2], 'R')
        return None if a is None or not b else a / b
    if len(x) == 2 and x[0] == 'to_real':
        v = parse_value(x[1], 'I')
        return None if v is None else Fraction(v)
    return None


class Solver(object):
    def __init__(self, timeout_ms=8000):
        self.timeout_ms = timeout_ms
        self.p = None
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.time = 0.0
        self.fallback = 0
        self.errors = 0
        self.restarts = 0
        self.path_cmds = []
        self.vars = {}
        self._start()
        self.begun = False
        self.busy = False

    def _start(self):
        if self.p is not None:
            try:
                self.p.kill()
                self.p.wait()
            except Exception:
                pass
        self.p = subprocess.Popen([Z3, '-in'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        self.buf = b''
        self.outq = []
        self._raw('(set-option :print-success false)\n(set-option :produce-models true)\n(set-option :timeout %d)\n' % self.timeout_ms)

    def close(self):
        try:
            self.p.kill()
            self.p.wait()
        except Exception:
            pass

    def _raw(self, s):
        self.outq.append(s)

    def _flush(self):
        if self.outq:
            self.p.stdin.write(''.join(self.outq).encode())
            self.p.stdin.flush()
            self.outq = []

    def _readline(self, deadline):
        while True:
            i = self.buf.find(b'\n')
            if i >= 0:
                line = self.buf[:i]
                self.buf = self.buf[i + 1:]
                return line.decode()
            left = deadline - time.time()
            if left <= 0:
                return None
            r, _, _ = select.select([self.p.stdout], [], [], left)
            if not r:
                return None
            d = os.read(self.p.stdout.fileno(), 65536)
            if not d:
                return None
            self.buf += d

    # ---- path scope
    def begin_path(self):
        if self.begun:
            self._raw('(pop 1)\n')
        self._raw('(push 1)\n')
        self.begun = True
        self.path_cmds = []
        self.defined = {}
        self.vars = {}

    def _cmd(self, s):
        self.path_cmds.append(s)
        self._raw(s)

    def term(self, e):
        """SMT text of e; emits declarations and definitions in the path scope as needed."""
        d = self.defined
        if e.id in d:
            return d[e.id]
        stack = [e]
        while stack:
            x = stack[-1]
            if x.id in d:
                stack.pop()
                continue
            if x.op == 'const':
                d[x.id] = X.const_str(x)
                stack.pop()
                continue
            if x.op == 'var':
                self._cmd('(declare-const %s %s)\n' % (x.name, X.SORTS[x.sort]))
                self.vars[x.name] = x.sort
                d[x.id] = x.name
                stack.pop()
                continue
            todo = [a for a in x.args if a.id not in d]
            if todo:
                stack.extend(todo)
                continue
            stack.pop()
            body = '(%s %s)' % (X._SMT[x.op], ' '.join(d[a.id] for a in x.args))
            if len(body) < 60:
                d[x.id] = body
            else:
                nm = 't!%d' % x.id
                self._cmd('(define-fun %s () %s %s)\n' % (nm, X.SORTS[x.sort], body))
                d[x.id] = nm
        return d[e.id]

    def assert_(self, e):
        if e is X.TRUE:
            return
        t = self.term(e)
        self._cmd('(assert %s)\n' % t)

    def script(self, extra=()):
        ts = [self.term(e) for e in extra]
        return ''.join(self.path_cmds) + ''.join('(assert %s)\n' % t for t in ts)

    def check(self, *extra, **kw):
        """(result, model-or-None) of path condition and extra."""
        self.busy = True
        try:
            return self._check(*extra, **kw)
        finally:
            self.busy = False

    def _check(self, *extra, **kw):
        want_model = kw.get('want_model', True)
        full = kw.get('full', True)
        t0 = time.time()
        ts = [self.term(e) for e in extra]
        self.queries += 1
        self._raw('(push 1)\n')
        for t in ts:
            self._raw('(assert %s)\n' % t)
        self._raw('(check-sat)\n')
        res = None
        try:
            self._flush()
            deadline = time.time() + self.timeout_ms / 1000.0 * 1.5 + 5
            while True:
                line = self._readline(deadline)
                if line is None:
                    break
                line = line.strip()
                if line.startswith('(error'):
                    self.errors += 1
                    self.last_error = line
                    res = 'error'
                    continue
                if line in ('sat', 'unsat', 'unknown', 'timeout'):
                    if res != 'error':
                        res = line
                    break
        except (OSError, ValueError):
            res = None
        model = None
        if res == 'sat' and want_model:
            model = self._model()
        if res is None:
            self.restarts += 1
            self._start()
            self._raw('(push 1)\n')
            self._raw(''.join(self.path_cmds))
            res = 'unknown'
        else:
            self._raw('(pop 1)\n')
        if res not in ('sat', 'unsat') and full:
            res, model = self._fallback(ts, want_model)
        self.time += time.time() - t0
        if res == 'sat':
            self.sat += 1
        elif res == 'unsat':
            self.unsat += 1
        else:
            self.unknown += 1
            res = 'unknown'
        return res, model

    def _model(self):
        if not self.vars:
            return {}
        names = list(self.vars)
        self._raw('(get-value (%s))\n' % ' '.join(names))
        self._flush()
        deadline = time.time() + 20
        txt = ''
        depth = 0
        while True:
            line = self._readline(deadline)
            if line is None:
                return None
            txt += line + '\n'
            depth += line.count('(') - line.count(')')
            if depth <= 0:
                break
        return self._parse_model(txt)

    def _parse_model(self, txt):
        try:
            xs = parse_sexpr(txt)[0]
            if xs and xs[0] == 'error':
                return None
            m = {}
            for nm, v in xs:
                val = parse_value(v, self.vars.get(nm))
                if val is not None:
                    m[nm] = val
            return m
        except Exception:
            return None

    def _fallback(self, ts, want_model):
        self.fallback += 1
        body = ''.join(self.path_cmds) + ''.join('(assert %s)\n' % t for t in ts) + '(check-sat)\n'
        if self.vars:
            body += '(get-value (%s))\n' % ' '.join(self.vars)
        t = max(2, self.timeout_ms // 1000)
        for cmd in FALLBACKS:
            c = [a.format(t=t, tm=t * 1000) for a in cmd]
            pre = '(set-option :produce-models true)\n' + ('(set-logic ALL)\n' if cmd[0] == 'cvc5' else '')
            try:
                r = subprocess.run(c, input=(pre + body).encode(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t + 5)
            except Exception:
                continue
            out = r.stdout.decode(errors='replace').strip()
            first = out.split('\n', 1)[0].strip()
            if first == 'unsat':
                return 'unsat', None
            if first == 'sat':
                rest = out.split('\n', 1)[1] if '\n' in out else ''
                return 'sat', (self._parse_model(rest) if rest else {})
        return 'unknown', None


def cross_check(script, timeout=20):
    """Decide a stored query with the second solver (cvc5)."""
    try:
        r = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % (timeout * 1000), '-'],
                           input=('(set-logic ALL)\n' + script + '(check-sat)\n').encode(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout + 5)
        return r.stdout.decode(errors='replace').strip().split('\n')[0]
    except Exception:
        return 'unknown'
