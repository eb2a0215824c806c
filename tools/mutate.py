"""
Small mutants of the library, and what becomes of them.

    mutate.py list                    the mutants there are
    mutate.py run [-j N] [-s SEED] [-n COUNT] OUT.json [PATTERN]
                                      runs the tests, and then the checks, against mutants in
                                      scratch copies, and writes down which are noticed

Run from a copy of /verif, it uses the checks of the copy. For development only: no check depends on it. Mutants that pass the test suite and that no
check notices are either equivalent to the original, or show what the checks do not cover.
"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = '/repo'
FILES = ['_parser.py', '_selectors.py', '_textwrap.py', 'rendering.py', 'cli.py', '_namedict.py', '__main__.py', '__init__.py']
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

COMPARE = {
    ast.Lt: ['<=', '>'], ast.LtE: ['<'], ast.Gt: ['>=', '<'], ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='],
    ast.In: ['not in'], ast.NotIn: ['in'], ast.Is: ['is not'], ast.IsNot: ['is'],
}
BINARY = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['+'], ast.FloorDiv: ['*'], ast.Div: ['*'], ast.Mod: ['+']}
CALLS = {
    'strip': ['lstrip', 'rstrip'], 'lstrip': ['strip'], 'rstrip': ['strip'], 'max': ['min'], 'min': ['max'],
    'append': ['extend'], 'upper': ['lower'], 'lower': ['upper'], 'startswith': ['endswith'], 'endswith': ['startswith'],
    'split': ['rsplit'], 'rsplit': ['split'], 'find': ['rfind'], 'any': ['all'], 'all': ['any'], 'ljust': ['rjust'],
    'rjust': ['ljust'], 'match': ['search'], 'search': ['match'], 'reversed': ['list'], 'items': ['copy'], 'len': ['bool'],
}


class Mutator(ast.NodeVisitor):

    def __init__(self, source):
        self.source = source
        self.lines = source.split('\n')
        self.starts = [0]
        for l in self.lines:
            self.starts.append(self.starts[-1] + len(l.encode()) + 1)
        self.bytes = source.encode()
        self.out = []
        self.docstrings = set()
        self.tree = ast.parse(source)
        for n in ast.walk(self.tree):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body:
                b = n.body[0]
                if isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant):
                    self.docstrings.add(id(b.value))
                    self.docstrings.add(id(b))
        self.visit(self.tree)

    def at(self, line, column):
        return self.starts[line - 1] + column

    def span(self, node):
        return self.at(node.lineno, node.col_offset), self.at(node.end_lineno, node.end_col_offset)

    def text(self, node):
        a, b = self.span(node)
        return self.bytes[a:b].decode()

    def add(self, node, new, what):
        a, b = self.span(node) if not isinstance(node, tuple) else node
        if self.bytes[a:b].decode() != new:
            line = self.bytes[:a].count(b'\n') + 1
            self.out.append((a, b, new, line, what))

    def between(self, left, right, old, new, what):
        a, b = self.span(left)[1], self.span(right)[0]
        t = self.bytes[a:b].decode()
        if t.count(old) == 1:
            self.add((a, b), t.replace(old, new), what)

    def visit_Compare(self, node):
        left = node.left
        for op, right in zip(node.ops, node.comparators):
            olds = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=', ast.In: 'in',
                    ast.NotIn: 'not in', ast.Is: 'is', ast.IsNot: 'is not'}
            for new in COMPARE.get(type(op), []):
                self.between(left, right, olds[type(op)], new, 'compare ' + new)
            left = right
        self.generic_visit(node)

    def visit_BoolOp(self, node):
        old, new = ('and', 'or') if isinstance(node.op, ast.And) else ('or', 'and')
        for l, r in zip(node.values, node.values[1:]):
            self.between(l, r, old, new, 'bool ' + new)
        for v in node.values:
            self.add(v, 'True' if old == 'and' else 'False', 'condition left out')
        self.generic_visit(node)

    def visit_UnaryOp(self, node):
        if isinstance(node.op, ast.Not):
            self.add(node, '(' + self.text(node.operand) + ')', 'not left out')
        if isinstance(node.op, ast.USub):
            self.add(node, self.text(node.operand), 'minus left out')
            return
        self.generic_visit(node)

    def visit_BinOp(self, node):
        olds = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.FloorDiv: '//', ast.Div: '/', ast.Mod: '%'}
        for new in BINARY.get(type(node.op), []):
            self.between(node.left, node.right, olds[type(node.op)], new, 'operator ' + new)
        if isinstance(node.op, (ast.Add, ast.Sub)):
            self.add(node, '(' + self.text(node.left) + ')', 'only the left')
            self.add(node, '(' + self.text(node.right) + ')', 'only the right')
        self.generic_visit(node)

    def visit_Constant(self, node):
        if id(node) in self.docstrings:
            return
        v = node.value
        if v is True or v is False:
            self.add(node, str(not v), 'constant')
        elif isinstance(v, int):
            self.add(node, str(v + 1), 'constant')
            if v > 0:
                self.add(node, str(v - 1), 'constant')
        elif isinstance(v, str) and '\n' not in self.text(node):
            self.add(node, "''" if v else "'x'", 'constant')
            if len(v) > 1:
                self.add(node, repr(v[:-1]), 'constant')
        elif v is None:
            self.add(node, "''", 'constant')

    def visit_JoinedStr(self, node):
        pass

    def visit_If(self, node):
        self.add(node.test, 'True', 'always')
        self.add(node.test, 'False', 'never')
        self.generic_visit(node)

    visit_IfExp = visit_If

    def visit_While(self, node):
        self.add(node.test, 'False', 'never')
        self.generic_visit(node)

    def visit_Call(self, node):
        f = node.func
        name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
        for new in CALLS.get(name, []):
            b = self.span(f)[1]
            self.add((b - len(name), b), new, 'call ' + new)
        if isinstance(f, ast.Attribute) and name in ('strip', 'lstrip', 'rstrip', 'upper', 'lower', 'copy', 'normalise'):
            self.add(node, self.text(f.value), 'call left out')
        elif len(node.args) == 1 and not node.keywords:
            self.add(node, '(' + self.text(node.args[0]) + ')', 'call left out')
        for k in node.keywords:
            if k.arg:
                a, b = self.span(k)
                e = b
                while self.bytes[e:e + 1] in (b' ', b'\n', b','):
                    e += 1
                    if self.bytes[e - 1:e] == b',':
                        break
                if self.bytes[e - 1:e] == b',' or self.bytes[e:e + 1] == b')':
                    self.add((a, e), '', 'argument left out')
        self.generic_visit(node)

    def statement(self, node):
        if id(node) not in self.docstrings:
            self.add(node, 'pass', 'statement left out')
        self.generic_visit(node)

    visit_Expr = visit_AugAssign = visit_Delete = visit_Raise = statement

    def visit_Assign(self, node):
        if all(not isinstance(t, ast.Name) for t in node.targets):
            self.add(node, 'pass', 'statement left out')
        self.generic_visit(node)

    def visit_Return(self, node):
        if node.value is not None and not (isinstance(node.value, ast.Constant) and node.value.value is None):
            self.add(node, 'return None', 'return')
        self.generic_visit(node)

    def visit_Break(self, node):
        self.add(node, 'continue', 'continue')

    def visit_Continue(self, node):
        self.add(node, 'break', 'break')
        self.add(node, 'pass', 'statement left out')

    def visit_Subscript(self, node):
        self.generic_visit(node)
        s = node.slice
        if isinstance(s, ast.Slice):
            self.add(node, self.text(node.value), 'slice left out')

    def visit_List(self, node):
        if node.elts:
            for i, e in enumerate(node.elts):
                rest = [self.text(x) for x in node.elts if x is not e]
                self.add(node, '[' + ', '.join(rest) + ']', 'element left out')
        self.generic_visit(node)

    visit_Import = visit_ImportFrom = visit_Assert = lambda self, node: None


def mutants():
    out = []
    for f in FILES:
        path = os.path.join(REPO, 'gopher_render', f)
        if not os.path.exists(path):
            continue
        m = Mutator(open(path).read())
        seen = set()
        for a, b, new, line, what in m.out:
            if (a, b, new) in seen:
                continue
            seen.add((a, b, new))
            source = (m.bytes[:a] + new.encode() + m.bytes[b:]).decode()
            try:
                ast.parse(source)
            except SyntaxError:
                continue
            old = m.bytes[a:b].decode()
            out.append(dict(
                id='{}:{}:{}:{}'.format(f, line, a, new), file=f, line=line, what=what, old=old, new=new, source=source,
                text=m.lines[line - 1].strip(),
            ))
    return out


RUNNER = r"""
import os, sys, time, traceback, signal
sys.path.insert(0, '/verif/harness')
sys.dont_write_bytecode = True
import core, run
run.limit_memory()
original = core.run_case
def stop(pid, what):
    sys.stdout.write('NOTICED %s %s\n' % (pid, what)); sys.stdout.flush(); os._exit(1)
for pid in sys.argv[1].split(','):
    prop = run.load(pid)
    def run_case(facet, case):
        try:
            return original(facet, case)
        except (core.Violation, core.Hang) as e:
            stop(pid, facet.name + ': ' + str(e)[:600])
    core.run_case = run_case
    for i, facet in enumerate(prop.FACETS):
        r = core.run_shard(prop, facet, 0, int(sys.argv[2]), int(sys.argv[3]), 'quick', time.monotonic() + 120)
        if r['violation']:
            stop(pid, facet.name + ': ' + r['violation']['message'][:600])
    for facet in getattr(prop, 'PINNED', []):
        pass
print('NOT NOTICED')
"""

ORDER = 'C10,C28,C29,C04,C07,C05,C13,C08,C01,C06,C09,C11,C15,C03,C12,C14,C26,C27,C25,C24,C22,C21,C02,C19,C23,C16,C17,C18,C20'


def attempt(m, seed, shards):
    scratch = tempfile.mkdtemp(prefix='mutant-')
    try:
        d = os.path.join(scratch, 'repo')
        subprocess.run(['cp', '-a', REPO, d], check=True)
        with open(os.path.join(d, 'gopher_render', m['file']), 'w') as f:
            f.write(m['source'])
        inside = lambda command: subprocess.run(
            ['unshare', '-Urm', 'bash', '-c', 'mount --bind {} /repo && mount --bind {} /verif && cd /repo && exec {}'.format(d, VERIF, command)],
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', TMPDIR=scratch),
        )
        out = os.path.join(scratch, 'out.json')
        p = inside('timeout 60 bash /opt/vp/test.sh ' + out)
        if ' 0 failed' not in p.stdout or '48 passed' not in p.stdout:
            return 'tests', ''
        runner = os.path.join(scratch, 'runner.py')
        with open(runner, 'w') as f:
            f.write(RUNNER)
        p = inside('timeout 1500 /opt/venv/bin/python -B -W ignore {} {} {} {}'.format(runner, ORDER, shards, seed))
        last = [l for l in p.stdout.splitlines() if 'NOTICED' in l]
        if last and last[0].startswith('NOTICED'):
            return last[0].split()[1], last[0][:300]
        if last:
            return 'none', ''
        return 'error', p.stdout[-800:] + ' rc {}'.format(p.returncode)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    args = sys.argv[1:]
    if args[0] == 'list':
        for m in mutants():
            print(m['id'].replace('\n', '\\n'), '|', m['what'], '|', m['old'].replace('\n', '\\n')[:60], '->', m['new'][:60])
        return
    jobs, seed, count, shards, pattern = 6, 1, 10 ** 9, 10, ''
    rest = []
    args = args[1:]
    while args:
        a = args.pop(0)
        if a == '-j':
            jobs = int(args.pop(0))
        elif a == '-s':
            seed = int(args.pop(0))
        elif a == '-n':
            count = int(args.pop(0))
        elif a == '--shards':
            shards = int(args.pop(0))
        else:
            rest.append(a)
    out = rest[0]
    if len(rest) > 1:
        pattern = rest[1]
    done = json.load(open(out)) if os.path.exists(out) else {}
    todo = [m for m in mutants() if pattern in m['id'] and m['id'] not in done]
    random.Random(seed).shuffle(todo)
    todo = todo[:count]
    with ThreadPoolExecutor(jobs) as ex:
        for m, (by, how) in zip(todo, ex.map(lambda m: attempt(m, seed, shards), todo)):
            done[m['id']] = dict(by=by, how=how, what=m['what'], old=m['old'], new=m['new'], text=m['text'], file=m['file'], line=m['line'])
            with open(out + '.new', 'w') as f:
                json.dump(done, f, indent=1, sort_keys=True)
            os.replace(out + '.new', out)


main()
