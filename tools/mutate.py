#!/usr/bin/env python3
"""mutate.py OUT.jsonl N [SEED] [FILE...]: changes the library one place at a time, keeps the
changes that the repository's own tests accept, and reports which checks notice.

Everything happens in scratch copies under /tmp; /repo is only read."""
import ast, io, json, os, random, re, shutil, subprocess, sys, tempfile, tokenize
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv-pypy/bin/python'
ENV = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', SETUPTOOLS_SCM_PRETEND_VERSION='0.1')
DECODE = ['C02', 'C01', 'C23', 'C24']
CHECKS = {'bitstring.py': ['C14', 'C16', 'C15', 'C17', 'C18', 'C05', 'C06'],
          'helpers.py': ['C18', 'C06', 'C05'],
          'decoder.py': ['C03', 'C04', 'C01', 'C02', 'C13'],
          'disasm.py': ['C22', 'C27'],
          'formatter.py': ['C23', 'C24', 'C13', 'C22'],
          'instructions.py': ['C02', 'C01', 'C23', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C24', 'C13', 'C25'],
          'mock_cpu.py': ['C19', 'C20', 'C25'],
          'model.py': ['C21', 'C11', 'C08', 'C12', 'C20'],
          'registers.py': ['C21', 'C11', 'C26', 'C20', 'C23'],
          'utilities.py': ['C28', 'C19', 'C01'],
          '__main__.py': ['C26', 'C27']}
SWAP = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.LShift: '>>', ast.RShift: '<<', ast.BitAnd: '|', ast.BitOr: '&',
        ast.BitXor: '|', ast.FloorDiv: '*', ast.Mod: '//'}
OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.LShift: '<<', ast.RShift: '>>', ast.BitAnd: '&', ast.BitOr: '|',
       ast.BitXor: '^', ast.FloorDiv: '//', ast.Mod: '%'}
CMP = {'<': '<=', '<=': '<', '>': '>=', '>=': '>', '==': '!=', '!=': '==', ' is not ': ' is ', ' not in ': ' in '}


def offsets(text):
    o = [0]
    for l in text.split('\n'):
        o.append(o[-1] + len(l) + 1)
    return o


def mutants_ast(text):
    tree = ast.parse(text)
    off = offsets(text)

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset
    out = []

    def rep(a, b, new, what):
        if text[a:b] != new:
            out.append((a, b, new, what))
    for f in ast.walk(tree):
        if isinstance(f, ast.BinOp) and type(f.op) in SWAP:
            a, b = span(f.left)[1], span(f.right)[0]
            s = text[a:b]
            if OPS[type(f.op)] in s:
                rep(a, b, s.replace(OPS[type(f.op)], SWAP[type(f.op)], 1), 'operator')
        elif isinstance(f, ast.AugAssign) and type(f.op) in SWAP:
            a, b = span(f.target)[1], span(f.value)[0]
            rep(a, b, text[a:b].replace(OPS[type(f.op)], SWAP[type(f.op)], 1), 'augmented')
        elif isinstance(f, ast.Compare):
            a, b = span(f.left)[1], span(f.comparators[0])[0]
            s = text[a:b]
            for k in sorted(CMP, key=len, reverse=True):
                if k in s:
                    rep(a, b, s.replace(k, CMP[k], 1), 'comparison')
                    break
        elif isinstance(f, ast.BoolOp):
            a, b = span(f.values[0])[1], span(f.values[1])[0]
            s = text[a:b]
            rep(a, b, s.replace(' and ', ' or ') if ' and ' in s else s.replace(' or ', ' and '), 'boolean')
            for k, v in enumerate(f.values):
                a, b = span(v)
                rep(a, b, 'True' if isinstance(f.op, ast.And) else 'False', 'condition dropped')
        elif isinstance(f, ast.UnaryOp) and isinstance(f.op, (ast.Not, ast.Invert, ast.USub)):
            a, b = span(f)
            rep(a, b, '(' + text[span(f.operand)[0]:span(f.operand)[1]] + ')', 'unary dropped')
        elif isinstance(f, ast.Constant):
            a, b = span(f)
            if type(f.value) is int and text[a:b][:1].isdigit():
                rep(a, b, str(f.value + 1), 'constant')
                if f.value:
                    rep(a, b, str(f.value - 1), 'constant')
                if f.value > 8:
                    rep(a, b, str(f.value ^ 1 << random.randrange(f.value.bit_length())), 'constant')
            elif type(f.value) is bool:
                rep(a, b, str(not f.value), 'constant')
            elif isinstance(f.value, str) and '\n' not in text[a:b] and len(f.value) > 0:
                s = text[a:b]
                at = [i for i in range(1, len(s)) if s[i] in '01']
                if at:
                    i = random.choice(at)
                    rep(a, b, s[:i] + '10'[int(s[i])] + s[i + 1:], 'text')
                if len(s) > 3:
                    i = random.randrange(1, len(s) - 1)
                    rep(a, b, s[:i] + s[i + 1:], 'text')
        elif isinstance(f, (ast.If, ast.While, ast.IfExp)):
            a, b = span(f.test)
            if not isinstance(f, ast.While):
                rep(a, b, 'True', 'test')
            rep(a, b, 'False', 'test')
        elif isinstance(f, ast.Return) and f.value is not None:
            pass
        elif isinstance(f, ast.Call) and len(f.args) >= 2 and not isinstance(f.args[0], ast.Starred):
            for k in range(len(f.args) - 1):
                (a, b), (c, d) = span(f.args[k]), span(f.args[k + 1])
                rep(a, d, text[c:d] + text[b:c] + text[a:b], 'arguments swapped')
        if isinstance(f, ast.FunctionDef):
            names = sorted(set(n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)
                               and n.id not in ('self', 'cpu', 'range', 'len', 'int', 'bitstring', 'True', 'False')) &
                           (set(x.arg for x in f.args.args) |
                            set(n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store))))
            for n in ast.walk(f):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in names and len(names) > 1:
                    a, b = span(n)
                    rep(a, b, random.choice([x for x in names if x != n.id]), 'name')
        body = getattr(f, 'body', None)
        for part in (body, getattr(f, 'orelse', None)):
            if isinstance(part, list) and not isinstance(f, (ast.Module, ast.ClassDef)):
                for k, s in enumerate(part):
                    if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise)) and not (
                            isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                        a, b = span(s)
                        rep(a, b, 'pass', 'statement dropped')
                    if k + 1 < len(part) and isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.If)) and \
                            isinstance(part[k + 1], (ast.Assign, ast.AugAssign, ast.Expr, ast.If)):
                        (a, b), (c, d) = span(s), span(part[k + 1])
                        if text[b:c].count('\n') <= 2 and '#' not in text[b:c]:
                            rep(a, d, text[c:d] + text[b:c] + text[a:b], 'statements swapped')
    return out


def mutants_tokens(text):
    off = offsets(text)
    out = []
    toks = list(tokenize.generate_tokens(io.StringIO(text).readline))
    for k, t in enumerate(toks):
        a = off[t.start[0] - 1] + t.start[1]
        b = off[t.end[0] - 1] + t.end[1]
        if t.type == tokenize.NUMBER and t.string.isdigit():
            out.append((a, b, str(int(t.string) + 1), 'constant'))
            if int(t.string):
                out.append((a, b, str(int(t.string) - 1), 'constant'))
        elif t.type == tokenize.OP:
            m = {'+': '-', '-': '+', '*': '+', '<<': '>>', '>>': '<<', '<': '<=', '<=': '<', '>': '>=', '>=': '>', '==': '!=', '!=': '==',
                 '+=': '-=', '-=': '+=', '&': '|', '|': '&', '//': '*'}.get(t.string)
            if m:
                out.append((a, b, m, 'operator'))
        elif t.type == tokenize.NAME:
            m = {'and': 'or', 'or': 'and', 'True': 'False', 'False': 'True', 'not': '', 'break': 'pass', 'continue': 'pass'}.get(t.string)
            if m is not None:
                out.append((a, b, m, 'name'))
            if t.string in ('if', 'elif') and k:
                e = k
                depth = 0
                while not (toks[e].string == ':' and depth == 0) and toks[e].type != tokenize.NEWLINE:
                    depth += {'(': 1, '[': 1, '{': 1, ')': -1, ']': -1, '}': -1}.get(toks[e].string, 0)
                    e += 1
                if toks[e].string == ':':
                    c = off[toks[e].start[0] - 1] + toks[e].start[1]
                    out.append((b, c, ' True', 'test'))
                    out.append((b, c, ' False', 'test'))
        elif t.type == tokenize.STRING and len(t.string) > 3 and '\n' not in t.string:
            i = random.randrange(1, len(t.string) - 1)
            out.append((a, b, t.string[:i] + t.string[i + 1:], 'text'))
    lines = text.split('\n')
    for n, l in enumerate(lines):
        if re.match(r'\s+[a-zA-Z_.\[\]]+(\(.*\)| [-+]?= .*[^,({\\:])$', l):
            out.append((off[n] + len(l) - len(l.lstrip()), off[n] + len(l), 'pass', 'statement dropped'))
    return out


def run(args):
    k, f, (a, b, new, what) = args
    d = tempfile.mkdtemp(prefix='mut-')
    try:
        w = d + '/repo'
        os.mkdir(w)
        for x in ('cmdis', 'test', 'setup.py', 'tox.ini', 'README.md'):
            subprocess.check_call(['cp', '-a', '/repo/' + x, w])
        p = os.path.join(w, 'cmdis', f)
        s = open(p, encoding='utf-8').read()
        t = s[:a] + new + s[b:]
        open(p, 'w', encoding='utf-8').write(t)
        line = s.count('\n', 0, a) + 1
        r = {'file': f, 'line': line, 'what': what, 'old': s[a:b], 'new': new,
             'text': t.split('\n')[line - 1].strip()[:160]}
        if f != '__main__.py':
            try:
                q = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '--tb=no', '-p', 'no:cacheprovider', '--timeout=60'], cwd=w, env=ENV,
                                   capture_output=True, text=True, timeout=200)
                if q.returncode != 0:
                    r['tests'] = 'killed'
                    return r
            except subprocess.TimeoutExpired:
                r['tests'] = 'killed'
                return r
        r['tests'] = 'survived'
        r['caught'] = []
        for c in CHECKS[f] if not ONLY else ONLY:
            q = subprocess.run([sys.executable, os.path.join(VERIF, 'harness', 'run.py'), c], capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=w, VERIF_NOMODELS='1', VERIF_OUT=d, VERIF_SEED='1', VERIF_TIER='quick'))
            if q.returncode == 1:
                r['caught'].append(c)
                if not ALL:
                    break
            elif q.returncode != 0:
                r.setdefault('error', []).append([c, q.stdout[-500:]])
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


ALL = bool(os.environ.get('MUT_ALL'))
ONLY = os.environ.get('MUT_ONLY', '').split()
if __name__ == '__main__':
    out, n = sys.argv[1], int(sys.argv[2])
    seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
    files = sys.argv[4:] or sorted(CHECKS)
    random.seed(seed)
    todo = []
    for f in files:
        text = open('/repo/cmdis/' + f, encoding='utf-8').read()
        todo += [(f, m) for m in (mutants_tokens(text) if f == '__main__.py' else mutants_ast(text))]
    print('%d mutants' % len(todo))
    random.shuffle(todo)
    todo = [(k, f, m) for k, (f, m) in enumerate(todo[:n])]
    with open(out, 'a') as o, ThreadPoolExecutor(int(os.environ.get('MUT_JOBS', '4'))) as ex:
        for r in ex.map(run, todo):
            o.write(json.dumps(r) + '\n')
            o.flush()
