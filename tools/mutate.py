#!/usr/bin/env python3
"""
Mutation campaign (used while building): one small change at a time is made in
a copy of the sources, and the checks which execute the changed function are
run until one of them reports a violation.

usage: mutate.py --list [FILE...]
       mutate.py OUT.jsonl [--every N] [--offset K] [FILE...]
"""
import argparse
import collections
import concurrent.futures
import glob
import io
import json
import os
import queue
import re
import shutil
import subprocess
import sys
import tempfile
import tokenize

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
SWAP = {'<': '<=', '<=': '<', '>': '>=', '>=': '>', '==': '!=', '!=': '==',
        '+': '-', '-': '+', '*': '/', '/': '*', '//': '/', '+=': '-=',
        '-=': '+=', 'and': 'or', 'or': 'and', 'True': 'False',
        'False': 'True', 'not': '', 'is': '==', 'break': 'continue',
        'continue': 'break'}
SLOTS = int(os.environ.get('SLOTS', '8'))
LAST = collections.defaultdict(list)


def logical_lines(text):
    "Lists of tokens, one list per logical line"
    line = []
    for tok in tokenize.generate_tokens(io.StringIO(text).readline):
        if tok.type in (tokenize.COMMENT, tokenize.NL, tokenize.INDENT,
                        tokenize.DEDENT):
            continue
        if tok.type in (tokenize.NEWLINE, tokenize.ENDMARKER):
            if line:
                yield line
            line = []
        else:
            line.append(tok)


def functions(text):
    "line number -> name of the innermost function"
    out, stack = {}, []
    for n, row in enumerate(text.splitlines(), 1):
        if not row.strip():
            continue
        indent = len(row) - len(row.lstrip())
        while stack and stack[-1][0] >= indent and not re.match(
                r'\s*[)\]}]', row):
            stack.pop()
        out[n] = next((s[1] for s in reversed(stack) if s[2] == 'def'), None)
        m = re.match(r'\s*(def|class) (\w+)', row)
        if m:
            stack.append((indent, m.group(2), m.group(1)))
    return out


def mutations(text):
    "Yields (line number, description, new text)"
    rows = text.splitlines(True)
    starts = [0]
    for row in rows:
        starts.append(starts[-1] + len(row))

    def at(pos):
        return starts[pos[0] - 1] + pos[1]

    def replace(a, b, new):
        return text[:at(a)] + new + text[at(b):]

    for line in logical_lines(text):
        first = line[0].string
        if line[0].type == tokenize.STRING or first in (
                'import', 'from', 'class', '@', 'global'):
            continue
        a, b = line[0].start, line[-1].end
        if first == 'def':
            start = next((i for i, t in enumerate(line) if t.string == '='),
                         None)
            if start is None:
                continue
            line = line[start:]
        elif first in ('if', 'elif', 'while') and line[-1].string == ':':
            c = text[at(line[1].start):at(line[-1].start)]
            for new in ('not (%s)' % c, 'True', 'False'):
                yield a[0], '%s %s' % (first, new), replace(
                    line[1].start, line[-1].start, new)
        elif first in ('return', 'yield'):
            if len(line) > 1:
                yield a[0], first + ' None', replace(
                    line[1].start, b, 'None')
        elif first == 'except' and len(line) > 2:
            yield a[0], 'except nothing', replace(
                line[1].start, line[-1].start, 'ReferenceError')
        elif line[-1].string != ':' and first not in (
                'else', 'try', 'finally', 'pass', 'lambda'):
            yield a[0], 'deleted', replace(a, b, 'pass')
            if first not in ('raise', 'break', 'continue', 'print', 'assert',
                             'del') and not set('=') & set(
                                 t.string for t in line[:4]):
                # twice
                yield a[0], 'twice', replace(
                    b, b, '; ' + text[at(a):at(b)])
        depth = 0
        for i, tok in enumerate(line):
            s = tok.string
            if s in '([{':
                depth += 1
            elif s in ')]}':
                depth -= 1
            prev = line[i - 1].string if i else ''
            if tok.type == tokenize.NUMBER:
                for new in ({'0': ['1'], '1': ['0', '2']}.get(
                        s, [s + ' + 1'])):
                    yield a[0], s + ' -> ' + new, replace(
                        tok.start, tok.end, new)
            elif tok.type == tokenize.STRING and i and first != 'raise':
                q = re.match(r'[a-zA-Z]*("""|\'\'\'|"|\')', s).group(0)
                body = s[len(q):-len(q.lstrip('rRuUbB'))]
                yield a[0], s + ' changed', replace(
                    tok.start, tok.end, q + body + 'X' + q.lstrip('rRuUbB'))
            elif s == 'in' and first != 'for' and 'for' not in [
                    t.string for t in line[:i]]:
                if prev == 'not':
                    yield a[0], 'not in -> in', replace(
                        line[i - 1].start, tok.end, 'in')
                else:
                    yield a[0], 'in -> not in', replace(
                        tok.start, tok.end, 'not in')
            elif s in SWAP and (tok.type in (
                    tokenize.OP, tokenize.NAME)):
                if s in '+-' and (prev in '([,=%*/' or prev == 'return'):
                    continue
                if s == '*' and (prev in '(,' or prev == 'print'):
                    continue
                if s == 'not' and i + 1 < len(line) and \
                        line[i + 1].string == 'in':
                    continue
                if s == 'is' and line[i + 1].string == 'not':
                    yield a[0], 'is not -> is', replace(
                        tok.start, line[i + 1].end, 'is')
                    continue
                if s == 'is':
                    yield a[0], 'is -> is not', replace(
                        tok.start, tok.end, 'is not')
                    continue
                if prev == 'is' and s == 'not':
                    continue
                yield a[0], '%s -> %s' % (s, SWAP[s]), replace(
                    tok.start, tok.end, SWAP[s])
            elif s == ',' and depth and i + 2 < len(line) and line[
                    i + 1].type == tokenize.NAME and line[i - 1].type == \
                    tokenize.NAME and line[i + 2].string in ',)]' and line[
                        i - 2].string in '(,[':
                yield a[0], 'swapped arguments', replace(
                    line[i - 1].start, line[i + 1].end, '%s, %s' % (
                        line[i + 1].string, line[i - 1].string))


VARIANTS = ['list(%s)[1:]', 'list(%s)[:-1]', 'list(%s)[:1]',
            'list(%s)[::-1]', 'sorted(%s)', 'list(%s)[:20]']
METHODS = {'strip', 'lower', 'upper', 'copy', 'capitalize', 'encode'}
FUNCTIONS = {'sorted', 'list', 'set', 'tuple', 'float', 'int', 'str', 'dict',
             'distinct', 'frozenset', 'reversed', 'iter'}


def mutations2(text):
    "Less local changes (same interface as mutations)"
    rows = text.splitlines(True)
    starts = [0]
    for row in rows:
        starts.append(starts[-1] + len(row))

    def at(pos):
        return starts[pos[0] - 1] + pos[1]

    def replace(a, b, new):
        return text[:at(a)] + new + text[at(b):]

    def src(a, b):
        return text[at(a):at(b)]

    previous = None  # the last simple statement
    for line in logical_lines(text):
        first = line[0].string
        if line[0].type == tokenize.STRING or first in (
                'import', 'from', 'class', '@', 'global', 'def'):
            previous = None
            continue
        n = line[0].start[0]
        depths, depth = [], 0
        for tok in line:
            if tok.string in (')', ']', '}'):
                depth -= 1
            depths.append(depth)
            if tok.string in ('(', '[', '{'):
                depth += 1

        def end(i, stops):
            "first token after i, at the same depth or out, in stops"
            d = depths[i]
            for j in range(i, len(line)):
                if depths[j] < d or (depths[j] == d and
                                     line[j].string in stops):
                    return j
            return len(line)

        def stop(j):
            return line[j].start if j < len(line) else line[-1].end

        simple = line[-1].string != ':' and first not in (
            'return', 'raise', 'break', 'continue', 'pass')
        if simple and previous and previous[0].start[1] == line[0].start[1]:
            a, b = previous[0].start, previous[-1].end
            c, d = line[0].start, line[-1].end
            if ';' not in src(a, d):
                yield n, 'swapped statements', (
                    text[:at(a)] + src(c, d) + src(b, c) + src(a, b) +
                    text[at(d):])
        previous = line if simple else None
        for i, tok in enumerate(line):
            s = tok.string
            if s == 'in' and 'for' in [t.string for t in line[:i]] and \
                    i + 1 < len(line):
                k = max(j for j in range(i) if line[j].string == 'for') \
                    if any(line[j].string == 'for' for j in range(i)) else 0
                if depths[k] != depths[i]:
                    continue
                j = end(i + 1, (':', 'if', 'for', ','))
                a, b = line[i + 1].start, line[j - 1].end
                for v in VARIANTS:
                    yield n, 'for in ' + v, replace(a, b, v % src(a, b))
            elif s in ('and', 'or'):
                new = 'True' if s == 'and' else 'False'
                j = end(i + 1, ('and', 'or', ':', ',', 'if', 'else'))
                yield n, 'right operand of ' + s, replace(
                    line[i + 1].start, line[j - 1].end, new)
                k = i - 1
                while k >= 0 and not (depths[k] < depths[i] or (
                        depths[k] == depths[i] and line[k].string in (
                            'and', 'or', 'if', 'elif', 'while', 'return',
                            ',', '=', 'assert', 'not'))) and not (
                                line[k].string in '([{' and
                                depths[k] == depths[i] - 1):
                    k -= 1
                if k + 1 < i:
                    yield n, 'left operand of ' + s, replace(
                        line[k + 1].start, line[i - 1].end, new)
            elif tok.type == tokenize.NAME and depths[i] and i and line[
                    i - 1].string in '(,' and i + 1 < len(line) and line[
                        i + 1].string == '=':
                j = end(i, (',',))
                if j < len(line):
                    b = line[j].end if line[j].string == ',' else \
                        line[j].start
                    yield n, 'without %s=' % s, replace(tok.start, b, '')
            elif s in METHODS and i and line[i - 1].string == '.' and \
                    i + 1 < len(line) and line[i + 1].string == '(':
                j = end(i + 1, (')',))
                if j < len(line):
                    yield n, 'without .%s()' % s, replace(
                        line[i - 1].start, line[j].end, '')
            elif s in FUNCTIONS and i + 1 < len(line) and line[
                    i + 1].string == '(' and line[i - 1].string != '.':
                j = end(i + 1, (')',))
                if j < len(line) and j > i + 2:
                    c = src(line[i + 2].start, line[j].start)
                    for v in {'float': ['(%s)', 'round(float(%s), 3)'],
                              'sorted': ['list(%s)', 'sorted(set(%s))'],
                              'list': ['(%s)', 'sorted(%s)'],
                              'set': ['list(%s)'],
                              'int': ['(%s)', 'float(%s)'],
                              }.get(s, ['(%s)']):
                        yield n, '%s -> %s' % (s, v), replace(
                            tok.start, line[j].end, v % c)
            elif s == 'self' and i == 0 and len(line) > 3 and line[
                    3].string == '=':
                yield n, 'attribute of the class', replace(
                    tok.start, tok.end, 'type(self)')
            elif s == '==' and i + 1 < len(line):
                yield n, '== -> >=', replace(tok.start, tok.end, '>=')


def reached():
    "file:function -> checks, the most specific ones first"
    out = collections.defaultdict(list)
    sizes = {}
    for fname in glob.glob(HERE + '/evidence/C*.json'):
        with open(fname) as f:
            d = json.load(f)
        names = d['coverage']['functions_reached']
        sizes[d['property']] = len(names)
        for name in names:
            out[name].append(d['property'])
    for lst in out.values():
        lst.sort(key=lambda c: (c == 'C24', sizes[c]))
        if len(lst) > 1 and 'C38' in lst:
            lst.remove('C38')
    return out


def all_mutants(files, mutations=mutations):
    by_function = reached()
    for path in files:
        with open(path) as f:
            text = f.read()
        funcs = functions(text)
        mod = os.path.basename(path)[:-3]
        seen = {text}
        for lineno, what, new in mutations(text):
            if new in seen:
                continue
            seen.add(new)
            func = funcs.get(lineno)
            if func is None:
                checks = sorted(set(c for k, v in by_function.items()
                                    if k.startswith(mod + ':') for c in v))
            else:
                checks = by_function.get('%s:%s' % (mod, func), [])
            yield dict(file=os.path.relpath(path, REPO), line=lineno,
                       func=func, what=what, checks=checks,
                       source=text.splitlines()[lineno - 1].strip()), new


def attempt(slots, verif, mutant, new):
    slot = slots.get()
    try:
        path = os.path.join(slot, mutant['file'])
        old = open(path).read()
        with open(path, 'w') as f:
            f.write(new)
        ran = []
        # the checks which caught the last mutants of the function or of
        # the module go first
        good = LAST[mutant['file'], mutant['func']] + LAST[mutant['file']]
        order = sorted(mutant['checks'], key=lambda c: (
            good.index(c) if c in good else 99))
        try:
            for cid in order:
                env = dict(os.environ, VERIF_REPO=slot, VERIF_SHARDS='1',
                           VERIF_BUDGET='70')
                p = subprocess.run(
                    ['python3', 'run.py', cid, '--seed', '11'], cwd=verif,
                    env=env, stdout=subprocess.PIPE,
                    stderr=subprocess.STDOUT, text=True)
                ran.append((cid, p.returncode))
                if p.returncode == 1:
                    LAST[mutant['file'], mutant['func']].insert(0, cid)
                    LAST[mutant['file']].insert(0, cid)
                    break
                if p.returncode == 2:
                    mutant['output'] = p.stdout[-600:]
                    if 'SyntaxError' in p.stdout:
                        break
        finally:
            with open(path, 'w') as f:
                f.write(old)
        return dict(mutant, ran=ran)
    finally:
        slots.put(slot)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out', nargs='?')
    ap.add_argument('files', nargs='*')
    ap.add_argument('--list', action='store_true')
    ap.add_argument('--second', action='store_true')
    ap.add_argument('--every', type=int, default=1)
    ap.add_argument('--offset', type=int, default=0)
    args = ap.parse_args()
    files = args.files or sorted(
        set(glob.glob(REPO + '/openquake/commonlib/*.py')) -
        {REPO + '/openquake/commonlib/__init__.py'})
    mutants = list(all_mutants(
        files, mutations2 if args.second else mutations))[args.offset::args.every]
    if args.list:
        for m, _new in mutants:
            print('%(file)s:%(line)s %(func)s [%(what)s] %(checks)s '
                  '%(source)s' % m)
        print(len(mutants))
        return
    work = tempfile.mkdtemp(prefix='mutants-')
    try:
        verif = work + '/verif'
        shutil.copytree(HERE, verif, ignore=shutil.ignore_patterns(
            'seeded', '.git', 'replays', 'tools'))
        worker = verif + '/lib/worker.py'
        text = open(worker).read()
        text = text.replace('QUICK_FACTOR = 5', 'QUICK_FACTOR = 1')
        text = text.replace("len(res['violations']) > 12",
                            "res['violations']")
        with open(worker, 'w') as f:
            f.write(text)
        driver = verif + '/run.py'
        text = open(driver).read().replace('AtLevel=4', 'AtLevel=1')
        with open(driver, 'w') as f:
            f.write(text)
        slots = queue.Queue()
        for i in range(SLOTS):
            slot = '%s/repo%d' % (work, i)
            shutil.copytree(REPO, slot, ignore=shutil.ignore_patterns('.git'))
            slots.put(slot)
        counts = collections.Counter()
        with open(args.out, 'a') as out, \
                concurrent.futures.ThreadPoolExecutor(SLOTS) as pool:
            futs = [pool.submit(attempt, slots, verif, m, new)
                    for m, new in mutants]
            for n, fut in enumerate(concurrent.futures.as_completed(futs)):
                m = fut.result()
                rcs = [rc for _c, rc in m['ran']]
                verdict = ('caught' if 1 in rcs else 'unreached'
                           if not rcs else 'invalid' if 'SyntaxError' in
                           m.get('output', '') else 'survived')
                counts[verdict] += 1
                out.write(json.dumps(dict(m, verdict=verdict)) + '\n')
                out.flush()
        print(dict(counts))
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    main()
