#!/usr/bin/env python3
"""Mechanically insert CBMC loop contracts into a copy of a real source file.

The source is parsed by clang (JSON AST) on every run; the loops are located by what they do (which functions their
body reaches), never by line or name, and each selected loop gets the contract of its role.  Only text is inserted
(a ghost include in front of the file and one contract between a loop header and its body); nothing is dropped.
"""
import json, subprocess, sys

class NoLoop(Exception):
    pass

def ast(src, flags):
    p = subprocess.run(['clang', *flags, '-fsyntax-only', '-w', '-Xclang', '-ast-dump=json', src],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise NoLoop('clang cannot parse %s: %s' % (src, p.stderr.decode()[:300]))
    return json.loads(p.stdout)

def walk(n):
    yield n
    for c in n.get('inner', []) or []:
        if isinstance(c, dict):
            yield from walk(c)

def refs(n):
    for x in walk(n):
        if x.get('kind') == 'DeclRefExpr':
            r = x.get('referencedDecl') or {}
            yield r

def strip(e):
    while e.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr'):
        e = e['inner'][0]
    return e

def assigned(n):
    """variables (decl) written inside n"""
    out = {}
    for x in walk(n):
        k = x.get('kind')
        if k in ('BinaryOperator',) and x.get('opcode') == '=' or k == 'CompoundAssignOperator':
            t = strip(x['inner'][0])
        elif k == 'UnaryOperator' and x.get('opcode') in ('++', '--'):
            t = strip(x['inner'][0])
        else:
            continue
        if t.get('kind') == 'DeclRefExpr':
            d = t['referencedDecl']
            if d['kind'] in ('VarDecl', 'ParmVarDecl'):
                out[d['id']] = d
    return out

def const(e):
    e = strip(e)
    return int(e['value']) if e.get('kind') == 'IntegerLiteral' else None

def stepping(n):
    """id -> (declaration, step) for the variables whose only assignment in the loop adds a constant"""
    out, seen = {}, {}
    def note(t, s):
        t = strip(t)
        if t.get('kind') == 'DeclRefExpr':
            d = t['referencedDecl']
            seen[d['id']] = seen.get(d['id'], 0) + 1
            if s:
                out[d['id']] = (d, s)
    for x in walk(n):
        k, o = x.get('kind'), x.get('opcode')
        if k == 'UnaryOperator' and o in ('++', '--'):
            note(x['inner'][0], 1 if o == '++' else -1)
        elif k == 'CompoundAssignOperator':
            c = const(x['inner'][1])
            note(x['inner'][0], c if o == '+=' else -c if o == '-=' and c else None)
        elif k == 'BinaryOperator' and o == '=':
            l, r = strip(x['inner'][0]), strip(x['inner'][1])
            s = None
            if l.get('kind') == 'DeclRefExpr' and r.get('kind') == 'BinaryOperator' and r.get('opcode') in ('+', '-'):
                a, b = strip(r['inner'][0]), strip(r['inner'][1])
                same = lambda e: e.get('kind') == 'DeclRefExpr' and e['referencedDecl']['id'] == l['referencedDecl']['id']
                if same(a) and const(b):
                    s = const(b) if r['opcode'] == '+' else -const(b)
                elif same(b) and const(a) and r['opcode'] == '+':
                    s = const(a)
            note(l, s)
    return {i: v for i, v in out.items() if seen[i] == 1}

LOOPS = ('ForStmt', 'WhileStmt', 'DoStmt')

class Unit:
    def __init__(self, src, flags):
        self.src = src
        self.text = open(src, 'rb').read()
        tu = ast(src, flags)
        self.funcs = {}
        self.globals = set()
        for d in tu.get('inner', []):
            if d.get('kind') == 'FunctionDecl' and any(c.get('kind') == 'CompoundStmt' for c in d.get('inner', []) or []):
                self.funcs[d['name']] = d
            if d.get('kind') == 'VarDecl':
                self.globals.add(d['id'])
        self.calls = {f: {r.get('name') for r in refs(d) if r.get('kind') == 'FunctionDecl'} for f, d in self.funcs.items()}

    def closure(self, names):
        seen, todo = set(), list(names)
        while todo:
            f = todo.pop()
            if f in seen:
                continue
            seen.add(f)
            todo += list(self.calls.get(f, ()))
        return seen

    def loops(self, fname):
        return [x for x in walk(self.funcs[fname]) if x.get('kind') in LOOPS]

    def select(self, entry=None, calls=None):
        """loops of functions reachable (by reference) from entry whose body reaches one of calls"""
        out = []
        fs = self.closure([entry]) if entry else set(self.funcs)
        for f in sorted(fs & set(self.funcs)):
            for l in self.loops(f):
                direct = {r.get('name') for r in refs(l) if r.get('kind') == 'FunctionDecl'}
                if any(r.get('id') in self.globals and '[' in r.get('type', {}).get('qualType', '') and 'mapper' in r.get('type', {}).get('qualType', '')
                       for r in refs(l)):
                    continue   # dispatch table
                if calls is None or (self.closure(direct) & set(calls)):
                    out.append((f, l))
        # innermost only
        ids = set()
        for f, l in out:
            for x in walk(l):
                if x is not l and x.get('kind') in LOOPS:
                    ids.add(id(l))
        return [(f, l) for f, l in out if id(l) not in ids]

def off(n, which):
    r = n['range'][which]
    if 'offset' not in r:
        r = r.get('expansionLoc', {})
    return r['offset']

def describe(unit, f, l):
    ks = [c for c in l['inner']]
    if l['kind'] == 'DoStmt':
        body, cond = ks[0], ks[1]
        init, inc = {}, {}
        at = off(body, 'begin')          # CBMC reads the contract of a do loop between `do` and the body
    else:
        body = ks[-1]
        at = off(body, 'begin')
        init, cond, inc = (ks[0], ks[2], ks[3]) if l['kind'] == 'ForStmt' else ({}, ks[0], {})
    inbody = {x['id'] for x in walk(body) if x.get('kind') == 'VarDecl'}
    # what the loop itself writes; a variable that is only set before the first iteration is not
    asg = {}
    for part in (body, cond, inc):
        asg.update({i: d for i, d in assigned(part).items() if i not in inbody and i not in unit.globals})
    loopvars = {x['id'] for x in walk(init) if x.get('kind') == 'VarDecl'}
    steps = {}
    rest = dict(kind='Rest', inner=[x for x in (body, cond, inc) if x])
    for i, (d, s) in stepping(rest).items():
        if i in asg:
            steps[i] = (d, s)
    condv = {r['id'] for r in refs(cond) if r.get('kind') in ('VarDecl', 'ParmVarDecl')}
    order = sorted(steps, key=lambda i: (0 if i in condv else 1, 0 if i in loopvars else 1))
    return dict(func=f, body=at, assigned=list(asg.values()), steps=[steps[i] for i in order], cond=condv, dowhile=l['kind'] == 'DoStmt')

def is_int(d):
    return '*' not in d['type']['qualType']

def annotate(src, flags, out, specs, include):
    """specs: list of dict(entry, calls, render(desc)->text).  Returns list of annotated loops."""
    u = Unit(src, flags)
    ins, done = [], []
    for s in specs:
        sel = u.select(s.get('entry'), s.get('calls'))
        if not sel:
            raise NoLoop('no loop for role %s' % s['role'])
        if s.get('exactly') and len(sel) != s['exactly']:
            raise NoLoop('%d loops for role %s' % (len(sel), s['role']))
        for f, l in sel:
            d = describe(u, f, l)
            t = s['render'](d)
            if t is None:
                raise NoLoop('no contract fits the loop of %s' % f)
            ins.append((d['body'], t))
            done.append('%s: loop of %s' % (s['role'], f))
    b = u.text
    for o, t in sorted(ins, reverse=True):
        b = b[:o] + t.encode() + b[o:]
    open(out, 'wb').write(b'#include "%s"\n#line 1 "%s"\n' % (include.encode(), src.encode()) + b)
    return done
