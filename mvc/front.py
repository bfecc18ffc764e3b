"""Front end: clang's AST of the real sources, re-dumped from /repo on every run."""
import json
import sys
sys.setrecursionlimit(20000)
import os
import subprocess
import hashlib
import concurrent.futures

REPO = os.environ.get('MVC_REPO', '/repo')
SRCS = ['assembly', 'ell', 'homogenize', 'micro', 'output', 'solve', 'wrapper']

STD = '''#include <vector>
#include <iostream>
#include <fstream>
#include <iomanip>
#include <list>
#include <string>
#include <sstream>
#include <cmath>
#include <cassert>
#include <cstdlib>
#include <stdlib.h>
#include <cstring>
#include <cstdio>
#include <algorithm>
#include <numeric>
#include <array>
#include <utility>
#include <functional>
#include <iterator>
#include <memory>
#include <map>
#include <set>
#include <limits>
#include <tuple>
#include <initializer_list>
#include <type_traits>
#include <cstdint>
#include <cstddef>
#include <climits>
#include <cfloat>
'''


class FrontError(Exception):
    pass


def build_pch(work):
    h = os.path.join(work, 'std.hpp')
    with open(h, 'w') as f:
        f.write(STD)
    p = os.path.join(work, 'std.pch')
    subprocess.run(['clang++', '-std=gnu++11', '-x', 'c++-header', h, '-o', p], check=True,
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return p


def dump(src, pch):
    r = subprocess.run(['clang++', '-std=gnu++11', '-include-pch', pch, '-I' + REPO + '/include', '-fsyntax-only',
                        '-Wno-everything', '-Xclang', '-ast-dump=json', src], stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE)
    if r.returncode != 0:
        raise FrontError('clang failed on %s: %s' % (src, r.stderr.decode()[:2000]))
    return json.loads(r.stdout)


class TU(object):
    def __init__(self, name):
        self.name = name
        self.by_id = {}      # decl id -> node
        self.mangled = {}    # decl id -> mangled name


class Program(object):
    def __init__(self):
        self.funcs = {}      # mangled -> (node, tu)
        self.byname = {}     # qualified name -> [mangled]
        self.records = {}    # name -> [(field, type)]
        self.statics = {}    # global variables
        self.sha = ''


def walk(node, tu, prog, ctx, infn=False):
    k = node.get('kind')
    i = node.get('id')
    if i is not None and k is not None and k.endswith('Decl'):
        tu.by_id[i] = node
        if 'mangledName' in node:
            tu.mangled[i] = node['mangledName']
    name = node.get('name')
    nctx = ctx
    if k in ('CXXRecordDecl', 'NamespaceDecl') and name:
        nctx = ctx + [name]
    if k == 'CXXRecordDecl' and node.get('completeDefinition'):
        fields = [(c['name'], c['type'].get('desugaredQualType', c['type']['qualType']), c) for c in node.get('inner', ())
                  if c.get('kind') == 'FieldDecl' and 'name' in c]
        if name:
            prog.records[name] = fields
        elif fields:
            prog.records['@' + i] = fields
    if k == 'TypedefDecl' and name:
        # typedef struct { } name;
        def find(n):
            if 'decl' in n and n['decl'].get('kind') == 'CXXRecordDecl':
                return n['decl']['id']
            if 'ownedTagDecl' in n:
                return n['ownedTagDecl']['id']
            for c in n.get('inner', ()):
                r = find(c)
                if r:
                    return r
            return None
        rid = find(node)
        if rid and '@' + rid in prog.records:
            prog.records[name] = prog.records['@' + rid]
    if k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl'):
        mn = node.get('mangledName')
        has_body = any(c.get('kind') == 'CompoundStmt' for c in node.get('inner', ()))
        if mn and has_body and not node.get('isImplicit'):
            q = name
            par = node.get('parentDeclContextId')
            cls = None
            if par and par in tu.by_id:
                cls = tu.by_id[par].get('name')
            elif ctx:
                cls = ctx[-1]
            if cls and k != 'FunctionDecl':
                q = cls + '::' + name
            node['_tu'] = tu
            node['_q'] = q
            prog.funcs[mn] = node
            prog.byname.setdefault(q, [])
            if mn not in prog.byname[q]:
                prog.byname[q].append(mn)
    if k == 'VarDecl' and not ctx and name and not infn:
        prog.statics[name] = node
    for c in node.get('inner', ()) or ():
        if isinstance(c, dict) and c:
            walk(c, tu, prog, nctx, infn or k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl'))


def lines(node, cur):
    """clang prints a line only where it changes: propagate it"""
    def loc(l, cur):
        if not isinstance(l, dict):
            return cur
        if 'expansionLoc' in l or 'spellingLoc' in l:
            cur = loc(l.get('spellingLoc'), cur)
            return loc(l.get('expansionLoc'), cur)
        return l.get('line', cur)
    cur = loc(node.get('loc'), cur)
    r = node.get('range', {})
    cur = loc(r.get('begin'), cur)
    node['_line'] = cur
    cur = loc(r.get('end'), cur)
    for c in node.get('inner', ()) or ():
        if isinstance(c, dict):
            cur = lines(c, cur)
    return cur


def load(work, srcs=None):
    prog = Program()
    pch = build_pch(work)
    files = sorted(f for f in os.listdir(REPO + '/src') if f.endswith('.cpp'))
    h = hashlib.sha256()
    for d in ('src', 'include'):
        for f in sorted(os.listdir(os.path.join(REPO, d))):
            p = os.path.join(REPO, d, f)
            if os.path.isfile(p):
                h.update(f.encode())
                h.update(open(p, 'rb').read())
    prog.sha = h.hexdigest()
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        asts = list(ex.map(lambda f: dump(os.path.join(REPO, 'src', f), pch), files))
    for f, a in zip(files, asts):
        tu = TU(f)
        lines(a, 0)
        walk(a, tu, prog, [])
    return prog
