"""Mechanical extraction: run clang-18 on the real sources of /repo and index
the JSON AST of everything inside namespace fisx.  Nothing here is cached
between runs; every run re-reads /repo's working tree."""
import json, os, subprocess, hashlib, sys
from concurrent.futures import ThreadPoolExecutor

REPO_SRC = os.environ.get('FISX_SRC', '/repo/src')

class ExtractionError(Exception):
    pass

def _load_stream(s):
    d = json.JSONDecoder(); i = 0; out = []
    n = len(s)
    while True:
        while i < n and s[i].isspace():
            i += 1
        if i >= n:
            break
        if s[i] != '{':
            j = s.find('\n', i)
            if j < 0:
                break
            i = j + 1
            continue
        o, i = d.raw_decode(s, i)
        out.append(o)
    return out

DROP_KINDS = {'FullComment'}

def _fixloc(node, cur):
    """clang compresses locations (file/line are omitted when unchanged);
    restore the line of every node, in document order."""
    def upd(l):
        if not l:
            return
        for key in ('spellingLoc', 'expansionLoc'):
            if key in l:
                upd(l[key])
        if 'file' in l:
            cur['file'] = l['file']
        if 'line' in l:
            cur['line'] = l['line']
    upd(node.get('loc'))
    r = node.get('range')
    if r:
        upd(r.get('begin'))
        node['_line'] = cur['line']; node['_file'] = cur['file']
        upd(r.get('end'))
    else:
        node['_line'] = cur['line']; node['_file'] = cur['file']
    for k in ('loc', 'range'):
        node.pop(k, None)
    inner = node.get('inner')
    if inner:
        for c in inner:
            _fixloc(c, cur)
        node['inner'] = [c for c in inner if c.get('kind') not in DROP_KINDS and c.get('kind') is not None and not c.get('kind', '').endswith('Comment') or (c.get('kind') is None)]

def normsig(t):
    import re
    t = re.sub(r'\bnoexcept\([^)]*\)|\bnoexcept\b|\bconst\b|\bfisx::|\bstd::', '', t)
    return re.sub(r'[\s&]', '', t)

class TU:
    pass

class Program:
    """All translation units asked for, merged by mangled name."""
    def __init__(self):
        self.funcs = {}     # mangled -> node with body (and ._tu)
        self.decls = {}     # mangled -> some declaration (for default args)
        self.records = {}   # qualified class name -> dict(fields=[(name,type)], bases=[...])
        self.globals = {}   # name -> VarDecl node w/ init
        self.qual = {}      # mangled -> qualified name
        self.by_qual = {}   # qualified name -> [mangled]
        self.sha = {}

    def load(self, files):
        def run(f):
            path = os.path.join(REPO_SRC, f)
            p = subprocess.run(['clang++', '-std=gnu++17', '-fsyntax-only', '-w', '-Xclang', '-ast-dump=json',
                                '-Xclang', '-ast-dump-filter=fisx', path],
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            if p.returncode != 0:
                raise ExtractionError('clang failed on %s: %s' % (f, p.stderr.decode()[:400]))
            return f, p.stdout.decode('utf-8', 'replace')
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(run, files))
        for f, txt in res:
            self._index(f, txt)
            with open(os.path.join(REPO_SRC, f), 'rb') as fh:
                self.sha[f] = hashlib.sha256(fh.read()).hexdigest()
        return self

    def _index(self, fname, txt):
        tops = _load_stream(txt)
        tu = TU(); tu.byid = {}; tu.file = fname
        cur = {'file': fname, 'line': 0}
        for t in tops:
            _fixloc(t, cur)
        def walk(n, ctx, infn):
            k = n.get('kind')
            if 'id' in n and k is not None and k.endswith('Decl'):
                tu.byid[n['id']] = n
                n['_tu'] = tu
            nctx = ctx
            nin = infn
            if k == 'NamespaceDecl':
                nctx = ctx + [n.get('name', '')]
            elif k == 'CXXRecordDecl':
                nctx = ctx + [n.get('name', '')]
                if 'inner' in n and n.get('completeDefinition') and not infn:
                    q = '::'.join(nctx)
                    fields = []
                    for c in n['inner']:
                        if c.get('kind') == 'FieldDecl':
                            fields.append((c['name'], c['type'].get('desugaredQualType', c['type']['qualType'])))
                    bases = [b['type'].get('desugaredQualType', b['type']['qualType']) for b in n.get('bases', [])]
                    self.records[q] = dict(fields=fields, bases=bases)
            elif k in ('CXXMethodDecl', 'FunctionDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
                n['_tu'] = tu
                if not infn:
                    cx = ctx
                    par = n.get('parentDeclContextId')
                    if par and par in tu.byid and tu.byid[par].get('kind') == 'CXXRecordDecl':
                        nm = tu.byid[par].get('_qual')
                        if nm:
                            cx = nm.split('::')
                    q = '::'.join(cx + [n.get('name', '')])
                    m = n.get('mangledName')
                    n['_qual'] = q
                    n['_cls'] = '::'.join(cx)
                    if m:
                        self.qual[m] = q
                        l = self.by_qual.setdefault(q, [])
                        if m not in l:
                            l.append(m)
                        if any(c.get('kind') == 'CompoundStmt' for c in n.get('inner', [])):
                            self.funcs.setdefault(m, n)
                        if m not in self.decls or n.get('previousDecl') is None:
                            self.decls.setdefault(m, n)
                nin = True
            elif k == 'VarDecl' and not infn:
                if 'inner' in n and 'init' in n:
                    self.globals.setdefault(n['name'], n)
                    self.globals[n.get('mangledName', n['name'])] = n
            if k == 'CXXRecordDecl':
                n['_qual'] = '::'.join(nctx)
            for c in n.get('inner', []):
                walk(c, nctx, nin)
        for t in tops:
            walk(t, [], False)
        # redeclared contexts: resolve out-of-class definitions that came before
        return tu

    def find(self, qual, sig=None):
        """definitions with this qualified name; sig is a predicate on the type string or a substring"""
        out = []
        for m in self.by_qual.get(qual, []):
            n = self.funcs.get(m)
            if n is None:
                continue
            ts = n['type']['qualType']
            if sig is None or (callable(sig) and sig(n)) or (isinstance(sig, str) and normsig(sig) == normsig(ts)):
                out.append(n)
        return out
