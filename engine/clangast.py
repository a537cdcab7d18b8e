"""Reads clang's JSON AST of /repo translation units and indexes it.

Everything downstream works from this: no source text of /repo is ever matched
textually.  One TU = one clang run; declarations are unified across TUs by
mangled name."""
import json, os, subprocess, sys

class ExtractError(Exception):
    pass

FUNC_KINDS = ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl',
              'CXXDestructorDecl', 'CXXConversionDecl')

def clang():
    for c in ('clang++-18', 'clang++'):
        for d in os.environ.get('PATH', '').split(':') + ['/usr/bin', '/usr/local/bin']:
            if os.path.exists(os.path.join(d, c)):
                return os.path.join(d, c)
    raise ExtractError('clang++ not found')

def dump_tu(path, repo, filt='spffl'):
    """Returns the list of top-level decl docs of the TU."""
    cmd = [clang(), '-std=c++20', '-I' + repo, '-w', '-Xclang', '-ast-dump=json',
           '-Xclang', '-ast-dump-filter=' + filt, '-fsyntax-only', path]
    p = subprocess.run(cmd, capture_output=True, text=True, cwd=repo)
    if p.returncode != 0:
        raise ExtractError('clang failed on %s: %s' % (path, p.stderr[-2000:]))
    s = p.stdout
    dec = json.JSONDecoder()
    i, n, out = 0, len(s), []
    while True:
        while i < n and s[i] in ' \t\r\n':
            i += 1
        if i >= n:
            break
        d, i = dec.raw_decode(s, i)
        out.append(d)
    return out

def const_int(x):
    while isinstance(x, dict):
        if 'value' in x and x['kind'] in ('ConstantExpr', 'IntegerLiteral'):
            return int(x['value'])
        i = x.get('inner') or [None]
        x = i[0] if len(i) == 1 else None
    return None


class Index:
    """All declarations of a set of TUs."""
    def __init__(self):
        self.byid = {}        # (tu, id) -> node
        self.funcs = {}       # mangled -> dict(node, key, cls, tu, body)
        self.classes = {}     # qualified class name -> dict(fields=[(name,type)], node, tu)
        self.enums = {}       # qualified enum name -> Rust integer type
        self.vars = {}        # (tu,id) -> VarDecl (namespace scope)
        self.owner = {}       # (tu, id) of function decl -> mangled
        self.tu_n = 0
        self.bykey = {}

    def add_tu(self, path, repo, docs=None):
        tu = self.tu_n
        self.tu_n += 1
        if docs is None:
            docs = dump_tu(path, repo)
        self._lastfile = None
        self._lastline = None
        for d in docs:
            self._lastfile = None
            self._lastline = None
            # the filter prints a matched namespace bare: re-create the qualification
            self._walk(d, [], None, tu, None)
        # Out-of-line definitions take class from parentDeclContextId
        return tu

    def _loc(self, n):
        for part in (n.get('loc'), (n.get('range') or {}).get('begin'), (n.get('range') or {}).get('end')):
            if not part:
                continue
            for q in (part, part.get('spellingLoc'), part.get('expansionLoc')):
                if not q:
                    continue
                if 'file' in q:
                    self._lastfile = q['file']
                if 'line' in q:
                    self._lastline = q['line']
        return self._lastfile, self._lastline

    def _clsname(self, n):
        name = n.get('name', '')
        if n['kind'] == 'ClassTemplateSpecializationDecl':
            args = []
            for c in n.get('inner', []):
                if c.get('kind') == 'TemplateArgument':
                    t = c.get('type', {})
                    args.append(norm_cls(t.get('desugaredQualType') or t.get('qualType', str(c.get('value', '?')))))
            name += '<' + ', '.join(args) + '>'
        return name

    def _walk(self, n, ns, cls, tu, fn):
        if not isinstance(n, dict) or 'kind' not in n:
            return
        n['_tu'] = tu
        f, l = self._loc(n)
        n['_line'] = l
        n['_file'] = f
        k = n['kind']
        if 'id' in n:
            self.byid[(tu, n['id'])] = n
        if k == 'NamespaceDecl':
            for c in n.get('inner', []):
                self._walk(c, ns + [n.get('name', '(anon)')], None, tu, fn)
            return
        if k == 'EnumDecl' and n.get('name'):
            v, neg = -1, False
            for c in n.get('inner', []):
                if c.get('kind') != 'EnumConstantDecl':
                    continue
                ce = [x for x in c.get('inner', []) if 'valueCategory' in x]
                val = const_int(ce[0]) if ce else v + 1
                c['_val'] = v = val
                neg = neg or (val is not None and val < 0)
                self.byid[(tu, c['id'])] = c
            self.enums['::'.join(ns + [n['name']])] = {'int': 'i32'}.get((n.get('fixedUnderlyingType') or {}).get('qualType'), 'i32' if neg else 'u32')
            return
        if k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl') and fn is None:
            q = '::'.join(ns + [self._clsname(n)])
            n['_q'] = q
            fields = []
            for c in n.get('inner', []):
                if c.get('kind') == 'FieldDecl':
                    fields.append((c['name'], c['type'].get('desugaredQualType') or c['type']['qualType'], c))
            if n.get('completeDefinition') or fields:
                if q not in self.classes:
                    self.classes[q] = dict(fields=fields, node=n, tu=tu)
            for c in n.get('inner', []):
                self._walk(c, ns, n, tu, fn)
            return
        if k == 'ClassTemplateDecl':
            # only the specializations are concrete; the pattern itself is dependent
            for c in n.get('inner', []):
                if c.get('kind') == 'ClassTemplateSpecializationDecl':
                    self._walk(c, ns, None, tu, fn)
                else:
                    self._locs(c, tu)
            return
        if k == 'FunctionTemplateDecl':
            first = True
            for c in n.get('inner', []):
                if c.get('kind') == 'FunctionDecl':
                    if first:
                        first = False
                        self._locs(c, tu)
                        continue
                    self._walk(c, ns, cls, tu, fn)
                else:
                    self._locs(c, tu)
            return
        if k in FUNC_KINDS and fn is None:
            if cls is not None:
                q = cls.get('_q')
            else:
                pid = n.get('parentDeclContextId')
                pc = self.byid.get((tu, pid)) if pid else None
                q = pc.get('_q') if pc is not None and pc['kind'] in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl') else None
                if q is None and n.get('previousDecl'):
                    pd = self.byid.get((tu, n['previousDecl']))
                    if pd is not None:
                        q = pd.get('_cls')
            n['_cls'] = q
            n['_ns'] = list(ns)
            body = None
            for c in n.get('inner', []):
                if c.get('kind') == 'CompoundStmt':
                    body = c
            m = n.get('mangledName')
            if m is None:
                m = 'NOMANGLE_%d_%s' % (tu, n['id'])
            # static functions are per TU
            if n.get('storageClass') == 'static' and q is None:
                m = m + '__tu%d' % tu
            n['_m'] = m
            self.owner[(tu, n['id'])] = m
            params = [c for c in n.get('inner', []) if c.get('kind') == 'ParmVarDecl']
            base = (q if q else '::'.join(ns)) or ''
            if base.startswith('spffl::'):
                base = base[7:]
            elif base == 'spffl':
                base = ''
            qt = n['type']['qualType']
            key = base + ('::' if base else '') + n.get('name', '?') + sig_of(qt)
            ent = self.funcs.get(m)
            if ent is None or (ent['body'] is None and body is not None):
                self.funcs[m] = dict(node=n, key=key, cls=q, tu=tu, body=body, params=params, m=m,
                                     file=f, line=l, kind=k, const=qt.rstrip().endswith('const'),
                                     static=(n.get('storageClass') == 'static' and q is not None))
                if ent is not None and ent.get('static'):
                    self.funcs[m]['static'] = True
                if body is not None or key not in self.bykey:
                    self.bykey[key] = m
            if n.get('storageClass') == 'static' and q is not None:
                self.funcs[m]['static'] = True
            for c in n.get('inner', []):
                self._walk(c, ns, None, tu, n)
            return
        if k == 'VarDecl' and fn is None:
            n['_ns'] = list(ns)
            self.vars[(tu, n['id'])] = n
        for c in n.get('inner', []):
            self._walk(c, ns, cls if fn is None else None, tu, fn)

    def _locs(self, n, tu):
        if not isinstance(n, dict) or 'kind' not in n:
            return
        self._loc(n)
        for c in n.get('inner', []):
            self._locs(c, tu)

def sig_of(qt):
    """'int (const X &, int) const' -> '(const X &, int) const'"""
    depth = 0
    # return type may contain parens only for fn pointers: ignore those
    i = qt.find('(')
    return qt[i:]

def norm_cls(t):
    t = t.strip()
    for pre in ('class ', 'struct '):
        if t.startswith(pre):
            t = t[len(pre):]
    return t
