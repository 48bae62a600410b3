"""Front end: turns the current /repo sources into an indexed clang AST.

The text that is verified is clang's own AST of the sources as they are in /repo
(one translation unit that #includes every fbstab/**/*.cc outside test/ plus a
harness that instantiates the public templates); nothing is copied or rewritten.
"""
import json, os, re, subprocess, tempfile, glob, sys
sys.setrecursionlimit(20000)

REPO = os.environ.get('VERIF_REPO', '/repo')

HARNESS = r'''
#include "fbstab/fbstab_dense.h"
#include "fbstab/fbstab_mpc.h"
namespace fbstab { namespace vharness {
struct VStream : public OutputStream<VStream> { void PrintImplementation(const char* m) const; };
inline void dense(FBstabDense& s, const FBstabDense::ProblemData& p, const FBstabDense::ProblemDataRef& pr,
                  FBstabDense::Variable& v, FBstabDense::VariableRef& vr) {
  VStream os;
  s.Solve(p, &v, os); s.Solve(pr, &v, os); s.Solve(p, &vr, os); s.Solve(pr, &vr, os);
  s.Solve(p, &v); s.Solve(pr, &vr);
}
inline void mpc(FBstabMpc& s, const FBstabMpc::ProblemData& p, const FBstabMpc::ProblemDataRef& pr,
                FBstabMpc::Variable& v, FBstabMpc::VariableRef& vr, Eigen::VectorXd& x0) {
  VStream os;
  s.Solve(p, &v, os); s.Solve(pr, &v, os); s.Solve(p, &vr, os); s.Solve(pr, &vr, os);
  s.Solve(p, &v); s.Solve(pr, &vr);
  FBstabMpc::ProblemDataRef q; q.SetX0(x0);
}
inline void seq(MatrixSequence& m, const MatrixSequence& cm, const MapMatrixSequence& mm, const double* d) {
  MatrixSequence a(1, 2, 3), b(1, 2); MapMatrixSequence c(d, 1, 2, 3), e(cm);
  m(0); cm(0); mm(0); m.data(); cm.data(); mm.data();
}
}}
'''

class FrontEndError(Exception):
    pass

def load(fn):
    s = open(fn).read(); d = json.JSONDecoder(); i = 0; out = []
    n = len(s)
    while i < n:
        while i < n and s[i].isspace(): i += 1
        if i >= n: break
        if s.startswith('Dumping', i):
            i = s.index('\n', i); continue
        o, i = d.raw_decode(s, i); out.append(o)
    return out

def ty(n):
    t = n.get('type', {})
    return TOPCONST.sub('*', t.get('desugaredQualType') or t.get('qualType', ''))
TOPCONST = re.compile(r'\*\s*const$')

def qty(n):
    return n.get('type', {}).get('qualType', '')

def strip_type(t):
    """class key of a type: no cv, reference, pointer"""
    t = t.strip()
    while True:
        o = t
        t = re.sub(r'^(const|struct|class|enum)\s+', '', t)
        t = re.sub(r'\s*(const|&|&&|\*)$', '', t).strip()
        if t == o: return t

class Fn:
    __slots__ = ('name', 'mangled', 'node', 'params', 'body', 'inits', 'cls', 'ret', 'type', 'kind', 'const', 'noret')
    def __repr__(self): return '<Fn %s::%s>' % (self.cls, self.name)

class Cls:
    def __init__(self, key):
        self.key = key; self.fields = {}; self.bases = []; self.methods = {}; self.node = None; self.tname = None

class Program:
    def __init__(self, repo=REPO):
        self.repo = repo
        self.byid = {}; self.fns = {}; self.cls = {}; self.declmangled = {}; self.fieldcls = {}
        self.enums = {}; self.files = {}; self.owner = {}
        self.statics = {}
        self.dump()

    def sources(self):
        out = []
        for p in sorted(glob.glob(self.repo + '/fbstab/**/*.cc', recursive=True)):
            if '/test/' in p: continue
            out.append(p)
        return out

    def dump(self):
        srcs = self.sources()
        d = tempfile.mkdtemp(prefix='cv_ast_')
        try:
            pre = '#include <array>\n#include <iostream>\n#include <memory>\n#include <vector>\n#include <Eigen/Dense>\n'
            unity = pre + ''.join('#include "%s"\n' % s for s in srcs) + HARNESS
            ok, docs, err = self._run(d, [('unity', unity)])
            if not ok:
                tus = [('t%d' % i, '#include "%s"\n' % s) for i, s in enumerate(srcs)] + [('h', pre + HARNESS)]
                ok, docs, err = self._run(d, tus)
                if not ok: raise FrontEndError(err)
            for objs in docs:
                for o in objs: self.walk(o, '', None)
        finally:
            subprocess.call(['rm', '-rf', d])
        self.finish()

    def _run(self, d, tus):
        ps = []
        for name, text in tus:
            f = '%s/%s.cc' % (d, name)
            open(f, 'w').write(text)
            ps.append((name, subprocess.Popen(
                ['clang++', '-std=c++11', '-I' + self.repo, '-I/usr/include/eigen3', '-fsyntax-only', '-w',
                 '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=fbstab', f],
                stdout=open('%s/%s.json' % (d, name), 'w'), stderr=open('%s/%s.err' % (d, name), 'w'))))
        docs = []; err = ''
        ok = True
        for k, (name, p) in enumerate(ps):
            if p.wait():
                ok = False; err += open('%s/%s.err' % (d, name)).read()[:2000]
        if not ok: return False, [], err
        for k, (name, p) in enumerate(ps):
            docs.append(self._prefix(load('%s/%s.json' % (d, name)), 't%d:' % k if len(tus) > 1 else ''))
        return True, docs, ''

    def _prefix(self, objs, pre):
        if not pre: return objs
        def go(n):
            if isinstance(n, dict):
                for k, v in n.items():
                    if k in ('id', 'previousDecl', 'parentDeclContextId', 'referencedMemberDecl', 'targetLabelDeclId') and isinstance(v, str):
                        n[k] = pre + v
                    else: go(v)
            elif isinstance(n, list):
                for x in n: go(x)
        go(objs); return objs

    # -- indexing ------------------------------------------------------
    def walk(self, n, ns, cls):
        if not isinstance(n, dict): return
        self._sticky(n)
        k = n.get('kind')
        if 'id' in n and k: self.byid[n['id']] = n
        if k == 'NamespaceDecl':
            for c in n.get('inner', []): self.walk(c, (ns + '::' if ns else '') + n.get('name', '(anon)'), None)
            return
        if k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
            if n.get('parentDeclContextId') and n['parentDeclContextId'] in self.owner:
                ns2 = self.owner[n['parentDeclContextId']]
            else: ns2 = cls or ns
            key = ns2 + '::' + n.get('name', '(anon)')
            if k == 'ClassTemplateSpecializationDecl':
                args = [a for a in n.get('inner', []) if a.get('kind') == 'TemplateArgument']
                key += '<' + ', '.join((a.get('type', {}).get('desugaredQualType') or a.get('type', {}).get('qualType', str(a.get('value', '?')))) for a in args) + '>'
            self.owner[n['id']] = key
            if n.get('completeDefinition'):
                c = self.cls.get(key)
                if c is None: c = self.cls[key] = Cls(key)
                c.node = n; c.tname = n.get('name')
                c.bases = [strip_type(b['type'].get('desugaredQualType') or b['type']['qualType']) for b in n.get('bases', [])]
            for c in n.get('inner', []): self.walk(c, ns, key)
            return
        if k == 'ClassTemplateDecl':
            for c in n.get('inner', []):
                if c.get('kind') == 'CXXRecordDecl':   # the pattern: index ids only
                    self._sticky(c); self.owner[c['id']] = (cls or ns) + '::' + c.get('name', '') + '<pattern>'
                    for x in c.get('inner', []): self.walk(x, ns, self.owner[c['id']])
                else: self.walk(c, ns, cls)
            return
        if k == 'FunctionTemplateDecl':
            for c in n.get('inner', []): self.walk(c, ns, cls)
            return
        if k in ('CXXMethodDecl', 'CXXConstructorDecl', 'FunctionDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
            self.walk_fn(n, ns, cls); return
        if k == 'EnumDecl':
            val = -1
            for c in n.get('inner', []):
                if c.get('kind') == 'EnumConstantDecl':
                    self._sticky(c)
                    v = None
                    for x in c.get('inner', []):
                        v = x.get('value', v)
                        if v is None:
                            for y in x.get('inner', []): v = y.get('value', v)
                    val = int(v) if v is not None else val + 1
                    c['enumval'] = val; self.byid[c['id']] = c
                    self.enums[c['id']] = ((cls or ns) + '::' + n.get('name', ''), c.get('name'), val)
            return
        if k == 'FieldDecl' and cls:
            c = self.cls.get(cls)
            if c is not None:
                init = [x for x in n.get('inner', []) if x.get('kind') not in ('FullComment',)]
                c.fields[n['name']] = (ty(n), init[-1] if init else None, n)
                self.fieldcls[n['id']] = cls
        if k == 'VarDecl':
            self.statics[n['id']] = n
            n['owner'] = cls
        for c in n.get('inner', []): self.walk(c, ns, cls)

    def walk_fn(self, n, ns, cls):
        if n.get('parentDeclContextId') in self.owner: cls = self.owner[n['parentDeclContextId']]
        f = Fn(); f.name = n.get('name'); f.mangled = n.get('mangledName') or n['id']; f.node = n; f.kind = n['kind']
        f.cls = cls; f.params = []; f.body = None; f.inits = []; f.type = ty(n)
        f.ret = qty(n).split('(')[0].strip(); f.const = bool(re.search(r'\)\s*const', f.type))
        if ':' in n['id'] and n.get('storageClass') == 'static' and not cls:
            f.mangled = n['id'].split(':')[0] + f.mangled
        for c in n.get('inner', []):
            self.walk(c, ns, cls) if c.get('kind') not in ('CompoundStmt',) else self._index_stmt(c)
            k = c.get('kind')
            if k == 'ParmVarDecl': f.params.append(c)
            elif k == 'CompoundStmt': f.body = c
            elif k == 'CXXCtorInitializer': f.inits.append(c)
            elif k == 'CXXTryStmt': f.body = c
        self.declmangled[n['id']] = f.mangled
        old = self.fns.get(f.mangled)
        if old is None or (old.body is None and f.body is not None):
            if old is not None and f.cls is None: f.cls = old.cls
            self.fns[f.mangled] = f
        f = self.fns[f.mangled]
        if cls in self.cls:
            m = self.cls[cls].methods.setdefault(n.get('name'), [])
            if f.mangled not in m: m.append(f.mangled)

    def _index_stmt(self, n):
        self._sticky(n)
        if n.get('kind', '').endswith('Decl') and 'id' in n: self.byid[n['id']] = n
        if n.get('kind') in ('CXXRecordDecl', 'LambdaExpr'):
            pass
        for c in n.get('inner', []):
            if isinstance(c, dict) and c: self._index_stmt(c)

    def _loc(self, l):
        if not isinstance(l, dict): return
        for k in ('spellingLoc', 'expansionLoc'):
            if k in l: self._loc(l[k])
        if 'file' in l: self._file = l['file']
        if 'line' in l: self._line = l['line']
        if 'offset' in l:
            l['file'] = getattr(self, '_file', None); l['line'] = getattr(self, '_line', None)

    def _sticky(self, n):
        if 'loc' in n: self._loc(n['loc'])
        r = n.get('range')
        if r:
            self._loc(r.get('begin', {})); self._loc(r.get('end', {}))

    def finish(self):
        pass

    # -- queries -------------------------------------------------------
    def where(self, n):
        r = n.get('range', {}).get('begin', {})
        if 'expansionLoc' in r: r = r['expansionLoc']
        f = r.get('file') or '?'
        return '%s:%s' % (f.replace(self.repo + '/', ''), r.get('line'))

    def text_after(self, n, maxlen=80):
        """source text following the end of a node (explicit template arguments)"""
        e = n.get('range', {}).get('end', {})
        if 'expansionLoc' in e: e = e['spellingLoc'] if 'spellingLoc' in e else e['expansionLoc']
        f = e.get('file'); off = e.get('offset')
        if f is None or off is None: return ''
        if f not in self.files:
            try: self.files[f] = open(f, errors='replace').read()
            except OSError: self.files[f] = ''
        return self.files[f][off:off + maxlen]

    def src(self, n):
        b = n.get('range', {}).get('begin', {}); e = n.get('range', {}).get('end', {})
        if 'expansionLoc' in b: b = b['expansionLoc']
        if 'expansionLoc' in e: e = e['expansionLoc']
        f = b.get('file')
        if f is None or 'offset' not in b or 'offset' not in e: return ''
        if f not in self.files:
            try: self.files[f] = open(f, errors='replace').read()
            except OSError: self.files[f] = ''
        return self.files[f][b['offset']:e['offset'] + e.get('tokLen', 1)]

    def find(self, cls, name, nparams=None, pred=None):
        """methods of a class by name that have a body"""
        out = []
        for k, c in self.cls.items():
            if k == cls or k.endswith('::' + cls):
                for m in c.methods.get(name, []):
                    f = self.fns[m]
                    if nparams is not None and len(f.params) != nparams: continue
                    if pred and not pred(f): continue
                    out.append(f)
        return out

    def class_key(self, t):
        t = strip_type(t)
        if t in self.cls: return t
        for k in self.cls:
            if k.endswith('::' + t): return k
        if '<' in t:
            n = re.sub(r'\bfbstab::', '', t)
            for k in self.cls:
                if '<' in k and re.sub(r'\bfbstab::', '', k) == n: return k
        return None

    def derives(self, c, base):
        """c derives from (or is) base"""
        if c == base: return True
        k = self.cls.get(c)
        if not k: return False
        return any(self.derives(self.class_key(b) or b, base) for b in k.bases)

    def lookup_method(self, cls, name, ftype=None, mangled_tail=None):
        """virtual lookup from the dynamic class upwards"""
        c = self.cls.get(cls)
        if c is None: return None
        cands = [self.fns[m] for m in c.methods.get(name, [])]
        if ftype is not None and len(cands) > 1:
            ex = [f for f in cands if f.type == ftype]
            if ex: cands = ex
        for f in cands:
            if ftype is None or f.type == ftype or len(cands) == 1: return f
        for b in c.bases:
            r = self.lookup_method(self.class_key(b) or b, name, ftype)
            if r: return r
        return None
