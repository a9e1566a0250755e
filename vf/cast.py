"""Loads clang's JSON syntax tree of the instantiated library and indexes it.

Nothing is rewritten: the verifier walks the resolved tree that clang itself
produced from the current headers of /repo."""
import json, os, subprocess
from . import falsify


def dump(driver):
    cmd = ['clang++', '-std=c++17', '-fsyntax-only', '-w', '-I' + os.path.join(falsify.REPO, 'include'),
           '-I' + falsify.config_dir(), driver, '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=comma']
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode != 0:
        raise RuntimeError('clang cannot parse the library:\n' + r.stderr[-3000:])
    return r.stdout


def documents(text):
    dec, i, n = json.JSONDecoder(), 0, len(text)
    while True:
        while i < n and text[i].isspace():
            i += 1
        if i >= n:
            return
        o, i = dec.raw_decode(text, i)
        yield o


FUNCS = ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl')


class Program:
    def __init__(self, text):
        self.byid = {}       # decl id -> node
        self.fn = {}         # qualified name -> list of function nodes with a body (instantiated)
        self.records = {}    # type name as clang prints it -> record node
        self.parent = {}     # method id -> record node
        self._file, self._line = None, None
        for d in documents(text):
            if d.get('kind') == 'NamespaceDecl':
                self._visit(d, [], False, None)
        for rec in list(self.records.values()):
            pass

    # -- source locations -------------------------------------------------
    def _loc(self, node):
        for l in (node.get('loc'), node.get('range', {}).get('begin'), node.get('range', {}).get('end')):
            if not l:
                continue
            for k in (l.get('spellingLoc'), l.get('expansionLoc')):
                if k:
                    self._file = k.get('file', self._file)
                    self._line = k.get('line', self._line)
            self._file = l.get('file', self._file)
            self._line = l.get('line', self._line)
            if l is node.get('range', {}).get('begin') or (l is node.get('loc') and 'begin' not in node.get('range', {})):
                node['_line'], node['_file'] = self._line, self._file

    def _visit(self, node, path, inst, rec):
        k = node.get('kind')
        self._loc(node)
        if 'id' in node and k and k.endswith('Decl'):
            self.byid[node['id']] = node
        name = node.get('name')
        if k == 'NamespaceDecl':
            path = path + [name or '']
        elif k == 'ClassTemplateSpecializationDecl' or (k == 'CXXRecordDecl' and 'tagUsed' in node):
            args = [c.get('type', {}).get('qualType', str(c.get('value', '?')))
                    for c in node.get('inner', []) if c.get('kind') == 'TemplateArgument']
            tn = (name or '(anon)') + ('<' + ', '.join(args) + '>' if k.startswith('ClassTemplateS') else '')
            node['_tname'] = tn
            node['_name'] = name
            node['_parent'] = rec
            if k.startswith('ClassTemplateS') or not node.get('_tpl'):
                path = path + [name or '(anon)']
                if node.get('completeDefinition') or any(c.get('kind') == 'FieldDecl' for c in node.get('inner', [])):
                    self.records.setdefault('::'.join(path[:-1] + [tn]), node)
                rec = node
                inst = k.startswith('ClassTemplateS') or inst
        elif k in FUNCS:
            node['_rec'] = rec
            node['_qual'] = '::'.join(path + [name or ''])
            if rec is not None:
                self.parent[node['id']] = rec
            if any(c.get('kind') == 'CompoundStmt' for c in node.get('inner', [])):
                node['_inst'] = inst or any(c.get('kind') == 'TemplateArgument' for c in node.get('inner', []))
                if not node.get('_tpl'):
                    self.fn.setdefault(node['_qual'], []).append(node)
            path = path + [name or '']
        first = True
        for c in node.get('inner', []) or []:
            if not isinstance(c, dict):
                continue
            if k in ('ClassTemplateDecl', 'FunctionTemplateDecl'):
                # the first record/function is the uninstantiated pattern
                if c.get('kind') in ('CXXRecordDecl',) + FUNCS and first:
                    first = False
                    c['_tpl'] = True
            elif node.get('_tpl'):
                c['_tpl'] = True
            self._visit(c, path, inst, rec)


def load(driver):
    return Program(dump(driver))
