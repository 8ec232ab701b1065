#!/usr/bin/env python3
"""mkir.py HEADER OUT.json [feature,feature]: a stand-in for the Clang-based importer.

The importer of rs_bindings_from_cc is a C++ program against Clang libraries that are not installed
here.  For the sample headers of the checks this script computes the same intermediate
representation from clang's own JSON dump of the AST and its record layouts; the code generator that
consumes it (generate_bindings, from /repo's tree) is the code under check.  What the importer itself
does is outside.  Supported: what the samples use (no templates).
"""
import copy
import json
import os
import re
import subprocess
import sys

PRIMS = set('''bool void float double char|signed char|unsigned char|short|int|long|long long|unsigned short|unsigned int|
unsigned long|unsigned long long|char16_t|char32_t|wchar_t|ptrdiff_t|intptr_t|size_t|uintptr_t|std::ptrdiff_t|std::intptr_t|
std::size_t|std::uintptr_t|int8_t|int16_t|int32_t|int64_t|std::int8_t|std::int16_t|std::int32_t|std::int64_t|uint8_t|uint16_t|
uint32_t|uint64_t|std::uint8_t|std::uint16_t|std::uint32_t|std::uint64_t|__int128|unsigned __int128'''
            .replace('bool void float double ', 'bool|void|float|double|').replace('\n', '').split('|'))
BITS = {'bool': 8, 'float': 32, 'double': 64, 'char': 8, 'signed char': 8, 'unsigned char': 8, 'short': 16, 'int': 32, 'long': 64,
        'long long': 64, 'unsigned short': 16, 'unsigned int': 32, 'unsigned long': 64, 'unsigned long long': 64, 'char16_t': 16,
        'char32_t': 32, 'wchar_t': 32, '__int128': 128, 'unsigned __int128': 128}
for _n in PRIMS:
    m = re.match(r'^(?:std::)?u?int(\d+)_t$', _n)
    if m:
        BITS[_n] = int(m.group(1))
    elif re.match(r'^(std::)?(size|ptrdiff|intptr|uintptr)_t$', _n):
        BITS[_n] = 64
TARGET = '//vp:sample'


def clang(args, **kw):
    p = subprocess.run(['clang++', '-std=c++20', '-I' + os.path.join(os.path.dirname(os.path.abspath(__file__)), 'inc'), '-I/repo', '-Wno-everything', '-x', 'c++', '-fsyntax-only'] + args, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, text=True, **kw)
    if p.returncode:
        raise SystemExit(p.stderr[-3000:])
    return p.stdout


# size, alignment, copy and move constructor, destructor, trivial for calls
STD = {'std::vector': (192, 64, 'NONTRIVIAL_USER_DEFINED', 'NONTRIVIAL_USER_DEFINED', 'NONTRIVIAL_USER_DEFINED', False),
       'std::unique_ptr': (64, 64, 'UNAVAILABLE', 'NONTRIVIAL_USER_DEFINED', 'NONTRIVIAL_USER_DEFINED', False),
       'std::atomic': (0, 0, 'UNAVAILABLE', 'UNAVAILABLE', 'TRIVIAL', True)}


class T:
    """kind: prim(name) ptr ref rref decl(node) fn(params, ret) arr; const; to"""

    def __init__(self, kind, const=False, **kw):
        self.kind, self.const = kind, const
        self.__dict__.update(kw)


class Importer:
    def __init__(self, header, features):
        self.header, self.features, self.formats = header, features, []
        self.bridged = {}
        self.ids, self.byname, self.parent, self.nodes, self.full, self.formats = {}, {}, {}, {}, {}, []
        with open(header) as f:
            self.text = f.read()
            self.elide = '#pragma clang lifetime_elision' in self.text
        inc = '#include "%s"\n' % header
        a = json.loads(clang(['-Xclang', '-ast-dump=json', '-'], input=inc))
        names = []
        self.user = self.in_header(a)
        self.walk(self.user, None, names)
        # touching every special member makes clang declare the implicit ones
        probe = inc + ''.join('static_assert(__is_constructible(%s, const %s&) || __is_constructible(%s, %s&&) || __is_assignable(%s&, const %s&) '
                              '|| __is_assignable(%s&, %s&&) || __is_destructible(%s) || __is_constructible(%s) || true);\n'
                              'constexpr unsigned vp_z%d = sizeof(%s);\n' % ((n,) * 10 + (i, n)) for i, n in enumerate(names))
        fl = ['-fno-access-control', '-']
        a = json.loads(clang(['-Xclang', '-ast-dump=json'] + fl, input=probe))
        self.ids, self.byname, self.parent, self.nodes, self.full, self.formats = {}, {}, {}, {}, {}, []
        self.user = self.in_header(a)
        self.walk(self.user, None, [])
        self.layouts = {}
        text = clang(['-Xclang', '-fdump-record-layouts', '-Xclang', '-fdump-record-layouts-simple'] + fl, input=probe)
        for m in re.finditer(r'Type: (?:struct|class|union) (\S+)\n\nLayout: <ASTRecordLayout\n  Size:(\d+)\n  DataSize:(\d+)\n  Alignment:(\d+)\n'
                             r'(?:  PreferredAlignment:\d+\n)?  BaseOffsets: \[(.*?)\]>\n(?:  VBaseOffsets: .*\n)?  FieldOffsets: \[(.*?)\]>', text):
            nums = lambda s: [int(x) for x in s.split(', ') if x]
            self.layouts[m.group(1)] = (int(m.group(2)), int(m.group(4)), nums(m.group(5)), nums(m.group(6)))
        self.vals = self.constants(inc)

    def in_header(self, ast):
        """Top-level declarations written in the header (clang omits the file when it repeats)."""
        cur, out = None, []
        for n in ast['inner']:
            for loc in (n.get('loc') or {},):
                loc = loc.get('expansionLoc', loc)
                f = loc.get('file')
                if f:
                    cur = f
            if cur and os.path.basename(cur) == os.path.basename(self.header) and not n.get('isImplicit') and (n.get('loc') or {}):
                out.append(n)
            # nested nodes may switch the current file as well
        return out

    def walk(self, nodes, parent, names):
        for n in nodes:
            k = n['kind']
            self.nodes[n['id']] = n
            self.parent[n['id']] = parent
            if k in ('NamespaceDecl', 'CXXRecordDecl', 'ClassTemplateDecl', 'EnumDecl', 'TypedefDecl', 'TypeAliasDecl', 'FunctionDecl', 'VarDecl') and n.get('name'):
                full = '::'.join(x for x in (self.full.get(parent['id']) if parent else None, n['name']) if x)
                self.full[n['id']] = full
                if k == 'CXXRecordDecl' and n.get('isImplicit'):
                    continue
                if k not in ('FunctionDecl', 'VarDecl') and (k != 'CXXRecordDecl' or n.get('completeDefinition') or full not in self.byname):
                    self.byname[full] = n
                if k == 'CXXRecordDecl' and n.get('completeDefinition'):
                    names.append(full)
            if k == 'LinkageSpecDecl':
                for c in n.get('inner', []):
                    if c['kind'] == 'VarDecl' and n.get('language') == 'C':
                        c['externC'] = True
                self.walk(n.get('inner', []), parent, names)
            elif k in ('NamespaceDecl', 'CXXRecordDecl'):
                self.walk(n.get('inner', []), n, names)
            for f in n.get('inner', []) if k == 'FriendDecl' else [n]:
                if f['kind'] == 'FunctionTemplateDecl' and f['name'] == 'AbslStringify':
                    f = [c for c in f['inner'] if c['kind'] == 'FunctionDecl'][0]
                elif f['kind'] != 'FunctionDecl' or f['name'] != 'operator<<':
                    continue
                ps = [c['type']['qualType'] for c in f['inner'] if c['kind'] == 'ParmVarDecl']
                if f['name'] == 'AbslStringify' or ps[0].endswith('ostream &'):
                    self.formats.append((re.sub(r'^const | ?&$', '', ps[1]), parent))

    def formatted(self, n):
        notes = self.annotations(n)
        if 'CRUBIT_OVERRIDE_DISPLAY' in notes:
            return notes['CRUBIT_OVERRIDE_DISPLAY'] == ['true']
        return any(self.parse(t, scope).node['id'] == n['id'] for t, scope in self.formats)

    def id(self, node):
        if node['kind'] == 'NamespaceDecl':
            key = self.full[node['id']], node['id']
        else:
            key = node['id']
        return self.ids.setdefault(key, len(self.ids) + 1)

    def constants(self, inc):
        """Values of constexpr variables and enumerators, evaluated by the compiler."""
        want = []

        def go(nodes):
            for n in nodes:
                if n['kind'] == 'VarDecl' and n.get('constexpr') and n['id'] in self.full:
                    want.append(self.full[n['id']])
                elif n['kind'] == 'EnumDecl' and n.get('name'):
                    want.extend(self.full[n['id']] + '::' + c['name'] for c in n.get('inner', []) if c['kind'] == 'EnumConstantDecl')
                elif n['kind'] in ('NamespaceDecl', 'CXXRecordDecl', 'LinkageSpecDecl'):
                    go(n.get('inner', []))
        go(self.user)
        if not want:
            return {}
        src = inc + ''.join('extern const unsigned long long vp_c%d = (unsigned long long)(%s);\nextern const bool vp_n%d = (%s) < decltype(%s)(0);\n' %
                            (i, w, i, w, w) for i, w in enumerate(want))
        p = subprocess.run(['clang++', '-std=c++20', '-I' + os.path.join(os.path.dirname(os.path.abspath(__file__)), 'inc'), '-I/repo', '-fno-access-control', '-Wno-everything', '-x', 'c++', '-S', '-emit-llvm', '-o', '-', '-'], input=src,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if p.returncode:
            raise SystemExit(p.stderr[-2000:])
        out = {}
        for i, w in enumerate(want):
            v = int(re.search(r'@vp_c%d = \S+ .*constant i64 (-?\d+)' % i, p.stdout).group(1))
            neg = re.search(r'@vp_n%d = .*constant i8 (\d+)' % i, p.stdout).group(1) == '1'
            out[w] = dict(is_negative=neg, wrapped_value=v)
        return out

    # ---- bridged types: each spelling gets a placeholder name and a record item of its own
    def templ(self, s, scope):
        while True:
            m = re.search(r'(?:::)?((?:\w+::)*\w+) ?<', s)
            if not m:
                return s
            depth, i, cuts = 0, m.end() - 1, [m.end()]
            for j in range(i, len(s)):
                depth += {'<': 1, '(': 1, '[': 1, '>': -1, ')': -1, ']': -1}.get(s[j], 0)
                if s[j] == ',' and depth == 1:
                    cuts.append(j + 1)
                if depth == 0:
                    break
            args = [s[a:b].rstrip(',').strip() for a, b in zip(cuts, cuts[1:] + [j])]
            s = s[:m.start()] + self.bridge(m.group(1), args, s[m.start():j + 1], scope) + s[j + 1:]

    def bridge(self, name, args, spelling, scope):
        name = {'optional': 'std::optional', 'pair': 'std::pair', 'unique_ptr': 'std::unique_ptr', 'vector': 'std::vector', 'atomic': 'std::atomic', 'DynCallable': 'rs_std::DynCallable'}.get(name, name)
        if name == 'rs_std::DynCallable':
            sig = self.templ(args[0], scope)
            i = sig.index('(')
            close = sig.rindex(')')
            quals = sig[close + 1:].strip()
            ps = [x.strip() for x in sig[i + 1:close].split(',') if x.strip() not in ('', 'void')]
            parsed = [self.parse(x, scope) for x in ps], self.parse(sig[:i], scope)
            full = 'rs_std::DynCallable<%s(%s) %s>' % (self.cpp(parsed[1]), ', '.join(map(self.cpp, parsed[0])), quals)
            desc = ('callable', {'const': 'FN', '': 'FN_MUT', '&&': 'FN_ONCE'}[quals], parsed)
        else:
            parsed = [self.plain(self.parse(x, scope)) if name in STD else self.parse(x, scope) for x in args]
            tmpl = None
            if name not in ('std::optional', 'std::pair') and name not in STD:
                tmpl = self.lookup(name, scope)
                name = self.full[tmpl['id']]
            full = '%s<%s>' % (name, ', '.join(map(self.cpp, parsed)))
            desc = (name, tmpl, parsed)
        if full not in self.bridged:
            key = 'VpBridge%d_' % len(self.bridged)
            node = dict(kind='Bridge', id=key, name=key, spelling=full, desc=desc)
            self.bridged[full] = node
            self.byname[key] = node
            self.full[key] = full
        return self.bridged[full]['name']

    def plain(self, ty):
        """ty without type aliases (template arguments reach the importer in canonical form)"""
        if ty.kind == 'decl' and ty.node['kind'] in ('TypedefDecl', 'TypeAliasDecl'):
            to = copy.copy(self.plain(self.alias(ty.node)))
            to.const = to.const or ty.const
            return to
        if ty.kind in ('ptr', 'ref', 'rref'):
            ty = copy.copy(ty)
            ty.to = self.plain(ty.to)
        if ty.kind == 'prim':
            ty = copy.copy(ty)
            ty.name = self.canon(ty)[1]
        return ty

    def cpp(self, ty):
        """The C++ spelling of a type."""
        c = ' const' if ty.const else ''
        if ty.kind == 'prim':
            return ty.name + c
        if ty.kind == 'decl':
            return self.full[ty.node['id']] + c
        if ty.kind == 'fn':
            raise SystemExit('function pointer inside a bridged type')
        return self.cpp(ty.to) + {'ptr': '*', 'ref': '&', 'rref': '&&'}[ty.kind] + c

    def std_record(self, n, what, arg):
        rs = '__CcTemplateInst' + re.sub(r'\W+', '_', n['spelling'].replace('*', 'P').replace('&', 'R'))
        size, align = self.std_layout(what, arg)
        copy, move, dtor, triv = STD[what][2:]
        kind = {'std::vector': 'std_vector', 'std::unique_ptr': 'std_unique_ptr', 'std::atomic': 'std_atomic'}[what]
        return dict(record=dict(
            rs_name={'identifier': rs}, cc_name={'identifier': n['spelling']}, unique_name='c:@S@' + n['spelling'], mangled_cc_name=rs, id=self.id(n), owning_target=TARGET,
            source_loc=self.header, size_align=dict(size=size // 8, alignment=align // 8), trait_derives=dict(clone='NONE', copy='NONE', debug='NONE', send=False, sync=False),
            is_derived_class=False, override_alignment=False, safety_annotation='SAFETY_ANNOTATION_UNANNOTATED', copy_constructor=copy,
            move_constructor=move, destructor=dtor, is_trivial_abi=triv, is_inheritable=True, is_abstract=False, record_type='CLASS',
            is_aggregate=False, is_canonical_alias=False, must_bind=False, overloads_operator_delete=False, has_private_or_deleted_operator_delete=False,
            detected_formatter=False, is_thread_safe=what == 'std::atomic', impl_debug=False, template_specialization={'defining_target': TARGET, kind: dict(element_type=self.cc(arg))}))

    def std_layout(self, what, arg):
        if what == 'std::atomic':
            return self.bits(arg), self.bits(arg)
        return STD[what][0], STD[what][1]

    def bridge_record(self, n):
        what, extra, parsed = n['desc']
        if what in STD:
            return self.std_record(n, what, parsed[0])
        if what == 'callable':
            b = dict(callable=dict(backing_type='DYN_CALLABLE', fn_trait=extra, return_type=self.cc(parsed[1]), param_types=[self.cc(x) for x in parsed[0]]))
        elif what == 'std::optional':
            b = dict(std_optional=dict(inner_type=self.cc(parsed[0])))
        elif what == 'std::pair':
            b = dict(std_pair=dict(first_type=self.cc(parsed[0]), second_type=self.cc(parsed[1])))
        else:
            b = self.bridge_of(extra, parsed)
        rs = '__CcTemplateInst' + re.sub(r'\W+', '_', n['spelling'].replace('*', 'P').replace('&', 'R'))
        return dict(record=dict(
            rs_name={'identifier': rs}, cc_name={'identifier': n['spelling']}, unique_name='c:@S@' + n['spelling'], mangled_cc_name=rs, id=self.id(n), owning_target=TARGET,
            source_loc=self.header, size_align=dict(size=24, alignment=8), trait_derives=dict(clone='NONE', copy='NONE', debug='NONE', send=False, sync=False),
            bridge_type=b, is_derived_class=False, override_alignment=False, safety_annotation='SAFETY_ANNOTATION_UNANNOTATED', copy_constructor='UNAVAILABLE',
            move_constructor='NONTRIVIAL_USER_DEFINED', destructor='NONTRIVIAL_USER_DEFINED', is_trivial_abi=False, is_inheritable=True, is_abstract=False, record_type='CLASS',
            is_aggregate=False, is_canonical_alias=False, must_bind=False, overloads_operator_delete=False, has_private_or_deleted_operator_delete=False,
            detected_formatter=False, is_thread_safe=False, impl_debug=False, template_specialization=dict(defining_target=TARGET, non_special={})))

    def bridge_of(self, n, args=()):
        """From CRUBIT_BRIDGE(rust type, Rust ABI, C++ ABI)"""
        a = self.annotations(n).get('CRUBIT_BRIDGE')
        return a and dict(bridge=dict(rust_name=a[0], abi_rust=a[1], abi_cpp=a[2], template_args=[self.cc(x) for x in args]))

    def annotations(self, n):
        """{macro: [arguments]} of a declaration's CRUBIT_ macros"""
        out = {}
        inner = n.get('inner', [])
        if n['kind'] == 'ClassTemplateDecl':
            inner = [c for c in inner if c['kind'] == 'CXXRecordDecl'][0].get('inner', [])
        for c in inner:
            if c['kind'] == 'AnnotateAttr':
                b = c['range']['begin']
                b = b.get('expansionLoc', b)
                m = re.match(r'(CRUBIT_\w+)(\((?:[^()"]|"[^"]*")*\))?', self.text[b['offset']:])
                if m:
                    out[m.group(1)] = [x.strip().strip('"') for x in (m.group(2) or '()')[1:-1].split(',') if x.strip()]
        return out

    # ---- types
    def parse(self, s, scope):
        s = self.templ(s, scope).replace('[[clang::annotate_type(...)]]', '__owned')   # CRUBIT_OWNED_POINTER
        toks = re.findall(r'[A-Za-z_][\w:]*|\d+|&&|[*&()\[\],]', s)
        self.t, self.p = toks, 0
        ty = self.ptype(scope)
        if self.p != len(toks):
            raise SystemExit('type %r not supported' % s)
        return ty

    def ptype(self, scope):
        const, words = False, []
        t = self.t
        while self.p < len(t) and re.match(r'[A-Za-z_]', t[self.p]):
            w = t[self.p]
            self.p += 1
            if w == 'const':
                const = True
            elif w not in ('struct', 'class', 'union', 'enum', 'volatile'):
                words.append(w)
        name = ' '.join(words)
        name = {'_Bool': 'bool', 'unsigned': 'unsigned int'}.get(name, name)
        if name in PRIMS:
            ty = T('prim', const, name=name)
        else:
            ty = T('decl', const, node=self.lookup(name, scope))
        while self.p < len(t) and (t[self.p] in ('*', '&', '&&', '[') or t[self.p] == '('):
            w = t[self.p]
            if w == '(':
                # R (*)(params), possibly const
                if t[self.p + 1] != '*' and t[self.p + 1] != '&':
                    break
                ref = t[self.p + 1] == '&'
                self.p += 2
                c = t[self.p] == 'const'
                self.p += c
                assert t[self.p:self.p + 2] == [')', '('], t
                self.p += 2
                params = []
                while t[self.p] != ')':
                    params.append(self.ptype(scope))
                    if t[self.p] == ',':
                        self.p += 1
                self.p += 1
                ty = T('fn', c, params=params, ret=ty, ref=ref)
                continue
            self.p += 1
            if w == '[':
                n = int(t[self.p])
                self.p += 2
                ty = T('arr', to=ty, n=n)
                continue
            ty = T({'*': 'ptr', '&': 'ref', '&&': 'rref'}[w], to=ty)
            if self.p < len(t) and t[self.p] == 'const':
                ty.const = True
                self.p += 1
            if self.p < len(t) and t[self.p] == '__owned':
                ty.owned = True
                self.p += 1
        return ty

    def lookup(self, name, scope):
        while True:
            full = '::'.join(x for x in (self.full.get(scope['id']) if scope else None, name) if x)
            if full in self.byname:
                return self.byname[full]
            if scope is None:
                raise SystemExit('type %r not found' % name)
            scope = self.parent[scope['id']]

    def bits(self, ty):
        if ty.kind == 'prim':
            return BITS[ty.name]
        if ty.kind == 'arr':
            return ty.n * self.bits(ty.to)
        if ty.kind != 'decl':
            return 64
        n = ty.node
        if n['kind'] == 'Bridge' and n['desc'][0] in STD:
            return self.std_layout(n['desc'][0], n['desc'][2][0])[0]
        if n['kind'] == 'CXXRecordDecl':
            return self.layouts[self.full[n['id']]][0]
        if n['kind'] == 'EnumDecl':
            return self.bits(self.underlying(n))
        return self.bits(self.alias(n))

    def underlying(self, n):
        u = n.get('fixedUnderlyingType')
        if u:
            return self.parse(u['qualType'], self.parent[n['id']])
        neg = any(v['is_negative'] for k, v in self.vals.items() if k.startswith(self.full[n['id']] + '::'))
        return T('prim', name='int' if neg else 'unsigned int')

    def alias(self, n):
        return self.parse(n['type']['qualType'], self.parent[n['id']])

    def record_of(self, ty):
        while ty.kind == 'decl' and ty.node['kind'] in ('TypedefDecl', 'TypeAliasDecl'):
            ty = self.alias(ty.node)
        return ty.node if ty.kind == 'decl' and ty.node['kind'] == 'CXXRecordDecl' else None

    def cc(self, ty, life=None, nullable=True):
        """life: callable giving a lifetime id for each pointer or reference, or None"""
        r = {}
        if ty.kind == 'prim':
            r['primitive'] = {'spelling': ty.name}
        elif ty.kind == 'decl':
            r['decl'] = self.id(ty.node)
        elif ty.kind == 'fn':
            r['func_pointer'] = dict(non_null=ty.ref, call_conv='C_DECL', param_and_return_types=[self.cc(x) for x in ty.params + [ty.ret]])
        elif ty.kind == 'arr':
            r['error'] = dict(fmt="Unsupported type", message='Unsupported type: array')
        else:
            k = {'ref': 'L_VALUE_REF', 'rref': 'R_VALUE_REF', 'ptr': 'NULLABLE' if nullable else 'NON_NULL'}[ty.kind]
            if getattr(ty, 'owned', False):
                k, life = 'OWNED', None
            p = dict(kind=k)
            if life:
                p['lifetime'] = life()
            p['pointee_type'] = self.cc(ty.to, life)
            r['pointer'] = p
        if ty.const:
            r['is_const'] = True
        return r

    # ---- declarations
    def func(self, n, scope, access='public'):
        k, kind = n['name'], n['kind']
        if n.get('explicitlyDeleted') or n.get('explicitlyDefaulted') == 'deleted' or access != 'public':
            return None
        if 'crubit::' in n['type']['qualType'] or 'ostream' in n['type']['qualType']:
            return None     # takes types of Crubit's own headers: no bindings for them here
        qt = self.templ(re.sub(r'noexcept\(.*\)$', 'noexcept', n['type']['qualType'].replace('[[clang::annotate_type(...)]]', '__owned').replace('__attribute__((noreturn))', '')), scope)
        depth, i = 0, len(qt) - 1
        close = qt.rindex(')')
        for i in range(close, -1, -1):
            depth += {')': 1, '(': -1}.get(qt[i], 0)
            if depth == 0:
                break
        quals = qt[close + 1:]
        rscope = scope
        ret = self.parse(qt[:i].strip(), rscope)
        if '__owned' in quals:
            ret.owned = True
        params = [(c['name'] if c.get('name') and c['name'] not in ('crate', 'self', 'super', 'Self') else '__param_%d' % j, self.parse(c['type']['qualType'], rscope))
                  for j, c in enumerate([c for c in n.get('inner', []) if c['kind'] == 'ParmVarDecl'])]
        member = kind in ('CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl')
        inst = member and n.get('storageClass') != 'static'
        lifes, base = [], len(self.ids) * 0 + 1

        def fresh(name=None):
            lifes.append(dict(name=name or 'abcdefghijklmnop'[len([x for x in lifes if x['name'] != '__this'])], id=1000 * self.id(n) + len(lifes)))
            return lifes[-1]['id']
        ps = []
        this_life = None
        if inst:
            if self.elide:
                this_life = fresh('__this')
            ps.append(dict(identifier={'identifier': '__this'}, type=self.cc(
                T('ptr', to=T('decl', 'const' in quals.split(), node=scope)), (lambda: this_life) if self.elide else None, False)))
            if '&&' in quals.split() and self.elide:
                ps[0]['type']['pointer']['kind'] = 'R_VALUE_REF'
        for name, ty in params:
            ps.append(dict(identifier={'identifier': name}, type=self.cc(ty, fresh if self.elide else None)))
        rl = None
        if self.elide:
            inputs = [x['id'] for x in lifes]
            one = this_life or (inputs[0] if len(inputs) == 1 else None)
            rl = (lambda: one) if one else None
        rt = self.cc(ret, rl)
        if self.elide and ret.kind in ('ref', 'rref', 'ptr') and rl is None:
            # the output cannot be elided: no lifetimes at all
            e, self.elide = self.elide, False
            r = self.func(n, scope, access)
            self.elide = e
            return r
        f = dict(unique_name='c:' + n.get('mangledName', k), owning_target=TARGET, mangled_name=n.get('mangledName', k), return_type=rt, params=ps,
                 lifetime_params=lifes, is_inline=bool(n.get('inline') or n.get('constexpr') or (member and self.body(n))), is_extern_c=not member and not n.get('mangledName', '_Z').startswith('_Z'),
                 is_noreturn=False, is_variadic=bool(n.get('variadic')), is_consteval=False, safety_annotation='SAFETY_ANNOTATION_UNANNOTATED',
                 source_loc='%s' % self.header, id=self.id(n), call_conv='C_DECL', is_member_or_descendant_of_class_template=False)
        if kind == 'CXXConstructorDecl':
            nm = dict(special_name='CONSTRUCTOR')
        elif kind == 'CXXDestructorDecl':
            nm = dict(special_name='DESTRUCTOR')
        elif kind == 'CXXConversionDecl':
            nm = dict(conversion_operator={})
        elif re.match(r'operator\W', k) or k in ('operator new', 'operator delete'):
            nm = dict(oper={'name': k[8:].strip()})
        else:
            nm = dict(ident={'identifier': k})
        f['cc_name'] = f['rs_name'] = nm
        notes = self.annotations(n)
        if 'CRUBIT_RUST_NAME' in notes:
            rn = notes['CRUBIT_RUST_NAME'][0]
            f['rs_name'] = dict(special_name='CONSTRUCTOR') if rn == 'new' and kind == 'CXXConstructorDecl' else dict(ident={'identifier': rn})
        if 'CRUBIT_UNSAFE' in notes:
            f['safety_annotation'] = 'SAFETY_ANNOTATION_UNSAFE'
        if 'CRUBIT_UNSAFE_MARK_SAFE' in notes:
            f['safety_annotation'] = 'SAFETY_ANNOTATION_DISABLE_UNSAFE'
        if any(c['kind'] in ('CXX11NoReturnAttr', 'NoReturnAttr') for c in n.get('inner', [])) or '__attribute__((noreturn))' in n['type']['qualType']:
            f['is_noreturn'] = True
        if scope is not None:
            f['enclosing_item_id'] = self.id(scope)
        if inst:
            f['instance_method_metadata'] = dict(reference='R_VALUE' if '&&' in quals else 'L_VALUE' if '&' in quals else 'UNQUALIFIED',
                                                 is_const='const' in quals.split(), is_virtual=bool(n.get('virtual') or self.overrides(n, scope)))
            s = self.semantic(n, scope, params, ret)
            if s:
                f['semantic'] = s
        return dict(func=f)

    def body(self, n):
        return any(c['kind'] in ('CompoundStmt', 'CXXTryStmt') for c in n.get('inner', []))

    def overrides(self, n, scope):
        for b in self.bases(scope):
            for c in b[0].get('inner', []):
                same = c.get('name') == n['name'] and c.get('type', {}).get('qualType') == n['type']['qualType']
                if (same or c['kind'] == n['kind'] == 'CXXDestructorDecl') and (c.get('virtual') or self.overrides(c, b[0])):
                    return True
            if n['kind'] != 'CXXDestructorDecl' and self.overrides(n, b[0]):
                return True
        return False

    def strip(self, e):
        while e['kind'] in ('ParenExpr', 'ImplicitCastExpr', 'ExprWithCleanups'):
            e = e['inner'][0]
        return e

    def field_ref(self, e):
        e = self.strip(e)
        if e['kind'] != 'MemberExpr' or self.strip(e['inner'][0])['kind'] != 'CXXThisExpr':
            return None
        f = self.nodes.get(e['referencedMemberDecl'])
        if not f or f['kind'] != 'FieldDecl' or f.get('isBitfield'):
            return None
        rec = self.parent[f['id']]
        fs = [c for c in rec['inner'] if c['kind'] == 'FieldDecl']
        off = self.layouts[self.full[rec['id']]][3][[c['id'] for c in fs].index(f['id'])]
        return self.parse(f['type']['qualType'], rec), off

    def canon(self, ty):
        if ty.kind == 'decl' and ty.node['kind'] in ('TypedefDecl', 'TypeAliasDecl'):
            return self.canon(self.alias(ty.node))
        if ty.kind == 'prim':
            return ('prim', {64: 'long', 32: 'int', 16: 'short', 8: 'signed char'}.get(BITS.get(ty.name)) if re.match(r'(std::)?int\d+_t|ptrdiff_t|intptr_t', ty.name) else
                    {64: 'unsigned long', 32: 'unsigned int', 16: 'unsigned short', 8: 'unsigned char'}.get(BITS.get(ty.name)) if re.match(r'(std::)?(uint\d+_t|size_t|uintptr_t)', ty.name) else ty.name, ty.const)
        if ty.kind == 'decl':
            return ('decl', ty.node['id'], ty.const)
        if ty.kind == 'fn':
            return ('fn', tuple(map(self.canon, ty.params)), self.canon(ty.ret))
        return (ty.kind, self.canon(ty.to), ty.const)

    def semantic(self, n, scope, params, ret):
        b = [c for c in n.get('inner', []) if c['kind'] == 'CompoundStmt']
        if n['kind'] != 'CXXMethodDecl' or not b or len(b[0].get('inner', [])) != 1:
            return None
        st = b[0]['inner'][0]
        void = ret.kind == 'prim' and ret.name == 'void'
        if not params and not void and st['kind'] == 'ReturnStmt' and st.get('inner'):
            r = self.field_ref(st['inner'][0])
            if r and self.canon(r[0]) == self.canon(ret):
                return dict(getter=dict(type=self.cc(r[0]), offset=r[1]))
        if len(params) == 1 and void and 'const' not in n['type']['qualType'].split(')')[-1]:
            st = self.strip(st)
            if st['kind'] == 'BinaryOperator' and st['opcode'] == '=':
                r, v = self.field_ref(st['inner'][0]), self.strip(st['inner'][1])
                if r and v['kind'] == 'DeclRefExpr' and v['referencedDecl']['kind'] == 'ParmVarDecl' and self.canon(r[0]) == self.canon(params[0][1]):
                    return dict(setter=dict(type=self.cc(r[0]), offset=r[1]))
        return None

    def bases(self, n):
        return [(self.lookup(b['type'].get('desugaredQualType', b['type']['qualType']), self.parent[n['id']]), b['access'], b.get('isVirtual'))
                for b in n.get('bases', [])]

    def special(self, n, which):
        """-> (node, access) of the special member"""
        acc, name = 'public' if n['tagUsed'] != 'class' else 'private', n['name']
        best = None
        for c in n.get('inner', []):
            if c['kind'] == 'AccessSpecDecl':
                acc = c['access']
            ps = [p for p in c.get('inner', []) if p['kind'] == 'ParmVarDecl']
            pt = ps[0]['type']['qualType'] if len(ps) == 1 else ''
            own = r'(?:[\w:]+::)?' + re.escape(name)
            a = 'public' if c.get('isImplicit') else acc
            if which == 'dtor' and c['kind'] == 'CXXDestructorDecl':
                return c, a
            if which == 'copyCtor' and c['kind'] == 'CXXConstructorDecl' and re.fullmatch(r'const %s &' % own, pt):
                return c, a
            if which == 'moveCtor' and c['kind'] == 'CXXConstructorDecl' and re.fullmatch(r'%s &&' % own, pt):
                best = c, a
        return best

    def user_provided(self, n, which):
        s = self.special(n, which)
        if s and not s[0].get('isImplicit') and not s[0].get('explicitlyDefaulted'):
            return True
        if any(self.user_provided(b[0], which) for b in self.bases(n)):
            return True
        for f in n.get('inner', []):
            if f['kind'] == 'FieldDecl':
                t = self.parse(f['type']['qualType'], n)
                while t.kind == 'arr':
                    t = t.to
                r = self.record_of(t)
                if r and self.user_provided(r, which):
                    return True
        return False

    def smf(self, n, which):
        dd = n['definitionData']
        s = self.special(n, which)
        if s is None:
            if which == 'moveCtor' and dd['moveCtor'].get('exists') is None:
                # no move constructor: overload resolution finds the copy constructor
                return self.smf(n, 'copyCtor')
            if which == 'dtor':
                return 'TRIVIAL' if dd['dtor'].get('trivial') or dd['dtor'].get('irrelevant') else 'NONTRIVIAL_MEMBERS'
            return 'UNAVAILABLE' if not dd[which].get('simple') else 'TRIVIAL' if dd[which].get('trivial') else 'NONTRIVIAL_MEMBERS'
        node, acc = s
        if acc != 'public' or node.get('explicitlyDeleted') or node.get('explicitlyDefaulted') == 'deleted':
            return 'UNAVAILABLE'
        if dd[which].get('trivial'):
            return 'TRIVIAL'
        return 'NONTRIVIAL_USER_DEFINED' if self.user_provided(n, which) else 'NONTRIVIAL_MEMBERS'

    def polymorphic(self, n):
        return bool(n['definitionData'].get('isPolymorphic'))

    def all_bases(self, n):
        """Unambiguous public bases with offsets (bytes)."""
        found = []

        def go(m, off, pub, seen_virtual, sub):
            lay = self.layouts[self.full[m['id']]]
            for (b, acc, virt), o in zip(self.bases(m), lay[2] + [0] * 9):
                me = (b['id'],) if virt else sub + (b['id'],)     # which subobject: a virtual base is shared
                found.append((b, pub and acc == 'public', None if virt or seen_virtual else off + o, me))
                go(b, off + o, pub and acc == 'public', seen_virtual or virt, me)
        go(n, 0, True, False, (n['id'],))
        out, seen = [], set()
        for b, pub, off, me in found:
            if b['id'] in seen or not pub or any(x[0]['id'] == b['id'] and x[3] != me for x in found):
                continue
            seen.add(b['id'])
            e = dict(base_record_id=self.id(b))
            if off is not None:
                e['offset'] = off
            out.append(e)
        return out

    def mangled(self, full):
        parts = full.split('::')
        s = ''.join('%d%s' % (len(p), p) for p in parts)
        return s if len(parts) == 1 else 'N' + s + 'E'

    def record(self, n, scope):
        full, dd = self.full[n['id']], n['definitionData']
        size, align, boffs, foffs = self.layouts[full]
        acc0 = 'private' if n['tagUsed'] == 'class' else 'public'
        acc, fields, children, j, privptr = acc0, [], [], 0, False
        final = n['tagUsed'] == 'union'
        over = False
        for c in n.get('inner', []):
            if c['kind'] == 'AccessSpecDecl':
                acc = c['access']
            elif c['kind'] == 'FinalAttr':
                final = True
            elif c['kind'] == 'AlignedAttr':
                over = True
            elif c['kind'] == 'FieldDecl':
                ty = self.parse(c['type']['qualType'], n)
                if acc != 'public' and ty.kind in ('ptr', 'ref', 'rref'):
                    privptr = True
                fr = self.record_of(ty)
                nua = any(x['kind'] == 'NoUniqueAddressAttr' for x in c.get('inner', []))
                empty = fr and fr['definitionData'].get('isEmpty')
                bf = bool(c.get('isBitfield'))
                width = int([x for x in c['inner'] if x['kind'] == 'ConstantExpr'][0]['value']) if bf else 0 if nua and empty else self.bits(ty)
                f = dict(type=self.cc(ty) if acc == 'public' else dict(error=dict(fmt='Types of non-public C++ fields can be elided away',
                                                                                  message='Types of non-public C++ fields can be elided away')),
                         access=acc.upper(), offset=foffs[j], size=width, is_no_unique_address=nua, is_bitfield=bf,
                         is_inheritable=bool(fr and not self.final(fr)), is_mutable=bool(c.get('mutable')))
                if c.get('name'):
                    f['cpp_identifier'] = {'identifier': c['name']}
                    f['rust_identifier'] = {'identifier': self.annotations(c).get('CRUBIT_RUST_NAME', [c['name']])[0]}
                fields.append(f)
                j += 1
            elif c['kind'] in ('CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
                it = self.func(c, n, 'public' if c.get('isImplicit') else acc)
                if it:
                    children.append(it)
            elif c['kind'] in ('CXXRecordDecl', 'EnumDecl', 'TypedefDecl', 'TypeAliasDecl') and not c.get('isImplicit') and acc == 'public':
                children += self.item(c, n)
        r = dict(rs_name={'identifier': n['name']}, cc_name={'identifier': n['name']}, unique_name='c:@S@' + full, mangled_cc_name=self.mangled(full),
                 id=self.id(n), owning_target=TARGET, source_loc=self.header, unambiguous_public_bases=self.all_bases(n), fields=fields,
                 size_align=dict(size=size // 8, alignment=align // 8), trait_derives=dict(clone='NONE', copy='NONE', debug='NONE', send=False, sync=False),
                 is_derived_class=bool(n.get('bases')), override_alignment=over or bool(n.get('bases')) or (self.polymorphic(n) and not any(self.polymorphic(b[0]) for b in self.bases(n))),
                 safety_annotation='SAFETY_ANNOTATION_UNANNOTATED', copy_constructor=self.smf(n, 'copyCtor'), move_constructor=self.smf(n, 'moveCtor'),
                 destructor=self.smf(n, 'dtor'), is_trivial_abi=bool(dd.get('canPassInRegisters')), is_inheritable=not final, is_abstract=bool(dd.get('isAbstract')),
                 record_type=n['tagUsed'].upper(), is_aggregate=bool(dd.get('isAggregate')), is_canonical_alias=False, must_bind=False,
                 overloads_operator_delete=self.dtor_virtual(n), has_private_or_deleted_operator_delete=False, detected_formatter=self.formatted(n), is_thread_safe=False,
                 impl_debug='record_impl_debug' in self.features and not dd.get('isAbstract') and self.annotations(n).get('CRUBIT_OVERRIDE_DEBUG') != ['false'],
                 has_private_pointer_or_reference_fields=privptr, is_explicit_class_template_instantiation_definition=False, children=children)
        b = self.bridge_of(n)
        if b:
            r['bridge_type'] = b
        notes = self.annotations(n)
        if 'CRUBIT_RUST_NAME' in notes:
            r['rs_name'] = {'identifier': notes['CRUBIT_RUST_NAME'][0]}
        if 'CRUBIT_UNSAFE' in notes:
            r['safety_annotation'] = 'SAFETY_ANNOTATION_UNSAFE'
        if 'CRUBIT_UNSAFE_MARK_SAFE' in notes:
            r['safety_annotation'] = 'SAFETY_ANNOTATION_DISABLE_UNSAFE'
        if 'CRUBIT_THREAD_SAFE' in notes:
            r['is_thread_safe'] = r['trait_derives']['send'] = r['trait_derives']['sync'] = True
        if 'CRUBIT_OWNED_POINTEE' in notes:
            a = notes['CRUBIT_OWNED_POINTEE']
            r['owned_ptr_config'] = dict(owned_ptr_type=a[0], drop_impl=a[1] if len(a) > 1 else 'DropImpl')
        if scope is not None:
            r['enclosing_item_id'] = self.id(scope)
        return dict(record=r)

    def dtor_virtual(self, n):
        s = self.special(n, 'dtor')
        return bool(s and (s[0].get('virtual') or self.overrides(s[0], n)))

    def final(self, n):
        return n['tagUsed'] == 'union' or any(c['kind'] == 'FinalAttr' for c in n.get('inner', []))

    def item(self, n, scope):
        k, out = n['kind'], None
        enc = {} if scope is None else dict(enclosing_item_id=self.id(scope))
        nm = {'identifier': n.get('name', '')}
        rnm = {'identifier': self.annotations(n)['CRUBIT_RUST_NAME'][0]} if 'CRUBIT_RUST_NAME' in self.annotations(n) else nm
        common = dict(rs_name=rnm, cc_name=nm, owning_target=TARGET, source_loc=self.header, **enc)
        if k == 'LinkageSpecDecl':
            return [x for c in n.get('inner', []) for x in self.item(c, scope)]
        if k == 'NamespaceDecl':
            same = [m for i, m in self.nodes.items() if m['kind'] == k and self.full[i] == self.full[n['id']]]
            out = dict(namespace_decl=dict(rs_name=nm, cc_name=nm, unique_name='c:@N@' + self.full[n['id']], id=self.id(n), canonical_namespace_id=self.id(same[0]),
                                           owning_target=TARGET, is_inline=bool(n.get('isInline')), must_bind=False,
                                           children=[x for c in n.get('inner', []) for x in self.item(c, n)], **enc))
        elif k == 'CXXRecordDecl':
            if not n.get('completeDefinition'):
                if any(m['kind'] == k and m.get('completeDefinition') and self.full.get(i) == self.full[n['id']] for i, m in self.nodes.items()):
                    return []
                return [dict(incomplete_record=dict(rs_name=nm, cc_name=nm, owning_target=TARGET, unique_name='c:@S@' + self.full[n['id']], id=self.id(n),
                                                    record_type=n['tagUsed'].upper(), must_bind=False, **enc))]
            out = self.record(n, scope)
        elif k == 'FunctionDecl':
            if n.get('previousDecl'):
                return []
            out = self.func(n, scope)
        elif k == 'EnumDecl':
            out = dict(enum_decl=dict(common, unique_name='c:@E@' + self.full[n['id']], id=self.id(n), underlying_type=self.cc(self.underlying(n)),
                                      enumerators=[dict(identifier={'identifier': c['name']}, value=self.vals[self.full[n['id']] + '::' + c['name']])
                                                   for c in n.get('inner', []) if c['kind'] == 'EnumConstantDecl'],
                                      must_bind=False, detected_formatter=self.formatted(n), mangled_cc_name=self.mangled(self.full[n['id']]), is_incomplete=False))
        elif k in ('TypedefDecl', 'TypeAliasDecl'):
            out = dict(type_alias=dict(common, unique_name='c:@T@' + self.full[n['id']], id=self.id(n), underlying_type=self.cc(self.alias(n)), must_bind=False))
        elif k == 'VarDecl':
            ty = self.parse(n['type']['qualType'], scope)
            if n.get('constexpr'):
                out = dict(constant=dict(common, value=self.vals[self.full[n['id']]], unique_name='c:@' + self.full[n['id']], id=self.id(n), type=self.cc(ty), must_bind=False))
            else:
                out = dict(global_var=dict(common, unique_name='c:@' + self.full[n['id']], id=self.id(n), type=self.cc(ty), must_bind=False))
                if not n.get('externC') and n.get('mangledName', n['name']) != rnm['identifier']:
                    out['global_var']['mangled_name'] = n.get('mangledName', n['name'])
        return [out] if out else []

    def ir(self):
        items = [x for n in self.user for x in self.item(n, None)]
        done = 0
        while done < len(self.bridged):
            items.append(self.bridge_record(list(self.bridged.values())[done]))
            done += 1
        return dict(public_headers=[{'name': os.path.basename(self.header)}], current_target=TARGET, crubit_features={TARGET: dict(features=self.features)},
                    unstable_rust_features=[], reexported_namespaces=[], top_level_items={TARGET: dict(items=items)}, crate_names={TARGET: 'sample'})


if __name__ == '__main__':
    feats = sys.argv[3].split(',') if len(sys.argv) > 3 else ['supported', 'wrapper', 'experimental']
    with open(sys.argv[2], 'w') as f:
        json.dump(Importer(sys.argv[1], feats).ir(), f, indent=1)
