#!/usr/bin/env python3
"""Writes Rust accessors for the messages of a .proto file, with the API of protoc's Rust generator."""
import re, sys
PRIM = {'int32': 'i32', 'int64': 'i64', 'uint64': 'u64', 'uint32': 'u32', 'bool': 'bool', 'string': '&\'a ::protobuf::ProtoStr'}
KW = {'type', 'enum', 'struct', 'mod', 'fn', 'use', 'const', 'static', 'ref', 'move', 'match', 'impl', 'trait', 'where'}

def parse(text):
    text = re.sub(r'//[^\n]*', '', text)
    tok = re.findall(r'"[^"]*"|[A-Za-z_][\w.]*|\d+|[{}=;<>,\[\]()-]', text)
    pos = 0
    root = {'msgs': [], 'enums': [], 'name': '', 'fields': []}
    def skip():
        nonlocal pos
        while tok[pos] != ';': pos += 1
        pos += 1
    def field(m, oneof):
        nonlocal pos
        rep = False
        if tok[pos] in ('repeated', 'optional'): rep = tok[pos] == 'repeated'; pos += 1
        if tok[pos] == 'map':
            assert tok[pos + 1] == '<' and tok[pos + 3] == ',' and tok[pos + 5] == '>'
            ty = ('map', tok[pos + 2], tok[pos + 4]); pos += 6
        else: ty = tok[pos]; pos += 1
        name = tok[pos]; assert tok[pos + 1] == '='; num = int(tok[pos + 2]); pos += 3
        skip()
        m['fields'].append((name, num, ty, rep, oneof))
    def body(m):
        nonlocal pos
        while tok[pos] != '}':
            t = tok[pos]
            if t == 'message': message(m)
            elif t == 'enum': enum(m)
            elif t in ('reserved', 'option'): skip()
            elif t == 'oneof':
                o = tok[pos + 1]; pos += 3
                while tok[pos] != '}': field(m, o)
                pos += 1
            elif t == ';': pos += 1
            else: field(m, None)
        pos += 1
    def message(parent):
        nonlocal pos
        m = {'name': tok[pos + 1], 'msgs': [], 'enums': [], 'fields': [], 'parent': parent}
        pos += 3
        parent['msgs'].append(m); body(m)
    def enum(parent):
        nonlocal pos
        e = {'name': tok[pos + 1], 'vals': [], 'parent': parent}; pos += 3
        while tok[pos] != '}':
            if tok[pos] in ('option', 'reserved'): skip(); continue
            neg = tok[pos + 2] == '-'
            e['vals'].append((tok[pos], int(tok[pos + 2 + neg]) * (-1 if neg else 1))); skip()
        pos += 1
        parent['enums'].append(e)
    while pos < len(tok):
        if tok[pos] == 'message': message(root)
        elif tok[pos] == 'enum': enum(root)
        else: skip()
    return root

def snake(n): return re.sub(r'(?<=[a-z0-9])([A-Z])', r'_\1', n).lower()
def camel(n): return ''.join(p[:1].upper() + p[1:].lower() for p in n.split('_'))
def path(x):
    """The Rust path of a message or enum, from the crate's root."""
    p = []; q = x.get('parent')
    while q and q['name']: p.insert(0, snake(q['name'])); q = q.get('parent')
    return '::'.join(['crate'] + [('r#' + s if s in KW else s) for s in p] + [x['name']])
def find(scope, ty):
    parts = ty.split('.')
    while scope is not None:
        cur = scope
        for i, p in enumerate(parts):
            nxt = next((c for c in cur['msgs'] + (cur['enums'] if i == len(parts) - 1 else []) if c['name'] == p), None)
            if nxt is None: break
            cur = nxt
        else: return cur
        scope = scope.get('parent')
    raise KeyError(ty)
def rtype(scope, ty):
    if ty in PRIM: return PRIM[ty]
    d = find(scope, ty)
    return path(d) if 'vals' in d else path(d) + "View<'a>"
def schema(scope, ty, num, rep):
    if isinstance(ty, tuple):
        k = '::protobuf::Kind::Map(const { &%s })' % schema(scope, ty[2], 2, False)
    elif ty in PRIM: k = '::protobuf::Kind::Scalar'
    else:
        d = find(scope, ty)
        k = ('::protobuf::Kind::Enum(%s::by_name)' if 'vals' in d else '::protobuf::Kind::Message(%s::schema)') % path(d)
    return '::protobuf::Field { number: %d, kind: %s, repeated: %s }' % (num, k, str(rep).lower())
def fname(n): return 'r#' + n if n in KW else n

def emit_enum(e):
    n = e['name']; pre = re.sub(r'(?<=[a-z0-9])([A-Z])', r'_\1', n).upper() + '_'
    o = ['#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)] #[repr(transparent)] pub struct %s(i32);' % n, '#[allow(non_upper_case_globals)] impl %s {' % n]
    for v, k in e['vals']:
        o.append('pub const %s: %s = %s(%d);' % (camel(v[len(pre):] if v.startswith(pre) else v), n, n, k))
    o.append('pub fn by_name(s: &str) -> i64 { match s { %s _ => panic!("no enumerator {s}") } }' % ' '.join('"%s" => %d,' % v for v in e['vals']))
    o.append('}')
    o.append('impl ::std::fmt::Debug for %s { fn fmt(&self, f: &mut ::std::fmt::Formatter<\'_>) -> ::std::fmt::Result { f.write_str(match self.0 { %s _ => "?" }) } }'
             % (n, ' '.join('%d => "%s",' % (k, v) for v, k in e['vals'])))
    o.append('impl<\'a> ::protobuf::FromVal<\'a> for %s { fn from_val(v: &\'a ::protobuf::Val) -> Self { match v { ::protobuf::Val::Int(i) => %s(*i as i32), _ => panic!() } } }' % (n, n))
    o.append('impl From<i32> for %s { fn from(v: i32) -> Self { %s(v) } } impl From<%s> for i32 { fn from(v: %s) -> i32 { v.0 } }' % (n, n, n, n))
    return o
def emit_msg(m):
    n = m['name']
    o = ['#[derive(Clone, Debug, Default, PartialEq)] pub struct %s(pub ::protobuf::Msg);' % n,
         '#[derive(Clone, Copy)] pub struct %sView<\'a>(pub &\'a ::protobuf::Msg);' % n,
         'impl<\'a> ::std::fmt::Debug for %sView<\'a> { fn fmt(&self, f: &mut ::std::fmt::Formatter<\'_>) -> ::std::fmt::Result { self.0.fmt(f) } }' % n,
         'impl<\'a> ::protobuf::FromVal<\'a> for %sView<\'a> { fn from_val(v: &\'a ::protobuf::Val) -> Self { match v { ::protobuf::Val::Msg(m) => %sView(m), _ => panic!() } } }' % (n, n),
         'impl %s {' % n, 'pub fn new() -> Self { Self::default() }', 'pub fn as_view(&self) -> %sView<\'_> { %sView(&self.0) }' % (n, n),
         'pub fn schema(s: &str) -> Option<::protobuf::Field> { match s {']
    for f, num, ty, rep, one in m['fields']: o.append('"%s" => Some(%s),' % (f, schema(m, ty, num, rep)))
    o += ['_ => None } }', '}', 'impl<\'a> %sView<\'a> {' % n]
    ones = {}
    for f, num, ty, rep, one in m['fields']:
        if isinstance(ty, tuple):
            t = '::protobuf::MapView<\'a, %s, %s>' % (rtype(m, ty[1]), rtype(m, ty[2]))
            o.append('pub fn %s(self) -> %s { ::protobuf::MapView::new(self.0.all(%d)) }' % (fname(f), t, num)); continue
        t = rtype(m, ty)
        if rep:
            o.append('pub fn %s(self) -> ::protobuf::RepeatedView<\'a, %s> { ::protobuf::RepeatedView::new(self.0.all(%d)) }' % (fname(f), t, num)); continue
        g = ('self.0.int(%d) as %s' % (num, t) if ty.startswith(('int', 'uint')) else 'self.0.boolean(%d)' % num if ty == 'bool' else 'self.0.string(%d)' % num if ty == 'string'
             else '%s::from(self.0.int(%d) as i32)' % (t, num) if 'vals' in find(m, ty) else '%sView(self.0.msg(%d))' % (path(find(m, ty)), num))
        o.append('pub fn %s(self) -> %s { %s }' % (fname(f), t, g))
        o.append('pub fn has_%s(self) -> bool { self.0.has(%d) }' % (f, num))
        o.append('pub fn %s_opt(self) -> Option<%s> { if self.0.has(%d) { Some(self.%s()) } else { None } }' % (f, t, num, fname(f)))
        if one: ones.setdefault(one, []).append((f, num, t))
    mod = snake(n)
    mod = 'r#' + mod if mod in KW else mod
    for one, fs in ones.items():
        ty = '%s::%sOneof<\'a>' % (mod, camel(one))
        o.append('pub fn %s(self) -> %s { %s %s::%sOneof::not_set(::std::marker::PhantomData) }' % (fname(one), ty,
                 ' '.join('if self.0.has(%d) { return %s::%sOneof::%s(self.%s()); }' % (num, mod, camel(one), camel(f), fname(f)) for f, num, t in fs), mod, camel(one)))
    o.append('}')
    if ones or m['msgs'] or m['enums']:
        o.append('#[allow(non_camel_case_types)] pub mod %s {' % mod)
        for one, fs in ones.items():
            o.append('#[derive(Clone, Copy, Debug)] pub enum %sOneof<\'a> { %s not_set(::std::marker::PhantomData<&\'a ()>) }' % (camel(one), ' '.join('%s(%s),' % (camel(f), t) for f, num, t in fs)))
        for x in m['enums']: o += emit_enum(x)
        for x in m['msgs']: o += emit_msg(x)
        o.append('}')
    return o
def emit(root):
    o = ['// Written by protogen.py.', '#![allow(dead_code, unused_imports, unused_parens)]']
    for x in root['enums']: o += emit_enum(x)
    for x in root['msgs']: o += emit_msg(x)
    return '\n'.join(o) + '\n'
if __name__ == '__main__':
    open(sys.argv[2], 'w').write(emit(parse(open(sys.argv[1]).read())))
