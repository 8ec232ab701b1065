#!/usr/bin/env python3
"""mkws.py OUT: writes a cargo workspace in OUT that builds rs_bindings_from_cc's Rust generator from
/repo. The manifests are those of /repo/cargo with absolute paths, except that the protocol buffer
crates are replaced by the stand-ins here."""
import os, re, sys, tomllib, shutil
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
import protogen
R = '/repo'
def put(p, s):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if not os.path.exists(p) or open(p).read() != s: open(p, 'w').write(s)
def main(out):
    top = tomllib.load(open(R + '/Cargo.toml', 'rb'))['workspace']
    todo = [R + '/cargo/rs_bindings_from_cc/generate_bindings/generate_bindings']
    seen = {}
    def val(v):
        if isinstance(v, str): return '"%s"' % v
        if isinstance(v, bool): return str(v).lower()
        if isinstance(v, list): return '[%s]' % ', '.join(val(x) for x in v)
        return '{ %s }' % ', '.join('%s = %s' % (k, val(x)) for k, x in v.items())
    while todo:
        d = todo.pop()
        if d in seen: continue
        m = tomllib.load(open(d + '/Cargo.toml', 'rb'))
        name = m['package']['name']
        seen[d] = name
        deps = []
        for k, v in m.get('dependencies', {}).items():
            if k == 'protobuf': deps.append('protobuf = { path = "%s/protobuf" }' % H); continue
            if k == 'ir_rust_proto': deps.append('ir_rust_proto = { path = "%s/ir_rust_proto" }' % out); continue
            if isinstance(v, dict) and v.get('workspace'):
                v = dict(v); v.pop('workspace')
                w = top['dependencies'][k]
                v = {**(w if isinstance(w, dict) else {'version': w}), **v}
                if 'path' in v: v['path'] = os.path.normpath(os.path.join(R, v['path']))
            elif isinstance(v, dict) and 'path' in v:
                v = dict(v); v['path'] = os.path.normpath(os.path.join(d, v['path']))
            elif isinstance(v, str): v = {'version': v}
            if 'path' in v:
                todo.append(v['path'])
                pn = tomllib.load(open(v['path'] + '/Cargo.toml', 'rb'))['package']['name']
                v['path'] = '%s/%s' % (out, pn)
                if pn != k: v['package'] = pn
            deps.append('%s = %s' % (k, val(v)))
        lib = m.get('lib', {})
        src = os.path.normpath(os.path.join(d, lib.get('path', 'src/lib.rs')))
        s = '[package]\nname = "%s"\nversion = "0.0.0"\nedition = "%s"\n\n[lib]\npath = "%s"\ndoctest = false\n%s\n' % (
            name, top['package']['edition'], src, 'proc-macro = true\n' if lib.get('proc-macro') else '')
        if 'name' in lib: s = s.replace('[lib]\n', '[lib]\nname = "%s"\n' % lib['name'])
        if 'features' in m: s += '[features]\n' + ''.join('%s = %s\n' % (k, val(v)) for k, v in m['features'].items())
        s += '[dependencies]\n' + '\n'.join(deps) + '\n'
        put('%s/%s/Cargo.toml' % (out, name), s)
    put(out + '/ir_rust_proto/Cargo.toml', '[package]\nname = "ir_rust_proto"\nversion = "0.0.0"\nedition = "2021"\n\n[dependencies]\nprotobuf = { path = "%s/protobuf" }\n' % H)
    put(out + '/ir_rust_proto/src/lib.rs', protogen.emit(protogen.parse(open(R + '/rs_bindings_from_cc/ir.proto').read())))
    put(out + '/rsgen/Cargo.toml', '''[package]
name = "rsgen"
version = "0.0.0"
edition = "2021"

[[bin]]
name = "rsgen"
path = "%s/rsgen.rs"

[dependencies]
generate_bindings = { path = "%s/rs_bindings_from_cc_generate_bindings", package = "rs_bindings_from_cc_generate_bindings" }
database = { path = "%s/rs_bindings_from_cc_database", package = "rs_bindings_from_cc_database" }
ir = { path = "%s/rs_bindings_from_cc_ir", package = "rs_bindings_from_cc_ir" }
error_report = { path = "%s/error_report" }
ir_rust_proto = { path = "%s/ir_rust_proto" }
protobuf = { path = "%s/protobuf" }
serde_json = "1"
''' % (H, out, out, out, out, out, H))
    put(out + '/Cargo.toml', '[workspace]\nresolver = "2"\nmembers = ["rsgen"]\n[profile.dev]\ndebug = 0\nincremental = false\n')
    if not os.path.exists(out + '/Cargo.lock'): shutil.copy(R + '/Cargo.lock', out + '/Cargo.lock')
if __name__ == '__main__': main(sys.argv[1])
