#!/usr/bin/env python3-vt
"""Driver: build harnesses from /repo's current tree, execute them symbolically, validate the
encoding by native replay, confirm counterexamples natively, write evidence.

    vpdrive.py setup             build what every check shares and warm the caches
    vpdrive.py check ID          run one property's check (tier from VERIF_TIER)
    vpdrive.py replay FILE       re-run a recorded counterexample against the native build
"""
import concurrent.futures as cf
import fcntl
import glob
import importlib.util
import json
import multiprocessing as mp
import os
import re
import resource
import subprocess
import sys
import threading
import time
import traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
BUILD = os.path.join(ROOT, 'build')
sys.path.insert(0, os.path.join(ROOT, 'irsym'))
TOOLCHAIN = 'nightly-2026-08-20'
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
JOBS = 8


class BuildError(Exception):
    """A build step failed.  `suspect` marks steps whose failure means generated code is unusable."""


def env(**kw):
    e = dict(os.environ)
    for k in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'CARGO_BUILD_TARGET'):
        e.pop(k, None)
    e.update(RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', LC_ALL='C')
    e.update(kw)
    return e


def run(cmd, timeout=1500, cwd=None, environ=None, input=None):
    p = subprocess.run(cmd, cwd=cwd, env=environ or env(), input=input, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, timeout=timeout, text=True)
    if p.returncode:
        raise BuildError('%s\n%s%s' % (' '.join(cmd), p.stdout[-3000:], p.stderr[-6000:]))
    return p.stdout


_sysroot = None


def llvm(tool):
    global _sysroot
    if _sysroot is None:
        _sysroot = run(['rustc', '--print', 'sysroot']).strip()
    return os.path.join(_sysroot, 'lib/rustlib/x86_64-unknown-linux-gnu/bin', tool)


def write(path, text):
    """Writes only on change, so that cargo sees stable inputs."""
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except FileNotFoundError:
        pass
    with open(path, 'w') as f:
        f.write(text)


CXX = ['clang++', '-std=c++20', '-I' + REPO, '-I' + os.path.join(ROOT, 'rt'), '-fno-exceptions', '-fno-rtti',
       '-Wno-invalid-offsetof', '-Wno-everything', '-U_FORTIFY_SOURCE', '-march=x86-64',
       '-fsanitize=unreachable', '-fsanitize-trap=unreachable']
IRFLAGS = ['-fno-vectorize', '-fno-slp-vectorize', '-fno-discard-value-names', '-S', '-emit-llvm']

RUST_PROFILE = '''
[profile.release]
lto = "fat"
panic = "abort"
codegen-units = 1
opt-level = 2
debug = 0
overflow-checks = true
debug-assertions = true
incremental = false

[workspace]
'''


class Unit:
    from_generator = False
    """One linked IR module plus its native twin.

    cc     C++ harness/source files (relative to the check's directory, or absolute)
    rust   directory of a Rust harness crate (staticlib), relative to the check's directory
    pre    function(unit) run first; may generate sources and extend cc/incs
    """

    def __init__(self, name, cc=(), rust=None, pre=None, incs=(), opt='-O1', flags=(), extra_ll=(), extra_native=(),
                 limits=None, only=None, irflags=(), api=False):
        self.name, self.cc, self.rust, self.pre = name, list(cc), rust, pre
        self.incs, self.opt, self.flags = list(incs), opt, list(flags)
        self.extra_ll, self.extra_native = list(extra_ll), list(extra_native)
        self.limits = limits or {}
        self.only = only
        self.irflags = list(irflags)
        self.api = api    # the C++ sources use public interfaces only, so that they must compile

    def p(self, f):
        return f if os.path.isabs(f) else os.path.join(self.cdir, f)

    def prepare(self, pid):
        self.pid = pid
        self.cdir = os.path.join(ROOT, 'checks', pid)
        self.dir = os.path.join(BUILD, pid, self.name)
        os.makedirs(self.dir, exist_ok=True)

    # ---- building
    def build(self):
        if self.pre:
            self.pre(self)
        jobs = []
        with cf.ThreadPoolExecutor(JOBS) as ex:
            lls = []
            for i, c in enumerate(self.cc):
                out = os.path.join(self.dir, 'cc%d.ll' % i)
                lls.append(out)
                jobs.append(ex.submit(run, CXX + IRFLAGS + self.irflags + [self.opt] + self.flags + ['-I' + x for x in self.incs] +
                                      [self.p(c), '-o', out]))
            if self.rust:
                jobs.append(ex.submit(self.build_rust))
            for j in jobs:
                try:
                    j.result()
                except BuildError as e:
                    if self.api and not getattr(e, 'suspect', None):
                        e.suspect = 'the public C++ interface no longer compiles as used (%s)' % self.name
                    raise
        if self.rust:
            lls.append(os.path.join(self.dir, 'rust.ll'))
        lls += self.extra_ll
        allll = os.path.join(self.dir, 'all.ll')
        for f in lls:
            # clang 18 writes a form of inrange that the newer llvm-link does not read; it is only a hint
            with open(f) as fh:
                t = fh.read()
            if ', inrange i32 ' in t:
                write(f, t.replace(', inrange i32 ', ', i32 '))
        if len(lls) > 1:
            linked = os.path.join(self.dir, 'linked.bc')
            run([llvm('llvm-link'), '-o', linked] + lls)
        else:
            linked = lls[0]
        run([llvm('opt'), '-S', '-passes=internalize,globaldce,strip-dead-prototypes',
             '-internalize-public-api-list=' + ','.join(self.harness_names(lls)), '-strip-debug', linked, '-o', allll])
        self.ll = allll

    def harness_names(self, lls):
        names = set()
        for f in lls:
            with open(f) as fh:
                names |= set(re.findall(r'^define [^@\n]*@"?(h_\w+)"?\(\)', fh.read(), re.M))
        self.harnesses = sorted(names)
        return self.harnesses

    def rust_crate(self):
        return self.p(self.rust)

    def build_rust(self):
        out = os.path.join(self.dir, 'rust.ll')
        stamp = os.path.join(self.dir, 'cargo')
        e = env(CARGO_TARGET_DIR=stamp, RUSTFLAGS='-Cno-vectorize-loops -Cno-vectorize-slp -Ctarget-cpu=x86-64 '
                '--cap-lints=allow', CARGO_INCREMENTAL='0')
        if not os.path.exists(out):
            # cargo would consider the crate fresh although its IR is gone
            subprocess.run(['rm', '-rf', stamp])
        run(['cargo', 'rustc', '--release', '--offline', '-Zchecksum-freshness', '--lib', '--crate-type', 'staticlib', '--',
             '--emit=link,llvm-ir=' + out], cwd=self.rust_crate(), environ=e)
        libs = glob.glob(os.path.join(stamp, 'release', 'lib*.a'))
        if len(libs) != 1:
            raise BuildError('expected one static library, found %s' % libs)
        self.rust_lib = libs[0]

    def native(self, mode='plain'):
        """Builds (once) and returns the native replay binary; mode plain, asan or val."""
        exe = os.path.join(self.dir, 'native_' + mode)
        if getattr(self, 'built_' + mode, False):
            return exe
        table = os.path.join(self.dir, 'table.cc')
        write(table, ''.join('extern "C" void %s();\n' % h for h in self.harnesses) +
              'struct VpEntry { const char* name; void (*fn)(); };\n' +
              'extern const VpEntry vp_table[]; const VpEntry vp_table[] = {\n' +
              ''.join('{"%s", %s},\n' % (h, h) for h in self.harnesses) + '{nullptr, nullptr}};\n')
        fl = {'plain': ['-O2'], 'asan': ['-O1', '-g', '-DVP_ASAN', '-fsanitize=address,undefined',
                                        '-fno-sanitize-recover=all'], 'val': ['-O0', '-g', '-DVP_ASAN']}[mode]
        srcs = [os.path.join(ROOT, 'rt', 'vp_native.cc'), table] + [self.p(c) for c in self.cc]
        objs, jobs = [], []
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for i, s in enumerate(srcs):
                o = os.path.join(self.dir, '%s_%d.o' % (mode, i))
                objs.append(o)
                jobs.append(ex.submit(run, CXX + fl + self.flags + ['-I' + x for x in self.incs] + ['-c', s, '-o', o]))
            for j in jobs:
                j.result()
        libs = ([self.rust_lib] if self.rust else []) + self.extra_native
        try:
            run(['clang++'] + fl + objs + ['-Wl,--start-group'] + libs + ['-Wl,--end-group', '-lpthread', '-ldl', '-lm',
                                                                           '-Wl,--allow-multiple-definition', '-o', exe])
        except BuildError as e:
            m = re.search(r"undefined reference to `([^'\n]+)" if self.from_generator else r'undefined reference to `(__(?:rust_thunk|crubit)_\w+)', str(e))
            if m:
                e.suspect = 'the generated code calls %s, which it does not define' % m.group(1)
            raise
        setattr(self, 'built_' + mode, True)
        return exe

    def replay(self, traces, mode='plain', limit=10):
        """traces: [(harness, [values])] -> [(end, expect_abort, outs, detail)]"""
        exe = self.native(mode)
        text = ''.join('%s %d %s\n' % (h, len(v), ' '.join(map(str, v))) for h, v in traces)
        cmd = [exe, str(limit)]
        if mode == 'val':
            cmd = ['valgrind', '-q', '--error-exitcode=98'] + cmd
        e = env(ASAN_OPTIONS='exitcode=99:detect_leaks=0:detect_stack_use_after_return=1', UBSAN_OPTIONS='exitcode=99')
        p = subprocess.run(cmd, input=text, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=e,
                           timeout=60 + limit * len(traces))
        res = []
        for ln in p.stdout.splitlines():
            m = re.match(r'^(\w+) (\d+) (\d+)((?: \d+)*) #(.*)$', ln)
            if m:
                res.append((m.group(1), m.group(2) == '1', [int(x) for x in m.group(4).split()], m.group(5)))
        if len(res) != len(traces):
            raise BuildError('replay gave %d results for %d traces: %s %s' % (
                len(res), len(traces), p.stdout[-500:], p.stderr[-1500:]))
        self.last_err = p.stderr
        return res


def build_tool():
    """Builds the C++-bindings generator from /repo's tree; returns the executable."""
    td = os.path.join(BUILD, 'tool')
    os.makedirs(td, exist_ok=True)
    with open(os.path.join(td, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not build_tool.done:
            run(['cargo', 'build', '--offline', '-Zchecksum-freshness', '-p', 'cc_bindings_from_rs'], cwd=REPO,
                environ=env(CARGO_TARGET_DIR=td, CARGO_PROFILE_DEV_DEBUG='0', CARGO_INCREMENTAL='0',
                            RUSTFLAGS='--cap-lints=allow'))
            build_tool.done = True
    return os.path.join(td, 'debug', 'cc_bindings_from_rs')


build_tool.done = False
_tool_lock = threading.Lock()
RS = ['--edition=2024', '-Cpanic=abort', '-Copt-level=2', '-Coverflow-checks=on', '-Cdebug-assertions=on',
      '-Cno-vectorize-loops', '-Cno-vectorize-slp', '-Ctarget-cpu=x86-64', '--cap-lints=allow', '-Ccodegen-units=1']


class E2E(Unit):
    from_generator = True
    """Rust crates -> generator of /repo's tree -> C++ header + Rust thunks, linked with a C++ harness.

    crates  [(crate name, source file)], in dependency order: bindings are generated for each
    ref     Rust source of the root crate: direct calls used as the oracle
    deps    [(crate name, source file)] of support crates that the sample or the thunks use
    """

    def __init__(self, name, crates, ref, cc, features='all,experimental', std=(), deps=(), **kw):
        super().__init__(name, cc, api=True, **kw)
        self.crates, self.ref, self.features, self.deps = crates, ref, features, list(deps)
        self.std = std    # toolchain crates whose bindings are generated too, e.g. ('core', 'alloc')
        self.rust = None

    def build(self):
        if not getattr(self, 'generated', False):
            self.generate()
            self.generated = True
        super().build()

    def generate(self):
        with _tool_lock:
            tool = build_tool()
        sysroot = run(['rustc', '--print', 'sysroot']).strip()
        d = self.dir
        gen = os.path.join(d, 'gen')
        subprocess.run(['rm', '-rf', gen])
        os.makedirs(gen)
        for c in ('core', 'std', 'alloc'):
            if c not in self.std:
                write(os.path.join(gen, 'vp_%s.h' % c), '#pragma once\n')
        lib = lambda n: os.path.join(d, 'lib%s.rlib' % n)
        bridge = os.path.join(REPO, 'support/crubit_bridge_rust/src/bridge.rs')
        run(['rustc', '--crate-type=rlib', '--crate-name=bridge_rust', bridge, '-o', lib('bridge_rust')] + RS)
        ext = ['-L', d, '--extern=bridge_rust=' + lib('bridge_rust')]
        for name, src in self.deps:
            run(['rustc', '--crate-type=rlib', '--crate-name=' + name, self.p(src), '-o', lib(name)] + RS + ext)
            ext.append('--extern=%s=%s' % (name, lib(name)))
        gx, none = [], ['--crate-header=%s=vp_%s.h' % (c, c) for c in ('core', 'std', 'alloc') if c not in self.std]
        for name, src in [(c, None) for c in self.std] + list(self.crates):
            hname = 'vp_' + name if src is None else name
            if src is None:
                mine = ['--crate-header=self=vp_%s.h' % name, '--crate-namespace=self=rs::' + name]
                src = 'the toolchain crate ' + name
            else:
                mine = none
                run(['rustc', '--crate-type=rlib', '--crate-name=' + name, self.p(src), '-o', lib(name)] + RS + ext)
                ext.append('--extern=%s=%s' % (name, lib(name)))
            hdr, impl = os.path.join(gen, hname + '.h'), os.path.join(gen, name + '_impl.rs')
            p = subprocess.run([tool, '--h-out=' + hdr, '--rs-out=' + impl,
                                '--crubit-support-path-format="support/{header}"', '--default-features=' + self.features,
                                '--source-crate-name=' + name] + mine + gx + ext, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, env=env(LD_LIBRARY_PATH=os.path.join(sysroot, 'lib')), timeout=600)
            if p.returncode:
                e = BuildError('generator failed on %s:\n%s' % (src, p.stdout[-4000:]))
                e.suspect = 'the generator fails on a supported crate (%s)' % src
                raise e
            gx.append('--crate-header=%s=%s.h' % (name, hname))
            if mine is not none:
                gx.append('--crate-namespace=%s=rs::%s' % (name, name))
            try:
                run(['rustc', '--crate-type=rlib', '--crate-name=' + name + '_cc_api', impl, '-o', lib(name + '_cc_api')] + RS + ext)
            except BuildError as e:
                e.suspect = 'the generated Rust thunks do not compile (%s)' % src
                raise
            ext.append('--extern=%s_cc_api=%s' % (name, lib(name + '_cc_api')))
            probe = os.path.join(gen, name + '_probe.cc')
            write(probe, '#include "%s.h"\n' % hname)
            try:
                run(CXX + ['-fsyntax-only', '-I' + gen, probe] + ['-I' + x for x in self.incs] + self.flags)
            except BuildError as e:
                e.suspect = 'the generated C++ header does not compile (%s)' % src
                raise
        self.incs.append(gen)
        out = os.path.join(d, 'rust.ll')
        root = os.path.join(d, 'root.rs')
        write(root, '#![allow(unused_extern_crates)]\nextern crate bridge_rust;\n' + ''.join('extern crate %s;\n' % n for n, _ in self.deps) + ''.join('extern crate %s_cc_api;\n' % n for n in self.std) +
              ''.join('extern crate %s; extern crate %s_cc_api;\n' % (n, n) for n, _ in self.crates) +
              'include!("%s");\ninclude!("%s");\n' % (os.path.join(ROOT, 'rt/vp.rs'), self.p(self.ref)))
        self.rust_lib = os.path.join(d, 'libvproot.a')
        run(['rustc', '--crate-type=staticlib', '--crate-name=vproot', root, '-Clto=fat', '-L', d,
             '--emit=link=%s,llvm-ir=%s' % (self.rust_lib, out)] + RS + ext, cwd=d)
        self.extra_ll = [out]
        self.extra_native = [self.rust_lib]

    def native(self, mode='plain'):
        return super().native(mode)


RSGEN = os.path.join(ROOT, 'rsgen')
_rsgen_lock = threading.Lock()


def build_rsgen():
    """Builds the Rust-bindings generator from /repo's tree (see rsgen/mkws.py); returns the executable."""
    td = os.path.join(BUILD, 'rsgen')
    os.makedirs(td, exist_ok=True)
    with open(os.path.join(td, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not build_rsgen.done:
            run([sys.executable, os.path.join(RSGEN, 'mkws.py'), td])
            run(['cargo', 'build', '--offline', '-Zchecksum-freshness'], cwd=td,
                environ=env(CARGO_TARGET_DIR=os.path.join(td, 'target'), RUSTFLAGS='--cap-lints=allow'))
            build_rsgen.done = True
    return os.path.join(td, 'target', 'debug', 'rsgen')


build_rsgen.done = False


class RsE2E(Unit):
    from_generator = True
    """C++ header -> Rust-bindings generator of /repo's tree -> Rust API + C++ thunks, linked with a Rust harness.

    header  C++ header of the sample; cc: its implementation and C++ harnesses
    ref     Rust source of the root crate: harnesses that use the generated crate `sample`
    """

    def __init__(self, name, header, ref, cc=(), features='supported,wrapper,experimental', deps=(), extra=None, **kw):
        super().__init__(name, cc, api=True, **kw)
        self.header, self.ref, self.features, self.deps, self.extra = header, ref, features, list(deps), extra
        self.rust = 'root'

    def rust_crate(self):
        return os.path.join(self.dir, 'root')

    def prepare(self, pid):
        super().prepare(pid)
        if not getattr(self, 'extended', False):
            self.extended = True
            self.cc.append(os.path.join(self.dir, 'thunks.cc'))
            self.incs.append(os.path.dirname(self.p(self.header)))

    def build(self):
        with _rsgen_lock:
            tool = build_rsgen()
        d = self.dir
        ir, rs, cc = (os.path.join(d, x) for x in ('ir.json', 'sample.rs', 'thunks.cc'))
        run([sys.executable, os.path.join(RSGEN, 'mkir.py'), self.p(self.header), ir, self.features])
        for f in (rs, cc):
            if os.path.exists(f):
                os.remove(f)
        try:
            run([tool, ir, '"support/{header}"', rs, cc, os.path.join(RSGEN, 'fmt.sh')])
        except BuildError as e:
            e.suspect = 'the Rust-bindings generator fails on a supported header (%s)' % self.header
            raise
        if self.extra:
            with open(rs, 'a') as f, open(self.p(self.extra)) as g:
                f.write('\n' + g.read())
        deps = ''.join('%s = { path = "%s/crates/%s" }\n' % (n, ROOT, n) for n in ['ctor', 'ffi_11', 'forward_declare', 'oops', 'cref', 'operator'] + self.deps) + \
            'cxx = { path = "%s/cxx" }\n' % RSGEN + 'bridge_rust = { path = "%s/support/crubit_bridge_rust", package = "crubit_bridge_rust" }\nstatic_assertions = "1"\n' % REPO
        pk = lambda n, path, extra='': '[package]\nname = "%s"\nversion = "0.0.0"\nedition = "2024"\n\n[lib]\npath = "%s"\n%s\n[dependencies]\n' % (n, path, extra)
        write(os.path.join(d, 'sample', 'Cargo.toml'), pk('sample', rs) + deps)
        root = os.path.join(d, 'root', 'src', 'lib.rs')
        write(root, 'include!("%s");\ninclude!("%s");\n' % (os.path.join(ROOT, 'rt/vp.rs'), self.p(self.ref)))
        write(os.path.join(d, 'root', 'Cargo.toml'), pk('root', root, 'crate-type = ["staticlib"]\n') + 'sample = { path = "../sample" }\n' + deps + RUST_PROFILE)
        lock = os.path.join(RSGEN, 'sample.lock')
        if os.path.exists(lock):
            with open(lock) as f:
                write(os.path.join(d, 'root', 'Cargo.lock'), f.read())
        super().build()

    def build_rust(self):
        try:
            super().build_rust()
        except BuildError as e:
            if re.search(r'sample\.rs:\d+:\d+|could not compile `sample`', str(e)):
                e.suspect = 'the generated Rust bindings do not compile (%s)' % self.header
            elif 'could not compile `root`' in str(e):
                e.suspect = 'the Rust API no longer compiles as used (%s)' % self.header
            raise


# ------------------------------------------------------------------------------------------ symbolic runs
_mods = {}


def sym_worker(args):
    ll, h, lim, deadline = args
    import irparse
    import engine
    sys.setrecursionlimit(20000)
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    r = dict(harness=h, error=None)
    t = time.time()
    eng = None
    try:
        mod = _mods.get(ll)
        if mod is None:
            with open(ll) as f:
                mod = irparse.parse_module(f.read())
        eng = engine.Engine(mod, deadline=deadline, **lim)
        eng.run(h)
    except StopIteration:
        pass
    except engine.Budget as e:
        r['error'] = 'budget: %s' % e
        if 'steps on one path' in str(e):
            eng.hang_report()
    except engine.Unsupported as e:
        r['error'] = 'unsupported: %s' % e
    except MemoryError:
        r['error'] = 'out of memory'
    except BaseException as e:
        r['error'] = 'internal: %s' % traceback.format_exc(limit=6)
    r['wall'] = time.time() - t
    if eng:
        if r['error'] and eng.__dict__.get('cur') is not None:
            r['error'] += ' in ' + ' < '.join(f.fn.name for f in reversed(eng.cur.frames[-6:]))
        r.update(stats=eng.stats, violations=eng.violations, path_log=eng.path_log, funcs=sorted(eng.funcs_seen),
                 asserted=sorted(eng.asserted), reached=sorted(eng.reached), aborts=eng.abort_paths)
    else:
        r.update(stats={}, violations=[], path_log=[], funcs=[], asserted=[], reached=[], aborts=0)
    return r


def task_proc(q, args):
    q.send(sym_worker(args))
    q.close()


def run_tasks(tasks, jobs, known=()):
    """Each task in its own forked process (a crash or an OOM kill loses one task, not the run).

    Once a harness reports a violation that is not a listed finding, the others are given 40 more seconds."""
    out, live, todo, cut = [], [], list(tasks), float('inf')
    ctx = mp.get_context('fork')
    while todo or live:
        while todo and len(live) < jobs:
            unit, args = todo.pop(0)
            if time.time() > cut:
                out.append((unit, dict(harness=args[1], error='not run: another harness reports a violation', stats={}, violations=[], path_log=[],
                                       funcs=[], asserted=[], reached=[], aborts=0, wall=0)))
                continue
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=task_proc, args=(b, args))
            p.start()
            b.close()
            live.append((unit, args, p, a, time.time()))
        mp.connection.wait([x[3] for x in live], 1)
        for x in list(live):
            unit, args, p, a, t0 = x
            r = None
            if a.poll():
                try:
                    r = a.recv()
                except EOFError:
                    r = None
                p.join()
            elif not p.is_alive():
                p.join()
            elif time.time() > min(args[3] + 45, cut):
                p.kill()
                p.join()
            else:
                continue
            if r and any(not any(k['harness'] == r['harness'] and re.search(k['match'], v['what']) for k in known) for v in r['violations']):
                cut = min(cut, time.time() + 40)
            if r is None:
                r = dict(harness=args[1], error='worker lost', stats={}, violations=[], path_log=[], funcs=[],
                         asserted=[], reached=[], aborts=0, wall=time.time() - t0)
            live.remove(x)
            out.append((unit, r))
    return out


def harness_text(unit):
    """Expected assertion ids per harness, from the harness sources (vacuity guard)."""
    files = [unit.p(c) for c in unit.cc if unit.p(c).startswith(ROOT)]
    if unit.rust:
        files += [unit.p(unit.ref)] if isinstance(unit, RsE2E) else glob.glob(os.path.join(unit.rust_crate(), 'src', '*.rs'))
    exp = {}
    for f in files:
        cur = None
        try:
            lines = open(f).read().split('\n')
        except OSError:
            continue
        for i, ln in enumerate(lines, 1):
            m = re.match(r'^\s*(?:H\((\w+)\)|.*extern "C" fn h_(\w+)\(|.*void h_(\w+)\()', ln)
            if m:
                cur = 'h_' + next(g for g in m.groups() if g)
            elif ln.startswith('}'):
                cur = None
            elif cur and re.search(r'\bVP_CHECK!?\(', ln) and 'VP_MAYBE' not in ln and not ln.strip().startswith('//'):
                exp.setdefault(cur, set()).add(i)
    return exp


def demangle(names):
    try:
        p = subprocess.run(['c++filt'], input='\n'.join(names), stdout=subprocess.PIPE, text=True)
        return p.stdout.split('\n')
    except OSError:
        return names


def load_spec(pid):
    path = os.path.join(ROOT, 'checks', pid, 'check.py')
    spec = importlib.util.spec_from_file_location('check_' + pid, path)
    m = importlib.util.module_from_spec(spec)
    m.Unit, m.E2E, m.RsE2E, m.BuildError, m.run = Unit, E2E, RsE2E, BuildError, run
    m.vp = sys.modules['__main__'] if __name__ == '__main__' else sys.modules[__name__]
    spec.loader.exec_module(m)
    return m


def known(pid):
    f = os.path.join(ROOT, 'known_findings.jsonl')
    out = []
    if os.path.exists(f):
        for ln in open(f):
            ln = ln.strip()
            if ln.startswith('{'):
                d = json.loads(ln)
                if d['property'] == pid:
                    out.append(d)
    return out


def check(pid):
    t0 = time.time()
    spec = load_spec(pid)
    tier = 'thorough' if TIER == 'thorough' else 'quick'
    budget = 780 if tier == 'quick' else 6 * 3600
    deadline = t0 + getattr(spec, 'QUICK_BUDGET', budget) if tier == 'quick' else t0 + budget
    units = spec.UNITS(tier) if callable(spec.UNITS) else spec.UNITS
    problems, tasks, suspects = [], [], []
    for u in units:
        u.prepare(pid)

    def b(u):
        try:
            u.build()
            u.native('plain')
            return u, None
        except BuildError as e:
            return u, e
    with cf.ThreadPoolExecutor(4) as ex:
        for u, e in ex.map(b, units):
            if e is not None:
                if getattr(e, 'suspect', None):
                    suspects.append((u, e))
                else:
                    problems.append('build of %s failed: %s' % (u.name, e))
                continue
            try:
                import irparse
                with open(u.ll) as f:
                    _mods[u.ll] = irparse.parse_module(f.read())
            except Exception:
                problems.append('parse of %s: %s' % (u.ll, traceback.format_exc(limit=4)))
                continue
            for h in u.harnesses:
                if h.startswith('h_t_') and tier == 'quick':
                    continue
                if u.only and h not in u.only:
                    continue
                lim = dict(u.limits.get('*', {}))
                lim.update(u.limits.get(h, {}))
                if 'skip' in lim:
                    continue
                tasks.append((u, (u.ll, h, lim, deadline)))
    if not tasks and not suspects:
        problems.append('no harness')
    tb = time.time() - t0
    tasks.sort(key=lambda t: -t[1][2].pop('prio', 0) if 'prio' in t[1][2] else 0)
    results = run_tasks(tasks, JOBS, known(pid))

    tot = dict(paths=0, steps=0, queries=0, solver_s=0.0, forks=0, asserts=0, asserts_proved=0, discharged_queries=0)
    viols, validated, funcs, samples, per = [], 0, set(), [], {}
    for u, r in results:
        for k in tot:
            tot[k] += r['stats'].get(k, 0)
        funcs |= set(r['funcs'])
        per[r['harness']] = dict(paths=r['stats'].get('paths', 0), queries=r['stats'].get('queries', 0),
                                 asserts=r['stats'].get('asserts', 0), steps=r['stats'].get('steps', 0),
                                 solver_s=round(r['stats'].get('solver_s', 0), 2), wall_s=round(r['wall'], 2))
        if r['error']:
            problems.append('%s: %s' % (r['harness'], r['error']))
        for v in r['violations']:
            viols.append((u, r['harness'], v))
        if not r['error'] and not r['violations'] and not (r['stats']['asserts'] or r['aborts']):
            problems.append('%s: vacuous (no assertion evaluated)' % r['harness'])
    # every assertion of a harness that ran must have been reached by some path
    for u in units:
        if not hasattr(u, 'harnesses'):
            continue
        exp = harness_text(u)
        for uu, r in results:
            if uu is u and not r['error'] and not r['violations']:
                miss = exp.get(r['harness'], set()) - set(r['asserted'])
                if miss:
                    problems.append('%s: assertions at lines %s never reached' % (r['harness'], sorted(miss)))
    # validate the encoding: replay a model of every logged path natively
    for u in units:
        tr = [(r['harness'], p) for uu, r in results if uu is u for p in r['path_log']]
        if not tr:
            continue
        try:
            res = u.replay([(h, [x for _, x in p['inputs']]) for h, p in tr])
        except (BuildError, subprocess.TimeoutExpired) as e:
            problems.append('replay failed: %s' % e)
            continue
        for (h, p), (end, ea, outs, det) in zip(tr, res):
            want = 'ok' if p['end'] == 'return' else 'abort'
            same = end == want and all(a is None or a == b for a, b in zip(p['outs'], outs)) and (
                want == 'abort' or len(outs) == len(p['outs']))
            if not same:
                msg = '%s: model and native run differ on %s: model %s %s, native %s %s %s' % (
                    h, p['inputs'][:40], p['end'], p['outs'][:20], end, outs[:20], det)
                if end in ('assert', 'memory', 'signal', 'hang') or (end == 'abort' and not ea):
                    viols.append((u, h, dict(what='native run fails where the model passes: %s %s' % (end, det),
                                             inputs=p['inputs'], where=[])))
                problems.append(msg)
            else:
                validated += 1
                if len(samples) < 6:
                    samples.append(dict(harness=h, inputs=[x for _, x in p['inputs']][:32], outputs=outs[:16], end=end))

    confirmed, finds = [], []
    kn = known(pid)
    rdir = os.path.join(BUILD, 'replay')
    os.makedirs(rdir, exist_ok=True)
    for i, (u, e) in enumerate(suspects):
        f = os.path.join(rdir, '%s-build-%d.txt' % (pid, i))
        write(f, str(e))
        errs = [x for x in str(e).splitlines() if "error" in x]
        confirmed.append((u.name, "%s: %s" % (e.suspect, errs[0][:300] if errs else ""), f))
    seen = set()
    for u, h, v in viols:
        key = (h, v['what'])
        if key in seen:
            continue
        vals = [x for _, x in v['inputs']]
        how = None
        for mode, lim in (('plain', 10), ('asan', 20), ('val', 60)):
            try:
                (end, ea, outs, det), = u.replay([(h, vals)], mode, lim)
            except (BuildError, subprocess.TimeoutExpired) as e:
                problems.append('%s: replay in mode %s failed: %s' % (h, mode, e))
                continue
            if end in ('memory', 'signal', 'hang') or (mode == 'plain' and (
                    end == 'assert' or (end == 'abort' and not ea))):
                how = '%s: %s %s' % (mode, end, det)
                break
        if how is None:
            problems.append('%s: counterexample does not reproduce natively: %s inputs %s at %s' % (
                h, v['what'], vals[:60], v['where']))
            continue
        seen.add(key)
        k = next((k for k in kn if k['harness'] == h and re.search(k['match'], v['what'])), None)
        if k:
            finds.append(k)
            continue
        f = os.path.join(rdir, '%s-%s-%d.json' % (pid, h, len(confirmed)))
        with open(f, 'w') as fh:
            json.dump(dict(property=pid, unit=u.name, harness=h, what=v['what'], inputs=v['inputs'], native=how,
                           mode=mode, command='python3-vt %s/vpdrive.py replay %s' % (ROOT, f)), fh, indent=1)
        confirmed.append((h, v['what'] + ' [' + how + ']', f))

    wall = time.time() - t0
    ev = dict(property=pid, tier=tier, seed=SEED, level='model_checking', wall_s=round(wall, 2),
              violations=len(confirmed),
              coverage=dict(
                  states=tot['paths'] + tot['forks'], transitions=tot['steps'],
                  traces_validated_against_impl=validated, samples=samples or [dict(note='no path completed')],
                  paths=tot['paths'], assertions_evaluated=tot['asserts'], assertions_proved=tot['asserts_proved'],
                  solver_queries=tot['queries'], solver_s=round(tot['solver_s'], 2), build_s=round(tb, 2),
                  functions_encoded=len(funcs), function_names=sorted(set(demangle(sorted(funcs))))[:300],
                  harnesses=per, bounds=getattr(spec, 'BOUNDS', ''), problems=problems[:20],
                  known_findings=[k['what'] for k in finds]),
              assumptions=getattr(spec, 'ASSUMPTIONS', []))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k in {json.dumps(k) for k in finds}:
        print('KNOWN-FINDING: property=%s %s' % (pid, json.loads(k)['what']))
    for p in problems:
        print('PROBLEM', p[:3000], file=sys.stderr)
    print('%s %s: %d harnesses, %d paths, %d assertions (%d proved), %d queries, %.1f s solver, %d traces replayed, '
          '%.1f s' % (pid, tier, len(results), tot['paths'], tot['asserts'], tot['asserts_proved'], tot['queries'],
                      tot['solver_s'], validated, wall))
    if confirmed:
        for h, w, f in confirmed[:10]:
            print('  %s: %s' % (h, w))
        print('VIOLATION property=%s replay=%s' % (pid, confirmed[0][2]))
        return 1
    return 2 if problems else 0


def replay(path):
    d = json.load(open(path))
    spec = load_spec(d['property'])
    for u in (spec.UNITS(TIER) if callable(spec.UNITS) else spec.UNITS):
        if u.name == d['unit']:
            u.prepare(d['property'])
            u.build()
            print(u.replay([(d['harness'], [x for _, x in d['inputs']])], d.get('mode', 'plain'), 60))
            print(u.last_err[-4000:])


def setup():
    os.makedirs(BUILD, exist_ok=True)
    rc = 0
    for d in sorted(glob.glob(os.path.join(ROOT, 'checks', '*', 'check.py'))):
        pid = os.path.basename(os.path.dirname(d))
        try:
            spec = load_spec(pid)
            for u in (spec.UNITS('quick') if callable(spec.UNITS) else spec.UNITS):
                u.prepare(pid)
                u.build()
            print('built', pid, flush=True)
        except Exception as e:          # a check reports its own build failures
            print('setup of %s: %s' % (pid, str(e)[-1500:]), file=sys.stderr, flush=True)
            rc = 0
    return rc


if __name__ == '__main__':
    a = sys.argv[1:]
    if a[:1] == ['check']:
        sys.exit(check(a[1]))
    if a[:1] == ['replay']:
        sys.exit(replay(a[1]))
    if a[:1] == ['setup']:
        sys.exit(setup())
    sys.exit(__doc__)
