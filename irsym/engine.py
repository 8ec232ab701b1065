"""Bounded symbolic execution of LLVM IR, deciding branches and assertions with z3.

Inputs are bit-vector variables; memory is byte addressed; every object lives at a
fixed 64-bit address with red zones, so pointers are ordinary bit-vectors.  A path
forks when both outcomes of a branch are satisfiable.  An assertion is discharged
only by an unsat answer for (path condition and not assertion).  Whatever the
executor does not model raises Unsupported, and a spent budget raises Budget:
neither is ever counted as success.
"""
import bisect
import os
import pickle
import re
import time
import traceback

import z3

from irparse import parse_inst, VOID

BV = z3.BitVecVal
z3.set_param('smt.random_seed', 1)


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


class PathEnd(Exception):
    def __init__(self, kind, info=''):
        self.kind, self.info = kind, info


class Undef:
    __slots__ = ()

    def __repr__(self):
        return 'UNDEF'


UNDEF = Undef()
M64 = (1 << 64) - 1
is_expr = z3.is_expr


def mask(w):
    return (1 << w) - 1


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


class Obj:
    __slots__ = ('base', 'size', 'cells', 'kind', 'alive', 'owner', 'align', 'ro', 'name')

    def __init__(self, base, size, kind, align=1, name=''):
        self.base, self.size, self.kind, self.alive = base, size, kind, True
        self.cells = [None] * size
        self.owner = None
        self.align = align
        self.ro = False
        self.name = name

    def clone(self, owner):
        o = Obj.__new__(Obj)
        o.base, o.size, o.kind, o.alive, o.align, o.ro, o.name = (
            self.base, self.size, self.kind, self.alive, self.align, self.ro, self.name)
        o.cells = list(self.cells)
        o.owner = owner
        return o


class Frame:
    __slots__ = ('fn', 'env', 'block', 'prev', 'ip', 'allocas', 'dest', 'ret_ty', 'normal')

    def __init__(self, fn):
        self.fn, self.env, self.block, self.prev, self.ip = fn, {}, fn.order[0], None, 0
        self.allocas, self.dest, self.ret_ty, self.normal = [], None, None, None

    def clone(self):
        f = Frame.__new__(Frame)
        f.fn, f.env, f.block, f.prev, f.ip = self.fn, dict(self.env), self.block, self.prev, self.ip
        f.allocas, f.dest, f.ret_ty, f.normal = list(self.allocas), self.dest, self.ret_ty, self.normal
        return f


class State:
    __slots__ = ('pickq', 'frames', 'mem', 'bases', 'next', 'pc', 'model', 'inputs', 'outs', 'id', 'expect_abort',
                 'reached', 'steps', 'glob', 'undefs', 'nalloc', 'freed')
    _n = 0

    def __init__(self):
        State._n += 1
        self.id = State._n
        self.frames, self.mem, self.bases, self.next = [], {}, [], 0x10000
        self.pc, self.model, self.inputs, self.outs = [], Mdl({}), [], []
        self.expect_abort = False
        self.reached = set()
        self.steps = 0
        self.glob = {}
        self.undefs = 0
        self.nalloc = 0
        self.pickq = None

    def clone(self):
        s = State.__new__(State)
        State._n += 1
        s.id = State._n
        State._n += 1
        self.id = State._n      # both sides lose ownership of shared objects
        s.frames = [f.clone() for f in self.frames]
        s.mem, s.bases, s.next = dict(self.mem), list(self.bases), self.next
        s.pc, s.model = list(self.pc), self.model
        s.inputs, s.outs = list(self.inputs), list(self.outs)
        s.expect_abort, s.reached, s.steps = self.expect_abort, set(self.reached), self.steps
        s.glob = dict(self.glob)
        s.undefs = self.undefs
        s.nalloc = self.nalloc
        s.pickq = self.pickq
        return s


FN_BASE = 0x7f0000000000

PANIC = re.compile(
    r'panick|panic_|_panic|handle_alloc_error|unwrap_failed|expect_failed|_fail\b|slice_.*fail|__throw_|^abort$|'
    r'_ZSt9terminatev|^exit$|_exit$|__assert_fail|pure_virtual|begin_unwind|invalid_enum|len_mismatch_fail|'
    r'capacity_overflow|alloc_error|check_fail|CheckFail|LogMessageFatal')
# Rust's own checks for undefined behaviour (null or misaligned dereference, unsafe preconditions).
UBPANIC = re.compile(r'panic_null_pointer_dereference|panic_misaligned_pointer_dereference|panicking\d*panic_nounwind')
RUSTPANIC = re.compile(r'rust_begin_unwind$|panic_invalid_enum_construction')
OSTREAM = re.compile(r'^_ZNSo|^_ZStls|^_ZSt16__ostream_insert|^_ZNKSo|^_ZSt4endl|^_ZSt5flush')


class Mdl:
    """A total assignment (missing variables are 0/false), with a lazily built z3 model."""
    __slots__ = ('vals', 'm')

    def __init__(self, vals):
        self.vals, self.m = vals, None

    def eval(self, e, model_completion=True):
        if self.m is None:
            m = z3.Model()
            for x, v in self.vals.values():
                m.update_value(x, v)
            self.m = m
        return self.m.eval(e, model_completion=True)


class Engine:
    def __init__(self, mod, max_paths=20000, max_steps=400000, deadline=None, solver_timeout_ms=60000,
                 max_total_steps=50_000_000):
        self.mod = mod
        self.icache = {}
        self.max_paths, self.max_steps, self.deadline = max_paths, max_steps, deadline
        self.max_total_steps = max_total_steps
        self.tmo = solver_timeout_ms
        self.fn_addr, self.addr_fn = {}, {}
        for i, n in enumerate(sorted(mod.funcs)):
            a = FN_BASE + 16 * i
            self.fn_addr[n] = a
            self.addr_fn[a] = n
        self.stats = dict(paths=0, steps=0, queries=0, solver_s=0.0, forks=0, asserts=0, asserts_proved=0,
                          discharged_queries=0, solver_calls=0)
        self.funcs_seen = set()
        self.violations = []
        self.reached = set()
        self.path_log = []
        self.abort_paths = 0
        self.nvar = 0
        self.asserted = set()

    # ---------------------------------------------------------------- solver
    def reset_solver(self):
        self.qcache = {}
        self.fp = False    # whether floating-point terms may occur
        self.fvs = {}
        self.keep = []

    def free_vars(self, e):
        """ids of the uninterpreted constants in e (memoised over the DAG)"""
        i = e.get_id()
        r = self.fvs.get(i)
        if r is not None:
            return r
        stack = [e]
        fvs, keep = self.fvs, self.keep
        while stack:
            x = stack[-1]
            xi = x.get_id()
            if xi in fvs:
                stack.pop()
                continue
            ch = x.children()
            if not ch:
                fvs[xi] = frozenset((xi,)) if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED \
                    else frozenset()
                keep.append(x)
                stack.pop()
                continue
            todo = [c for c in ch if c.get_id() not in fvs]
            if todo:
                stack.extend(todo)
                continue
            sets = {fvs[c.get_id()] for c in ch}
            fvs[xi] = next(iter(sets)) if len(sets) == 1 else frozenset().union(*sets)
            keep.append(x)
            stack.pop()
        return fvs[i]

    def slice(self, st, cond):
        """the path constraints that share variables, transitively, with cond"""
        vs = set(self.free_vars(cond))
        rest = [(c, self.free_vars(c)) for c in st.pc]
        out = []
        while True:
            nxt = []
            hit = False
            for c, f in rest:
                if f & vs:
                    out.append(c)
                    if not f <= vs:
                        vs |= f
                        hit = True
                else:
                    nxt.append((c, f))
            rest = nxt
            if not hit:
                return out

    def check(self, st, cond):
        """'sat' (sets self.last_model) / 'unsat' for pc and cond.  st.pc is satisfiable (st.model satisfies it),
        so only the constraints connected to cond matter."""
        if self.deadline and time.time() > self.deadline:
            raise Budget('time')
        cs = self.slice(st, cond)
        key = (cond.get_id(), frozenset(c.get_id() for c in cs))
        hit = self.qcache.get(key)
        self.stats['queries'] += 1
        if hit is None:
            t = time.time()
            sv = z3.SolverFor('QF_FPBV' if self.fp else 'QF_BV')
            sv.set('timeout', self.tmo)
            sv.add(*cs)
            sv.add(cond)
            r = sv.check()
            if r == z3.unknown:
                sv = z3.Solver()
                sv.set('timeout', self.tmo)
                sv.add(*cs)
                sv.add(cond)
                r = sv.check()
            self.stats['solver_s'] += time.time() - t
            self.stats['solver_calls'] += 1
            if r == z3.unknown:
                raise Budget('solver gave unknown')
            vals = None
            if r == z3.sat:
                m = sv.model()
                vals = {}
                for d in m.decls():
                    if d.arity() == 0:
                        x = d()
                        vals[x.get_id()] = (x, m[d])
                # variables of the slice the solver left open
            hit = (r == z3.sat, vals, (cond, cs))
            self.qcache[key] = hit
        if not hit[0]:
            return 'unsat'
        v = dict(st.model.vals)
        v.update(hit[1])
        # slice variables missing from the model are unconstrained there: pin them to the completion value
        for i in self.free_vars(cond):
            if i not in hit[1]:
                v.pop(i, None)
        for c in hit[2][1]:
            for i in self.free_vars(c):
                if i not in hit[1]:
                    v.pop(i, None)
        self.last_model = Mdl(v)
        return 'sat'

    def meval(self, st, e):
        return st.model.eval(e, model_completion=True)

    def add_pc(self, st, c):
        st.pc.append(c)

    def branch(self, st, cond):
        """Decides cond (python bool/int or z3 Bool).  Forks when both are possible: the clone
        re-executes the current instruction with the negation assumed."""
        if not is_expr(cond):
            return bool(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        v = z3.is_true(self.meval(st, cond))
        other = z3.Not(cond) if v else cond
        if self.check(st, other) == 'unsat':
            return v
        m = self.last_model
        alt = st.clone()
        alt.pc.append(other)
        alt.model = m
        self.work.append(alt)
        self.stats['forks'] += 1
        if len(self.work) + self.stats['paths'] > self.max_paths:
            raise Budget('paths')
        st.pc.append(cond if v else z3.Not(cond))
        return v

    def concretize(self, st, e):
        if not is_expr(e):
            return e
        e = z3.simplify(e)
        if z3.is_bv_value(e):
            return e.as_long()
        v = self.meval(st, e)
        self.branch(st, e == v)
        return v.as_long()

    def fresh(self, w, tag):
        self.nvar += 1
        n = '%s_%d' % (tag, self.nvar)
        return z3.Bool(n) if w == 1 else z3.BitVec(n, w)

    # ---------------------------------------------------------------- values
    def bv(self, v, w):
        """value -> z3 BV of width w (w may be 1: then from Bool)"""
        if v is UNDEF:
            v = self.fresh(w, 'undef')
        if not is_expr(v):
            return BV(v, w)
        if z3.is_bool(v):
            return z3.If(v, BV(1, w), BV(0, w))
        return v

    def bool_(self, v):
        if v is UNDEF:
            return self.fresh(1, 'undef')
        if is_expr(v):
            if z3.is_bool(v):
                return v
            return v == 1
        return bool(v & 1)

    @staticmethod
    def norm(e):
        """z3 constant -> python int"""
        if is_expr(e):
            if z3.is_bv_value(e):
                return e.as_long()
            if z3.is_true(e):
                return 1
            if z3.is_false(e):
                return 0
        return e

    def binop(self, op, w, a, b, st):
        if a is UNDEF and b is UNDEF:
            return UNDEF
        ia, ib = not is_expr(a) and a is not UNDEF, not is_expr(b) and b is not UNDEF
        if w == 1:
            return self.binop1(op, a, b)
        if ia and ib:
            m = mask(w)
            if op == 'add':
                return (a + b) & m
            if op == 'sub':
                return (a - b) & m
            if op == 'mul':
                return (a * b) & m
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op == 'shl':
                return UNDEF if b >= w else (a << b) & m
            if op == 'lshr':
                return UNDEF if b >= w else a >> b
            if op == 'ashr':
                return UNDEF if b >= w else (sgn(a, w) >> b) & m
            if op in ('udiv', 'urem', 'sdiv', 'srem'):
                if b == 0:
                    raise PathEnd('violation', 'division by zero')
                if op == 'udiv':
                    return a // b
                if op == 'urem':
                    return a % b
                x, y = sgn(a, w), sgn(b, w)
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0):
                    q = -q
                return (q if op == 'sdiv' else x - q * y) & m
        # cheap identities
        if ib:
            if op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr') and b == 0:
                return a
            if op == 'and':
                if b == 0:
                    return 0
                if b == mask(w):
                    return a
            if op == 'mul':
                if b == 0:
                    return 0
                if b == 1:
                    return a
        if ia:
            if op in ('add', 'or', 'xor') and a == 0:
                return b
            if op in ('and', 'mul') and a == 0:
                return 0
        x, y = self.bv(a, w), self.bv(b, w)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            if not ib and self.branch(st, y == 0):
                raise PathEnd('violation', 'division by zero')
        r = {
            'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: x & y,
            'or': lambda: x | y, 'xor': lambda: x ^ y, 'shl': lambda: x << y,
            'lshr': lambda: z3.LShR(x, y), 'ashr': lambda: x >> y, 'udiv': lambda: z3.UDiv(x, y),
            'urem': lambda: z3.URem(x, y), 'sdiv': lambda: x / y, 'srem': lambda: z3.SRem(x, y),
        }[op]()
        return r

    def binop1(self, op, a, b):
        ia, ib = not is_expr(a) and a is not UNDEF, not is_expr(b) and b is not UNDEF
        if ia and ib:
            return {'and': a & b, 'or': a | b, 'xor': a ^ b, 'add': a ^ b, 'sub': a ^ b, 'mul': a & b}[op]
        if op in ('and', 'mul'):
            if (ia and a == 0) or (ib and b == 0):
                return 0
            if ia:
                return b
            if ib:
                return a
            return z3.And(self.bool_(a), self.bool_(b))
        if op == 'or':
            if (ia and a == 1) or (ib and b == 1):
                return 1
            if ia:
                return b
            if ib:
                return a
            return z3.Or(self.bool_(a), self.bool_(b))
        if op in ('xor', 'add', 'sub'):
            if ia:
                return b if a == 0 else z3.Not(self.bool_(b))
            if ib:
                return a if b == 0 else z3.Not(self.bool_(a))
            return z3.Xor(self.bool_(a), self.bool_(b))
        raise Unsupported('i1 op ' + op)

    def icmp(self, pred, w, a, b):
        ia, ib = not is_expr(a) and a is not UNDEF, not is_expr(b) and b is not UNDEF
        if ia and ib:
            if pred[0] == 's':
                a, b = sgn(a, w), sgn(b, w)
                pred = 'u' + pred[1:]
            return int({'eq': a == b, 'ne': a != b, 'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b}[pred])
        if a is b and is_expr(a):
            return int(pred in ('eq', 'ule', 'uge', 'sle', 'sge'))
        if w == 1:
            x, y = self.bool_(a), self.bool_(b)
            x = z3.BoolVal(x) if isinstance(x, bool) else x
            y = z3.BoolVal(y) if isinstance(y, bool) else y
            if pred == 'eq':
                return self.norm(z3.simplify(x == y))
            if pred == 'ne':
                return self.norm(z3.simplify(x != y))
            x, y = z3.If(x, BV(1, 1), BV(0, 1)), z3.If(y, BV(1, 1), BV(0, 1))
        else:
            # If(c, k1, k2) ==/!= const
            if ib and pred in ('eq', 'ne') and is_expr(a) and z3.is_app_of(a, z3.Z3_OP_ITE):
                c, t, e = a.children()
                if z3.is_bv_value(t) and z3.is_bv_value(e):
                    tt, ee = t.as_long() == b, e.as_long() == b
                    r = 1 if tt and ee else 0 if not tt and not ee else c if tt else z3.Not(c)
                    if pred == 'ne':
                        r = 1 - r if not is_expr(r) else z3.Not(r)
                    return r
            x, y = self.bv(a, w), self.bv(b, w)
        r = {
            'eq': lambda: x == y, 'ne': lambda: x != y, 'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y),
            'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y), 'slt': lambda: x < y, 'sle': lambda: x <= y,
            'sgt': lambda: x > y, 'sge': lambda: x >= y}[pred]()
        return r

    def width(self, t):
        t = self.mod.resolve(t)
        if t[0] in ('i', 'f'):
            return t[1]
        if t[0] == 'ptr':
            return 64
        raise Unsupported('scalar width of %r' % (t,))

    def cast(self, op, ft, a, tt):
        ft, tt = self.mod.resolve(ft), self.mod.resolve(tt)
        if ft[0] == 'vec' and op not in ('bitcast',):
            return [self.cast(op, ft[2], x, tt[2]) for x in self.elems(a, ft)]
        if op == 'bitcast' and ft[0] == 'vec' and self.mod.resolve(ft[2]) == ('i', 1):
            bits = [self.bool_(b) for b in self.elems(a, ft)]
            if not any(is_expr(b) for b in bits):
                v = sum(int(b) << i for i, b in enumerate(bits))
            else:
                v = z3.simplify(z3.Concat(*[self.bv(b if is_expr(b) else int(b), 1) for b in reversed(bits)]))
            n = len(bits)
            return v if tt == ('i', n) else self.cast('bitcast', ('i', n), v, tt)
        if op == 'bitcast' and tt[0] == 'vec' and self.mod.resolve(tt[2]) == ('i', 1):
            n = tt[1]
            if ft != ('i', n):
                a = self.cast('bitcast', ft, a, ('i', n))
            return [self.cast('trunc', ('i', n), self.binop('lshr', n, a, i, None), ('i', 1)) for i in range(n)]
        if op == 'bitcast' and (ft[0] == 'vec' or tt[0] == 'vec'):
            cells = self.to_cells(a, ft)
            return self.from_cells(cells, tt)
        if op in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast', 'ptrtoaddr'):
            wf, wt = self.width(ft), self.width(tt)
            if wf == wt:
                return a
            op = 'trunc' if wt < wf else 'zext'
        if a is UNDEF:
            if op == 'trunc':
                return UNDEF
            a = self.fresh(self.width(ft), 'undef')
        wf, wt = self.width(ft), self.width(tt)
        if op == 'trunc':
            if not is_expr(a):
                return a & mask(wt)
            if wt == 1:
                if z3.is_app_of(a, z3.Z3_OP_ITE):
                    c, t, e = a.children()
                    if z3.is_bv_value(t) and z3.is_bv_value(e):
                        x, y = t.as_long() & 1, e.as_long() & 1
                        return x if x == y else (c if x else z3.Not(c))
                return z3.Extract(0, 0, a) == 1
            return z3.Extract(wt - 1, 0, a)
        if op == 'zext':
            if not is_expr(a):
                return a
            if wf == 1:
                return z3.If(self.bool_(a), BV(1, wt), BV(0, wt))
            return z3.ZeroExt(wt - wf, a)
        if op == 'sext':
            if not is_expr(a):
                return sgn(a, wf) & mask(wt)
            if wf == 1:
                return z3.If(self.bool_(a), BV(mask(wt), wt), BV(0, wt))
            return z3.SignExt(wt - wf, a)
        # floats
        self.fp = True
        rm = z3.RNE()
        srt = {16: z3.Float16(), 32: z3.Float32(), 64: z3.Float64()}
        if op in ('uitofp', 'sitofp'):
            x = self.bv(a, wf)
            r = z3.fpToFPUnsigned(rm, x, srt[wt]) if op == 'uitofp' else z3.fpSignedToFP(rm, x, srt[wt])
            return self.norm(z3.simplify(z3.fpToIEEEBV(r)))
        x = z3.fpBVToFP(self.bv(a, wf), srt[wf])
        if op in ('fpext', 'fptrunc'):
            return self.norm(z3.simplify(z3.fpToIEEEBV(z3.fpFPToFP(rm, x, srt[wt]))))
        if op == 'fptosi':
            return self.norm(z3.simplify(z3.fpToSBV(z3.RTZ(), x, z3.BitVecSort(wt))))
        if op == 'fptoui':
            return self.norm(z3.simplify(z3.fpToUBV(z3.RTZ(), x, z3.BitVecSort(wt))))
        raise Unsupported('cast ' + op)

    def fbin(self, op, w, a, b):
        self.fp = True
        srt = {16: z3.Float16(), 32: z3.Float32(), 64: z3.Float64()}[w]
        x, y = z3.fpBVToFP(self.bv(a, w), srt), z3.fpBVToFP(self.bv(b, w), srt)
        rm = z3.RNE()
        r = {'fadd': lambda: z3.fpAdd(rm, x, y), 'fsub': lambda: z3.fpSub(rm, x, y),
             'fmul': lambda: z3.fpMul(rm, x, y), 'fdiv': lambda: z3.fpDiv(rm, x, y),
             'frem': lambda: z3.fpRem(x, y)}[op]()
        return self.norm(z3.simplify(z3.fpToIEEEBV(r)))

    def fcmp(self, pred, w, a, b):
        if pred in ('true', 'false'):
            return int(pred == 'true')
        # on the bit patterns (IEEE ordering), which keeps comparisons inside the bit-vector theory
        x, y = self.bv(a, w), self.bv(b, w)
        top = 1 << (w - 1)
        inf = {16: 0x7c00, 32: 0x7f800000, 64: 0x7ff << 52}[w]
        nan = lambda t: z3.UGT(t & (top - 1), inf)
        un = z3.Or(nan(x), nan(y))
        if pred == 'ord':
            r = z3.Not(un)
        elif pred == 'uno':
            r = un
        else:
            zz = ((x | y) & (top - 1)) == 0
            eq = z3.Or(x == y, zz)
            neg = lambda t: z3.Extract(w - 1, w - 1, t) == 1
            less = lambda p, q: z3.If(neg(p), z3.If(neg(q), z3.UGT(p, q), z3.Not(zz)), z3.And(z3.Not(neg(q)), z3.ULT(p, q)))
            c = {'eq': lambda: eq, 'ne': lambda: z3.Not(eq), 'lt': lambda: less(x, y), 'le': lambda: z3.Or(eq, less(x, y)),
                 'gt': lambda: less(y, x), 'ge': lambda: z3.Or(eq, less(y, x))}[pred[1:]]()
            r = z3.And(z3.Not(un), c) if pred[0] == 'o' else z3.Or(un, c)
        return self.norm(z3.simplify(r))

    def elems(self, v, t):
        if v is UNDEF:
            n = t[1] if t[0] in ('arr', 'vec') else len(t[1])
            return [UNDEF] * n
        return v

    def zero(self, t):
        t = self.mod.resolve(t)
        if t[0] in ('i', 'f', 'ptr'):
            return 0
        if t[0] in ('arr', 'vec'):
            return [self.zero(t[2])] * t[1]
        if t[0] == 'st':
            return [self.zero(e) for e in t[1]]
        raise Unsupported('zero %r' % (t,))

    # ---------------------------------------------------------------- memory
    def alloc(self, st, size, kind, align=1, name=''):
        align = max(align, 16)
        base = (st.next + align - 1) // align * align
        st.next = base + size + 64
        o = Obj(base, size, kind, align, name)
        o.owner = st.id
        st.mem[base] = o
        st.bases.append(base)
        return o

    def find(self, st, a):
        i = bisect.bisect_right(st.bases, a) - 1
        if i < 0:
            return None
        o = st.mem[st.bases[i]]
        if a <= o.base + o.size:
            return o
        return None

    def own(self, st, o):
        if o.owner != st.id:
            o = o.clone(st.id)
            st.mem[o.base] = o
        return o

    def resolve(self, st, addr, n, write=False):
        """-> (obj, offset) with a python-int offset or a BV offset known to be in bounds."""
        if addr is UNDEF:
            raise PathEnd('violation', 'memory access through an uninitialised pointer')
        if is_expr(addr):
            addr = z3.simplify(addr)
            if z3.is_bv_value(addr):
                addr = addr.as_long()
        if not is_expr(addr):
            o = self.find(st, addr)
            if o is None or addr + n > o.base + o.size:
                raise PathEnd('violation', 'out-of-bounds %s of %d byte(s) at %#x%s' % (
                    'write' if write else 'read', n, addr, '' if o is None else ' (object %s size %d offset %d)' % (
                        o.kind, o.size, addr - o.base)))
            if not o.alive:
                raise PathEnd('violation', 'use after free/scope of %s object (size %d)' % (o.kind, o.size))
            if write and o.ro:
                raise PathEnd('violation', 'write to constant')
            return o, addr - o.base
        v = self.meval(st, addr).as_long()
        o = self.find(st, v)
        if o is None or v + n > o.base + o.size:
            # this model leaves the object: split it off as a violation
            if self.branch(st, addr == v):
                raise PathEnd('violation', 'out-of-bounds access at symbolic address')
        inb = z3.And(z3.UGE(addr, o.base), z3.ULE(addr, o.base + o.size - n))
        if not self.branch(st, inb):
            raise PathEnd('violation', 'out-of-bounds access at symbolic address')
        if not o.alive:
            raise PathEnd('violation', 'use after free of %s object' % o.kind)
        if write and o.ro:
            raise PathEnd('violation', 'write to constant')
        off = z3.simplify(addr - o.base)
        if z3.is_bv_value(off):
            return o, off.as_long()
        limit = 300 if write else 2048
        if o.size > limit:
            return o, self.concretize(st, off)
        return o, off

    def cell_expr(self, c):
        """cell -> 8-bit value (int or BV) ; UNDEF for None"""
        if c is None:
            return UNDEF
        if isinstance(c, int):
            return c
        e, i, n = c
        if n == 1:
            return e
        return z3.Extract(8 * i + 7, 8 * i, e)

    def join(self, cells):
        """list of cells (little endian) -> value of 8*len bits"""
        n = len(cells)
        c0 = cells[0]
        if type(c0) is int:
            v = 0
            for k in range(n - 1, -1, -1):
                c = cells[k]
                if type(c) is not int:
                    break
                v = v << 8 | c
            else:
                return v
        elif c0 is None:
            if all(c is None for c in cells):
                return UNDEF
        else:
            e, i, m = c0
            if i == 0 and m == n and all(
                    type(c) is tuple and c[0] is e and c[1] == k for k, c in enumerate(cells)):
                return e
        parts = []
        for c in reversed(cells):
            x = self.cell_expr(c)
            parts.append(self.bv(x, 8))
        r = parts[0] if n == 1 else z3.Concat(*parts)
        return self.norm(z3.simplify(r))

    def split(self, v, n):
        """value of 8*n bits -> cells"""
        if v is UNDEF:
            return [None] * n
        if not is_expr(v):
            return [(v >> (8 * i)) & 255 for i in range(n)]
        if z3.is_bool(v):
            v = z3.If(v, BV(1, 8 * n), BV(0, 8 * n))
        w = v.size()
        if w < 8 * n:
            v = z3.ZeroExt(8 * n - w, v)
        return [(v, i, n) for i in range(n)]

    def to_cells(self, v, t):
        t = self.mod.resolve(t)
        size, _ = self.mod.size_align(t)
        if t[0] in ('i', 'f', 'ptr'):
            n = (self.width(t) + 7) // 8
            return self.split(v, n) + [None] * (size - n)
        if v is UNDEF:
            return [None] * size
        if t[0] in ('arr', 'vec'):
            if t[0] == 'vec' and t[2] == ('i', 1):
                # packed, first element in the lowest bit
                return self.to_cells(self.cast('bitcast', t, v, ('i', t[1])), ('i', t[1]))[:(t[1] + 7) // 8] + [None] * (size - (t[1] + 7) // 8)
            out = []
            for x in v:
                out += self.to_cells(x, t[2])
            return out + [None] * (size - len(out))
        if t[0] == 'st':
            out = [None] * size
            for x, e, off in zip(v, t[1], self.mod.offsets(t)):
                c = self.to_cells(x, e)
                out[off:off + len(c)] = c
            return out
        raise Unsupported('store of %r' % (t,))

    def from_cells(self, cells, t):
        t = self.mod.resolve(t)
        if t[0] in ('i', 'f', 'ptr'):
            w = self.width(t)
            n = (w + 7) // 8
            v = self.join(cells[:n])
            if w % 8 or w == 1:
                return self.cast('trunc', ('i', 8 * n), v, ('i', w)) if w != 8 * n else v
            return v
        if t[0] == 'vec' and t[2] == ('i', 1):
            return self.cast('bitcast', ('i', t[1]), self.from_cells(cells, ('i', t[1])), t)
        if t[0] in ('arr', 'vec'):
            es = self.mod.size_align(t[2])[0]
            return [self.from_cells(cells[i * es:(i + 1) * es], t[2]) for i in range(t[1])]
        if t[0] == 'st':
            return [self.from_cells(cells[o:o + self.mod.size_align(e)[0]], e)
                    for e, o in zip(t[1], self.mod.offsets(t))]
        raise Unsupported('load of %r' % (t,))

    def read_cells(self, st, addr, n):
        if n == 0:
            return []
        o, off = self.resolve(st, addr, n)
        if not is_expr(off):
            return o.cells[off:off + n]
        if o.ro and n <= 8 and o.size <= 4096:
            # constant table with few distinct entries: one path per entry keeps lengths and positions concrete
            vals = {}
            for i in range(0, o.size - n + 1):
                c = o.cells[i:i + n]
                if not all(type(x) is int for x in c):
                    vals = None
                    break
                vals.setdefault(tuple(c), []).append(i)
                if len(vals) > 8:
                    vals = None
                    break
            if vals:
                for k, (c, idx) in enumerate(vals.items()):
                    if k == len(vals) - 1:
                        return list(c)
                    runs, cond = [], None
                    for i in idx:
                        if runs and runs[-1][1] == i - 1:
                            runs[-1][1] = i
                        else:
                            runs.append([i, i])
                    cond = z3.Or(*[z3.And(z3.UGE(off, a), z3.ULE(off, b)) for a, b in runs])
                    if self.branch(st, cond):
                        return list(c)
        out = []
        for k in range(n):
            r = None
            i = o.size - n
            while i >= 0:
                c = o.cells[i + k]
                x = self.bv(self.cell_expr(c), 8)
                j = i
                if type(c) is int:      # one range test per run of equal constants
                    while j > 0 and o.cells[j - 1 + k] == c:
                        j -= 1
                r = x if r is None else z3.If(z3.UGE(off, j) if j < i else off == i, x, r) if r is None or j == i \
                    else z3.If(z3.And(z3.UGE(off, j), z3.ULE(off, i)), x, r)
                i = j - 1
            out.append((r, 0, 1) if not z3.is_bv_value(r) else r.as_long())
        return out

    def write_cells(self, st, addr, cells):
        n = len(cells)
        if n == 0:
            return
        o, off = self.resolve(st, addr, n, True)
        o = self.own(st, o)
        if not is_expr(off):
            o.cells[off:off + n] = cells
            return
        vals = [self.bv(self.cell_expr(c), 8) for c in cells]
        new = list(o.cells)
        for p in range(o.size):
            r = None
            for k in range(n):
                s = p - k
                if 0 <= s <= o.size - n:
                    if r is None:
                        r = self.bv(self.cell_expr(o.cells[p]), 8)
                    r = z3.If(off == s, vals[k], r)
            if r is not None:
                new[p] = (r, 0, 1)
        o.cells = new

    def load(self, st, addr, t):
        return self.from_cells(self.read_cells(st, addr, self.store_size(t)), t)

    def store_size(self, t):
        t = self.mod.resolve(t)
        if t[0] == 'i':
            return (t[1] + 7) // 8
        return self.mod.size_align(t)[0]

    def store(self, st, addr, v, t):
        c = self.to_cells(v, t)
        self.write_cells(st, addr, c[:self.store_size(t)])

    # ---------------------------------------------------------------- operands
    def glob_addr(self, st, name):
        a = st.glob.get(name)
        if a is not None:
            return a
        if name in self.fn_addr:
            return self.fn_addr[name]
        if name in self.mod.aliases:
            return self.op(st, None, self.mod.aliases[name], ('ptr',))
        if name not in self.mod.globals:
            raise Unsupported('global ' + name)
        t, init, const, al = self.mod.globals[name]
        size = self.mod.size_align(t)[0]
        if init is None:
            size = max(size, 64)
        o = self.alloc(st, size, 'global', al, name)
        st.glob[name] = o.base
        if init is not None:
            v = self.op(st, None, init, t)
            o = self.own(st, st.mem[o.base])
            c = self.to_cells(v, t)
            o.cells[:len(c)] = c
            o.ro = const
        return o.base

    def op(self, st, fr, o, t):
        k = o[0]
        if k == 'r':
            try:
                return fr.env[o[1]]
            except KeyError:
                raise Unsupported('register %s in %s' % (o[1], fr.fn.name))
        if k == 'c':
            return o[1]
        if k == 'g':
            return self.glob_addr(st, o[1])
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            return self.zero(t)
        if k == 'bytes':
            return list(o[1])
        if k == 'agg':
            return [self.op(st, fr, x, xt) for x, xt in zip(o[1], o[2])]
        if k == 'gep':
            return self.gep(st, fr, o[1], self.op(st, fr, o[2], ('ptr',)), o[3])
        if k == 'cast':
            return self.cast(o[1], o[2], self.op(st, fr, o[3], o[2]), o[4])
        if k == 'bin':
            return self.binop(o[1], self.width(o[2]), self.op(st, fr, o[3], o[2]), self.op(st, fr, o[4], o[2]), st)
        raise Unsupported('operand %r' % (o,))

    def gep(self, st, fr, sty, base, idx):
        if base is UNDEF:
            return UNDEF
        addr = base
        t = sty
        first = True
        for it, io in idx:
            iv = self.op(st, fr, io, it)
            if first:
                es = self.mod.size_align(t)[0]
                first = False
            else:
                t = self.mod.resolve(t)
                if t[0] == 'st':
                    addr = self.binop('add', 64, addr, self.mod.offsets(t)[iv], st)
                    t = t[1][iv]
                    continue
                t = t[2]
                es = self.mod.size_align(t)[0]
            if iv is UNDEF:
                return UNDEF
            w = self.width(it)
            if not is_expr(iv):
                d = (sgn(iv, w) * es) & M64
            else:
                x = iv if w == 64 else (z3.SignExt(64 - w, iv) if w < 64 else z3.Extract(63, 0, iv))
                d = x * es if es != 1 else x
            addr = self.binop('add', 64, addr, d, st)
        return addr

    # ---------------------------------------------------------------- running
    def insts(self, fn, block):
        key = (fn.name, block)
        r = self.icache.get(key)
        if r is None:
            r = [parse_inst(self.mod, s) for s in fn.blocks[block]]
            self.icache[key] = r
        return r

    def run(self, fname):
        fn = self.mod.funcs.get(fname)
        if fn is None or not fn.defined:
            raise Unsupported('no function ' + fname)
        self.reset_solver()
        st = State()
        st.frames.append(Frame(fn))
        self.funcs_seen.add(fname)
        self.work = [st]
        self.loop(time.time())
        return self

    fan_after, fan = 3.0, 8

    def loop(self, t0):
        while self.work:
            # breadth first until split over processes (even shares), depth first after
            st = self.work.pop(0) if self.fan else self.work.pop()
            self.cur = st
            self.run_path(st)
            if self.fan and len(self.work) >= 8 * self.fan and time.time() - t0 > self.fan_after:
                self.fan_out()
                return

    def result(self):
        return dict(stats=self.stats, violations=self.violations, path_log=self.path_log, funcs=self.funcs_seen,
                    asserted=self.asserted, reached=self.reached, aborts=self.abort_paths)

    def fan_out(self):
        """Splits the pending states over forked children and merges what they report.  A child that
        fails in any way (or dies) makes the whole run fail."""
        work, n = self.work, self.fan
        self.fan = 0
        kids = []
        for i in range(n):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    self.work = work[i::n]
                    for k in self.stats:
                        self.stats[k] = 0
                    self.violations, self.path_log, self.abort_paths = [], [], 0
                    err = None
                    try:
                        self.loop(0)
                    except StopIteration:
                        pass
                    except Budget as e:
                        err = ('budget', str(e))
                        if 'steps on one path' in str(e):
                            self.hang_report()
                    except Unsupported as e:
                        err = ('unsupported', str(e) + ' in ' + ' < '.join(
                            f.fn.name for f in reversed(self.cur.frames[-6:])))
                    except BaseException:
                        err = ('internal', traceback.format_exc(limit=6))
                    d = self.result()
                    d['error'] = err
                    b = pickle.dumps(d)
                    with os.fdopen(w, 'wb') as f:
                        f.write(b)
                finally:
                    os._exit(0)
            os.close(w)
            kids.append((pid, r))
        errs = []
        for pid, r in kids:
            with os.fdopen(r, 'rb') as f:
                b = f.read()
            os.waitpid(pid, 0)
            try:
                d = pickle.loads(b)
            except Exception:
                errs.append(('internal', 'a worker died'))
                continue
            for k, v in d['stats'].items():
                self.stats[k] += v
            self.violations += d['violations']
            self.path_log += d['path_log']
            self.funcs_seen |= d['funcs']
            self.asserted |= d['asserted']
            self.reached |= d['reached']
            self.abort_paths += d['aborts']
            if d['error']:
                errs.append(d['error'])
        self.work = []
        if errs:
            k, msg = errs[0]
            raise (Budget if k == 'budget' else Unsupported)(msg if k != 'internal' else 'internal: ' + msg)

    def hang_report(self):
        try:
            self.deadline = None
            self.report(self.cur, 'does not finish within %d steps' % self.max_steps)
        except BaseException:
            pass

    def run_path(self, st):
        try:
            while True:
                self.step(st)
        except PathEnd as e:
            if e.kind == 'infeasible':
                return
            self.stats['paths'] += 1
            self.reached |= st.reached
            if e.kind == 'violation':
                self.report(st, e.info)
                return
            if e.kind == 'abort':
                if not st.expect_abort:
                    self.report(st, 'reached ' + e.info)
                    return
                self.abort_paths += 1
            self.log_path(st, e.kind)

    def model_inputs(self, st, m):
        out = []
        for w, x in st.inputs:
            v = m.eval(x, model_completion=True)
            out.append((w, v.as_long() if not z3.is_bool(x) else int(z3.is_true(v))))
        return out

    def log_path(self, st, kind):
        if len(self.path_log) < 400:
            self.meval(st, z3.BoolVal(True))
            m = st.model
            outs = []
            for o in st.outs:
                if o is UNDEF:
                    outs.append(None)
                elif is_expr(o):
                    e = self.norm(m.eval(self.bv(o, 64), model_completion=True))
                    outs.append(e)
                else:
                    outs.append(o)
            self.path_log.append(dict(inputs=self.model_inputs(st, m), outs=outs, end=kind))

    def report(self, st, what, model=None):
        if model is None:
            self.meval(st, z3.BoolVal(True))
            model = st.model
        self.violations.append(dict(
            what=what, inputs=self.model_inputs(st, model), where=[f.fn.name for f in st.frames][-4:]))
        if self.deadline:  # one is enough to report: others are looked for only briefly
            self.deadline = min(self.deadline, time.time() + 40)
        if len(self.violations) > 25:
            raise StopIteration

    def step(self, st):
        fr = st.frames[-1]
        ins = self.insts(fr.fn, fr.block)[fr.ip]
        st.steps += 1
        self.stats['steps'] += 1
        if st.steps > self.max_steps:
            raise Budget('steps on one path')
        if self.stats['steps'] > self.max_total_steps:
            raise Budget('total steps')
        if self.deadline and not (self.stats['steps'] & 1023) and time.time() > self.deadline:
            raise Budget('time')
        getattr(self, 'i_' + ins[0])(st, fr, ins)

    def setv(self, fr, ins, v):
        if ins[1] is not None:
            fr.env[ins[1]] = v
        fr.ip += 1

    def vecmap(self, t, f, *vs):
        t = self.mod.resolve(t)
        if t[0] == 'vec':
            ls = [self.elems(v, t) for v in vs]
            return [f(t[2], *xs) for xs in zip(*ls)]
        return f(t, *vs)

    def i_bin(self, st, fr, ins):
        _, d, op, t, a, b, fl = ins
        a, b = self.op(st, fr, a, t), self.op(st, fr, b, t)
        if op[0] == 'f':
            r = self.vecmap(t, lambda e, x, y: self.fbin(op, e[1], x, y), a, b)
        else:
            r = self.vecmap(t, lambda e, x, y: self.binop(op, self.width(e), x, y, st), a, b)
        self.setv(fr, ins, r)

    def i_icmp(self, st, fr, ins):
        _, d, pred, t, a, b = ins
        a, b = self.op(st, fr, a, t), self.op(st, fr, b, t)
        self.setv(fr, ins, self.vecmap(t, lambda e, x, y: self.icmp(pred, self.width(e), x, y), a, b))

    def i_fcmp(self, st, fr, ins):
        _, d, pred, t, a, b = ins
        a, b = self.op(st, fr, a, t), self.op(st, fr, b, t)
        self.setv(fr, ins, self.vecmap(t, lambda e, x, y: self.fcmp(pred, e[1], x, y), a, b))

    def i_fneg(self, st, fr, ins):
        _, d, t, a = ins
        a = self.op(st, fr, a, t)
        self.setv(fr, ins, self.vecmap(t, lambda e, x: self.binop('xor', e[1], x, 1 << (e[1] - 1), st), a))

    def i_cast(self, st, fr, ins):
        _, d, op, ft, a, tt = ins
        self.setv(fr, ins, self.cast(op, ft, self.op(st, fr, a, ft), tt))

    def i_gep(self, st, fr, ins):
        _, d, sty, base, idx, bt = ins
        self.setv(fr, ins, self.gep(st, fr, sty, self.op(st, fr, base, bt), idx))

    def i_load(self, st, fr, ins):
        _, d, t, a = ins
        self.setv(fr, ins, self.load(st, self.op(st, fr, a, ('ptr',)), t))

    def i_store(self, st, fr, ins):
        _, d, t, v, a = ins
        self.store(st, self.op(st, fr, a, ('ptr',)), self.op(st, fr, v, t), t)
        fr.ip += 1

    def i_alloca(self, st, fr, ins):
        _, d, t, num, al = ins
        n = self.concretize(st, self.op(st, fr, num, ('i', 64)))
        o = self.alloc(st, self.mod.size_align(t)[0] * n, 'stack', al)
        fr.allocas.append(o.base)
        self.setv(fr, ins, o.base)

    def ite(self, c, a, b, t):
        t = self.mod.resolve(t)
        if t[0] in ('arr', 'vec', 'st'):
            ts = t[1] if t[0] == 'st' else [t[2]] * t[1]
            return [self.ite(c, x, y, e) for x, y, e in zip(self.elems(a, t), self.elems(b, t), ts)]
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        if not is_expr(a) and not is_expr(b) and a == b:
            return a
        w = self.width(t)
        if w == 1:
            x, y = self.bool_(a), self.bool_(b)
            if x is True and y is False:
                return c
            if x is False and y is True:
                return z3.Not(c)
            if y is False:
                return z3.And(c, x)
            if x is True:
                return z3.Or(c, y)
            return z3.If(c, x, y)
        return z3.If(c, self.bv(a, w), self.bv(b, w))

    def i_select(self, st, fr, ins):
        _, d, ct, c, t, a, b = ins
        c = self.op(st, fr, c, ct)
        a, b = self.op(st, fr, a, t), self.op(st, fr, b, t)
        if self.mod.resolve(ct)[0] == 'vec':
            tt = self.mod.resolve(t)
            r = []
            for cc, x, y in zip(self.elems(c, ct), self.elems(a, tt), self.elems(b, tt)):
                cc = self.bool_(cc)
                r.append(self.ite(cc, x, y, tt[2]) if is_expr(cc) else (x if cc else y))
            self.setv(fr, ins, r)
            return
        if not is_expr(c):
            c = self.bool_(c) if c is UNDEF else c
            if not is_expr(c):
                self.setv(fr, ins, a if c else b)
                return
        c = self.bool_(c)
        tt = self.mod.resolve(t)
        if tt[0] == 'ptr' or a is UNDEF or b is UNDEF:
            # keep pointers concrete: fork
            if not (not is_expr(a) and not is_expr(b) and a is not UNDEF and b is not UNDEF and a == b):
                self.setv(fr, ins, a if self.branch(st, c) else b)
                return
        self.setv(fr, ins, self.ite(c, a, b, t))

    def i_freeze(self, st, fr, ins):
        v = self.op(st, fr, ins[3], ins[2])
        if v is UNDEF:
            t = self.mod.resolve(ins[2])
            v = self.fresh(self.width(t), 'undef') if t[0] in ('i', 'ptr', 'f') else v
        self.setv(fr, ins, v)

    def goto(self, st, fr, blk):
        fr.prev, fr.block, fr.ip = fr.block, blk, 0
        ii = self.insts(fr.fn, blk)
        vals = []
        for ins in ii:
            if ins[0] != 'phi':
                break
            vals.append((ins[1], self.op(st, fr, ins[3][fr.prev], ins[2])))
        for d, v in vals:
            fr.env[d] = v
        fr.ip = len(vals)

    def i_br(self, st, fr, ins):
        self.goto(st, fr, ins[2])

    def i_cbr(self, st, fr, ins):
        _, _, c, a, b = ins
        c = self.op(st, fr, c, ('i', 1))
        if c is UNDEF:
            raise PathEnd('violation', 'control flow depends on uninitialised memory')
        c = self.bool_(c)
        self.goto(st, fr, a if self.branch(st, c) else b)

    def i_switch(self, st, fr, ins):
        _, _, t, c, d, cases = ins
        v = self.op(st, fr, c, t)
        w = self.width(t)
        if v is UNDEF:
            raise PathEnd('violation', 'control flow depends on uninitialised memory')
        if is_expr(v) and w != 1:
            v = self.norm(z3.simplify(v))
        if not is_expr(v):
            for cv, l in cases:
                if cv == v:
                    return self.goto(st, fr, l)
            return self.goto(st, fr, d)
        # group by target
        groups = {}
        for cv, l in cases:
            groups.setdefault(l, []).append(cv)
        x = self.bv(v, w)
        for l, cvs in groups.items():
            if l == d:
                continue
            cond = z3.Or(*[x == cv for cv in cvs]) if len(cvs) > 1 else x == cvs[0]
            if self.branch(st, cond):
                return self.goto(st, fr, l)
        return self.goto(st, fr, d)

    def i_nop(self, st, fr, ins):
        fr.ip += 1

    def i_asm(self, st, fr, ins):
        if re.search(r'asm (sideeffect )?""', ins[3]):
            if ins[1] is not None:
                raise Unsupported('asm result')
            fr.ip += 1
            return
        raise Unsupported('inline asm: ' + ins[3][:80])

    def i_eh(self, st, fr, ins):
        raise Unsupported('exception handling reached')

    def i_unreachable(self, st, fr, ins):
        raise PathEnd('violation', 'unreachable code reached (undefined behaviour) in ' + fr.fn.name)

    def i_extractvalue(self, st, fr, ins):
        _, d, t, a, idx = ins
        v = self.op(st, fr, a, t)
        for i in idx:
            v = UNDEF if v is UNDEF else v[i]
        self.setv(fr, ins, v)

    def i_insertvalue(self, st, fr, ins):
        _, d, t, a, et, e, idx = ins
        v = self.op(st, fr, a, t)
        x = self.op(st, fr, e, et)

        def put(v, t, idx):
            if not idx:
                return x
            t = self.mod.resolve(t)
            v = list(self.elems(v, t))
            sub = t[1][idx[0]] if t[0] == 'st' else t[2]
            v[idx[0]] = put(v[idx[0]], sub, idx[1:])
            return v
        self.setv(fr, ins, put(v, t, idx))

    def i_extractelement(self, st, fr, ins):
        _, d, t, a, i = ins
        t = self.mod.resolve(t)
        v = self.elems(self.op(st, fr, a, t), t)
        self.setv(fr, ins, v[self.concretize(st, self.op(st, fr, i, ('i', 64)))])

    def i_insertelement(self, st, fr, ins):
        _, d, t, a, e, i = ins
        t = self.mod.resolve(t)
        v = list(self.elems(self.op(st, fr, a, t), t))
        v[self.concretize(st, self.op(st, fr, i, ('i', 64)))] = self.op(st, fr, e, t[2])
        self.setv(fr, ins, v)

    def i_shufflevector(self, st, fr, ins):
        _, d, t, a, b, mt, m = ins
        t = self.mod.resolve(t)
        v = list(self.elems(self.op(st, fr, a, t), t)) + list(self.elems(self.op(st, fr, b, t), t))
        mv = self.elems(self.op(st, fr, m, mt), mt)
        self.setv(fr, ins, [UNDEF if x is UNDEF else v[x] for x in mv])

    def i_atomicrmw(self, st, fr, ins):
        _, d, kind, t, a, v = ins
        a = self.op(st, fr, a, ('ptr',))
        v = self.op(st, fr, v, t)
        w = self.width(t)
        old = self.load(st, a, t)
        if kind == 'xchg':
            new = v
        elif kind in ('add', 'sub', 'and', 'or', 'xor'):
            new = self.binop(kind, w, old, v, st)
        elif kind == 'nand':
            new = self.binop('xor', w, self.binop('and', w, old, v, st), mask(w), st)
        elif kind in ('max', 'min', 'umax', 'umin'):
            p = {'max': 'sgt', 'min': 'slt', 'umax': 'ugt', 'umin': 'ult'}[kind]
            c = self.icmp(p, w, old, v)
            new = self.ite(c, old, v, t) if is_expr(c) else (old if c else v)
        else:
            raise Unsupported('atomicrmw ' + kind)
        self.store(st, a, new, t)
        self.setv(fr, ins, old)

    def i_cmpxchg(self, st, fr, ins):
        _, d, t, a, c, nv = ins
        a = self.op(st, fr, a, ('ptr',))
        old = self.load(st, a, t)
        c = self.op(st, fr, c, t)
        nv = self.op(st, fr, nv, t)
        eq = self.branch(st, self.icmp('eq', self.width(t), old, c))
        if eq:
            self.store(st, a, nv, t)
        self.setv(fr, ins, [old, int(eq)])

    def i_ret(self, st, fr, ins):
        _, _, t, v = ins
        val = None if v is None else self.op(st, fr, v, t)
        for b in fr.allocas:
            o = self.own(st, st.mem[b])
            o.alive = False
        st.frames.pop()
        if not st.frames:
            raise PathEnd('return')
        caller = st.frames[-1]
        if fr.dest is not None:
            if t != fr.ret_ty:
                val = self.coerce([val], [t], [fr.ret_ty], 'return value of ' + fr.fn.name)[0]
            caller.env[fr.dest] = val
        if fr.normal:
            self.goto(st, caller, fr.normal)
        else:
            caller.ip += 1

    # ---------------------------------------------------------------- calls
    def flat(self, v, t):
        t = self.mod.resolve(t)
        if t[0] == 'st':
            out = []
            for x, e in zip(self.elems(v, t), t[1]):
                out += self.flat(x, e)
            return out
        if t[0] == 'arr':
            out = []
            for x in self.elems(v, t):
                out += self.flat(x, t[2])
            return out
        return [(v, t)]

    def unflat(self, it, t):
        t = self.mod.resolve(t)
        if t[0] == 'st':
            return [self.unflat(it, e) for e in t[1]]
        if t[0] == 'arr':
            return [self.unflat(it, t[2]) for _ in range(t[1])]
        v, ft = next(it, (None, None))
        if ft is None:
            raise PathEnd('violation', 'call passes fewer values than the callee declares')
        if ft == t:
            return v
        if ft[0] in ('i', 'ptr') and t[0] in ('i', 'ptr') and self.width(ft) == self.width(t):
            return v
        if self.mod.size_align(ft)[0] == self.mod.size_align(t)[0] and (
                (ft[0] in ('f', 'vec')) == (t[0] in ('f', 'vec'))):
            return self.from_cells(self.to_cells(v, ft), t)
        raise PathEnd('violation', 'ABI mismatch: value of type %r passed where callee declares %r' % (ft, t))

    def coerce(self, vals, fts, tts, what):
        fl = []
        for v, t in zip(vals, fts):
            if t == VOID:
                continue
            fl += self.flat(v, t)
        it = iter(fl)
        out = []
        for t in tts:
            if t == VOID:
                out.append(None)
                continue
            out.append(self.unflat(it, t))
        if next(it, None) is not None:
            raise PathEnd('violation', 'ABI mismatch: %s carries more values than declared' % what)
        return out

    def i_call(self, st, fr, ins):
        _, dest, rt, callee, args, normal, ra = ins
        if callee[0] == 'g':
            name = callee[1]
        else:
            a = self.op(st, fr, callee, ('ptr',))
            if a is UNDEF:
                raise PathEnd('violation', 'call through an uninitialised pointer')
            a = self.concretize(st, a)
            name = self.addr_fn.get(a)
            if name is None:
                raise PathEnd('violation', 'call through a bad function pointer %#x' % a)
        while name in self.mod.aliases:
            o = self.mod.aliases[name]
            if o[0] != 'g':
                raise Unsupported('alias ' + name)
            name = o[1]
        fn = self.mod.funcs.get(name)
        if UBPANIC.search(name):
            raise PathEnd('violation', 'undefined behaviour: ' + name)
        if fn is None or not fn.defined or name in self.override or RUSTPANIC.search(name):
            h = self.external(name)
            if h is None:
                raise Unsupported('call to external function ' + name)
            vals = [self.op(st, fr, o, t) for t, o, at in args]
            r = h(st, fr, vals, [t for t, _, _ in args], name)
            if dest is not None:
                fr.env[dest] = r
            if normal:
                self.goto(st, fr, normal)
            else:
                fr.ip += 1
            return
        self.funcs_seen.add(name)
        if len(st.frames) > 200:
            raise Budget('call depth')
        vals, tys = [], []
        for t, o, at in args:
            v = self.op(st, fr, o, t)
            if 'byval' in at:
                bt = at['byval']
                n = self.mod.size_align(bt)[0]
                c = self.read_cells(st, v, n)
                ob = self.alloc(st, n, 'stack')
                ob.cells[:] = c
                v = ob.base
            vals.append(v)
            tys.append(t)
        ptys = [t for t, _, _ in fn.params]
        nf = Frame(fn)
        if tys[:len(ptys)] != ptys or (len(tys) != len(ptys) and not fn.vararg):
            if fn.vararg:
                raise Unsupported('varargs call')
            vals = self.coerce(vals, tys, ptys, 'call to ' + name)
        for (t, pn, at), v in zip(fn.params, vals):
            nf.env[pn] = v
        nf.dest, nf.ret_ty, nf.normal = dest, rt, normal
        st.frames.append(nf)

    override = frozenset()

    def external(self, name):
        f = getattr(self, 'x_' + name.replace('.', '_').replace('$', '_'), None)
        if f is not None:
            return f
        if name.startswith('llvm.'):
            return self.intrinsic(name)
        m = re.search(r'___?rust_(alloc_zeroed|alloc|dealloc|realloc|no_alloc_shim_is_unstable_v2)', name)
        if m and not PANIC.search(name):
            return getattr(self, 'rust_' + m.group(1), None) or self.x_nop
        if name in ('fprintf', 'fwrite', 'fputs', 'fputc', 'fflush', 'puts', 'printf', 'putchar'):
            return self.x_nop      # diagnostics: output has no effect on the program
        if OSTREAM.search(name):
            return lambda st, fr, v, t, n: v[0]
        if PANIC.search(name):
            return self.x_panic
        return None

    def x_nop(self, st, fr, v, t, n):
        return 0

    def x_panic(self, st, fr, v, t, n):
        raise PathEnd('abort', n)

    # --- harness interface
    def x_vp_sym(self, st, fr, v, t, n):
        w = v[0]
        # named by position in the path, so both sides of a fork agree
        x = z3.BitVec('in_%d_%d' % (len(st.inputs), w), w)
        st.inputs.append((w, x))
        return z3.ZeroExt(64 - w, x) if w < 64 else x

    def x_vp_pick(self, st, fr, v, t, n):
        k = self.concretize(st, v[0])
        todo = st.pickq
        if todo is None:        # first arrival: fork one state per value
            for i in range(k - 1, 0, -1):
                alt = st.clone()
                alt.pickq = i
                self.work.append(alt)
            todo = 0
            self.stats['forks'] += k - 1
        st.pickq = None
        st.inputs.append((32, z3.BitVecVal(todo, 32)))
        return todo

    def x_vp_sym_bytes(self, st, fr, v, t, n):
        cells = []
        for i in range(v[1]):
            x = z3.BitVec('in_%d_8' % len(st.inputs), 8)
            st.inputs.append((8, x))
            cells.append((x, 0, 1))
        self.write_cells(st, v[0], cells)

    def x_vp_assume(self, st, fr, v, t, n):
        c = self.bool_(v[0])
        if not is_expr(c):
            if not c:
                raise PathEnd('infeasible')
            return
        c = z3.simplify(c)
        if st.model is None or not z3.is_true(st.model.eval(c, model_completion=True)):
            if self.check(st, c) == 'unsat':
                raise PathEnd('infeasible')
            st.model = self.last_model
        st.pc.append(c)

    def x_vp_assert(self, st, fr, v, t, n):
        c = self.bool_(v[0])
        aid = v[1] if len(v) > 1 else 0
        self.stats['asserts'] += 1
        self.asserted.add(aid)
        if not is_expr(c):
            if not c:
                raise PathEnd('violation', 'assertion %s fails' % aid)
            self.stats['asserts_proved'] += 1
            return
        c = z3.simplify(c)
        if z3.is_true(c):
            self.stats['asserts_proved'] += 1
            return
        if self.check(st, z3.Not(c)) == 'unsat':
            self.stats['asserts_proved'] += 1
            self.stats['discharged_queries'] += 1
            return
        self.report(st, 'assertion %s fails' % aid, self.last_model)
        if self.check(st, c) == 'unsat':
            raise PathEnd('infeasible')
        st.model = self.last_model
        st.pc.append(c)

    def x_vp_reach(self, st, fr, v, t, n):
        st.reached.add(v[0])

    def x_vp_out(self, st, fr, v, t, n):
        st.outs.append(v[0])

    def x_vp_expect_abort(self, st, fr, v, t, n):
        st.expect_abort = bool(v[0] if not is_expr(v[0]) else self.branch(st, self.bool_(v[0])))

    def x_vp_live_heap(self, st, fr, v, t, n):
        return sum(1 for o in st.mem.values() if o.alive and o.kind.startswith('heap') and o.kind != 'heap:malloc')

    def x_vp_opaque(self, st, fr, v, t, n):
        return v[0]

    # --- environment stubs (fixed values, listed in DESIGN.md)
    def x_getrandom(self, st, fr, v, t, n):
        k = self.concretize(st, v[1])
        self.write_cells(st, v[0], [0x5a] * k)
        return k

    def x___cxa_thread_atexit_impl(self, st, fr, v, t, n):
        return 0  # thread-locals outlive the harness

    def x_pthread_key_create(self, st, fr, v, t, n):
        self.write_cells(st, v[0], [1, 0, 0, 0])  # one key, used by std only to run destructors at thread exit
        return 0

    def x_pthread_setspecific(self, st, fr, v, t, n):
        return 0

    def x_getenv(self, st, fr, v, t, n):
        return 0  # unset

    # --- heap
    def _new(self, st, size, kind, align=16):
        size = self.concretize(st, size)
        if size > 1 << 20:
            raise Unsupported('allocation of %d bytes' % size)
        o = self.alloc(st, size, kind, align)
        o.name = (size, align)
        return o.base

    def _del(self, st, p, kinds, size=None, align=None):
        p = self.concretize(st, p)
        if p == 0:
            return
        o = st.mem.get(p)
        if o is None or not o.kind.startswith('heap'):
            raise PathEnd('violation', 'free of a pointer that is not a heap block')
        if not o.alive:
            raise PathEnd('violation', 'double free')
        if o.kind not in kinds:
            raise PathEnd('violation', 'block allocated as %s released as %s' % (o.kind, kinds))
        if size is not None:
            size = self.concretize(st, size)
            if size != o.name[0]:
                raise PathEnd('violation', 'block of %d bytes released with size %d' % (o.name[0], size))
        if align is not None:
            align = self.concretize(st, align)
            if align != o.name[1]:
                raise PathEnd('violation', 'block of alignment %d released with alignment %d' % (o.name[1], align))
        o = self.own(st, o)
        o.alive = False

    def x_malloc(self, st, fr, v, t, n):
        return self._new(st, v[0], 'heap:malloc')

    def x_calloc(self, st, fr, v, t, n):
        k = self.concretize(st, v[0]) * self.concretize(st, v[1])
        a = self._new(st, k, 'heap:malloc')
        st.mem[a].cells = [0] * k
        return a

    def x_realloc(self, st, fr, v, t, n):
        p = self.concretize(st, v[0])
        k = self.concretize(st, v[1])
        a = self._new(st, k, 'heap:malloc')
        if p:
            m = min(k, st.mem[p].size)
            self.write_cells(st, a, self.read_cells(st, p, m))
            self._del(st, p, ('heap:malloc',))
        return a

    def x_vp_rust_alloc(self, st, fr, v, t, n):
        z = self.concretize(st, v[2])
        return self.rust_alloc_zeroed(st, fr, v, t, n) if z else self.rust_alloc(st, fr, v, t, n)

    def x_vp_rust_dealloc(self, st, fr, v, t, n):
        return self.rust_dealloc(st, fr, v, t, n)

    def x_vp_rust_realloc(self, st, fr, v, t, n):
        return self.rust_realloc(st, fr, v, t, n)

    def x_free(self, st, fr, v, t, n):
        self._del(st, v[0], ('heap:malloc',))

    def x__Znwm(self, st, fr, v, t, n):
        return self._new(st, v[0], 'heap:new')

    x__Znam = x__Znwm

    def x__ZnwmSt11align_val_t(self, st, fr, v, t, n):
        return self._new(st, v[0], 'heap:newa', self.concretize(st, v[1]))

    x__ZnamSt11align_val_t = x__ZnwmSt11align_val_t

    def x__ZdlPv(self, st, fr, v, t, n):
        self._del(st, v[0], ('heap:new',))

    x__ZdaPv = x__ZdlPv

    def x__ZdlPvm(self, st, fr, v, t, n):
        self._del(st, v[0], ('heap:new',), v[1])

    x__ZdaPvm = x__ZdlPvm

    def x__ZdlPvSt11align_val_t(self, st, fr, v, t, n):
        self._del(st, v[0], ('heap:newa',), None, v[1])

    x__ZdaPvSt11align_val_t = x__ZdlPvSt11align_val_t

    def x__ZdlPvmSt11align_val_t(self, st, fr, v, t, n):
        self._del(st, v[0], ('heap:newa',), v[1], v[2])

    def rust_alloc(self, st, fr, v, t, n):
        return self._new(st, v[0], 'heap:rust', self.concretize(st, v[1]))

    def rust_alloc_zeroed(self, st, fr, v, t, n):
        a = self._new(st, v[0], 'heap:rust', self.concretize(st, v[1]))
        o = st.mem[a]
        o.cells = [0] * o.size
        return a

    def rust_dealloc(self, st, fr, v, t, n):
        self._del(st, v[0], ('heap:rust',), v[1], v[2])

    def rust_realloc(self, st, fr, v, t, n):
        p, old, al, new = v[0], self.concretize(st, v[1]), self.concretize(st, v[2]), self.concretize(st, v[3])
        p = self.concretize(st, p)
        c = self.read_cells(st, p, min(old, new))
        self._del(st, p, ('heap:rust',), old, al)
        a = self._new(st, new, 'heap:rust', al)
        st.mem[a].cells[:len(c)] = c
        return a

    # --- libc
    def cmp_bytes(self, st, a, b, n):
        x, y = self.read_cells(st, a, n), self.read_cells(st, b, n)
        return [(self.cell_expr(p), self.cell_expr(q)) for p, q in zip(x, y)]

    def x_memcmp(self, st, fr, v, t, n):
        k = self.concretize(st, v[2])
        ps = self.cmp_bytes(st, v[0], v[1], k)
        r = 0
        for p, q in reversed(ps):
            lt, eq = self.icmp('ult', 8, p, q), self.icmp('eq', 8, p, q)
            diff = self.ite(lt, mask(32), 1, ('i', 32)) if is_expr(lt) else (mask(32) if lt else 1)
            r = self.ite(eq, r, diff, ('i', 32)) if is_expr(eq) else (r if eq else diff)
        return r

    def x_bcmp(self, st, fr, v, t, n):
        k = self.concretize(st, v[2])
        ps = self.cmp_bytes(st, v[0], v[1], k)
        cs = [self.icmp('eq', 8, p, q) for p, q in ps]
        if all(not is_expr(c) for c in cs):
            return 0 if all(cs) else 1
        if any(not is_expr(c) and not c for c in cs):
            return 1
        return z3.If(z3.And(*[c for c in cs if is_expr(c)]), BV(0, 32), BV(1, 32))

    def x_strlen(self, st, fr, v, t, n):
        a = self.concretize(st, v[0])
        k = 0
        while True:
            c = self.cell_expr(self.read_cells(st, a + k, 1)[0])
            if self.branch(st, self.icmp('eq', 8, c, 0)):
                return k
            k += 1

    def x_memcpy(self, st, fr, v, t, n):
        self.mem_copy(st, v[0], v[1], v[2], False)
        return v[0]

    def x_memmove(self, st, fr, v, t, n):
        self.mem_copy(st, v[0], v[1], v[2], True)
        return v[0]

    def x_memset(self, st, fr, v, t, n):
        k = self.concretize(st, v[2])
        b = v[1]
        if is_expr(b):
            b = z3.Extract(7, 0, b) if b.size() > 8 else b
        elif b is not UNDEF:
            b &= 255
        self.write_cells(st, v[0], self.split(b, 1) * k)
        return v[0]

    def x_memchr(self, st, fr, v, t, n):
        k = self.concretize(st, v[2])
        a = self.concretize(st, v[0])
        ch = v[1]
        ch = (ch & 255) if not is_expr(ch) else z3.Extract(7, 0, ch)
        for i in range(k):
            c = self.cell_expr(self.read_cells(st, a + i, 1)[0])
            if self.branch(st, self.icmp('eq', 8, c, ch)):
                return a + i
        return 0

    def mem_copy(self, st, d, s, k, move):
        k = self.concretize(st, k)
        if k == 0:
            return
        if not move and not is_expr(d) and not is_expr(s) and d != s and d < s + k and s < d + k:
            raise PathEnd('violation', 'memcpy with overlapping ranges')
        self.write_cells(st, d, list(self.read_cells(st, s, k)))

    def intrinsic(self, name):
        base = name[5:]
        if base.startswith(('lifetime.start', 'lifetime.end')):
            return self.n_lifetime
        if base.startswith(('memcpy', 'memmove')):
            mv = base.startswith('memmove')
            return lambda st, fr, v, t, n: self.mem_copy(st, v[0], v[1], v[2], mv)
        if base.startswith('memset'):
            return self.x_memset
        if base.startswith(('assume',)):
            return self.n_assume
        if base.startswith(('dbg.', 'experimental.noalias', 'invariant', 'prefetch', 'var.annotation', 'donothing',
                            'sideeffect', 'stackrestore', 'fake.use')):
            return self.x_nop
        if base.startswith('stacksave'):
            return self.x_nop
        if base.startswith(('expect', 'launder', 'strip.invariant', 'ssa.copy', 'ptr.annotation', 'annotation')):
            return lambda st, fr, v, t, n: v[0]
        if base.startswith(('trap', 'ubsantrap', 'debugtrap')):
            return self.n_trap
        if base.startswith('is.constant'):
            return lambda st, fr, v, t, n: int(not is_expr(v[0]))
        if base.startswith('objectsize'):
            return lambda st, fr, v, t, n: mask(64) if not v[1] else 0
        if base.startswith('threadlocal.address'):
            return lambda st, fr, v, t, n: v[0]
        m = re.match(r'(u|s)(add|sub|mul)\.with\.overflow', base)
        if m:
            return self.n_overflow
        m = re.match(r'(umax|umin|smax|smin)\.', base)
        if m:
            return self.n_minmax
        m = re.match(r'(u|s)(add|sub)\.sat\.', base)
        if m:
            return self.n_sat
        if re.match(r'(bswap|bitreverse|ctpop|ctlz|cttz|fshl|fshr|abs|ucmp|scmp)\.', base):
            return self.n_bits
        if base.startswith('vector.reduce.'):
            return self.n_reduce
        if base.startswith('fabs'):
            return lambda st, fr, v, t, n: self.binop('and', t[0][1], v[0], mask(t[0][1] - 1), st)
        if base.startswith('load.relative'):
            def lr(st, fr, v, t, n):
                off = self.load(st, self.binop('add', 64, v[0], v[1], st), ('i', 32))
                return self.binop('add', 64, v[0], self.cast('sext', ('i', 32), off, ('i', 64)), st)
            return lr
        return None

    def n_lifetime(self, st, fr, v, t, n):
        p = v[-1]
        if is_expr(p) or p is UNDEF:
            return
        o = st.mem.get(p)
        if o is not None and o.kind == 'stack':
            o = self.own(st, o)
            o.cells = [None] * o.size

    def n_assume(self, st, fr, v, t, n):
        # llvm.assume states what the front end already knows; a false one is undefined behaviour
        c = v[0]
        if c is UNDEF:
            return
        c = self.bool_(c)
        if not self.branch(st, c):
            raise PathEnd('violation', 'llvm.assume violated (undefined behaviour)')

    def n_trap(self, st, fr, v, t, n):
        raise PathEnd('abort', n)

    def n_overflow(self, st, fr, v, t, n):
        m = re.match(r'llvm\.(u|s)(add|sub|mul)\.', n)
        w = self.width(t[0])
        a, b = v
        r = self.binop(m.group(2), w, a, b, st)
        s = m.group(1) == 's'
        if not is_expr(a) and not is_expr(b):
            x, y = (sgn(a, w), sgn(b, w)) if s else (a, b)
            full = {'add': x + y, 'sub': x - y, 'mul': x * y}[m.group(2)]
            ov = int(not ((-(1 << (w - 1)) <= full < (1 << (w - 1))) if s else (0 <= full <= mask(w))))
            return [r, ov]
        x, y = self.bv(a, w), self.bv(b, w)
        k = m.group(2)
        if k == 'add':
            ok = z3.And(z3.BVAddNoOverflow(x, y, s), z3.BVAddNoUnderflow(x, y) if s else z3.BoolVal(True))
        elif k == 'sub':
            ok = z3.And(z3.BVSubNoUnderflow(x, y, s), z3.BVSubNoOverflow(x, y) if s else z3.BoolVal(True))
        else:
            ok = z3.And(z3.BVMulNoOverflow(x, y, s), z3.BVMulNoUnderflow(x, y) if s else z3.BoolVal(True))
        return [r, z3.simplify(z3.Not(ok))]

    def n_minmax(self, st, fr, v, t, n):
        m = re.match(r'llvm\.(umax|umin|smax|smin)', n).group(1)
        p = {'umax': 'ugt', 'umin': 'ult', 'smax': 'sgt', 'smin': 'slt'}[m]

        def f(e, a, b):
            c = self.icmp(p, self.width(e), a, b)
            return self.ite(c, a, b, e) if is_expr(c) else (a if c else b)
        return self.vecmap(t[0], f, v[0], v[1])

    def n_sat(self, st, fr, v, t, n):
        m = re.match(r'llvm\.(u|s)(add|sub)', n)
        w = self.width(t[0])
        r, ov = self.n_overflow(st, fr, v, t, 'llvm.%s%s.' % m.groups())
        if m.group(1) == 'u':
            lim = mask(w) if m.group(2) == 'add' else 0
        else:
            neg = self.icmp('slt', w, v[0], 0)
            lim = self.ite(neg, 1 << (w - 1), mask(w - 1), t[0]) if is_expr(neg) else (
                1 << (w - 1) if neg else mask(w - 1))
        if not is_expr(ov):
            return lim if ov else r
        return self.ite(ov, lim, r, t[0])

    def n_bits(self, st, fr, v, t, n):
        m = re.match(r'llvm\.(\w+)\.', n).group(1)
        w = self.width(t[0])
        if m in ('ucmp', 'scmp'):
            p = 'ult' if m == 'ucmp' else 'slt'
            rw = int(re.search(r'cmp\.i(\d+)', n).group(1))
            lt, eq = self.icmp(p, w, v[0], v[1]), self.icmp('eq', w, v[0], v[1])
            a = self.ite(lt, mask(rw), 1, ('i', rw)) if is_expr(lt) else (mask(rw) if lt else 1)
            return self.ite(eq, 0, a, ('i', rw)) if is_expr(eq) else (0 if eq else a)
        x = v[0]
        con = not is_expr(x) and x is not UNDEF
        if m == 'abs':
            neg = self.icmp('slt', w, x, 0)
            nx = self.binop('sub', w, 0, x, st)
            return self.ite(neg, nx, x, t[0]) if is_expr(neg) else (nx if neg else x)
        if m in ('fshl', 'fshr'):
            s = self.concretize(st, v[2]) % w
            if s == 0:
                return v[0] if m == 'fshl' else v[1]
            if m == 'fshr':
                s = w - s
            return self.binop('or', w, self.binop('shl', w, v[0], s, st), self.binop('lshr', w, v[1], w - s, st), st)
        if m == 'bswap':
            return self.join(list(reversed(self.split(x, w // 8))))
        e = self.bv(x, w)
        if m == 'ctpop':
            if con:
                return bin(x).count('1')
            r = BV(0, w)
            for i in range(w):
                r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, e))
            return r
        if m in ('ctlz', 'cttz'):
            r = BV(w, w)
            order = range(w) if m == 'ctlz' else range(w - 1, -1, -1)
            for i in order:
                r = z3.If(z3.Extract(i, i, e) == 1, BV(w - 1 - i if m == 'ctlz' else i, w), r)
            return self.norm(z3.simplify(r))
        if m == 'bitreverse':
            return self.norm(z3.simplify(z3.Concat(*[z3.Extract(i, i, e) for i in range(w)])))
        raise Unsupported(n)

    def n_reduce(self, st, fr, v, t, n):
        k = re.match(r'llvm\.vector\.reduce\.(\w+)\.', n).group(1)
        vt = self.mod.resolve(t[0])
        xs = self.elems(v[0], vt)
        w = self.width(vt[2])
        r = xs[0]
        for x in xs[1:]:
            r = self.binop(k, w, r, x, st)
        return r
