#!/usr/bin/python3
"""C24: drives the Python module through simulated sessions and compares it, operation by operation, with what the
C++ library answered to the same operations (build/sim pysessions).
  drive.py check TIER SEED EVIDENCE REPLAYDIR KNOWN | drive.py replay FILE | drive.py worker SEED FIRST LAST STRIDE"""
import sys, os, subprocess, gc, ctypes, time, json, hashlib, signal, struct, weakref
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(os.path.dirname(HERE)); SIM = os.path.join(ROOT, 'build/sim'); SO = os.path.join(ROOT, 'build/py')
BYTES = {0: 3, 1: 2}
class Bad(Exception):
    def __init__(self, cls, msg): super().__init__(msg); self.cls = cls; self.msg = msg

def load():
    global np, mrob, lib, P, R
    sys.path.insert(0, SO); sys.dont_write_bytecode = True
    import types
    class csr_matrix:                                # scipy is not installed here: what the module hands over is kept as it is
        def __init__(self, parts, shape): self.data, self.indices, self.indptr = [np.array(x) for x in parts]; self.shape = tuple(shape)
        def toarray(self, byrow):
            m = np.zeros(self.shape)
            for o in range(len(self.indptr) - 1):
                for k in range(self.indptr[o], self.indptr[o + 1]):
                    if byrow: m[o, self.indices[k]] += self.data[k]
                    else: m[self.indices[k], o] += self.data[k]
            return m
    class csr(csr_matrix):
        def dense(self): return self.toarray(True)
    class csc(csr_matrix):
        def dense(self): return self.toarray(False)
    if 'scipy' not in sys.modules:
        sp = types.ModuleType('scipy'); ss = types.ModuleType('scipy.sparse'); ss.csr_matrix = csr; ss.csc_matrix = csc; sp.sparse = ss; sys.modules['scipy'] = sp; sys.modules['scipy.sparse'] = ss
    import numpy as np, mrob
    lib = ctypes.CDLL(os.path.join(SO, 'mrob.so')); lib.sim_clock.argtypes = [ctypes.c_longlong] * 3; lib.sim_oom.argtypes = [ctypes.c_longlong, ctypes.c_int]; lib.sim_steps.restype = ctypes.c_ulonglong; lib.sim_limit.argtypes = [ctypes.c_ulonglong]
    P = mrob.geometry; R = mrob.registration

ROB = ('QUADRATIC', 'HUBER', 'CAUCHY', 'MCCLURE', 'RANSAC'); MODE = ('INITIALIZE', None, 'GRADIENT_BENGIOS_NAG', 'GRADIENT_ALL_POSES', 'GN_HESSIAN', 'GN_CLAMPED_HESSIAN', 'LM_SPHER', 'LM_ELLIP')
def rmode(i): return getattr(R, MODE[i])
ND = [3, 2, 6, 3, 4]; FD = [3, 3, 3, 2, 6, 6, 3, 4, 1]
def parse(line):
    a, _, b = line.partition(' | '); w = a.split(); return w[0], [int(x) for x in w[1:]], [float.fromhex(x) for x in b.split()]
class World:
    """one run: several graphs, arrays kept alive or thrown away, results held and re-checked"""
    def __init__(self, stats): self.g = {}; self.reg = {}; self.rT = {}; self.st = stats; self.layout = 0; self.oom = None; self.held = []; self.last = []; self.dead = set(); self.dg = hashlib.sha256(); self.refs = []
    def arr(self, v, shape=None):
        a = np.array(v, dtype=float); 
        if shape: a = a.reshape(shape)
        k = self.layout; self.st['layout_%d' % k] = self.st.get('layout_%d' % k, 0) + 1
        if k == 1: a = np.asfortranarray(a)
        elif k == 2:
            big = np.full(tuple(2 * s for s in a.shape), 7.5); big[tuple(slice(None, None, 2) for _ in a.shape)] = a; a = big[tuple(slice(None, None, 2) for _ in a.shape)]
        elif k == 3: return a.tolist()
        elif k == 4: a = a.astype('>f8')
        elif k == 5: a.setflags(write=False)
        elif k == 6 and a.ndim == 1: a = a.reshape(-1, 1)
        self.refs.append(a); return a
    def wipe(self):
        # what the caller passed earlier is overwritten: the library must not have kept views of it
        for a in self.refs:
            if isinstance(a, np.ndarray) and a.flags.writeable: a.fill(float('nan'))
        self.refs = []
    def se3(self, v): return P.SE3(np.array(v).reshape(4, 4))
    def hold(self, x):
        if isinstance(x, np.ndarray): self.held.append((x, x.copy()))
        if len(self.held) > 40: self.held.pop(0)
        return x
    def recheck(self):
        for x, c in self.held:
            if x.shape != c.shape or x.tobytes() != c.tobytes(): raise Bad('result-changed', 'an array handed out earlier changed its contents')
    def m(self, x):
        if hasattr(x, 'dense'): x = x.dense()
        x = np.asarray(self.hold(x), dtype=float)
        if x.ndim == 1: x = x.reshape(-1, 1)
        return [float(x.shape[0]), float(x.shape[1])] + [float(y) for y in x.ravel()]
    def T(self, s): return [float(y) for y in self.hold(np.asarray(s.T())).ravel()]
    def states(self, g):
        v = []
        for s in g.get_estimated_state(): v += self.m(s)
        return v
    def counts(self, g): return [float(g.number_nodes()), float(g.number_factors())]
    def call(self, k, op, i, d):
        g = self.g.get(k)
        if op == 'graph':
            self.g[k] = (mrob.FGraph(getattr(mrob, ROB[i[0]])) if self.layout % 2 else mrob.FGraph(robust_type=getattr(mrob, ROB[i[0]]))) if i[0] or i[1] else mrob.FGraph(); return self.counts(self.g[k])
        if op == 'node':
            mode = type(mrob.NODE_ANCHOR)(1 if i[2] else 0) if False else (mrob.NODE_ANCHOR if i[2] else mrob.NODE_STANDARD); n = i[1]; extra = (mode,) if i[2] or self.layout % 2 else ()
            if n == 2: x = self.se3(d[:16]); f = g.add_node_pose_3d
            else: x = self.arr(d[:ND[n]]); f = [g.add_node_pose_2d, g.add_node_landmark_2d, None, g.add_node_landmark_3d, g.add_node_plane_4d][n]
            return (lambda: f(x, *extra)), (lambda r: [float(r)] + self.counts(g) + self.states(g))
        if op == 'fac':
            n = i[1]; D = FD[n]
            if n == 8: a = (self.arr(d[0:3]), self.arr(d[3:6]), self.arr(d[6:9]), i[3], self.arr([d[9]], (1, 1)) if self.layout != 3 else np.array([[d[9]]])); f = g.add_factor_1pose_point2plane
            else:
                o = 16 if n in (4, 5) else D; z = self.se3(d[:16]) if n in (4, 5) else self.arr(d[:D]); W = self.arr(d[o:o + D * D], (D, D)); init = bool(i[5] & 2)
                if n in (0, 4): a = (z, i[3], W)
                elif n in (2, 7): a = (z, i[3], i[4], W)
                else: a = (z, i[3], i[4], W) + ((init,) if init or self.layout % 2 else ())
                f = [g.add_factor_1pose_2d, g.add_factor_2poses_2d, g.add_factor_2poses_2d_odom, g.add_factor_1pose_1landmark_2d, g.add_factor_1pose_3d, g.add_factor_2poses_3d, g.add_factor_1pose_1landmark_3d, g.add_factor_1pose_1plane_4d][n]
            return (lambda: f(*a)), (lambda r: [float(g.number_factors() - 1 if r is None else r)] + self.counts(g) + self.states(g))
        if op == 'solve':
            m = mrob.LM if i[0] else mrob.GN; a = (m, i[1], d[0], d[1])
            if len(i) > 2 and i[2]: return (lambda: (g.solve() if not i[0] else g.solve(m) if self.layout % 2 else g.solve(method=m))), (lambda r: self.states(g) + [float(g.chi2())])
            return (lambda: g.solve(*a) if self.layout % 2 else g.solve(method=a[0], maxIters=a[1], solutionTolerance=a[3], **{'lambda': a[2]})), (lambda r: self.states(g) + [float(g.chi2())])
        if op == 'q':
            def q():
                m = i[0]; v = []
                if m & 1: v += self.states(g)
                if m & 2: v.append(float(g.chi2(True) if self.layout % 2 else g.chi2()))
                if m & 4: v += self.counts(g)
                if m & 8: v += self.m(g.get_adjacency_matrix())
                if m & 16: v += self.m(g.get_W_matrix())
                if m & 32: v += self.m(g.get_information_matrix())
                if m & 64: v += self.m(g.get_vector_b())
                if m & 128: v += self.m(g.get_chi2_array())
                if m & 256: g.print(True) if self.layout % 2 else g.print()
                return v
            return q, (lambda r: r)
        if op == 'geo':
            A = self.se3(d[:16]); B = self.se3(d[16:32]); x = self.arr(d[32:38]); k = i[0]
            def q():
                if k == 0: return self.T(A * B if self.layout % 2 else A.mul(B))
                if k == 1: return self.T(A.inv())
                if k == 2: return self.m(A.Ln())
                if k == 3: return self.m(A.adj())
                if k == 4: return [float(A.distance(B)), float(A.distance_rotation(B)), float(A.distance_trans(B))]
                if k == 5: C = P.SE3(A); C.update_lhs(x); v = self.T(C); C.update_rhs(x); return v + self.T(C)
                if k == 6: C = P.SE3(np.array(d[32:38])); return self.T(C) + self.m(C.transform(np.array(d[32:35])))
                if k == 8:
                    Ra = P.SO3(np.array(A.R())); Rb = P.SO3(np.array(B.R())); Q = P.SO3(np.array(d[32:35])); y = np.array(d[35:38]); v = self.m(Ra.mul(Rb).R()) + self.m(Ra.adj()) + [float(Ra.distance(Rb))] + self.m(Q.R()); Q.update_lhs(y) if self.layout % 2 else Q.update(y); v += self.m(Q.R()); Q.update_rhs(y); v += self.m(Q.R()); C = P.SO3(Q); del Q; return v + self.m(C.Ln())
                if k == 9:
                    h = np.array(d[32:35]); v = self.m(P.hat3(h)) + self.m(P.hat6(np.array(d[32:38]))) + self.m(P.curley_wedge(np.array(d[32:38]))); m4 = np.array(A.T()); v.append(float(P.isSE3(m4))); m4[0, 0] += d[32]; v.append(float(P.isSE3(m4))); v.append(float(P.isSO3(m4[:3, :3]))); v += self.m(P.rpy_to_so3(h)); q4 = np.array([d[32], d[33], d[34], 0.5 + abs(d[35])]); q4 /= np.linalg.norm(q4); return v + self.m(P.quat_to_so3(q4))
                if k == 10:
                    C = P.SE3(P.SO3(np.array(A.R())), np.array(d[35:38])); v = self.m(A.transform_array(self.arr(d[32:38], (2, 3)))) + self.T(C) + self.m(C.t()); return v + [float(A.distance()), float(A.distance_rotation()), float(A.distance_trans())]
                if k in (11, 12):
                    xv = np.array(d[32:38]); P1 = np.eye(6) * 0.1; P2 = np.outer(xv, xv) * 0.01 + np.eye(6) * 0.02; c1 = P.SE3Cov(A, P1); c2 = P.SE3Cov(B, P2); put = lambda c: self.T(c) + self.m(c.cov())
                    if k == 11: return put(c1.compound_2nd_order(c2)) + put(c1.compound_2nd_order(B, P2)) + put(c1.mul(c2))
                    c3 = P.SE3Cov(c2); return put(c1.compound_4th_order(c2)) + put(c1.compound_4th_order(B, P2)) + put(c1 * c2) + put(c3)
                Rm = A.R(); S = P.SO3(np.array(Rm)); return self.m(P.so3_to_quat(np.array(Rm))) + self.m(S.Ln()) + self.m(S.inv().R())
            return q, (lambda r: r)
        if op == 'cloud':
            n = i[1]; Z = np.array(d).reshape(n, 7) if n else np.zeros((0, 7)); keep = self.layout
            if n == 0 and keep == 3: self.layout = 0
            X = self.arr(Z[:, 0:3], (n, 3)); Y = self.arr(Z[:, 3:6], (n, 3)); w = self.arr(Z[:, 6]); C = self.arr(np.concatenate([np.eye(3) * q for q in Z[:, 6]]) if n else np.zeros((0, 3)), (3 * n, 3))
            def q():
                k = i[0]
                if k == 0: return self.T(R.arun(X, Y))
                if k == 1: return self.T(R.gicp(X, Y, C, C))
                if k == 2: return self.T(R.weighted(X, Y, w))
                return self.m([R.estimate_plane, R.estimate_normal, R.estimate_centroid][k - 3](X))
            return q, (lambda r: r)
        if op == 'scene':
            def q():
                lib.sim_clock(5000000000, 1500000000000000000 + (i[4] & 0xffffffffffff), 1000); s = R.CreatePoints(i[0], i[1], i[2], d[0], d[1]); r = R.PlaneRegistration(); s.create_plane_registration(r); v = []
                for a in range(i[2]):
                    pc = s.get_point_cloud(a); ids = s.get_point_plane_ids(a); v.append(float(len(pc)))
                    for p in pc: v += [float(y) for y in np.asarray(p).ravel()]
                    v += [float(x) for x in ids]; v += self.T(s.get_trajectory(a))
                v += self.T(s.get_ground_truth_last_pose()); del s; gc.collect(0); v.append(float(r.get_error())); r.solve(rmode(i[3]), False); v.append(float(r.get_error()))
                for a in range(i[2]): v += self.T(r.get_trajectory(a))
                v += self.T(r.get_last_pose()); v.append(float(r.get_number_poses())); e = r.print_evaluate(); v += [float(x) for j, x in enumerate(e) if j != 4]; r.reset_solution(); return v + self.T(r.get_last_pose())
            return q, (lambda r: r)
        if op[0] == 'r':
            def q():
                if op == 'rnew': r = self.reg[k] = R.PlaneRegistration(); r.set_number_planes_and_poses(i[0], i[1]); self.rT[k] = i[1]; return [float(r.get_number_poses())]
                r = self.reg[k]; T = self.rT[k]
                if op == 'radd': r.add_plane(i[0]); return []
                if op == 'rpt': r.plane_push_back_point(i[0], i[1], self.arr(d)); return []
                if op == 'rlast': r.initialize_last_pose_solution(self.se3(d)); return self.T(r.get_last_pose())
                if op == 'rreset': r.reset_solution(); return self.T(r.get_last_pose())
                if op == 'rsolve':
                    m = rmode(i[0]); n = r.solve(m, bool(i[1])) if self.layout % 2 else r.solve(mode=m, singleIteration=bool(i[1])) if i[1] or self.layout % 4 else r.solve(m); return [float(n), float(r.get_error())]
                v = []; m = i[0]
                if m & 1: v.append(float(r.get_error() if self.layout % 2 else r.get_plane_error()))
                if m & 2:
                    for t in range(T): v += self.T(r.get_trajectory(t))
                if m & 4:
                    for t in range(T):
                        pc = r.get_point_cloud(t); v.append(float(len(pc)))
                        for p in pc: v += [float(y) for y in self.hold(np.asarray(p)).ravel()]
                if m & 16: r.print() if self.layout % 2 else r.print(plotPlanes=True)
                if m & 8: v.append(float(r.get_number_poses())); v += self.T(r.get_last_pose())
                return v
            return q, (lambda r: r)
        raise RuntimeError(op)
    def exec(self, line, want):
        op, i, d = parse(line)
        if op.startswith('py.'):
            op = op[3:]
            if op == 'gc': gc.collect(i[0])
            elif op == 'threshold': gc.set_threshold(*[(1, 1, 1), (10, 2, 2), (700, 10, 10), (0, 0, 0)][i[0]])
            elif op == 'oom': self.oom = i
            elif op == 'wipe': self.wipe()
            elif op == 'layout': self.layout = i[0]
            elif op == 'drop': self.g.pop(i[0], None); self.reg.pop(i[0], None); self.dead.add(i[0]); gc.collect(); self.recheck()
            self.st['py_' + op] = self.st.get('py_' + op, 0) + 1; return
        k = int(op[0]); op = op[2:]
        if k in self.dead or (k not in self.g and op not in ('graph', 'geo', 'cloud', 'scene', 'rnew') and (op[0] != 'r' or k not in self.reg)): return
        self.st['op_' + op] = self.st.get('op_' + op, 0) + 1; lib.sim_limit(2000000000)
        if op == 'badfac':
            g = self.g[k]; z = [np.zeros(3), P.SE3()]; f = [lambda: g.add_factor_1pose_2d(np.zeros(3), i[1], np.eye(3)), lambda: g.add_factor_2poses_2d(np.zeros(3), 0, i[1], np.eye(3)), lambda: g.add_factor_2poses_2d_odom(np.zeros(3), 0, i[1], np.eye(3)), lambda: g.add_factor_1pose_1landmark_2d(np.zeros(2), i[1], 0, np.eye(2)),
                lambda: g.add_factor_1pose_3d(P.SE3(), i[1], np.eye(6)), lambda: g.add_factor_2poses_3d(P.SE3(), 0, i[1], np.eye(6)), lambda: g.add_factor_1pose_1landmark_3d(np.zeros(3), 0, i[1], np.eye(3)), lambda: g.add_factor_1pose_1plane_4d(np.array([1., 0, 0, 1]), 0, i[1], np.eye(4)), lambda: g.add_factor_1pose_point2plane(np.zeros(3), np.zeros(3), np.array([1., 0, 0]), i[1], np.eye(1))][i[0]]
            try: f(); raise Bad('no-exception', 'a factor on unknown node %d raised nothing' % i[1])
            except Bad: raise
            except Exception: pass
            if [int(x) for x in want.split()[1:]] != [g.number_nodes(), g.number_factors()]: raise Bad('counts', 'a refused factor changed the number of nodes or factors')
            return
        if op == 'rbad':
            r = self.reg[k]
            for p in (lambda: r.plane_push_back_point(i[0], i[1], np.zeros(3)),):
                try: p()
                except Exception: continue
                raise Bad('no-exception', 'a point for plane %d, which does not exist, raised nothing' % i[0])
            if float(r.get_error()) != float.fromhex(want.split()[1]): raise Bad('differs', 'a refused point changed the error')
            return
        r = self.call(k, op, i, d); oom = self.oom if op in ('node', 'fac', 'q', 'cloud', 'geo') else None
        if oom: self.oom = None
        if isinstance(r, tuple):
            f, post = r
            if oom:
                lib.sim_oom(oom[0], oom[1]); err = None
                try: got = f()
                except MemoryError: err = 'm'
                except Exception as e: err = e
                fired = lib.sim_disarm()
                if fired: self.st['oom'] = self.st.get('oom', 0) + 1
                if err is not None and not fired: raise Bad('unexpected-exception', '%s: %r although memory was available' % (op, err))
                if err is not None and err != 'm' and not isinstance(err, (TypeError, RuntimeError, SystemError, ImportError, AttributeError)): raise Bad('wrong-exception', '%s out of memory raised %r' % (op, err))
                if err is not None: self.st['interrupted'] = self.st.get('interrupted', 0) + 1; got = f()
            else: got = f()
            vals = post(got)
        else: vals = r
        if want is None: return
        ref = [float.fromhex(x) for x in want.split()[1:]]; del r
        b = struct.pack('%dd' % len(vals), *vals); self.dg.update(b)
        if len(ref) != len(vals): raise Bad('shape', '%s yields %d values in Python, %d in C++' % (op, len(vals), len(ref)))
        if b != struct.pack('%dd' % len(ref), *ref):
            for j, (x, y) in enumerate(zip(vals, ref)):
                if not (x == y or (x != x and y != y)): 
                    if abs(x - y) <= 1e-9 * (1 + abs(y)): self.st['rounding'] = self.st.get('rounding', 0) + 1; continue
                    raise Bad('differs', '%s value %d is %.17g in Python, %.17g in C++' % (op, j, x, y))
        self.recheck()
def run_lines(it, stats):
    """executes one run; yields at its end"""
    w = World(stats); pend = None; n = 0
    for line in it:
        if line == 'end': break
        if line.startswith('#c '): stats[line.split()[1]] = stats.get(line.split()[1], 0) + int(line.split()[2]); continue
        if line[0] == '#': continue
        if line[0] in '=!':
            if pend is not None: n += 1; w.exec(pend, line)
            pend = None; continue
        if pend is not None: w.exec(pend, None)
        pend = line
        if line.startswith('py.'): w.exec(line, None); pend = None
    w.recheck(); gc.set_threshold(700, 10, 10); lib.sim_clock(5000000000, 1500000000000000000, 1000); return w.dg.hexdigest()[:16], n
def lines(cmd):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, text=True, bufsize=1 << 16)
    for l in p.stdout: yield l.rstrip('\n')
    p.wait()
    if p.returncode: raise SystemExit(95)
def worker(cmd):
    load(); st = {}; out = sys.stdout; it = lines(cmd)
    for l in it:
        if not l.startswith('run '): continue
        _, k, rs = l.split(); print('B', k, rs, flush=True); s0 = lib.sim_steps()
        try: dg, n = run_lines(it, st)
        except Bad as e: print('V', k, e.cls, e.msg.replace('\n', ' '), flush=True); os._exit(1)
        except (Exception) as e: print('V', k, 'unexpected-exception', repr(e).replace('\n', ' ')[:500], flush=True); os._exit(1)
        print('D', k, dg, n, lib.sim_steps() - s0, flush=True)
    print('S', json.dumps(st), flush=True); os._exit(0)
def once(path, secs=60):
    """a trace in a fresh process: (class or None, message)"""
    try: p = subprocess.run([sys.executable, os.path.abspath(__file__), 'trace', path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=secs, env=dict(os.environ, PYTHONHASHSEED='0'))
    except subprocess.TimeoutExpired: return 'hang', 'no answer', ''
    dg = ''
    for l in p.stdout.splitlines():
        if l.startswith('V '): w = l.split(' ', 3); return w[2], w[3] if len(w) > 3 else '', ''
        if l.startswith('D '): dg = l.split()[2]
    if p.returncode == 77: return 'no-termination', 'a call exceeded its step budget', ''
    if p.returncode < 0: return 'crash-signal-%d' % -p.returncode, 'the process died', ''
    if p.returncode: return 'exit-%d' % p.returncode, 'the process ended', ''
    return None, '', dg
def pygen(seed, k, rs, path, head=''):
    t = subprocess.run([SIM, 'pygen', str(rs), str(2 if k % 16 == 0 else k % 3)], stdout=subprocess.PIPE, text=True).stdout
    L = [l for l in t.splitlines() if l and l[0] != '#']; write(path, L, head); return L
def write(path, L, head=''):
    with open(path, 'w') as f: f.write(head + ''.join(l + '\n' for l in L))
def check(tier, seed, ev, rdir, known):
    t0 = time.time(); runs = int(os.environ.get('SIM_RUNS', 20000 if tier == 'thorough' else 3000)); cap = float(os.environ.get('SIM_CAP', 600 if tier == 'thorough' else 40)); W = 8; st = {}; recs = {}; found = []; seeds = {}; stop = False
    def spawn(w, first): return subprocess.Popen([sys.executable, os.path.abspath(__file__), 'worker', str(seed), str(first), str(runs), str(W)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=dict(os.environ, PYTHONHASHSEED='0'), start_new_session=True)
    import selectors
    sel = selectors.DefaultSelector(); ps = [spawn(w, w) for w in range(W)]; buf = [b''] * W; cur = [-1] * W; live = W
    for w, p in enumerate(ps): os.set_blocking(p.stdout.fileno(), False); sel.register(p.stdout, selectors.EVENT_READ, w)
    def handle(w, l):
        f = l.split(' ')
        if f[0] == 'B': cur[w] = int(f[1]); seeds[int(f[1])] = int(f[2])
        elif f[0] == 'D': recs[int(f[1])] = (f[2], int(f[3]), int(f[4])); cur[w] = -1
        elif f[0] == 'V': found.append((int(f[1]), f[2], ' '.join(f[3:]))); cur[w] = -1
        elif f[0] == 'S':
            for a, b in json.loads(l[2:]).items(): st[a] = st.get(a, 0) + b
    while live:
        for key, _ in sel.select(1):
            w = key.data; b = key.fileobj.read()
            if b:
                buf[w] += b; parts = buf[w].split(b'\n'); buf[w] = parts.pop()
                for l in parts: handle(w, l.decode())
            elif b == b'':
                sel.unregister(key.fileobj); rc = ps[w].wait(); live -= 1
                if cur[w] >= 0 and not stop: found.append((cur[w], 'no-termination' if rc == 77 else 'crash-signal-%d' % -rc if rc < 0 else 'exit-%d' % rc, 'the process ended inside the run'))
        if (found or time.time() - t0 > cap) and not stop:
            stop = True
            for p in ps:
                try: os.killpg(p.pid, signal.SIGKILL)
                except OSError: pass
    t1 = time.time(); rc = 0; notes = ''; unconf = 0; vio = None; os.makedirs(rdir, exist_ok=True); tmp = os.path.join(rdir, '.C24.%d.tmp' % os.getpid()); kn = set()
    if os.path.exists(known):
        for l in open(known):
            pre = 'KNOWN-FINDING: property=C24 class='
            if l.startswith(pre): kn.add(l[len(pre):].split(' ')[0])
    for k, cls, msg in sorted(found):
        rs = seeds.get(k, 0); L = pygen(seed, k, rs, tmp); c, m, _ = once(tmp)
        if c is None: unconf += 1; notes += 'run %d reported %s once and did not repeat; ' % (k, cls); continue
        cls = c; msg = m or msg
        if cls in kn: print('KNOWN-FINDING: property=C24 class=%s %s' % (cls, msg)); continue
        tried = 0; tb = time.time()
        if not os.environ.get('SIM_NOMIN'):
            n = 2
            while len(L) > 1 and time.time() - tb < 25:
                step = (len(L) + n - 1) // n; ok = False
                from concurrent.futures import ThreadPoolExecutor
                cand = [L[:a] + L[a + step:] for a in range(0, len(L), step)]
                for b in range(0, len(cand), 8):
                    def tr(j): 
                        q = '%s.%d' % (tmp, j); write(q, cand[j]); r = once(q, 20)[0]; os.unlink(q); return r == cls
                    with ThreadPoolExecutor(8) as ex: res = list(ex.map(tr, range(b, min(b + 8, len(cand)))))
                    tried += len(res)
                    if any(res): L = cand[b + res.index(True)]; ok = True; n = max(2, n - 1); break
                    if time.time() - tb > 25: break
                if not ok:
                    if step <= 1: break
                    n = min(len(L), n * 2)
        path = os.path.join(rdir, 'C24-%d.trace' % rs); write(path, L, '# mrob simulation replay\n# property C24\n# run-seed %d\n# class %s\n# %s\n' % (rs, cls, msg)); c, m, _ = once(path)
        print('%s: %s\n  run %d (seed %d), minimised to %d operations in %d tries' % (cls, m or msg, k, rs, len(L), tried)); print('VIOLATION property=C24 replay=%s' % path); vio = {'class': cls, 'message': (m or msg)[:400], 'replay': path, 'operations': len(L)}; rc = 1; break
    rep = repok = 0
    if not rc:
        for k in sorted(recs)[::max(1, len(recs) // 4)][:4]:
            pygen(seed, k, seeds[k], tmp); c, m, dg = once(tmp); rep += 1; repok += dg == recs[k][0]
    samples = []
    for k in sorted(recs)[::max(1, len(recs) // 3)][:3]: L = pygen(seed, k, seeds[k], tmp); samples.append({'run': k, 'run_seed': str(seeds[k]), 'operations': len(L), 'result_digest': recs[k][0], 'trace_head': [l[:110] for l in L[:14]]})
    if os.path.exists(tmp): os.unlink(tmp)
    dgs = {r[0] for r in recs.values()}; nt = {r[0] for r in recs.values() if r[1] >= 3 and r[2] >= 2000}
    json.dump({'property': 'C24', 'tier': tier, 'seed': int(seed), 'level': 'exploration', 'violations': rc, 'wall_s': round(time.time() - t0, 2), 'coverage': {
        'method': 'deterministic simulation with fault injection: seeded search over histories, schedules and faults', 'evaluations': len(recs), 'distinct_nontrivial': len(nt),
        'rule': 'one evaluation is one simulated run, generated from (VERIF_SEED, property, run number) and executed through the Python module and through C++; non-trivial: at least 3 compared operations and 2000 basic blocks of library code; distinct: different digests of all compared results',
        'runs_planned': runs, 'search_wall_s': round(t1 - t0, 2), 'runs_per_hour': int(len(recs) / max(1e-3, t1 - t0) * 3600), 'operations_compared': sum(r[1] for r in recs.values()), 'library_basic_blocks_executed': sum(r[2] for r in recs.values()), 'distinct_by_result_digest': len(dgs),
        'repeatability': {'rerun_in_fresh_process': rep, 'identical': repok}, 'unconfirmed_reports': unconf, 'fault_kinds': 'garbage collection at any operation and threshold, dropped graphs, arrays overwritten after the call, arguments in every memory layout, allocation failure inside calls, unknown ids, interleaved graphs, network faults while building',
        'counters': st, 'real_components': 'mrobpy bindings, pybind11, the whole library (real code)', 'stub_components': 'scipy.sparse matrix classes, network, sensors, robots, allocator failures, clocks (simulated)', 'samples': samples, 'violation': vio, 'notes': notes}}, open(ev, 'w'), indent=1)
    print('C24 %s: %d runs, %d distinct histories, %.1f s%s' % (tier, len(recs), len(dgs), time.time() - t0, '' if rc else ', held')); return rc
if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == 'worker': signal.alarm(1200); worker([SIM, 'pysessions', a[1], a[2], a[3], a[4]])
    elif a[0] == 'trace': worker([SIM, 'pytrace', a[1]])
    elif a[0] == 'replay':
        c, m, _ = once(a[1])
        if c: print('%s: %s\nVIOLATION property=C24 replay=%s' % (c, m, a[1]))
        else: print('no violation')
        sys.exit(1 if c else 0)
    elif a[0] == 'check': sys.exit(check(a[1], a[2], a[3], a[4], a[5]))
