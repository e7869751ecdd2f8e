"""Which harness instances decide which property."""
OPS = ['PUT', 'GET', 'ACC', 'NBPUT', 'NBGET', 'NBACC']
ENVS = {
    'dflt': '',
    'copy': 'E("ARMCI_SHR_BUF_METHOD","COPY")',
    'atom': 'E("ARMCI_RMA_ATOMICITY","1")',
    'e2e': 'E("ARMCI_NO_FLUSH_LOCAL","1")',
    'wcre': 'E("ARMCI_USE_WIN_ALLOCATE","0")',
    'nocache': 'E("ARMCI_CACHE_RANK_TRANSLATION","0")',
    'direct': 'E("ARMCI_STRIDED_METHOD","DIRECT") E("ARMCI_IOV_METHOD","DIRECT")',
    'dcopy': 'E("ARMCI_STRIDED_METHOD","DIRECT") E("ARMCI_IOV_METHOD","DIRECT") E("ARMCI_SHR_BUF_METHOD","COPY")',
    'iovdirect': 'E("ARMCI_IOV_METHOD","DIRECT")',
    'consrv': 'E("ARMCI_IOV_METHOD","CONSRV")',
}
REGISTRY = {}
def prop(pid, covers, bounds, assumes=()):
    def deco(f):
        REGISTRY[pid] = (f, dict(covers=covers, bounds=bounds, assumes=list(assumes)))
        return f
    return deco
def J(name, harness, unwind=6, thorough=False, cost=10, uw=None, env=None, opts=(), mpi=None, timeout=800, drop=(), solver=None, witness_any=False, checks=False, only=(), **d):
    defs = ['-D%s%s' % (k, '' if v is True else '=%s' % v) for k, v in d.items() if v is not None and v is not False]
    if env: defs.append('-DVP_ENV=' + ENVS.get(env, env))
    if mpi: defs.append('-DVP_' + mpi)
    j = dict(name=name, harness=harness, defs=defs, unwind=unwind, unwindset=uw or {}, thorough=thorough, cost=cost, opts=list(opts), timeout=timeout, drop=list(drop), witness_any=witness_any, checks=checks, only=list(only))
    if solver: j['solver'] = solver
    return j

ASSUME = ['one process is encoded; the others are represented by the MPI model (model/mpi_model.h): RMA takes effect at the target at any moment between issue and the flush/unlock/wait that completes it',
          'heap allocation never fails; MPI calls never return errors']

S = dict(VP_ARENA=24, VP_D0OFF=14, VP_D0SZ=8)
@prop('C01', 'Public calls PARMCI_Init, PARMCI_Malloc, PARMCI_Put/Get/NbPut/NbGet, completion, PARMCI_Fence on 3 processes with two live allocations; all memory of all processes is compared with the reference.',
      '3 processes, 40 bytes of memory each, slices of 12 bytes, length 0..8 (symbolic), any source/destination offset, listed configurations', ASSUME)
def c01():
    r = []
    S = dict(VP_ARENA=24, VP_D0OFF=14, VP_D0SZ=8, P_MEM=True, unwind=10)
    for op in ('PUT', 'GET', 'NBPUT', 'NBGET'):
        for t in (0, 1, 2):
            r.append(J('%s-t%d' % (op, t), 'contig', VP_OP=op, VP_T0=t, VP_N=5, **S))
            for e in ('copy', 'atom'):
                if e == 'copy' and t == 0:
                    # source in the target's own slice, in the other allocation, private
                    for nm, lo, hi, n in (('own14', 14, 14, 3), ('own18', 18, 18, 3), ('other', 5, 5, 5), ('private', 1, 1, 5)):
                        r.append(J('%s-t0-copy-%s' % (op, nm), 'contig', VP_OP=op, VP_T0=0, VP_N=n, env=e, VP_SOLO=lo, VP_SOHI=hi, **S))
                    continue
                r.append(J('%s-t%d-%s' % (op, t, e), 'contig', VP_OP=op, VP_T0=t, VP_N=5, env=e, **S))
        r.append(J('%s-priv' % op, 'contig', VP_OP=op, VP_T0=1, VP_N=5, VP_SRC=1, **S))
        r.append(J('%s-priv-copy' % op, 'contig', VP_OP=op, VP_T0=1, VP_N=5, VP_SRC=1, env='copy', **S))
        r.append(J('%s-grp' % op, 'contig', VP_OP=op, VP_T0=2, VP_N=5, VP_GRP=1, **S))
        r.append(J('%s-grp-nocache' % op, 'contig', VP_OP=op, VP_T0=2, VP_N=5, VP_GRP=1, env='nocache', **S))
        r.append(J('%s-symlen' % op, 'contig', VP_OP=op, VP_T0=2, VP_NMAX=5, cost=40, **S))
        r.append(J('%s-zero' % op, 'contig', VP_OP=op, VP_T0=2, VP_N=0, **S))
        r.append(J('%s-wcre' % op, 'contig', VP_OP=op, VP_T0=1, VP_N=5, env='wcre', thorough=True, **S))
    for op in ('NBPUT', 'NBGET'):
        for c in (2, 3, 4):
            r.append(J('%s-compl%d' % (op, c), 'contig', VP_OP=op, VP_T0=1, VP_N=5, VP_COMPL=c, thorough=c == 2, **S))
    return r


SOPS = ['PUTS', 'GETS', 'ACCS', 'NBPUTS', 'NBGETS', 'NBACCS']
def strided_jobs(ops=SOPS, extra=None, shapes=None, envs=('dflt', 'direct'), few=False):
    r = []
    X = extra or {}
    for op in ops:
        acc = 'ACC' in op
        u = 4 if acc else 1
        SH = dict(L1=dict(VP_LV=1, VP_C0=4 if acc else 3, VP_C1=2), L2=dict(VP_LV=2, VP_C0=4 if acc else 2, VP_C1=2, VP_C2=2),
                  L3=dict(VP_LV=3, VP_C0=4 if acc else 2, VP_C1=2, VP_C2=1, VP_C3=2), L0=dict(VP_LV=0, VP_C0=4), L2t=dict(VP_LV=2, VP_C0=4, VP_C1=2, VP_C2=1))
        for e in envs:
            for sh, d in SH.items():
                if shapes and sh not in shapes: continue
                mem = dict(VP_ARENA=48, VP_D0OFF=16, VP_D0SZ=32) if acc else dict(VP_ARENA=32, VP_D0OFF=14, VP_D0SZ=14)
                mem.update(VP_DOFF=0, VP_DOHI=4 if not acc else 4)
                r.append(J('%s-%s-%s' % (op, sh, e), 'strided', unwind=20 if not acc else 36, VP_OP=op, VP_T0=1, env=e, **mem, **d, **X))
    return r
@prop('C02', covers='strided', bounds='b', assumes=ASSUME)
def c02():
    return strided_jobs()


VOPS = ['PUTV', 'GETV', 'ACCV', 'NBPUTV', 'NBGETV', 'NBACCV']
def vjob(name, op, env, S=3, B=None, **kw):
    acc = 'ACC' in op
    d = dict(VP_ARENA=48, VP_D0OFF=16, VP_D0SZ=32) if acc else dict(VP_ARENA=32, VP_D0OFF=14, VP_D0SZ=14)
    d.update(VP_OP=op, VP_S=S, VP_B=B or (4 if acc else 2), VP_T0=1)
    d.update(kw)
    return J(name, 'vector', unwind=d.pop('unwind', 36), env=env, **d)
@prop('C03', covers='vec', bounds='b', assumes=ASSUME)
def c03():
    r = []
    for op in VOPS:
        r.append(vjob(op + '-batched', op, 'dflt'))
        r.append(vjob(op + '-limit2', op, 'E("ARMCI_IOV_BATCHED_LIMIT","2")'))
        r.append(vjob(op + '-two', op, 'dflt', S=2, VP_K=2, VP_S1=1, VP_B1=8 if 'ACC' in op else 3))
        r.append(vjob(op + '-mpich-direct', op, 'iovdirect', mpi='MPICH'))
        r.append(vjob(op + '-mpich-chunk2', op, 'E("ARMCI_IOV_METHOD","DIRECT") E("ARMCI_IOV_DTYPE_CHUNK","2")', mpi='MPICH'))
        r.append(vjob(op + '-mpich-consrv', op, 'consrv', mpi='MPICH'))
    return r


CHK = 'E("ARMCI_IOV_CHECKS","1")'
@prop('C16', covers='vec', bounds='b', assumes=ASSUME)
def c16():
    r = []
    for op in VOPS:
        put, nb = 'PUT' in op, op.startswith('NB')
        u = 4 if 'ACC' in op else 1
        r.append(vjob(op + '-ovl', op, CHK, S=2, VP_DSTOVL=2 if put else 1))
        if put: r.append(vjob(op + '-ovl-e2e', op, CHK + ENVS['e2e'], S=2, VP_DSTOVL=1))
        r.append(vjob(op + '-two', op, CHK, S=2, VP_TWOALLOC=1))
        r.append(vjob(op + '-ovl3', op, CHK, S=3, VP_DSTOVL=2 if put else 1, thorough=True))
        for nm, o in (('same', '%d,%d' % (u, u)), ('apart', '%d,%d' % (2 * u, 0))) + (() if u == 4 else (('part', '3,4'),)):
            if 'GET' in op and nm == 'apart': continue
            r.append(vjob('%s-mpich-direct-%s' % (op, nm), op, CHK + ENVS['iovdirect'], S=2, VP_CRO=o, VP_DSTOVL=2 if put else 1, mpi='MPICH'))
    return r


def local_jobs(flag, light=False):
    """transfers that use temporary buffers or complete late, with the origin overwritten right after completion"""
    r = []
    for op in OPS:
        nb, acc = op.startswith('NB'), 'ACC' in op
        r.append(J('c-%s' % op, 'contig', VP_OP=op, VP_T0=1, VP_N=4, VP_SRC=1, unwind=10, **flag, **S))
        # shared local buffer, guarded by a copy
        r.append(J('c-%s-copy' % op, 'contig', VP_OP=op, VP_T0=1, VP_N=4, env='copy', VP_SOLO=16, VP_SOHI=16, unwind=10, **flag, **S))
        if acc:
            r.append(J('c-%s-scaled' % op, 'contig', VP_OP=op, VP_T0=1, VP_N=4, VP_SRC=1, VP_SCALE=2, unwind=10, **flag, **S))
            r.append(J('c-%s-scaled-copy' % op, 'contig', VP_OP=op, VP_T0=1, VP_N=4, env='copy', VP_SOLO=16, VP_SOHI=16, VP_SCALE=2, unwind=10, **flag, **S))
        if nb:
            for c in (2, 3, 4): r.append(J('c-%s-compl%d' % (op, c), 'contig', VP_OP=op, VP_T0=1, VP_N=4, VP_SRC=1, VP_COMPL=c, unwind=10, **flag, **S))
            r.append(J('c-%s-atom' % op, 'contig', VP_OP=op, VP_T0=1, VP_N=4, VP_SRC=1, env='atom', unwind=10, **flag, **S))
    for op in SOPS:
        acc = 'ACC' in op
        mem = dict(VP_ARENA=48, VP_D0OFF=16, VP_D0SZ=24, VP_C0=4) if acc else dict(VP_ARENA=32, VP_D0OFF=14, VP_D0SZ=12, VP_C0=3)
        mem.update(VP_OP=op, VP_T0=1, VP_LV=1, VP_C1=2, unwind=26)
        r.append(J('s-%s' % op, 'strided', **mem, **flag))
        r.append(J('s-%s-direct' % op, 'strided', env='direct', **mem, **flag))
        r.append(J('s-%s-copy' % op, 'strided', env='copy', VP_SRC=0, VP_LOFF=16, VP_LSPAN=mem['VP_D0SZ'] - 4, **mem, **flag))
        r.append(J('s-%s-dcopy' % op, 'strided', env='dcopy', VP_SRC=0, VP_LOFF=16, VP_LSPAN=mem['VP_D0SZ'] - 4, **mem, **flag))
        if acc:
            r.append(J('s-%s-scaled' % op, 'strided', VP_SCALE=2, **mem, **flag))
            r.append(J('s-%s-scaled-direct' % op, 'strided', VP_SCALE=2, env='direct', **mem, **flag))
    for op in VOPS:
        acc = 'ACC' in op
        d = {} if acc else dict(VP_D0SZ=10, VP_D0OFF=14)
        d = dict(VP_D0SZ=16, VP_ARENA=32) if acc else dict(VP_D0SZ=10)
        r.append(vjob('v-%s' % op, op, 'dflt', S=2, **d, **flag))
        r.append(vjob('v-%s-mpich' % op, op, 'iovdirect', S=2, mpi='MPICH', **d, **flag))
        if acc: r.append(vjob('v-%s-scaled' % op, op, 'dflt', S=2, VP_SCALE=2, **d, **flag))
    return r
@prop('C05', covers='', bounds='b', assumes=ASSUME)
def c05():
    return local_jobs(dict(P_LOCAL=1))

@prop('C06', 'Public calls issue puts, accumulates, strided and vector puts over a world allocation and one on the group {2,0}; then Fence, AllFence, Barrier or the flag forms; target memory is compared with the reference.',
      '3 processes, listed scripts of up to 4 operations, all data and all completion delays symbolic', ASSUME)
def c06():
    r = []
    F = lambda n, **kw: r.append(J(n, 'fence', unwind=26, **kw))
    for e in ('dflt', 'e2e', 'nocache'):
        F('fence2-' + e, VP_SCRIPT="PUT(1,2,0,3) PUT(0,2,1,2) PUT(1,1,2,2) ACC(0,2,4)", VP_DONE='FENCE(2)', env=e)
        F('fence1-' + e, VP_SCRIPT="PUT(1,1,0,3) PUT(0,2,1,2) NBPUT(1,1,4,2)", VP_DONE='FENCE(1)', env=e)
    F('fence0', VP_SCRIPT="ACC(1,0,0) PUT(0,0,1,2) NBACC(0,0,4)", VP_DONE='FENCE(0)')
    F('fence2-last', VP_SCRIPT="PUT(1,2,0,3) PUT(0,2,1,2) PUT(1,1,2,2)", VP_DONE='FENCE(2)', VP_LAST=True)
    F('fence1-last', VP_SCRIPT="NBPUTH(1,1,0,3) PUT(0,2,1,2) NBPUTW(1,1,4,2)", VP_DONE='FENCE(1)', VP_LAST=True)
    F('fence1-sv', VP_SCRIPT="PUTS(1,1,0,4) PUTV(1,1,4,4)", VP_DONE='FENCE(1)')
    F('fence1-sv-direct', VP_SCRIPT="PUTS(1,1,0,4) PUTV(1,1,4,4)", VP_DONE='FENCE(1)', env='direct', mpi='MPICH')
    F('fence1-nbsv', VP_SCRIPT="NBPUTS(1,1,0,4) NBPUT(0,1,4,2)", VP_DONE='FENCE(1)', VP_NOGRP=True)
    for d in ('ALLFENCE', 'BARRIER'):
        F(d + '-1', VP_SCRIPT="PUT(1,2,0,3) PUT(0,2,1,2) PUT(1,1,2,2) NBACC(0,2,4)", VP_DONE=d)
        F(d + '-2', VP_SCRIPT="NBPUTH(0,2,0,3) ACC(1,1,0) NBPUT(1,2,2,2) PUTS(1,1,4,2)", VP_DONE=d, VP_LAST=True)
        F(d + '-atom', VP_SCRIPT="PUT(1,2,0,3) NBPUTW(0,2,1,2) PUT(1,1,2,2)", VP_DONE=d, env='atom')
    for f in (1, 2):
        for t in (1, 2, 0):
            F('flag%d-t%d' % (f, t), VP_SCRIPT='', VP_FLAG=f, VP_FT=t, VP_FA=14)
        F('flag%d-t2-grp' % f, VP_SCRIPT='', VP_FLAG=f, VP_FT=2, VP_FA=5)
        F('flag%d-nb' % f, VP_SCRIPT='NBPUT(0,2,0,2)', VP_FLAG=f, VP_FT=2, VP_FA=14)
        F('flag%d-e2e' % f, VP_SCRIPT='', VP_FLAG=f, VP_FT=1, VP_FA=14, env='e2e')
    return r
@prop('C08', 'PARMCI_Rmw (all four operations) on 3 processes, with other processes updating the same word before, between and after the accesses the library makes; the returned value, the final word and all other memory are checked.',
      '3 processes, any aligned word of a 16-byte slice, any values, listed configurations', ASSUME)
def c08():
    r = []
    for op in ('ARMCI_FETCH_AND_ADD', 'ARMCI_FETCH_AND_ADD_LONG', 'ARMCI_SWAP', 'ARMCI_SWAP_LONG'):
        s = op[6:]
        L = 8 if 'LONG' in s else 4
        for t in (0, 1, 2): r.append(J('%s-t%d' % (s, t), 'rmw', unwind=18, VP_RMW=op, VP_T0=t, VP_D=None if t == 2 else 16 - L))
        for e, env in (('reqatom', 'E("ARMCI_USE_REQUEST_ATOMICS","1")'), ('reqatomflush', 'E("ARMCI_USE_REQUEST_ATOMICS","1") E("ARMCI_FLUSH_REQUEST_ATOMICS","1")'), ('e2e', 'e2e'), ('copy', 'copy'), ('atom', 'atom')):
            r.append(J('%s-t1-%s' % (s, e), 'rmw', unwind=18, VP_RMW=op, VP_T0=1, VP_D=L, env=env))
        r.append(J('%s-t2-grp' % s, 'rmw', unwind=18, VP_RMW=op, VP_T0=2, VP_GRP=True, VP_D=0))
        r.append(J('%s-t1-shared' % s, 'rmw', unwind=18, VP_RMW=op, VP_T0=1, VP_SRC=0, VP_SO=16, env='copy', VP_D=L))
        r.append(J('%s-t0-shared' % s, 'rmw', unwind=18, VP_RMW=op, VP_T0=0, VP_SRC=0, VP_SO=24, VP_D=0))
        r.append(J('%s-t1-ompi5' % s, 'rmw', unwind=18, VP_RMW=op, VP_T0=1, VP_OMPI=5, VP_D=L))
    return r


@prop('C04', 'All six element types through PARMCI_Acc, NbAcc, AccS, NbAccS, AccV, NbAccV: the contribution to each element is compared bit for bit (NaN as NaN) with scale times the source element in that type.',
      'two elements per call; integer sources and scales fully symbolic; floating-point sources symbolic with the listed scales, and scales symbolic near identity', ASSUME)
def c04():
    r = []
    for ty in range(6):
        for api in ('ACC', 'NBACC', 'ACCS', 'NBACCS', 'ACCV', 'NBACCV'):
            n = '%s-ty%d' % (api, ty)
            A = lambda nm, **kw: r.append(J(n + nm, 'acc', unwind=42, VP_TY=ty, VP_API=api, **kw))
            sc = dict(VP_SC0='-3', VP_SC1='5') if ty in (0, 1) else dict(VP_SC0='2.5', VP_SC1='-0.75')
            if ty in (4, 5): sc['VP_SMALL'] = 4
            sv = '3,-7,11,1e6' if ty in (0, 1) else '3,-0.5,1e10,1e-3'
            A('', **sc)
            A('-anyscale', VP_SRCV=sv, VP_NEAR=ty in (4, 5), thorough=api not in ('ACC', 'NBACCS', 'ACCV'))
            if ty in (0, 5):
                A('-one', VP_SC0='1', VP_SC1='0', VP_SRC=0, env='copy')
                A('-shared', VP_SRC=0, env='copy', **sc)
            if 'S' in api and ty in (1, 2, 4): A('-direct', env='direct', **sc)
            if 'V' in api and ty in (0, 2, 5): A('-mpich', env='iovdirect', mpi='MPICH', **sc)
            A('-allsym', thorough=True)
    return r

@prop('C07', 'Scripts of nonblocking contiguous, strided and vector operations over two allocations and three handles with every completion call; once completion is reported sources are overwritten and get results compared, requests and buffers counted.',
      '3 processes, listed scripts of up to 6 MPI operations, all data and completion delays symbolic', ASSUME)
def c07():
    r = []
    H = lambda n, s, **kw: r.append(J(n, 'handles', unwind=26, VP_SCRIPT=s, **kw))
    for f, kw in (('', {}), ('-ompi5', dict(VP_OMPI=5)), ('-mpich', dict(mpi='MPICH', env='direct')), ('-atom', dict(env='atom'))):
        H('single' + f, 'PUT(0,1,1,0,3) GET(1,1,2,4,3) ACC(2,1,1,8) W(1) TN(2) T(2) W(0)', **kw)
        H('agg3' + f, 'PUT(0,1,1,0,2) GET(0,0,2,4,2) ACC(0,1,2,8) PUT(1,1,1,4,2) W(0) TN(1) T(1)', **kw)
        H('agg5' + f, 'SETAGG(0) PUT(0,1,1,0,2) GET(0,0,2,4,2) PUT(0,1,2,2,2) GET(0,1,1,6,2) PUT(0,1,1,9,2) TN(0) T(0) UNSETAGG(0) IDLE(0)', **kw)
        H('reuse' + f, 'PUT(0,1,1,0,2) W(0) IDLE(0) GET(0,0,2,4,2) PUT(0,1,2,2,2) W(0) PUT(0,1,1,9,2) TN(0) TN(0) T(0) IDLE(0)', **kw)
        H('strided' + f, 'PUTS(0,1,1,0,4) GETS(1,0,2,0,4) TN(1) T(1) W(0)', **kw)
        H('vector' + f, 'PUTV(0,1,1,0,4) GETV(0,0,2,0,4) TN(0) W(0) IDLE(0)', **kw)
        H('accs' + f, 'ACCS2(0,1,1,0) PUT(0,1,1,8,2) T(0)', **kw)
    H('waitproc', 'PUT(-1,1,1,0,2) GET(-1,0,1,4,2) PUT(0,1,1,2,2) PUT(1,1,2,0,2) WP(1) T(0) W(1)')
    H('waitproc-grp', 'PUT(-1,1,1,0,2) GET(-1,0,2,4,2) PUT(0,1,1,2,2) WP(1) T(0) PUT(-1,0,2,0,2) WP(2)', VP_GRP=True)
    H('waitall', 'PUT(-1,1,1,0,2) GET(-1,0,2,4,2) PUT(0,1,0,2,2) ACC(1,1,2,8) WA T(0) W(1)')
    H('waitall-sv', 'PUTS(-1,1,1,0,4) GETV(-1,0,2,4,4) GET(0,1,2,2,2) WA W(0)')
    H('self', 'PUT(0,1,0,0,3) GET(1,0,0,4,3) ACC(2,1,0,8) T(0) T(1) TN(2) T(2) IDLE(0)')
    H('idle', 'IDLE(0) W(1) PUT(0,1,1,0,2) SETAGG(1) IDLE(1) PUT(1,1,2,0,2) UNSETAGG(1) W(1) W(0)')
    H('unset', 'SETAGG(0) PUT(0,1,1,0,2) GET(0,0,2,4,2) UNSETAGG(0) TN(0) T(0)')
    return r

@prop('C11', 'PARMCI_Malloc / ARMCI_Malloc_group / Free / Free_group / Finalize on the world group and the group {2,0}: returned addresses, exposed window, granularity hint, release counts.',
      '3 processes, two allocations; sizes up to 2^40 with every pattern of zero sizes listed, sizes symbolic where no later lookup depends on them; frees in either order or left to finalize', ASSUME)
def c11():
    r = []
    def M(nm, **kw): r.append(J(nm, 'malloc', unwind=12, **kw))
    for e in ('dflt', 'wcre', 'nocache'):
        for g0, g1 in ((0, 0), (0, 1), (1, 0)):
            for f in (0, 1, 2, 3, 4):
                if e == 'nocache' and (f != 3 or not (g0 or g1)): continue
                z0, z1 = {0: (0, 0), 1: (1, 4), 2: (6, 5), 3: (1, 6), 4: (3, 1)}[f]
                M('g%d%d-free%d-%s' % (g0, g1, f, e), VP_G0=g0, VP_G1=g1, VP_FREES=f, VP_Z0=z0, VP_Z1=z1, VP_SYM=(3 if f == 0 else 0), env=e)
    M('empty0', VP_FREES=3, VP_Z0=7, VP_Z1=0)
    M('empty1', VP_FREES=4, VP_Z0=2, VP_Z1=7, VP_G1=1)
    M('checked', VP_FREES=4, VP_Z0=1, VP_Z1=0, VP_G1=1, checks=True)
    M('checked-wcre', VP_FREES=4, VP_Z0=0, VP_Z1=1, VP_G1=1, checks=True, env='wcre')
    r.append(J('gran-cfg', 'malloc', unwind=12, VP_FREES=0, VP_SYM=3, VP_GRAN=4096, env='E("ARMCI_ACCUMULATE_GRANULARITY","4096")'))
    r.append(J('gran-zero', 'malloc', unwind=12, VP_FREES=0, VP_SYM=3, VP_GRAN=0, env='E("ARMCI_ACCUMULATE_GRANULARITY","0")'))
    r.append(J('gran-neg', 'malloc', unwind=12, VP_FREES=0, VP_SYM=3, env='E("ARMCI_ACCUMULATE_GRANULARITY","-5")'))
    return r

def avl_shapes(h, slot=1):
    """occupied-slot masks of all AVL trees of exactly height h rooted at heap slot"""
    if h == 0: return [0]
    r = []
    for a, b in ((h - 1, h - 1), (h - 1, h - 2), (h - 2, h - 1)):
        if a < 0 or b < 0: continue
        r += [1 << slot | x | y for x in avl_shapes(a, 2 * slot) for y in avl_shapes(b, 2 * slot + 1)]
    return r
@prop('C15', 'ctree_insert, ctree_locate and ctree_destroy on arbitrary valid trees (inductive step over every shape and every set of disjoint ranges up to the height) and on insertion sequences from empty.',
      'trees of height at most 3 before the operation (4 in the thorough tier), i.e. any history that stays below 5 ranges or fits in that height; sequences of 4 insertions; addresses within 2^20 bytes (the code only compares them)', ASSUME[1:])
def c15():
    r = []
    P = ['--paths', 'lifo']      # path by path: shapes and insertion points become constants on each path
    for h in (1, 2, 3, 4):
        for s in ([0] if h == 1 else []) + avl_shapes(h):
            for st in (0, 1):
                r.append(J('%s-shape%d' % (('insert', 'locate')[st], s), 'ctree', unwind=h + 3, uw={'harness.%d' % i: (1 << h) + 2 for i in range(5)}, cost=40 * h, VP_HT=h, VP_STEP=st,
                           VP_SHAPE=s, witness_any=True, opts=P, thorough=(h == 4 or (st == 1 and s not in (0, 2, 14, 254, 126, 174, 30)))))
        if h < 4: r.append(J('destroy-h%d' % h, 'ctree', unwind=(1 << h) + 2, cost=40 * h, VP_HT=h, VP_STEP=2))
    for n in (3, 4, 5):
        r.append(J('seq%d' % n, 'ctree', unwind=9, VP_SEQ=n, cost=30 * n, thorough=n == 5, opts=P))
    r.append(J('checked', 'ctree', unwind=4, uw={'harness.%d' % i: 6 for i in range(5)}, VP_HT=2, VP_STEP=0, VP_SHAPE=14, checks=True, opts=P))
    return r

@prop('C10', 'gmr_lookup on the state left by PARMCI_Malloc / ARMCI_Malloc_group / Free scripts (list maintenance of gmr_create and gmr_destroy), for an arbitrary address and each process.',
      '3 processes, up to three live allocations with at most two frees per script (all free orders, reuse of freed addresses, empty and adjacent slices, world and subgroup); every address of a 64-byte space; slice addresses and sizes symbolic in scripts without frees', ASSUME)
def c10():
    r = []
    scripts = dict(abc='A(0) A(1)', gab='G(0) A(1)', fa='A(0) A(1) F(0)', fb='A(0) A(1) F(1)', reuse='A(0) A(1) F(0) A(2)', greuse='G(0) G(1) F(0) G(2)', freuse='A(0) F(0) A(2) A(1)',
                   mid='A(1) A(0) F(0) A(2) F(1)', gmid='A(0) G(1) F(0) A(2)', last='A(0) A(1) F(0) A(2) F(2)', all='A(0) A(1) F(0) F(1)', all2='A(0) A(1) F(1) F(0)',
                   three='A(0) A(1) A(3) F(1)', three2='A(0) G(1) A(3) F(1) F(0) A(2)', three3='A(3) A(1) A(0) F(0) F(1)', three4='A(3) A(1) A(0) F(3)')
    for n, s in scripts.items():
        for p in (0, 1, 2):
            r.append(J('%s-p%d' % (n, p), 'lookup', unwind=12, VP_P=p, VP_SCRIPT=s, witness_any=True))
    for p in (0, 1, 2):
        for n, s in (('s2', 'A(0) A(1)'), ('s3', 'A(0) A(1) A(2)'), ('sg', 'A(0) G(1) A(2)')):
            r.append(J('sym-%s-p%d' % (n, p), 'lookup', unwind=12, VP_P=p, VP_SYMPLAN=1, VP_SCRIPT=s, witness_any=True))
    for e in ('wcre', 'nocache'):
        r.append(J('gmid-%s' % e, 'lookup', unwind=12, VP_P=2, VP_SCRIPT=scripts['gmid'], env=e, witness_any=True))
    r.append(J('checked', 'lookup', unwind=12, VP_P=0, VP_SCRIPT=scripts['reuse'], checks=True, witness_any=True))
    return r



@prop('C09', 'PARMCI_Create_mutexes / Lock / Unlock / Destroy_mutexes and the ARMCIX_*_hdl functions of one process, composed with arbitrary invariant-preserving steps of all others before every exclusive epoch and while it waits (rely/guarantee: every process runs the same code, so the invariant is inductive over any number of operations).',
      '3 and 4 processes, every rank and host, two mutexes, the group {2,0}; two consecutive lock/unlock rounds; assumes callers only unlock what they hold and that MPI_Win_lock exclusive epochs are atomic', ASSUME)
def c09():
    r = []
    def M(nm, **kw): r.append(J(nm, 'mutex', unwind=12, VP_MAXOPS=12, witness_any=kw.pop('wa', False), uw={'MPI_Win_unlock.0': 6, 'begin_epoch.1': 70}, **kw))
    for n in (3, 4):
        for me in range(n):
            for host in range(n):
                M('n%d-me%d-host%d' % (n, me, host), VP_NPROC=n, VP_ME=me, VP_HOST=host, VP_MX=(me + host) % 2, VP_ONCE=True, thorough=(n == 4 and me != host and host != 0) or (n == 3 and host == 2 and me == 1))
    M('twice', VP_ME=1, VP_HOST=0)
    M('two-procs', VP_NPROC=2, VP_ME=1, VP_HOST=0, VP_ONCE=True)
    M('one-proc', VP_NPROC=1, VP_ME=0, VP_HOST=0, VP_ONCE=True, wa=True)
    for me in (0, 2):
        for host in (0, 2): M('grp-me%d-host%d' % (me, host), VP_ME=me, VP_HOST=host, VP_GRP=1, VP_TRY=True if host == 2 else None, VP_ONCE=True)
    M('grp-nocache', VP_ME=0, VP_HOST=2, VP_GRP=1, VP_ONCE=True, env='nocache')
    for nm, c in (('none', '{0,2,1,0}'), ('uneven', '{1,3,0,0}'), ('mine', '{2,0,0,0}')):
        for me in (0, 1): M('life-%s-%d' % (nm, me), VP_LIFE=True, VP_ME=me, VP_CNT=c)
    M('life-grp', VP_LIFE=True, VP_GRP=1, VP_CNT='{1,3,2,0}')
    for e in (1, 2, 3, 4, 5, 6): M('misuse%d' % e, VP_ERR=e, wa=True)
    M('checked', VP_ME=1, VP_HOST=1, VP_ONCE=True, checks=True)
    return r



@prop('C12', 'Every public transfer, accumulate and read-modify-write call with arbitrary remote addresses and lengths against two neighbouring slices of symbolic size; the exact blocks handed to MPI are compared with the named ranges and the window.',
      'slices of 1 to 2^40 bytes, remote offsets from -2^33 to beyond both slices, lengths up to 2^31-1, strides up to 2^31-1, 2 or 3 segments (all in the allocation of the first one, except with the conservative vector method); private local buffers; with the direct vector method, segments at most 2^31-1 bytes apart; target other than the caller (a self-target access with a private buffer is a plain local copy)', ASSUME)
def c12():
    r = []
    def R(nm, **kw): r.append(J(nm, 'range', unwind=10, **kw))
    for op in ('PUT', 'GET', 'ACC', 'NBPUT', 'NBGET', 'NBACC', 'RMWI', 'RMWL', 'SWAPI', 'SWAPL'): R(op, VP_OP=op)
    for op in ('PUTS', 'GETS', 'ACCS', 'NBPUTS', 'NBGETS', 'NBACCS'):
        for n in (2, 3):
            for e in ('direct', 'iovs'):
                R('%s%d-%s' % (op, n, e), thorough=n == 3 and (op, e) not in (('PUTS', 'direct'), ('NBGETS', 'iovs')), VP_OP=op, VP_N=n, env={'iovs': 'E("ARMCI_STRIDED_METHOD","IOV")'}.get(e, e), VP_SAMEALLOC=True)
    for op in ('PUTV', 'GETV', 'ACCV', 'NBPUTV', 'NBGETV', 'NBACCV'):
        for m in ('dflt', 'consrv', 'iovdirect'):
            R('%s-%s' % (op, m), thorough=m == 'iovdirect' and op in ('PUTV', 'NBGETV', 'NBACCV'), VP_OP=op, VP_N=2, mpi=None if m == 'dflt' else 'MPICH', env=m, VP_SAMEALLOC=True if m != 'consrv' else None, VP_SPAN=True if m == 'iovdirect' else None)
    return r

@prop('C13', 'ARMCI_Group_create / _create_child, ARMCIX_Group_split, ARMCIX_Group_dup, ARMCI_Group_rank/_size/_free/_get_world/_set_default/_get_default, ARMCI_Absolute_id and ARMCII_Translate_absolute_to_group on every group they yield, for members and non-members, with and without the translation cache.',
      '4 processes, any calling process, any list of 1 to 4 distinct ranks and any child list of it, any split colours (0, 1, undefined) and keys 0..3', ['MPI communicator and group calls behave as MPI specifies; heap allocation never fails'])
def c13():
    r = []
    for c in (0, 1):
        env = None if c else 'nocache'
        for n in (2, 3, 4):
            r.append(J('list%d-cache%d' % (n, c), 'groups', unwind=8, env=env, VP_MODE=0, VP_GN=n, checks=True, witness_any=True))
        r.append(J('split-cache%d' % c, 'groups', unwind=8, env=env, VP_MODE=2, checks=True, witness_any=True))
    return r


@prop('C14', 'ARMCI_Group_create with the collective and the noncollective algorithm; for the latter the code is run for every process of the job and its pairing calls are matched as MPI would match them.',
      'collective: 4 processes, every list of 1..3 (thorough 4) ranks; noncollective: 5 (thorough 7) processes, every list of 1..5 (7) distinct ranks in any order', ['MPI communicator and group calls behave as MPI specifies; heap allocation never fails'])
def c14():
    r = []
    for n in (1, 2, 3, 4):
        r.append(J('coll%d' % n, 'groups', unwind=8, VP_MODE=0, VP_GN=n, witness_any=True, thorough=n == 4))
    for n in (1, 2, 3, 4, 5):
        r.append(J('noncoll%d' % n, 'gcreate', unwind=8, VP_LIB_COMMLONG=True, VP_GN=n, VP_NPROC=5, VP_ROUNDS={1: 0, 2: 1, 3: 2, 4: 2, 5: 3}[n], witness_any=True))
    for n in (5, 6, 7):
        r.append(J('noncoll%d-np7' % n, 'gcreate', unwind=9, thorough=True, VP_LIB_COMMLONG=True, VP_GN=n, VP_NPROC=7, VP_ROUNDS=3, witness_any=True))
    return r



GOPS = dict(sum='+', prod='*', max='max', min='min', absmax='absmax', absmin='absmin', **{'or': 'or', 'land': 'land', 'land2': '&&', 'lor': 'lor', 'lor2': '||', 'band': 'band', 'band2': '&', 'bor': 'bor', 'bor2': '|'})
@prop('C17', 'armci_msg_gop_scope, armci_msg_group_gop_scope and the per-type world and group calls for all fifteen operator names and five element types, private and globally accessible vectors, with and without the shared-buffer copy; the reduction operators the library registers with MPI are executed.',
      '3 participants (also 2 and 1), vectors of 2 elements, any element values except NaN', ASSUME + ['MPI_Allreduce folds all contributions with the given operator; floating-point sum and product are represented by fixed stand-in functions'])
def c17():
    r = []
    def G(nm, name, **kw): r.append(J(nm, 'gop', unwind=26, VP_NAME='"%s"' % name, **kw))
    for nm, o in GOPS.items():
        G(nm, o, VP_VIA=0)
        if nm in ('sum', 'absmax', 'absmin', 'or', 'land2'):
            G(nm + '-shr', o, VP_SHR=True); G(nm + '-copy', o, VP_SHR=True, env='copy')
            G(nm + '-masters', o, VP_SCOPE=2); G(nm + '-node', o, VP_SCOPE=1)
            G(nm + '-sub', o, VP_VIA=3, VP_SUB=True); G(nm + '-solo', o, VP_VIA=3, VP_SOLO=True)
        if nm in ('max', 'absmin'): G(nm + '-world', o, VP_VIA=1); G(nm + '-group', o, VP_VIA=2, VP_SUB=True)
    G('bad-op', 'x', VP_BAD=1); G('bad-type', 'x', VP_BAD=2)
    return r



@prop('C18', 'armci_msg_sel_scope and armci_msg_sel with the operators the library registers with MPI: the real call is made once per participant, and the contributions are combined by the real operators.',
      '3 participants (also the caller alone), records of 20 bytes, any contents except NaN values, every set of contributors, all five element types, several combination orders and splits of the element sequence', ASSUME + ['at least one participant contributes'])
def c18():
    r = []
    def G(nm, **kw):
        d = dict(VP_NAME='"min"', VP_TY=0, VP_N=20, VP_MASK=7, VP_CUT=9); d.update(kw); env = d.pop('env', None)
        th = d.pop('thorough', False)
        r.append(J(nm, 'sel', unwind=66, env=env, thorough=th, **d))
    for o in ('min', 'max'):
        for t in range(5): G('%s-ty%d' % (o, t), VP_NAME='"%s"' % o, VP_TY=t, VP_ORDER=t % 3)
        for m in range(1, 7): G('%s-mask%d' % (o, m), VP_NAME='"%s"' % o, VP_TY=(m * 2) % 5, VP_MASK=m, VP_ORDER=m % 3, thorough=(m + (o == 'max')) % 2)
        G(o + '-shr', VP_NAME='"%s"' % o, VP_TY=4, VP_SHR=True); G(o + '-copy', VP_NAME='"%s"' % o, VP_TY=1, VP_SHR=True, env='copy')
        G(o + '-node', VP_NAME='"%s"' % o, VP_TY=1, VP_SCOPE=1); G(o + '-masters', VP_NAME='"%s"' % o, VP_TY=1, VP_SCOPE=2)
    G('bad', VP_BAD=True)
    return r


@prop('C19', 'armci_msg_snd, armci_msg_rcv, armci_msg_rcvany, armci_msg_bcast, armci_msg_brdcst, armci_msg_bcast_scope, armci_msg_group_bcast_scope with private and globally accessible buffers, with and without the shared-buffer copy.',
      '3 processes, messages of 0 to 8 bytes in a buffer of 8 (shorter messages included), any tag, peer, root and contents', ASSUME)
def c19():
    r = []
    def G(nm, mode, **kw):
        r.append(J(nm, 'msg', unwind=26, VP_MODE=mode, **kw))
    for m in ('SND', 'RCV', 'RCVANY'):
        G(m, m); G(m + '-shr', m, VP_SHR=True); G(m + '-copy', m, env='copy', VP_SHR=True); G(m + '-privcopy', m, env='copy')
    for m in ('BCAST', 'BRDCST', 'BCASTSC', 'GBCAST'):
        for p in (0, 2):
            G('%s-r%d' % (m, p), m, VP_PEER=p); G('%s-r%d-copy' % (m, p), m, VP_PEER=p, env='copy', VP_SHR=True)
    G('GBCAST-sub0', 'GBCAST', VP_SUB=True, VP_PEER=0); G('GBCAST-sub2', 'GBCAST', VP_SUB=True, VP_PEER=2, VP_SHR=True, env='copy'); G('GBCAST-sub2-nocache', 'GBCAST', VP_SUB=True, VP_PEER=2, env='nocache')
    for s in (1, 2): G('BCASTSC-s%d' % s, 'BCASTSC', VP_SCOPE=s, VP_PEER=1); G('GBCAST-s%d' % s, 'GBCAST', VP_SCOPE=s, VP_PEER=1)
    return r


@prop('C20', 'armci_msg_bintree for an arbitrary process and its reported neighbours, outputs preset to arbitrary values.',
      'all scopes, 1 to 2^20 processes (root reached within 22 steps)', ['MPI_Comm_rank and MPI_Comm_size report the caller and the job'])
def c20():
    return [J('scope%d' % s, 'bintree', unwind=24, VP_SCOPE=s, VP_NPMAX='(1<<20)', VP_DEPTH=22, witness_any=True) for s in (0, 1, 2)]




@prop('C21', 'PARMCI_Init with symbolic environment strings: every setting of the library, alone and in groups, including the window hints that carry settings; the progress thread with its pause is run.',
      'boolean settings: all fifteen at once, strings of 3 arbitrary bytes (the code looks at the first); integers: 6 (thorough 12) arbitrary characters, and strings of up to 21 characters around the limits of int, unsigned and long; method names: any 8 characters; ordering: any 24 characters', ['heap allocation never fails', 'where README and code comments disagree about a default (shared-buffer and vector method), the code comments count'])
def c21():
    r = []
    def I(nm, **kw): r.append(J(nm, 'init', unwind=kw.pop('unwind', 30), VP_MODE=kw.pop('mode', 0), witness_any=True, **kw))
    for f, kw in (('', {}), ('-ompi5', dict(VP_OMPI=5)), ('-mpich', dict(mpi='MPICH'))):
        I('bools' + f, VP_LO=0, VP_HI=14, VP_LEN=3, **kw)
        for n, row in (('shr', 21), ('strided', 22), ('iov', 23)): I(n + f, VP_LO=row, VP_HI=row, VP_LEN=8, **kw)
    I('hints', VP_LO=7, VP_HI=9, VP_LEN=2, VP_WINDOW=True); I('debugalloc', VP_LO=0, VP_HI=0, VP_LEN=2, VP_WINDOW=True)
    I('ordering', VP_LO=24, VP_HI=24, VP_LEN=24, VP_WINDOW=True, checks=True)
    for n, row, kw in (('verbose', 15, {}), ('limit', 16, {}), ('chunk', 17, {}), ('chunk-ompi5', 17, dict(VP_OMPI=5)), ('chunk-mpich', 17, dict(mpi='MPICH')), ('gran', 18, {}), ('usleep', 19, dict(VP_PTHREADS=True)), ('shmlimit', 20, {})):
        I(n, VP_LO=row, VP_HI=row, VP_LEN=6, **kw)
        I(n + '-long', VP_LO=row, VP_HI=row, VP_LEN=12, thorough=True, **kw)
        if n.startswith('chunk-'): continue
        for m, pre in (('huge', '9223372036854775'), ('neghuge', '-9223372036854775'), ('int', '21474836'), ('negint', '-21474836'), ('wrap', '4294967')):
            I('%s-%s' % (n, m), VP_LO=row, VP_HI=row, VP_LEN=4, VP_PRE='"%s"' % pre, **kw)
    I('thread', mode=4, VP_LEN=2, VP_PTHREADS=True)
    for k, u in enumerate(('0', '7', '999999', '1000000', '1500000', '2147483647', '-5', '-2147483648', '99999999999')): I('thread-%d' % k, mode=4, VP_LEN=12, VP_USLEEP='"%s"' % u, VP_PTHREADS=True)
    return r


@prop('C22', 'PARMCI_Init, _Init_args, _Init_mpi_comm, _Init_thread, _Init_thread_comm, _Initialized and _Finalize in any order; rejected initializations with symbolic MPI state and thread levels; allocations across nested initialization.',
      'every sequence of up to 5 calls; every combination of MPI state and thread levels', ['heap allocation never fails'])
def c22():
    r = []
    for h in range(5):
        r.append(J('seq4-%d' % h, 'init', unwind=30, VP_MODE=1, VP_STEPS=4, VP_HOW=h, witness_any=True, thorough=h % 2 == 1)); r.append(J('alloc-%d' % h, 'init', unwind=30, VP_MODE=5, VP_HOW=h, witness_any=True, thorough=h not in (0, 3)))
    r.append(J('seq6', 'init', unwind=30, VP_MODE=1, VP_STEPS=5, VP_HOW=0, witness_any=True, thorough=True))
    for h in (0, 1): r.append(J('reject-%d' % h, 'init', unwind=30, VP_MODE=2, VP_HOW=h, witness_any=True))
    return r


@prop('C27', 'PARMCI_Init with symbolic library version strings; the version printed when ARMCI_VERBOSE is set is compared with the one in the string.',
      'MPICH, Open MPI and Intel MPI formats with any version numbers up to two digits (Intel: major 2017..2099); arbitrary strings of 33 bytes (31 are looked at), also after each vendor name', ['heap allocation never fails', 'the vendor formats are "MPICH Version:      M.m.p", "Open MPI vM.m.p, ..." and "Intel(R) MPI Library M.m for ..."'])
def c27():
    r = []
    def V(nm, **kw): r.append(J(nm, 'init', unwind=kw.pop('unwind', 42), VP_MODE=3, witness_any=True, **kw))
    V('mpich', VP_PRE='"MPICH Version:      "', VP_MAJ='3,9', VP_MIN='0,9', VP_TAIL='".#"'); V('mpich-rc', VP_PRE='"MPICH Version:      "', VP_MAJ='3,9', VP_MIN='0,9', VP_TAIL='".#rc#"', thorough=True)
    V('ompi', VP_PRE='"Open MPI v"', VP_MAJ='2,9', VP_MIN='0,9', VP_TAIL='".#, package: x"'); V('ompi-rc', VP_PRE='"Open MPI v"', VP_MAJ='2,9', VP_MIN='0,9', VP_TAIL='".#rc#, package: x"', thorough=True)
    V('intel', VP_PRE='"Intel(R) MPI Library "', VP_MAJ='2017,2030', VP_MIN='0,30', VP_TAIL='" for Linux* OS"')
    for a, b, t in ((4, 3, '.2'), (3, 4, '.3'), (4, 0, 'rc3'), (5, 0, '')): V('mpich-%d.%d' % (a, b), VP_PRE='"MPICH Version:      "', VP_MAJ='%d,%d' % (a, a), VP_MIN='%d,%d' % (b, b), VP_TAIL='"%s"' % t)
    for a, b in ((2021, 10), (2019, 9), (2021, 1)): V('intel-%d.%d' % (a, b), VP_PRE='"Intel(R) MPI Library "', VP_MAJ='%d,%d' % (a, a), VP_MIN='%d,%d' % (b, b), VP_TAIL='" for Linux* OS"', checks=True)
    V('any', VP_LEN=33, checks=True)
    for n, p in (('mpich', 'MPICH'), ('ompi', 'Open MPI'), ('intel', 'Intel(R) MPI Library')): V('any-' + n, VP_PRE='"%s"' % p, VP_LEN=33 - len(p), checks=True, thorough=True)
    return r


@prop('C25', 'PARMCI_Access_begin / _end with an arbitrary address, PARMCI_Barrier, armci_msg_barrier and armci_msg_group_barrier on windows of the separate model, the unified model and without the attribute; private and public copies are kept apart and merged by MPI_Win_sync.',
      '3 processes, two allocations (also one on the group {2,0}), one local store and one remote update at any bytes; the message-layer barriers with ARMCI_MSG_BARRIER_SYNCS', ASSUME[1:])
def c25():
    r = []
    for m in (0, 1, 2):
        for g in (None, True):
            n = 'm%d%s' % (m, '-grp' if g else '')
            r.append(J('access-' + n, 'access', unwind=34, VP_MODE=0, VP_MODEL=m, VP_GRP=g)); r.append(J('barrier-' + n, 'access', unwind=34, VP_MODE=1, VP_MODEL=m, VP_GRP=g, witness_any=True))
            for k, nm in ((2, 'msg'), (3, 'gmsg')): r.append(J('%s-%s' % (nm, n), 'access', unwind=34, VP_MODE=k, VP_MODEL=m, VP_GRP=g, witness_any=True, env='E("ARMCI_MSG_BARRIER_SYNCS","1")'))
    return r


@prop('C24', 'PARMCI_PutValue*, NbPutValue* (with and without handle) and GetValue* for int, long, float and double; all memory of all processes is compared with the reference.',
      '3 processes, two allocations (also one on the group {2,0}), any bit pattern, any byte offset in a slice of 16 bytes, every target', ASSUME)
def c24():
    r = []
    for t, tn in enumerate(('int', 'long', 'float', 'double')):
        for o, on in ((1, 'put'), (2, 'nbput'), (3, 'get')):
            for p in (0, 1, 2):
                r.append(J('%s-%s-t%d' % (on, tn, p), 'value', unwind=65, VP_OP=o, VP_TY=t, VP_T0=p, VP_HOW=p))
            r.append(J('%s-%s-grp' % (on, tn), 'value', unwind=65, VP_OP=o, VP_TY=t, VP_T0=2, VP_GRP=True))
            for e in ('atom', 'copy', 'e2e'):
                r.append(J('%s-%s-%s' % (on, tn, e), 'value', unwind=65, VP_OP=o, VP_TY=t, VP_T0=1, env=e, thorough=t in (1, 2) and e != 'atom'))
            r.append(J('%s-%s-ompi5' % (on, tn), 'value', unwind=65, VP_OP=o, VP_TY=t, VP_T0=1, VP_OMPI=5))
    return r


OB = ['--object-bits', '13']
@prop('C28', 'PARMCI_NbPut/NbGet/NbAcc built for Open MPI 5: long sequences on two windows and several handles, counted at the MPI interface, followed by operations carrying data.',
      '2 processes, sequences of up to 300 operations of two kinds each, every choice of kind and window (handle 0 waited for after each operation), fixed patterns for aggregate handles', ASSUME)
def c28():
    r = []
    for a, b, n in ((0, 1, 'pg'), (1, 2, 'ga'), (0, 2, 'pa')):
        r.append(J('wait-' + n, 'limit', unwind=302, VP_N=140, VP_K0=a, VP_K1=b, VP_OMPI=5, opts=OB, thorough=True)); r.append(J('wait300-' + n, 'limit', unwind=302, VP_N=300, VP_K0=a, VP_K1=b, VP_OMPI=5, opts=OB, thorough=True))
        for h, m in ((3, 'win'), (4, 'null')): r.append(J('%s-%s' % (m, n), 'limit', unwind=302, VP_N=140, VP_K0=a, VP_K1=b, VP_HMODE=h, VP_OMPI=5, opts=OB))
        for h in (1, 2):
            for k in (127, 128, 260): r.append(J('h%d-%s-%d' % (h, n, k), 'limit', unwind=302, VP_N=k, VP_K0=a, VP_K1=b, VP_HMODE=h, VP_OMPI=5, opts=OB))
    return r


@prop('C29', 'armci_domain_nprocs, _id, _glob_proc_id, _my_id, _count, _same_id and ARMCI_Same_node.', '1 to 4 processes, every rank, domain and local id', ['heap allocation never fails'])
def c29():
    return [J('n%d-me%d' % (n, m), 'topology', unwind=20, VP_NPROC=n, VP_ME=m) for n in (1, 2, 3, 4) for m in range(n)]


@prop('C26', 'The wrappers of src/parmci.c as built without weak symbols; the implementations are stubs that record their arguments.', 'all 62 public functions with a profiling name, all argument values and results', ['the public interface is the one of armci.h'])
def c26():
    return [J('wrappers', 'wrappers', unwind=20, only=['parmci'])]


@prop('C23', 'Every kind of public call in every transfer method, group, mutex, allocation and handle life cycles and finalize: MPI datatypes, groups, communicators, info objects, windows, operators, requests, MPI_Alloc_mem and heap blocks are counted in the model.',
      'the bounds of the harnesses used (contig, strided, vector, handles, malloc, mutex, groups, init, leak); heap blocks are those of malloc, calloc, realloc and strdup', ASSUME)
def c23():
    r = []
    quick = {0: ('dflt', 'copy-shr', 'direct-ompi5', 'e2e'), 1: ('dflt', 'direct', 'copy-shr', 'direct-mpich', 'wcre'), 2: ('dflt', 'nocache', 'wcre'), 3: ('dflt', 'copy-shr', 'direct-mpich', 'consrv-mpich')}
    for part, more in ((0, 'copy wcre atom nocache copy-shr-ompi5'), (1, 'atom e2e nocache consrv-mpich copy-shr-mpich'), (2, ''), (3, 'wcre atom e2e nocache direct-ompi5')):
        for v in quick[part] + tuple(more.split()):
            w = v.split('-')
            r.append(J('life%d-%s' % (part, v), 'leak', unwind=26, opts=OB, VP_PART=part, VP_SHARED=int('shr' in w), env=w[0],
                       VP_OMPI=5 if 'ompi5' in w else None, mpi='MPICH' if 'mpich' in w else None))
    r += local_jobs(dict(P_LEAK=1))
    keep = [j for j in c07() if j['name'] in ('agg3', 'agg5', 'reuse', 'strided-mpich', 'vector', 'waitall-sv', 'unset', 'accs-atom')]
    keep += [j for j in c11() if j['name'] in ('g00-free3-dflt', 'g01-free4-wcre', 'g10-free1-dflt', 'g01-free2-dflt', 'empty1', 'g00-free0-wcre')]
    keep += [j for j in c09() if j['name'] in ('life-uneven-0', 'life-grp', 'two-procs')]
    keep += [j for j in c13() if j['name'] in ('list3-cache1', 'split-cache1')] + [j for j in c14() if j['name'] in ('noncoll3',)]
    keep += [j for j in c22() if j['name'] in ('seq4-0', 'alloc-0')] + [j for j in c19() if 'copy' in j['name']][:4] + [j for j in c18() if 'copy' in j['name']][:4]
    return r + keep


def jobs(pid): return REGISTRY[pid][0]()
def info(pid): return REGISTRY[pid][1]
NOT_APPLICABLE = {}
