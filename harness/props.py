"""Which machinery decides which property."""
import gen
import streamcheck
import tlc

STREAM_ASSUMPTIONS = [
    'the real code runs under a deterministic scheduler: threads, locks, events and time are virtual, and a switch '
    'is possible at every source line of stream2py and every lock or clock operation (not inside one line)',
    'the source calls of the tested sources return',
]


def stream(fam, **kw):
    def check(ctx):
        ctx.assumptions += STREAM_ASSUMPTIONS
        q = dict(n_random=ctx.pick(220, 3000), strats=ctx.pick(4, 8), n_pre=ctx.pick(10, 200), pre_points=ctx.pick(400, 4000),
                 pre2=ctx.pick(40, 400), deadline=ctx.pick(60, 300), cap=ctx.pick(1500, 60000))
        q.update(kw)
        streamcheck.run_family(ctx, fam, **q)
    return check


def model(*names, deep=()):
    """Exhaustive model checks of the specification itself."""
    def check(ctx):
        for module, cfg in names + (() if ctx.quick else tuple(deep)):
            ctx.model(cfg, tlc.check_model(module, cfg, timeout=900, heap='16g'))
    return check


def mcs(name):
    return model(('MCStream', f'MCStream_{name}.cfg'), deep=[('MCStream', f'MCStream_{name}_deep.cfg')])


def reader(mode):
    return lambda ctx: gen.reader(ctx, mode)


def window(auto, n=None, most=()):
    return lambda ctx: gen.window(ctx, auto, n and n * ctx.pick(1, 20), most)


def life(*cfgs):
    return lambda ctx: gen.life(ctx, *cfgs)


def twins(*cfgs):
    return lambda ctx: gen.twins(ctx, *cfgs)


def both(*checks):
    def check(ctx):
        for c in checks:
            c(ctx)
    return check


def lock(ctx):
    import locks_scen
    ctx.assumptions += STREAM_ASSUMPTIONS[:1]
    streamcheck.run_family(
        ctx, 'locks', kind='lock', module='RWLockTrace', prepare=False, source=(locks_scen.t_locks, locks_scen.g_locks),
        n_random=ctx.pick(250, 4000), strats=ctx.pick(8, 20), n_pre=ctx.pick(60, 400), pre_points=ctx.pick(120, 1000),
        pre2=ctx.pick(30, 300), deadline=ctx.pick(40, 300), cap=ctx.pick(8000, 100000))


def stalls(ctx):
    import locks_scen
    ctx.assumptions.append('overtaking is judged for internal locks that serve in the order of asking')
    streamcheck.run_stalls(ctx, list(locks_scen.t_stall()), per=ctx.pick(60, 1000), deadline=ctx.pick(40, 300))


def shared(ctx):
    import shared_scen
    ctx.assumptions += STREAM_ASSUMPTIONS
    streamcheck.run_family(
        ctx, 'shared source', kind='shared', module='SharedTrace', prepare=False, source=(shared_scen.t_shared, shared_scen.g_shared),
        n_random=ctx.pick(150, 3000), strats=ctx.pick(4, 12), n_pre=ctx.pick(20, 200), pre_points=ctx.pick(80, 3000),
        pre2=ctx.pick(20, 300), deadline=ctx.pick(40, 250), cap=ctx.pick(3000, 80000))


CHECKS = dict(
    C13=both(model(('RWLockImpl', 'RWLockImpl.cfg'), deep=[('RWLockImpl', 'RWLockImpl_deep.cfg')]), lock),
    C14=both(model(('RWLockImpl', 'RWLockImpl_live.cfg'), ('RWLockImpl', 'RWLockImpl.cfg'),
                   ('RWLockFair', 'RWLockFair.cfg'),
                   deep=[('RWLockImpl', 'RWLockImpl_forever.cfg')]), lock, stalls),
    C17=both(model(('MCShared', 'MCShared_quick.cfg'), deep=[('MCShared', 'MCShared_deep.cfg')]), gen.stream_source, shared),
    C19=gen.simply,
    C20=gen.direct,
    C21=gen.context,
    C22=gen.http,
    C23=gen.pacing,
    C24=gen.pack,
    C25=gen.version,
    C26=gen.template,
    C18=both(gen.sorted_seq, gen.sorted_recorded),
    C01=both(mcs('window'), window((1,)), stream('window')),
    C02=both(mcs('manual'), window((0,)), life('drop'), stream('manual')),
    C03=both(mcs('window'), stream('order')),
    C04=both(mcs('life'), life('fail'), stream('fail')),
    C05=both(mcs('life'), life('fail'), stream('protocol')),
    C06=both(mcs('session'), life('session', 'sb'), twins('one', 'sb'), stream('session')),
    C07=both(mcs('read'), reader('read'), window((0, 1), 12, ('read', 'strict')), stream('read')),
    C08=both(reader('defaults'), reader('read'), reader('ends'), twins('two'), stream('cursor')),
    C09=both(reader('range'), window((0, 1), 24, ('pick', 'range')), stream('range')),
    C10=both(mcs('read'), reader('ends'), stream('ends')),
    C11=both(mcs('wait'), life('ends', 'sb'), stream('iter')),
    C12=both(mcs('wait'), life('ends'), stream('block')),
    C15=both(mcs('read'), stream('snap')),
    C16=both(mcs('live'), stream('hang')),
)
