"""What is checked for every property: harness instances, their bounds and required witnesses."""
ASSUMPTIONS = [
  'interleavings are explored under sequential consistency; weaker orderings are covered only through the happens-before race check (C17)',
  'std::mutex, std::condition_variable, std::thread::yield, clocks and the pthread/semaphore calls are modelled by their documented contracts (engine/models.cpp, replay/rt.cpp)',
  'bounds per instance: number of threads and operations (defs), K freely scheduled synchronisation steps, then tail rounds of fair round-robin scheduling',
  'heap allocation never fails; unordered containers are single-bucket',
]
# name: (header, type, ops bitmask 1 lock 2 try 4 for 8 until 16 for(-1), properties)
BO = 'yamc::backoff::'
EX = {
  'spin':        ('naive_spin_mutex.hpp', 'yamc::spin::basic_mutex<yamc::backoff::yield>', 3),
  'spin_weak':   ('naive_spin_mutex.hpp', 'yamc::spin_weak::basic_mutex<yamc::backoff::yield>', 3),
  'spin_ttas':   ('ttas_spin_mutex.hpp', 'yamc::spin_ttas::basic_mutex<yamc::backoff::yield>', 3),
  'alt_rec':     ('alternate_mutex.hpp', 'yamc::alternate::recursive_mutex', 3),
  'alt_timed':   ('alternate_mutex.hpp', 'yamc::alternate::timed_mutex', 31),
  'alt_rectimed':('alternate_mutex.hpp', 'yamc::alternate::recursive_timed_mutex', 31),
  'alt_sh_rp':   ('alternate_shared_mutex.hpp', 'yamc::alternate::basic_shared_mutex<yamc::rwlock::ReaderPrefer>', 3),
  'alt_sh_wp':   ('alternate_shared_mutex.hpp', 'yamc::alternate::basic_shared_mutex<yamc::rwlock::WriterPrefer>', 3),
  'alt_sht_rp':  ('alternate_shared_mutex.hpp', 'yamc::alternate::basic_shared_timed_mutex<yamc::rwlock::ReaderPrefer>', 31),
  'alt_sht_wp':  ('alternate_shared_mutex.hpp', 'yamc::alternate::basic_shared_timed_mutex<yamc::rwlock::WriterPrefer>', 31),
  'fair':        ('fair_mutex.hpp', 'yamc::fair::mutex', 3),
  'fair_rec':    ('fair_mutex.hpp', 'yamc::fair::recursive_mutex', 3),
  'fair_timed':  ('fair_mutex.hpp', 'yamc::fair::timed_mutex', 31),
  'fair_rectimed':('fair_mutex.hpp', 'yamc::fair::recursive_timed_mutex', 31),
  'fair_sh_t':   ('fair_shared_mutex.hpp', 'yamc::fair::basic_shared_mutex<yamc::rwlock::TaskFairness>', 3),
  'fair_sh_p':   ('fair_shared_mutex.hpp', 'yamc::fair::basic_shared_mutex<yamc::rwlock::PhaseFairness>', 3),
  'fair_sht_t':  ('fair_shared_mutex.hpp', 'yamc::fair::basic_shared_timed_mutex<yamc::rwlock::TaskFairness>', 31),
  'fair_sht_p':  ('fair_shared_mutex.hpp', 'yamc::fair::basic_shared_timed_mutex<yamc::rwlock::PhaseFairness>', 31),
  'chk':         ('checked_mutex.hpp', 'yamc::checked::mutex', 3),
  'chk_rec':     ('checked_mutex.hpp', 'yamc::checked::recursive_mutex', 3),
  'chk_timed':   ('checked_mutex.hpp', 'yamc::checked::timed_mutex', 31),
  'chk_rectimed':('checked_mutex.hpp', 'yamc::checked::recursive_timed_mutex', 31),
  'chk_sh_rp':   ('checked_shared_mutex.hpp', 'yamc::checked::basic_shared_mutex<yamc::rwlock::ReaderPrefer>', 3),
  'chk_sh_wp':   ('checked_shared_mutex.hpp', 'yamc::checked::basic_shared_mutex<yamc::rwlock::WriterPrefer>', 3),
  'chk_sht_rp':  ('checked_shared_mutex.hpp', 'yamc::checked::basic_shared_timed_mutex<yamc::rwlock::ReaderPrefer>', 31),
  'chk_sht_wp':  ('checked_shared_mutex.hpp', 'yamc::checked::basic_shared_timed_mutex<yamc::rwlock::WriterPrefer>', 31),
  'px':          ('posix_native_mutex.hpp', 'yamc::posix::native_mutex', 31),
  'px_rec':      ('posix_native_mutex.hpp', 'yamc::posix::native_recursive_mutex', 31),
  'px_rw':       ('posix_native_mutex.hpp', 'yamc::posix::rwlock', 31),
  'px_spin':     ('posix_native_mutex.hpp', 'yamc::posix::spinlock', 3),
}
# wrappers for other platforms, on stand-ins for the platform headers (shim/)
OTHER = {
  'win_mtx':  ('win_native_mutex.hpp', 'yamc::win::native_mutex', 31),
  'win_cs':   ('win_native_mutex.hpp', 'yamc::win::critical_section', 3),
  'win_srw':  ('win_native_mutex.hpp', 'yamc::win::slim_rwlock', 3),
  'apple':    ('apple_native_mutex.hpp', 'yamc::apple::unfair_lock', 3),
}
SHIM = ['$VERIF/shim']
ANY = dict(EX); ANY.update(OTHER)
REC = {'alt_rec', 'alt_rectimed', 'fair_rec', 'fair_rectimed', 'chk_rec', 'chk_rectimed', 'px_rec'}
def q(s): return '"%s"' % s
def ex(name, tag, rounds, nt, K, tail, ops=None, tier='q', flags=(), covers=(), ndebug=False, **kw):
    h, t, o = ANY[name]; o = o if ops is None else (o & ops)
    d = {'HDR': q(h), 'MTX': t, 'OPS': o, 'ROUNDS': rounds, 'NT': nt}
    if name.startswith('px'): d['STDCLK'] = 'std::chrono::system_clock'
    d.update(kw.pop('defs', {}))
    if ndebug: d['NDEBUG'] = 1
    i = {'name': '%s.%s' % (name, tag), 'src': 'excl', 'defs': d, 'K': K, 'tail': tail, 'tier': tier, 'flags': list(flags), 'covers': list(covers)}
    i.update(kw)
    return i
SYM = ['--sym']
LIVE = ['deadlock', 'progress']      # kinds decided by C04 only
CHK = lambda n: n.startswith('chk')
NODET = {'YAMC_CHECKED_DETECT_DEADLOCK': 0}
XCOV = ['held', 'final']
def xcov(o): return ['held', 'final', 'try-ok', 'try-fail'] + (['timed-ok', 'timed-fail'] if o > 3 else [])
def nodet(i):
    if CHK(i['name']): i['defs'].update(NODET)
    return i
def C01():
    r = []
    for n in EX:
        o = EX[n][2]
        r.append(ex(n, 'n2r1', 1, 2, 14, 12, flags=SYM, covers=xcov(o), ignore=LIVE))
        r.append(ex(n, 'n2r2', 2, 2, 14, 18, ops=3, flags=SYM, covers=xcov(3), ignore=LIVE))
        r.append(nodet(ex(n, 'n3r1', 1, 3, 14, 14, ops=7, flags=SYM, covers=XCOV, ignore=LIVE, budget=90)))
        r.append(ex(n, 'n2r2.all', 2, 2, 20, 8, ops=31, flags=SYM, covers=XCOV, ignore=LIVE, budget=300, tier='t'))
        r.append(ex(n, 'n3r2', 2, 3, 16, 10, ops=3, flags=SYM, covers=XCOV, ignore=LIVE, budget=300, tier='t'))
    return r
# shared locks: name -> (ops for exclusive mode, ops for shared mode)
SH = {n: 31 if EX[n][2] > 3 else 3 for n in EX if '_sh' in n or n == 'px_rw'}
def rw(name, tag, rounds, nt, K, tail, x=31, s=31, tier='q', flags=SYM, covers=(), **kw):
    h, t, o = ANY[name]; o = SH.get(name, 3); d = {'HDR': q(h), 'MTX': t, 'XOPS': o & x, 'SOPS': o & s, 'ROUNDS': rounds, 'NT': nt}
    if name.startswith('px'): d['STDCLK'] = 'std::chrono::system_clock'
    d.update(kw.pop('defs', {}))
    i = {'name': '%s.%s' % (name, tag), 'src': 'rw', 'defs': d, 'K': K, 'tail': tail, 'tier': tier, 'flags': list(flags), 'covers': list(covers)}
    i.update(kw); return i
RWC = ['final', 'readers-together', 'written', 'x-try-ok', 'x-try-fail', 's-try-ok', 's-try-fail']
RWT = ['x-timed-ok', 'x-timed-fail', 's-timed-ok', 's-timed-fail']
# four threads queueing in a fixed order behind a held lock (roles: bit t set when thread t reads)
def queues(n, live, tier='q'):
    r = []; tm = SH[n] > 3; ph = n.endswith('_p'); fair = n.startswith('fair')
    pol = (2 if ph else 1) if fair else 3
    for hold, m in ((1, 10), (1, 8), (1, 12), (1, 6), (2, 8), (2, 10), (2, 12)) if fair else ((1, 10), (2, 10), (2, 8)):
        i = order(n, 'q%d.m%d' % (hold, m), pol, 4, 8 if ph else 10, 14, 4 if tm else 1, 1, tier=tier, defs={'HOLD0': hold, 'ORDERED': 1, 'MODES': 1, 'ROLES': m}, covers=['final'], budget=120, cost=2)
        if live: i['ignore'] = []; i['tail'] = 20
        r.append(nodet(i))
    return r
def C02():
    r = []
    for n in SH:
        if n != 'px_rw' and SH[n] > 3: r += queues(n, False)
    for n in SH:
        tm = RWT if SH[n] > 3 else []
        r.append(rw(n, 'n2r1', 1, 2, 14, 6, covers=RWC + tm, ignore=LIVE))
        r.append(nodet(rw(n, 'n3r1', 1, 3, 14, 6, x=3, s=3, covers=RWC, ignore=LIVE, budget=90)))
        r.append(nodet(rw(n, 'n2r2', 2, 2, 7 if n.endswith('_p') else 12, 8, x=1 if n.endswith('_p') else 3, s=1, cost=3, covers=['final', 'readers-together', 'written'], ignore=LIVE, budget=90)))
        if SH[n] > 3: r.append(nodet(rw(n, 'n3r1t', 1, 3, 8 if n.endswith('_p') else 12, 6, cost=3, x=4 if n.endswith('_p') else 5, s=5, covers=['final', 'readers-together', 'written'], ignore=LIVE, budget=90)))
        r.append(rw(n, 'n3r1.all', 1, 3, 16, 8, covers=RWC, ignore=LIVE, budget=400, tier='t'))
        r.append(rw(n, 'n2r2.all', 2, 2, 18, 8, covers=RWC, ignore=LIVE, budget=400, tier='t'))
        r.append(rw(n, 'n3r2', 2, 3, 14, 10, x=3, s=3, covers=RWC, ignore=LIVE, budget=400, tier='t'))
    return r
def C03():
    r = []
    for n in sorted(REC) + ['win_mtx', 'win_cs']:
        r.append(inst(n + '.deep', 'recdeep', 0, 1, ('deep', 'final'), HDR=q(ANY[n][0]), MTX=ANY[n][1], DEPTH=66000, inc=SHIM if n in OTHER else ()))
    for n in sorted(REC):
        o = EX[n][2]
        r.append(ex(n, 'n2r1d3', 1, 2, 14, 28, flags=SYM, covers=xcov(o) + ['nested'], ignore=LIVE, defs={'REC': 3}, ops=7))
        r.append(ex(n, 'n1r1d6', 1, 1, 24, 40, covers=['nested', 'held', 'final'], defs={'REC': 6}, ops=7))
        r.append(nodet(ex(n, 'n2r2d2', 2, 2, 10, 36, flags=SYM, covers=['nested', 'held', 'final'], ignore=LIVE, defs={'REC': 2}, ops=3, budget=150, cost=3)))
        r.append(ex(n, 'n3r1d2', 1, 3, 14, 16, flags=SYM, covers=['nested', 'held', 'final'], ignore=LIVE, defs={'REC': 2}, ops=3, budget=300, tier='t'))
        r.append(ex(n, 'n2r1d5', 1, 2, 18, 16, flags=SYM, covers=['nested', 'held', 'final'], ignore=LIVE, defs={'REC': 5}, ops=7, budget=300, tier='t'))
    return r
def C04():
    r = []
    for n in EX:
        o = EX[n][2]
        r.append(ex(n, 'n2r1', 1, 2, 14, 16, flags=SYM, covers=xcov(o)))
        r.append(ex(n, 'n2r2', 2, 2, 12, 20, ops=5, flags=SYM, covers=XCOV, budget=90))
        r.append(nodet(ex(n, 'n3r1', 1, 3, 14, 20, ops=5, flags=SYM, covers=XCOV, budget=90)))
        r.append(ex(n, 'n3r1.all', 1, 3, 18, 24, flags=SYM, covers=XCOV, budget=300, tier='t'))
        r.append(ex(n, 'n2r2.all', 2, 2, 18, 24, flags=SYM, covers=XCOV, budget=300, tier='t'))
    for n in SH:
        if n != 'px_rw' and SH[n] > 3: r += queues(n, True, tier='q' if n.startswith('fair') else 't')
    for n in SH:
        tm = RWT if SH[n] > 3 else []
        r.append(rw(n, 'rw.n2r1', 1, 2, 14, 16, covers=RWC + tm))
        r.append(nodet(rw(n, 'rw.n3r1', 1, 3, 8 if n.endswith('_p') else 14, 20, x=4 if n.endswith('_p') and SH[n] > 3 else 5, s=5, cost=3, covers=['final', 'readers-together', 'written'], budget=100)))
        r.append(strand(n, 'strand', 3, 14, 16, 6 if SH[n] > 3 else 2, 1, budget=120))
        r.append(nodet(strand(n, 'strand4', 4, 10, 20, 6 if SH[n] > 3 else 2, 1, budget=300, tier='t')))
        r.append(rw(n, 'rw.n3r1.all', 1, 3, 16, 24, covers=RWC, budget=400, tier='t'))
        r.append(rw(n, 'rw.n2r2', 2, 2, 16, 24, x=5, s=5, covers=['final'], budget=400, tier='t'))
    return r
def C05():
    r = []
    for n in EX:
        o = EX[n][2]
        r.append(ex(n, 'n2r1', 1, 2, 14, 12, flags=SYM, covers=xcov(o), ignore=LIVE))
        r.append(ex(n, 'n2r2', 2, 2, 11, 18, ops=3, flags=SYM, covers=xcov(3), ignore=LIVE, budget=90))
        r.append(nodet(ex(n, 'n3r1', 1, 3, 12, 14, ops=3, flags=SYM, covers=xcov(3), ignore=LIVE, budget=90)))
        r.append(ex(n, 'n3r1.all', 1, 3, 16, 8, flags=SYM, covers=XCOV, ignore=LIVE, budget=300, tier='t'))
        r.append(ex(n, 'n3r2.try', 2, 3, 14, 10, ops=2, flags=SYM, covers=XCOV, ignore=LIVE, budget=300, tier='t'))
    for n in SH:
        tm = RWT if SH[n] > 3 else []
        r.append(rw(n, 'rw.n2r1', 1, 2, 14, 6, covers=RWC + tm, ignore=LIVE))
        r.append(nodet(rw(n, 'rw.n3r1', 1, 3, 9 if n.startswith('fair') else 12, 10, x=2, s=3, covers=['final', 'readers-together', 's-try-fail', 'x-try-fail'], ignore=LIVE, budget=90)))
        r.append(rw(n, 'rw.n3r1.all', 1, 3, 16, 8, x=3, s=3, covers=RWC, ignore=LIVE, budget=400, tier='t'))
        r.append(rw(n, 'rw.n2r2', 2, 2, 14, 8, x=3, s=3, covers=RWC, ignore=LIVE, budget=400, tier='t'))
    return r
def C06():
    r = []
    for n in EX:
        if EX[n][2] <= 3: continue
        r.append(ex(n, 'n2r1', 1, 2, 14, 6, flags=SYM, covers=xcov(31), ignore=LIVE))
        r.append(ex(n, 'n2r1.wide', 1, 2, 12, 6, ops=5, flags=SYM + ['--clock', '24' if n.startswith('px') else '44'], covers=['held', 'final', 'timed-ok', 'timed-fail'], ignore=LIVE, defs={'DBITS': 24 if n.startswith('px') else 44}))
        r.append(nodet(ex(n, 'n3r1', 1, 3, 7 if n.startswith('fair') else 12, 10, ops=5, flags=SYM, covers=['held', 'final', 'timed-ok', 'timed-fail'], ignore=LIVE, budget=90)))
        if not n.startswith('px'): r.append(ex(n, 'n2r1.sysclk', 1, 2, 12, 6, ops=9, flags=SYM, covers=['held', 'timed-ok', 'timed-fail'], ignore=LIVE, defs={'STDCLK': 'std::chrono::system_clock'}))
        r.append(ex(n, 'n2r2', 2, 2, 14, 8, ops=5, flags=SYM, covers=['held', 'timed-ok', 'timed-fail'], ignore=LIVE, budget=300, tier='t'))
        r.append(ex(n, 'n3r1.all', 1, 3, 16, 8, flags=SYM, covers=XCOV, ignore=LIVE, budget=300, tier='t'))
        if n in REC: r.append(ex(n, 'n2r1.rec', 1, 2, 12, 8, ops=5, flags=SYM, covers=['held', 'timed-ok', 'timed-fail'], ignore=LIVE, defs={'REC': 2}))
    for n in SH:
        if SH[n] <= 3: continue
        r.append(rw(n, 'rw.n2r1', 1, 2, 14, 6, covers=RWC + RWT, ignore=LIVE))
        if n == 'fair_sht_p':
            for m, c in ((6, 's'), (4, 'x')): r.append(rw(n, 'rw.n3m%d' % m, 1, 3, 7, 8, x=4, s=4, flags=(), covers=['final', c + '-timed-fail'], ignore=LIVE, budget=100, defs={'SHARERS': m}))
        r.append(nodet(rw(n, 'rw.n3r1', 1, 3, 5 if n.startswith('fair') else 8, 12, x=4 if n.startswith('fair') else 5, s=4, covers=['final', 's-timed-fail', 'x-timed-fail'], ignore=LIVE, budget=300 if n == 'fair_sht_p' else 100, tier='t' if n == 'fair_sht_p' else 'q')))
        r.append(rw(n, 'rw.n3r1.all', 1, 3, 14, 8, covers=RWT, ignore=LIVE, budget=400, tier='t'))
        r.append(rw(n, 'rw.n2r2', 2, 2, 14, 8, x=5, s=5, covers=RWT, ignore=LIVE, budget=400, tier='t'))
    return r
# arrival/grant order harness: POLICY 0 FIFO mutex, 1 task fairness, 2 phase fairness, 3 writer preference
def order(name, tag, pol, nt, K, tail, x, s=0, tier='q', flags=SYM, covers=(), **kw):
    h, t, o = EX[name]; d = {'HDR': q(h), 'MTX': t, 'POLICY': pol, 'XOPS': x, 'SOPS': s, 'NT': nt}
    d.update(kw.pop('defs', {}))
    if d.get('HOLD0'): flags = [f for f in flags if f != '--sym']      # thread 0 is special: no symmetry
    i = {'name': '%s.%s' % (name, tag), 'src': 'order', 'defs': d, 'K': K, 'tail': tail, 'tier': tier, 'flags': list(flags), 'covers': list(covers), 'ignore': LIVE}
    i.update(kw); return i
def C07():
    r = []; cv = ['final', 'x-queued']
    for n in ('fair', 'fair_rec', 'fair_timed', 'fair_rectimed'):
        tm = EX[n][2] > 3
        r.append(order(n, 'n2r2', 0, 2, 14, 10, 3, defs={'ROUNDS': 2}, flags=SYM + ['--spurious', '1'], covers=cv))
        r.append(order(n, 'n3r1', 0, 3, 14, 10, 3, covers=cv, flags=SYM + ['--spurious', '1']))
        r.append(order(n, 'n4o', 0, 4, 14, 12, 1, defs={'ORDERED': 1, 'HOLD0': 1}, covers=cv, budget=200, cost=4))
        if tm:
            r.append(order(n, 'n3h', 0, 3, 12, 10, 5, defs={'HOLD0': 1}, covers=cv + ['gave-up'], budget=120, cost=3))
            r.append(order(n, 'n3o', 0, 3, 12, 10, 7, defs={'ORDERED': 1}, covers=cv + ['gave-up'], budget=120))
            r.append(order(n, 'n4ot', 0, 4, 14, 12, 5, defs={'ORDERED': 1, 'HOLD0': 1}, covers=cv + ['gave-up'], budget=300, cost=9, tier='t'))
        r.append(order(n, 'n4', 0, 4, 14, 14, 1, covers=cv, budget=300, tier='t', defs={'HOLD0': 1}))
        r.append(order(n, 'n3r2', 0, 3, 16, 14, 3, defs={'ROUNDS': 2}, covers=cv, budget=300, tier='t', flags=SYM + ['--spurious', '1']))
    return r
def C08():
    r = []
    for n in ('fair_sh_t', 'fair_sht_t', 'fair_sh_p', 'fair_sht_p'):
        pol = 2 if n.endswith('_p') else 1; tm = '_sht' in n; o = 7 if tm else 3
        cv = ['final', 'x-queued', 's-queued'] + (['gave-up'] if tm else [])
        if pol == 1: r.append(order(n, 'n3oh', pol, 3, 12, 10, o, o, defs={'ORDERED': 1, 'HOLD0': 1}, covers=cv, budget=120))
        for h in (1, 2): r.append(order(n, 'n3h%d' % h, pol, 3, 12, 10, 1, 1, defs={'ORDERED': 0, 'HOLD0': h}, covers=['final'], budget=120))
        if tm:
            for m in (8, 4, 12, 10): r.append(order(n, 'n4s.m%d' % m, pol, 4, 8 if m == 4 and pol == 2 else 12, 14, 5, 1, defs={'HOLD0': 2, 'ORDERED': 1, 'MODES': 1, 'ROLES': m}, covers=['final', 'x-queued', 'gave-up'], budget=120, cost=2))
        if pol == 1: r.append(order(n, 'n4oh', pol, 4, 14, 12, 1, 1, defs={'ORDERED': 1, 'HOLD0': 1}, covers=['final', 'x-queued', 's-queued'], budget=150, cost=3))
        else:
            for m in range(0, 16, 2): r.append(order(n, 'n4oh.m%d' % m, pol, 4, 12, 12, 1, 1, defs={'ORDERED': 1, 'HOLD0': 1, 'MODES': 1, 'ROLES': m}, covers=['final'] + (['phase'] if m == 10 else []), budget=120, cost=2))
            if tm:
                for m in range(0, 8, 2): r.append(order(n, 'n3oh.m%d' % m, pol, 3, 12, 12, 5, 5, defs={'ORDERED': 1, 'HOLD0': 1, 'MODES': 1, 'ROLES': m}, covers=['final', 'gave-up'], budget=150, cost=2))
            r.append(order(n, 'n3oh', pol, 3, 12, 12, o, o, defs={'ORDERED': 1}, covers=cv, budget=400, tier='t'))
    return r
# readers that must not depend on another reader's release (see strand.cpp)
def strand(name, tag, nt, K, tail, x, s, tier='q', never=False, flags=(), **kw):
    h, t, o = EX[name]; d = {'HDR': q(h), 'MTX': t, 'XOPS': x, 'SOPS': s, 'NT': nt}
    if never: d['NEVERFAIL'] = 1
    if name.startswith('px'): d['STDCLK'] = 'std::chrono::system_clock'
    i = {'name': '%s.%s' % (name, tag), 'src': 'strand', 'defs': d, 'K': K, 'tail': tail, 'tier': tier, 'flags': list(flags), 'covers': ['final', 'reader-done'] + (['writer-gave-up'] if x & 14 else ['writer-served'])}
    i.update(kw); return i
def C09():
    r = []
    for n in SH:
        tm = SH[n] > 3
        if n.endswith('_rp'):
            xo = 7 if tm else 3; so = 7 if tm else 3
            r.append(strand(n, 'n3', 3, 14, 16, xo, so, never=True, budget=120))
            r.append(nodet(strand(n, 'n4', 4, 8, 16, 1, 1, never=True, budget=200, cost=3)))
            r.append(nodet(strand(n, 'n4t', 4, 12, 24, 5 if tm else 1, 5 if tm else 3, never=True, budget=300, tier='t')))
        elif n.endswith('_wp'):
            o = 7 if tm else 3; tc = ['gave-up'] if tm else []
            r.append(nodet(order(n, 'n3h1', 3, 3, 12, 10, 1, 1, defs={'HOLD0': 1}, covers=['final', 'x-queued', 's-queued'], budget=150)))
            r.append(nodet(order(n, 'n3h2', 3, 3, 14, 10, 3, 3, defs={'HOLD0': 2, 'ORDERED': 1}, covers=['final', 'x-queued', 's-queued'], budget=150)))
            r.append(nodet(order(n, 'n4oh2', 3, 4, 12, 12, 1, 1, defs={'HOLD0': 2, 'ORDERED': 1}, covers=['final', 'x-queued', 's-queued'], budget=150, cost=3)))
            if tm: r.append(nodet(order(n, 'n3t2', 3, 3, 14, 10, 6, 7, defs={'HOLD0': 2, 'ORDERED': 1, 'MODES': 1, 'ROLES': 4}, covers=['final', 'x-queued', 's-queued', 'gave-up'], budget=150)))
            if tm: r.append(nodet(order(n, 'n3oh2', 3, 3, 12, 10, 5, 5, defs={'HOLD0': 2, 'ORDERED': 1}, covers=['final', 'x-queued', 's-queued'] + tc, budget=150, cost=2)))
            r.append(nodet(order(n, 'n4h1', 3, 4, 14, 12, o, o, defs={'HOLD0': 1, 'ORDERED': 1}, covers=['final'], budget=300, tier='t')))
    return r
def C10():
    r = []
    def m(n, tag, kind, ops, ln, ab=False, tier='q', nw=2, **kw):
        h, t, o = EX[n]; d = {'HDR': q(h), 'MTX': t, 'KIND': kind, 'OPS': ops, 'LEN': ln, 'NW': nw}
        if ab: d.update({'ABORT': 1, 'YAMC_CHECKED_CALL_ABORT': 1})
        i = {'name': '%s.%s' % (n, tag), 'src': 'misuse', 'defs': d, 'K': 0, 'tail': 1, 'tier': tier, 'flags': [], 'covers': ['clean', 'refused', 'final', 'aborted'] if ab else ['abandoned', 'clean', 'eperm', 'refused', 'final'] + (['nested'] if kind == 1 else ['edeadlk'])}
        if ab: i['covers'].remove('final')
        i['defs'].update(kw.pop('defs', {})); i.update(kw); return i
    for n in sorted(n for n in EX if CHK(n)):
        kind = 1 if n in REC else 2 if '_sh' in n else 0; tm = EX[n][2] > 3
        ops = (1023 if tm else 1 + 2 + 16 + 32 + 64 + 512) if kind == 2 else (31 if tm else 19)
        ln = 4 if kind == 2 else 5
        r.append(m(n, 'seq', kind, ops, ln))
        r.append(m(n, 'abort', kind, ops, ln, ab=True))
        r.append(m(n, 'nodet', kind, ops, ln, defs=NODET))
        cops = (759 if tm else 627) if kind == 2 else (23 if tm else 19)
        cd = {'HDR': q(EX[n][0]), 'MTX': EX[n][1], 'KIND': kind, 'OPS': cops, 'NT': 2}
        cc = ['eperm', 'held', 'final'] + ([] if kind == 1 else ['edeadlk'])
        for tag, det, K in (('conc', 0, 6 if kind == 2 and tm else 8), ('conc.det', 1, 5 if kind == 2 and tm else 6)):
            i = {'name': '%s.%s' % (n, tag), 'src': 'misusec', 'defs': dict(cd), 'K': K, 'tail': 30, 'tier': 'q', 'flags': SYM, 'covers': cc, 'budget': 200, 'cost': 3}
            if det: i['defs']['VX_CAP'] = 2
            else: i['defs'].update(NODET)
            r.append(i)
        i = {'name': n + '.conc3', 'src': 'misusec', 'defs': dict(cd, NT=3, LEN=2), 'K': 6, 'tail': 40, 'tier': 't', 'flags': SYM, 'covers': cc, 'budget': 400}
        i['defs'].update(NODET); r.append(i)
        r.append(m(n, 'w3', kind, ops, ln, nw=3, budget=200, tier='t'))
        r.append(m(n, 'long', kind, ops, ln + 2, budget=300, tier='t'))
    return r
def C11():
    r = []
    def d(n, tag, nt, K, tail, cap, covers=('all-held', 'final', 'reported'), tier='q', flags=(), budget=150, cost=1, ignore=(), **defs):
        h, t, o = EX[n]; dd = {'HDR': q(h), 'MTX': t, 'NT': nt, 'NM': nt, 'LEN': 2, 'VX_CAP': cap}
        if '_sh' in n: dd['SHARED'] = 1
        if n.endswith('_wp'): dd['WP'] = 1
        dd.update(defs)
        r.append({'name': '%s.%s' % (n, tag), 'src': 'dl', 'defs': dd, 'K': K, 'tail': tail, 'tier': tier, 'flags': list(flags), 'covers': list(covers), 'budget': budget, 'cost': cost, 'ignore': list(ignore)})
    for n in ('chk', 'chk_timed', 'chk_rec', 'chk_rectimed', 'chk_sh_rp', 'chk_sht_rp'):
        sh = '_sh' in n
        d(n, 'n2', 2, 12, 16, 2, flags=SYM, PRE=3, cost=2)
        d(n, 'n3.cycle', 3, 9, 24, 3, PRE=7, REQS=1021, cost=2)
        d(n, 'n3.chain', 3, 9, 24, 3, PRE=7, REQS=1821, covers=('all-held', 'final'))
        if not sh:
            d(n, 'n3.pair', 3, 9, 24, 3, PRE=7, REQS=1001)
            d(n, 'n3.shared', 3, 9, 24, 3, PRE=7, REQS=1101)
        if EX[n][2] > 3 and not sh: d(n, 'n2.timed', 2, 12, 20, 2, flags=SYM, PRE=3, TIMED=1, cost=2)
        d(n, 'n2.off', 2, 10, 12, 2, flags=SYM, PRE=3, NULLV=1, YAMC_CHECKED_DETECT_DEADLOCK=0, covers=(), ignore=LIVE)
        d(n, 'n3.off', 3, 9, 24, 3, PRE=7, REQS=1821, NULLV=1, YAMC_CHECKED_DETECT_DEADLOCK=0, covers=('all-held', 'final'))
        d(n, 'n2.abort', 2, 10, 16, 2, flags=SYM, PRE=3, ABORT=1, YAMC_CHECKED_CALL_ABORT=1, covers=())
        d(n, 'n3.abort', 3, 9, 24, 3, PRE=7, REQS=1821, ABORT=1, YAMC_CHECKED_CALL_ABORT=1, covers=('all-held', 'final'))
        if EX[n][2] > 3 and not sh: d(n, 'n3.timed', 3, 7, 30, 3, PRE=7, REQS=1021, TIMED=1, tier='t', budget=400)
    for n in ('chk_sh_rp', 'chk_sht_rp'):
        d(n, 'n2.readers', 2, 10, 16, 2, PRE=1, cost=3)
        d(n, 'n3.readers', 3, 8, 24, 3, PRE=0, REQS=1001, MODES=1111, cost=2)
        d(n, 'n3.mixed', 3, 8, 24, 3, PRE=1, REQS=1001, MODES=1011, cost=2)
    for n in ('chk_sh_rp', 'chk_sht_rp', 'chk_sh_wp', 'chk_sht_wp'):   # a reader that has been woken up no longer waits
        d(n, 'n3.woken', 3, 12, 24, 3, PRE=7, REQS='(0*100+0*10+8)', REQS2=188, MODES='001', LEN=3, covers=('all-held', 'final'), cost=4, budget=300, tier='t' if '_sht' in n else 'q')
    for n in ('chk_sh_wp', 'chk_sht_wp'):
        d(n, 'n2.mixed', 2, 8, 16, 2, PRE=1, REQS=1001, cost=2)
        d(n, 'n3.readers', 3, 7, 24, 3, PRE=0, REQS=1001, MODES=1110, covers=('all-held', 'final'), cost=2)
        d(n, 'n2.readers', 2, 8, 16, 2, PRE=0, REQS=1001, tier='t', budget=400)
    return r
def sem(name, tag, src, t, hdr, K, tail, covers, tier='q', flags=(), budget=150, cost=1, ignore=(), inc=(), **defs):
    dd = {'HDR': q(hdr), 'SEM': t}; dd.update(defs)
    return {'name': '%s.%s' % (name, tag), 'src': src, 'defs': dd, 'K': K, 'tail': tail, 'tier': tier, 'flags': list(flags), 'covers': list(covers), 'budget': budget, 'cost': cost, 'ignore': list(ignore), 'inc': list(inc)}
def semset(nm, T, hdr, bits=63, least='5', cap=4, **kw):
    r = []; big, small, binary = T + '<>', T + '<%s>' % least, T + '<1>'
    a = ('acquired', 'final'); al = ('acquired', 'try-ok', 'try-fail', 'timed-ok', 'timed-fail', 'final')
    r.append(sem(nm, 'n3', 'sem', big, hdr, 12, 12, al, NT=3, OPS=63, REL=1, **kw))
    r.append(sem(nm, 'n3r2', 'sem', big, hdr, 10, 20, ('acquired', 'timed-ok', 'timed-fail', 'final'), NT=3, OPS=5, REL=2, ROUNDS=2, LIVE=1, cost=2, **kw))
    r.append(sem(nm, 'binary', 'sem', binary, hdr, 12, 16, ('acquired', 'timed-ok', 'timed-fail', 'final'), NT=3, OPS=7, GIVEBACK=1, UPD=1, BINARY=1, LIVE=1, **kw))
    r.append(sem(nm, 'n2r3', 'sem', big, hdr, 14, 16, al, flags=['--spurious', '1'], NT=2, OPS=7, REL=3, ROUNDS=3, cost=2, **kw))
    r.append(sem(nm, 'seq', 'semseq', big, hdr, 0, 1, ('released', 'taken', 'empty', 'final'), LEN=cap, BITS=bits, cost=3, **kw))
    r.append(sem(nm, 'seq5', 'semseq', small, hdr, 0, 1, ('released', 'taken', 'empty', 'final'), LEN=cap + 1, BITS=8, **kw))
    r.append(sem(nm, 'n3.all', 'sem', big, hdr, 14, 24, al, NT=3, OPS=63, REL=2, ROUNDS=2, tier='t', budget=400, **kw))
    r.append(sem(nm, 'seq.long', 'semseq', big, hdr, 0, 1, ('released', 'taken', 'empty', 'final'), LEN=6, BITS=bits, tier='t', budget=400, **kw))
    return r
def C12(): return semset('sem', 'yamc::counting_semaphore', 'yamc_semaphore.hpp')
def inst(name, src, K, tail, covers, tier='q', flags=(), budget=150, cost=1, ignore=(), xflags=(), std=None, inc=(), **defs):
    i = {'name': name, 'src': src, 'defs': defs, 'K': K, 'tail': tail, 'tier': tier, 'flags': list(flags), 'covers': list(covers), 'budget': budget, 'cost': cost, 'ignore': list(ignore), 'xflags': list(xflags), 'inc': list(inc)}
    if std: i['std'] = std
    return i
def C13():
    a = ('try-open', 'try-closed', 'counted', 'arrived', 'waited', 'final')
    return [inst('latch.n2', 'latch', 14, 12, a, flags=SYM + ['--spurious', '1'], NT=2), inst('latch.n3', 'latch', 10, 14, a, flags=SYM, NT=3, MAXU=1, cost=3),
            inst('latch.seq', 'latchseq', 0, 1, ('final',)), inst('latch.n3u2', 'latch', 12, 16, a, flags=SYM, NT=3, tier='t', budget=600)]
def C14():
    a = ('completed', 'final'); na = ['-fno-access-control']
    return [inst('barrier.n2p3', 'barrier', 9, 16, a + ('waited',), flags=SYM, NT=2, EXTRA=0, PHASES=3, OPS=3, cost=2),
            inst('barrier.n3p2', 'barrier', 8, 20, a + ('waited',), flags=SYM, NT=3, EXTRA=0, PHASES=2, OPS=3, cost=2),
            inst('barrier.n3p2w', 'barrier', 10, 20, a + ('waited',), flags=SYM, NT=3, EXTRA=0, PHASES=2, OPS=1),
            inst('barrier.n2x', 'barrier', 9, 16, a + ('waited', 'two'), NT=2, EXTRA=1, PHASES=2, OPS=27, cost=4),
            inst('barrier.n2drop', 'barrier', 10, 16, a + ('waited', 'dropped'), flags=SYM, NT=2, EXTRA=0, PHASES=3, OPS=5),
            inst('barrier.n3drop', 'barrier', 9, 20, a + ('waited', 'dropped'), flags=SYM, NT=3, EXTRA=0, PHASES=2, OPS=5),
            inst('barrier.n2last', 'barrier', 9, 16, a + ('waited',), flags=SYM, NT=2, EXTRA=0, PHASES=2, OPS=9),
            inst('barrier.wrap1', 'barrier', 9, 16, a, flags=SYM + ['--spurious', '1'], NT=2, EXTRA=0, PHASES=3, OPS=3, START=1, xflags=na, cost=2),
            inst('barrier.wrap1d', 'barrier', 9, 16, a + ('dropped',), flags=SYM + ['--spurious', '1'], NT=2, EXTRA=0, PHASES=3, OPS=5, START=1, xflags=na, cost=2),
            inst('barrier.wrap2', 'barrier', 9, 16, a, flags=SYM + ['--spurious', '1'], NT=2, EXTRA=0, PHASES=3, OPS=3, START=2, xflags=na, cost=2),
            inst('barrier.seq', 'barrierseq', 0, 1, ('dropped', 'completed', 'final'), cost=2),
            inst('barrier.n3p3', 'barrier', 9, 28, a + ('waited',), flags=SYM, NT=3, EXTRA=0, PHASES=3, OPS=7, tier='t', budget=600),
            inst('barrier.n2p4', 'barrier', 12, 24, a + ('waited',), flags=SYM, NT=2, EXTRA=0, PHASES=4, OPS=7, tier='t', budget=600)]
def C15():
    r = []; base = ('locked', 'refused', 'rejected', 'moved', 'assigned', 'released', 'unlocked', 'unlock-rejected', 'final')
    for nd in (0, 1):
        d = {'NDEBUG': 1} if nd else {}; s = '.ndebug' if nd else ''
        r.append(inst('shared_lock.l3' + s, 'slock', 0, 1, base, LEN=3, **d))
        r.append(inst('shared_lock.throws' + s, 'slock', 0, 1, base + ('boom',), LEN=2, THROWS=1, **d))
        r.append(inst('shared_lock.moves4' + s, 'slock', 0, 1, ('moved', 'assigned', 'released', 'unlocked', 'final'), LEN=4, OPS='0x1f0', cost=2, **d))
        r.append(inst('shared_lock.l4' + s, 'slock', 0, 1, base, LEN=4, tier='t', budget=500, **d))
    return r
def C16():
    r = []
    def s(n, tag, nt, K, tail, covers, tier='q', ignore=('progress',), **defs):
        h, t, o = EX[n]; defs.update({'HDR': q(h), 'MTX': t, 'NT': nt})
        r.append(inst('scoped_%s.%s' % (n, tag), 'scoped', K, tail, covers, tier=tier, flags=SYM if tag == 'one' else (), ignore=ignore, cost=2, budget=200 if tier == 'q' else 500, **defs))
    for n in ('spin_ttas', 'alt_rec', 'fair', 'chk', 'alt_timed'):
        s(n, 'one', 3, 12, 14, ('inside', 'adopted', 'unwound', 'final'), N=1, ADOPT=1, THROW=1, **(NODET if CHK(n) else {}))
        if n in ('chk', 'alt_timed'): continue
        s(n, 'two', 2, 12, 14, ('inside', 'adopted', 'unwound', 'final'), N=2, ADOPT=1, THROW=1)
        s(n, 'three', 2, 10, 20, ('inside',), N=3)
        s(n, 'two3', 3, 10, 14, ('inside', 'final'), N=2, tier='t')
        s(n, 'three3', 3, 9, 14, ('inside', 'final'), N=3, tier='t')
    return r
def C18():
    r = []
    for init, nm in ((6, 'exponential<6>'), (4000, 'exponential<>'), (0, 'exponential<0>'), (1, 'exponential<1>')):
        d = {'POLICY': BO + nm, 'KIND': 0, 'LEN': 4, 'CAP': 10}
        d['FIRST'] = init if init != 4000 else 'YAMC_BACKOFF_EXPONENTIAL_INITCOUNT'
        r.append(inst(nm, 'backoff', 0, 1, ('interval', 'final', 'yielded', 'spun'), xflags=['-fno-access-control'], **d))
    r.append(inst('yield', 'backoff', 0, 1, ('final',), POLICY=BO + 'yield', KIND=1, LEN=4)); r.append(inst('busy', 'backoff', 0, 1, ('final',), POLICY=BO + 'busy', KIND=2, LEN=4))
    return r
def instances(p): return globals()[p]()
# memory visibility: happens-before race check over the payload and the implementation's own data
def C17():
    r = []; HB = SYM + ['--hb']
    for n in EX:
        o = EX[n][2]
        r.append(ex(n, 'hb.n2r1', 1, 2, 12, 8, flags=HB, covers=xcov(o), ignore=LIVE))
        r.append(nodet(ex(n, 'hb.n2r2', 2, 2, 10, 20, ops=3, flags=HB, covers=['held', 'final'], ignore=LIVE)))
        r.append(nodet(ex(n, 'hb.n3r1', 1, 3, 10, 12, ops=3, flags=HB, covers=['held', 'final'], ignore=LIVE, budget=120)))
        if n in REC: r.append(nodet(ex(n, 'hb.rec', 1, 2, 12, 12, ops=3, flags=HB, covers=['held', 'nested', 'final'], ignore=LIVE, defs={'REC': 2})))
    for n in SH:
        r.append(nodet(rw(n, 'hb.rw.n2r1', 1, 2, 12, 6, flags=HB, covers=RWC, ignore=LIVE)))
        r.append(nodet(rw(n, 'hb.rw.n3r1', 1, 3, 8, 8, x=3, s=1, flags=HB, covers=['final', 'readers-together', 'written'], ignore=LIVE, budget=120)))
    return r
def C20():
    r = []; T, H = 'yamc::posix::counting_semaphore', 'posix_semaphore.hpp'; kw = dict(XF=1)
    for i in semset('psem', T, H, bits=31, SMALLUPD=3):
        if i['src'] == 'sem': i['flags'] = [f for f in i['flags'] if f not in ('--spurious', '1')]
        r.append(i)
        if i['src'] == 'sem' and i.get('tier') == 'q':
            j = dict(i); j['name'] = i['name'] + '.eintr'; j['flags'] = i['flags'] + ['--eintr', '2']; r.append(j)
    return r
def C22():
    r = []
    r += semset('gcd', 'yamc::gcd::counting_semaphore', 'gcd_semaphore.hpp', bits=31, SMALLUPD=3, inc=SHIM)
    r += semset('winsem', 'yamc::win::counting_semaphore', 'win_semaphore.hpp', bits=31, SMALLUPD=3, inc=SHIM)
    for i in r:
        if i['src'] == 'sem': i['flags'] = [f for f in i['flags'] if f not in ('--spurious', '1')]
        if i['name'].startswith('winsem') and i['src'] == 'sem':
            i['flags'] = i['flags'] + ['--clock', '23']; i['defs'].update(DBITS=22, SLACK=4000000)
            if 'n3r2' in i['name']: i['K'] = 6; i['defs']['ROUNDS'] = 1; i['tail'] = 24
    return r + winwait('winsem', 'yamc::win::counting_semaphore<>', 'win_semaphore.hpp', WSEM=1)

def ptime(nm, obj, kind, hdr, ops, **kw):
    r = []; cv = ('final', 'negative', 'positive', 'ok', 'failed')
    for o in range(ops):
        for tag, u, ns, b in (('ns', 'nanoseconds', 1, 62), ('ms', 'milliseconds', 1000000, 42), ('s', 'seconds', 1000000000, 32)):
            if tag != 'ns' and o > 1: continue
            r.append(inst('%s.time%d.%s' % (nm, o, tag), 'ptime', 0, 1, cv, OBJ=obj, KIND=kind, HDR=q(hdr), OP=o, BITS=b, UNIT='std::chrono::' + u, UTONS=ns, **kw))
    return r
def native(nm, t, hdr, kind, api, inc=()):
    cv = ('final', 'taken') + (('busy',) if kind != 1 else ()) + (('shared',) if kind == 2 else ())
    return [inst(nm + '.native', 'native', 0, 1, cv, MTX=t, HDR=q(hdr), KIND=kind, API=api, LEN=6, inc=inc), inst(nm + '.native.long', 'native', 0, 1, cv, MTX=t, HDR=q(hdr), KIND=kind, API=api, LEN=9, inc=inc, tier='t', budget=300)]
def C19():
    H = 'posix_native_mutex.hpp'; y = 'yamc::posix::'
    r = ptime('px', y + 'native_mutex', 0, H, 2) + ptime('px_rec', y + 'native_recursive_mutex', 0, H, 2) + ptime('px_rw', y + 'rwlock', 1, H, 4) + ptime('psem', y + 'counting_semaphore<>', 2, 'posix_semaphore.hpp', 3)
    for n, k, api in (('px', 0, 0), ('px_rec', 1, 0), ('px_rw', 2, 1), ('px_spin', 0, 2)): r += native(n, EX[n][1], H, k, api)
    for n in ('px', 'px_rec', 'px_rw'):
        r.append(ex(n, 'tspec', 1, 2, 10, 6, flags=SYM + ['--tspec'], covers=xcov(31), ignore=LIVE, defs={'ALLPROPS': 1}))
    r.append(rw('px_rw', 'rw.tspec', 1, 2, 10, 6, flags=SYM + ['--tspec'], covers=RWC + RWT, ignore=LIVE, defs={'ALLPROPS': 1}))
    return r
def winwait(nm, obj, hdr, **kw):
    r = []; cv = ('final', 'negative', 'positive', 'ok', 'failed', 'threw')
    for op in (0, 1):
        for tag, b, d in (('ns', 30, {}), ('far', 22, {'FAR': 1}), ('ms', 6, {'FAR': 1, 'UNIT': 'std::chrono::milliseconds', 'UTONS': 1000000})):
            dd = dict(d); dd.update(kw)
            r.append(inst('%s.wait%d.%s' % (nm, op, tag), 'winwait', 0, 1, cv, OBJ=obj, HDR=q(hdr), OP=op, BITS=b, inc=SHIM, **dd))
        r.append(inst('%s.wait%d.wide' % (nm, op), 'winwait', 0, 1, cv, OBJ=obj, HDR=q(hdr), OP=op, BITS=36, inc=SHIM, tier='t', budget=400, **kw))
    return r
def C21():
    r = []
    for n, kind, api in (('win_mtx', 1, 3), ('win_cs', 1, 4), ('win_srw', 2, 5), ('apple', 0, 6)):
        h, t, o = OTHER[n]; A = {'ALLPROPS': 1}; tm = o > 3; ck = dict(flags=SYM + ['--clock', '23']) if tm else {}
        if tm: A.update(DBITS=22, SLACK=4000000)
        r += native(n, t, h, kind, api, inc=SHIM)
        ck.setdefault('flags', SYM)
        r.append(ex(n, 'n2r1', 1, 2, 14, 12, covers=xcov(o), defs=A, inc=SHIM, **ck))
        r.append(ex(n, 'n2r2', 2, 2, 14, 18, ops=3, covers=xcov(3), defs=A, inc=SHIM, flags=SYM))
        r.append(ex(n, 'n3r1', 1, 3, 12, 14, ops=3, covers=xcov(3), defs=A, inc=SHIM, flags=SYM))
        r.append(ex(n, 'n3r1.all', 1, 3, 14, 14, covers=XCOV, defs=A, inc=SHIM, tier='t', budget=300, **ck))
        if kind == 1: r.append(ex(n, 'n2r1d3', 1, 2, 12, 28, ops=3, flags=SYM, covers=xcov(3) + ['nested'], defs=dict(A, REC=3), inc=SHIM))
        if kind == 2:
            r.append(rw(n, 'rw.n2r1', 1, 2, 14, 6, covers=RWC, ignore=LIVE, defs=A, inc=SHIM))
            r.append(rw(n, 'rw.n3r1', 1, 3, 12, 12, covers=RWC, defs=A, inc=SHIM, ignore=LIVE))
    return r + winwait('win_mtx', 'yamc::win::native_mutex', 'win_native_mutex.hpp')
