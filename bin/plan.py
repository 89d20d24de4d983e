"""Which configurations and scenarios decide which property."""


def G(fam, n, variant='std', fixed=False, **kw):
    return dict(fam=fam, n=n, variant=variant, fixed=fixed, kw=kw)


def M(mod, only=None, emit=True, take=1500, chain=False, f=0.3, variants=('std',), takefatal=300, workers=4, emitter=None, repeat=False, simulate=0, depth=0, timeout=800, heap='4g', **const):
    return dict(simulate=simulate, depth=depth, timeout=timeout, heap=heap, mod=mod, only=only, emit=emit, take=take, chain=chain, f=f, variants=list(variants), takefatal=takefatal, workers=workers, emitter=emitter, repeat=repeat, const=const)


Q = '"%s"'
P2P_LIGHT = dict(rich=0.2, ntypes=(0, 1))
BIGP = ['Isend', 'Irecv', 'Both', 'Probe', 'Sendrecv']
BIGC = ['Allgather', 'Allgatherv', 'Gather', 'Gatherv', 'Scatter', 'Scatterv', 'Alltoall', 'Alltoallv', 'Alltoallw', 'Reduce', 'Allreduce', 'ReduceScatter', 'Scan']
TWINS = dict(Ns='{1, 2}', Nr='{1, 2}')
PLAN = {
    'C01': dict(gen=[G('queue', 24), G('p2p', 500, **P2P_LIGHT), G('p2p', 150, 'asan', **P2P_LIGHT)],
                mc=[M('MC_match', ['C01'], take=2500, MaxLevel=4, Comms='{1}')]),
    'C02': dict(gen=[G('huge', 30), G('bulk', 16, how=BIGP), G('p2p', 350), G('types', 60), G('p2p', 80, 'asan')],
                mc=[M('MC_data', ['C02'], take=2500, Part=Q % 'p2p'), M('MC_data', ['C02'], take=1200, Part=Q % 'twins', **TWINS)]),
    'C03': dict(gen=[G('huge', 20, how=['late', 'early', 'big', 'zero']), G('bulk', 10, how=BIGP), G('p2p', 500)],
                mc=[M('MC_req', ['C03'], take=1500, MaxLevel=3), M('MC_data', ['C03'], take=800, Part=Q % 'p2p')]),
    'C04': dict(gen=[G('queue', 10), G('p2p', 500, w=dict(test=15, wait=8, reqfree=6), **P2P_LIGHT), G('p2p', 100, 'asan', w=dict(reqfree=6), **P2P_LIGHT)],
                mc=[M('MC_req', ['C04'], take=2500, MaxLevel=4)]),
    'C05': dict(gen=[G('queue', 16), G('p2p', 500, w=dict(testany=9, waitany=5, testall=9, waitall=5, testsome=9, waitsome=5), **P2P_LIGHT)],
                mc=[M('MC_req', ['C05'], take=3000, MaxLevel=4)]),
    'C06': dict(gen=[G('p2p', 600, fatal=0.8, **P2P_LIGHT)],
                mc=[M('MC_match', ['C06'], take=1500, MaxLevel=3), M('MC_req', ['C06'], take=1000, MaxLevel=3)]),
    'C07': dict(gen=[G('queue', 10), G('p2p', 400, ncomms=(2, 4), w=dict(newcomm=4, freecomm=3), **P2P_LIGHT), G('comms', 150)],
                mc=[M('MC_match', ['C07'], take=1500, MaxLevel=3), M('MC_comms', ['C07'], take=1000, MaxLevel=4)]),
    'C08': dict(gen=[G('huge', 15, how=['probe']), G('queue', 12), G('bulk', 8, how=['Probe']), G('p2p', 500, w=dict(probe=8, iprobe=12, irecv=5), rich=0.4)],
                mc=[M('MC_match', ['C08'], take=2000, MaxLevel=4, Comms='{1}')]),
    'C09': dict(gen=[G('p2p', 400, w=dict(null=15), **P2P_LIGHT)],
                mc=[M('MC_null', ['C09'], take=2500, Part=Q % 'null', MaxLevel=3)]),
    'C10': dict(gen=[G('handles', 40), G('handles_limit', 1, fixed=True, kind='cm', extra=False), G('handles_limit', 1, fixed=True, kind='ty', extra=True),
                     G('handles_limit', 1, fixed=True, kind='rq', extra=True), G('p2p', 150, w=dict(newcomm=4, freecomm=4), **P2P_LIGHT)],
                mc=[M('MC_life', ['C10'], take=1500, MaxLevel=5)]),
    'C11': dict(gen=[G('bulk', 12, rich=0.8), G('types', 450), G('types', 50, 'asan'), G('bigcounts', 30)],
                mc=[M('MC_types', ['C11'], take=2000, MaxLevel=2, Rich=0), M('MC_types', ['C11'], take=1000, MaxLevel=1, Rich=2)]),
    'C12': dict(gen=[G('types', 350, markers=0.6, move=False), G('types', 120), G('bigcounts', 30)],
                mc=[M('MC_types', ['C12'], take=2000, MaxLevel=2, Rich=0), M('MC_types', ['C12'], take=1000, MaxLevel=1, Rich=2)]),
    'C13': dict(gen=[G('types', 250, lifetime=0.6), G('uncommitted', 200), G('p2p', 150, w=dict(freetype=6), ntypes=(1, 3)), G('types', 50, 'asan', lifetime=0.6)],
                mc=[M('MC_life', ['C13'], take=1500, MaxLevel=5)]),
    'C14': dict(gen=[G('huge', 25, how=['size']), G('bulk', 12, how=['Pack']), G('pack', 500), G('pack', 80, 'asan')],
                mc=[M('MC_data', ['C14'], take=2000, chain=True, Part=Q % 'pack', MaxLevel=1, Ns='{0, 1, 2}', Nr='{0, 1, 2, 3}')]),
    'C15': dict(gen=[G('huge', 30, how=['coll']), G('bulk', 16, how=BIGC), G('coll', 450, inplace=0.05), G('coll', 60, 'asan')],
                mc=[M('MC_data', ['C15'], take=6000, chain=True, Part=Q % 'coll', MaxLevel=1), M('MC_data', ['C15'], take=1500, chain=True, Part=Q % 'twins', **dict(TWINS, MaxLevel=1))]),
    'C16': dict(gen=[G('coll', 450, inplace=0.8, f=0.5), G('coll', 60, 'asan', inplace=0.8)],
                mc=[M('MC_data', ['C16'], take=6000, chain=True, f=0.5, Part=Q % 'coll', MaxLevel=1)]),
    'C17': dict(gen=[G('groups', 700)],
                mc=[M('MC_comms', ['C17'], take=2000, Part=Q % 'groups', MaxLevel=2)]),
    'C18': dict(gen=[G('comms', 500)],
                mc=[M('MC_comms', ['C18'], take=2500, MaxLevel=4)]),
    'C19': dict(gen=[G(x, n, f=1.0) for x, n in (('p2p', 150), ('types', 60), ('pack', 60), ('coll', 80), ('groups', 60), ('comms', 60), ('cart', 60), ('life', 30), ('predef', 40),
                                                ('uncommitted', 30), ('errors', 30), ('utils', 60))] + [G('p2p', 80, f=0.5)],
                mc=[M('MC_req', ['C05'], take=600, MaxLevel=3, f=1.0), M('MC_null', ['C09'], take=300, f=1.0, Part=Q % 'null'), M('MC_data', ['C15'], take=1500, chain=True, f=1.0, Part=Q % 'coll', MaxLevel=1)]),
    'C20': dict(gen=[G('handles', 10), G('life', 500)],
                mc=[M('MC_life', ['C20'], take=1500, MaxLevel=4)]),
    'C21': dict(gen=[G('predef', 200), G('predef', 80, 'real8'), G('predef', 80, 'real16'), G('utils', 20), G('utils', 10, 'real8')] + [G(x, n, v) for v in ('r8d8', 'd16') for x, n in (('predef', 60), ('utils', 5))],
                mc=[M('MC_predef', ['C21', 'C12'], take=1000, MaxLevel=1), M('MC_predef', ['C21', 'C12'], take=1000, MaxLevel=1, Fr=8, Fd=16, variants=('real8',))]),
    'C22': dict(gen=[G('huge', 25, how=['size']), G('errors', 300), G('uncommitted', 100), G('groups', 80, fatal=0.9), G('cart', 60, fatal=0.9), G('coll', 80, fatal=0.9)],
                mc=[M('MC_null', ['C22'], take=1500, Part=Q % 'bad', MaxLevel=2), M('MC_comms', ['C22'], take=500, Part=Q % 'groups', MaxLevel=1), M('MC_comms', ['C22'], take=500, Part=Q % 'cart', MaxLevel=2)]),
    'C23': dict(gen=[G('cart', 600)],
                mc=[M('MC_comms', ['C23'], take=1500, Part=Q % 'cart', MaxLevel=3)]),
    'C24': dict(gen=[G('utils', 2, fixed=True, clock=True), G('utils', 300), G('p2p', 150), G('coll', 60), G('comms', 60), G('types', 60)],
                mc=[M('MC_life', ['C24'], take=500, MaxLevel=4), M('MC_comms', ['C24'], take=500, MaxLevel=3)]),
    'C25': dict(gen=[G('residue', 120), G('handles', 12)],
                mc=[M('MC_life', ['C25'], take=800, MaxLevel=5), M('MC_life', ['C25'], take=900, MaxLevel=6, StartPre='FALSE', emitter='EmitCycle', repeat=True)]),
    'C26': dict(gen=[G(x, n, v, f=0.7) for v in ('same', 'gnuf2c', 'caps') for x, n in (('p2p', 15), ('types', 8), ('coll', 8), ('comms', 5), ('groups', 5), ('utils', 3), ('pack', 5))] +
                [G(x, n, v) for v in ('hinfo', 'checks', 'o3', 'clang') for x, n in (('handles', 5), ('queue', 2))] + [G('queue', 3, 'asan'), G('bulk', 5, 'asan'), G('bulk', 4, 'o3'), G('bulk', 3, 'clang')] + [G(x, n, v) for v in ('asan', 'checks', 'tycheck', 'hinfo', 'noconf', 'clang', 'o3', 'real8', 'r8d8', 'd16', 'real16')
                     for x, n in (('p2p', 35), ('types', 12), ('pack', 12), ('coll', 12), ('groups', 6), ('comms', 10), ('cart', 5), ('predef', 6), ('life', 4), ('utils', 3))],
                mc=[M('MC_req', ['C05', 'C04'], take=150, MaxLevel=3, variants=('checks', 'tycheck', 'hinfo', 'noconf', 'clang', 'o3'))]),
}

# ---------------------------------------------------------------- thorough tier
# deeper exhaustive exploration (without replay), more of the sequences of the quick
# configurations replayed, and long random behaviours of the specification replayed
BIG = dict(workers=8, timeout=9000, heap='10g')


def deep(mod, only, **kw):
    return M(mod, only, emit=False, **dict(BIG, **kw))


def long(mod, only, num=1000, depth=14, thin=40, **kw):
    return M(mod, only, take=4000, simulate=num, depth=depth, timeout=6000, workers=1, Thin=thin, **dict(MaxLevel=40, **kw))


LONGTYPES = dict(Rich=1, num=60, depth=4, thin=50)
LONGDATA = dict(Part=Q % 'p2p', num=500, depth=8, thin=80)
LONGCOLL = dict(Part=Q % 'coll', num=30, depth=4, thin=400)
LONGCOMMS = dict(num=500, thin=80)
LONGLIFE = dict(num=1000, depth=20, thin=20)


def wide(pid, factor=8):
    return [dict(m, take=m['take'] * factor, takefatal=m['takefatal'] * factor, timeout=6000) for m in PLAN[pid]['mc']]


THOROUGH = {
    'C01': [deep('MC_match', ['C01'], MaxLevel=5, Comms='{1}'), deep('MC_match', ['C01'], MaxLevel=4), long('MC_match', ['C01'])],
    'C02': [deep('MC_data', ['C02'], Part=Q % 'p2p', MaxLevel=3), long('MC_data', ['C02'], **LONGDATA)],
    'C03': [deep('MC_req', ['C03'], MaxLevel=5), long('MC_req', ['C03'])],
    'C04': [deep('MC_req', ['C04'], MaxLevel=5), long('MC_req', ['C04'])],
    'C05': [deep('MC_req', ['C05'], MaxLevel=5), long('MC_req', ['C05'])],
    'C06': [deep('MC_req', ['C06'], MaxLevel=5), deep('MC_match', ['C06'], MaxLevel=4), long('MC_match', ['C06'])],
    'C07': [deep('MC_match', ['C07'], MaxLevel=4), deep('MC_comms', ['C07'], MaxLevel=5), long('MC_comms', ['C07'], **LONGCOMMS)],
    'C08': [deep('MC_match', ['C08'], MaxLevel=5, Comms='{1}'), long('MC_match', ['C08'])],
    'C09': [deep('MC_null', ['C09'], Part=Q % 'null', MaxLevel=5), long('MC_null', ['C09'], Part=Q % 'null')],
    'C10': [deep('MC_life', ['C10'], MaxLevel=8), deep('MC_comms', ['C10'], MaxLevel=5), long('MC_life', ['C10'], **LONGLIFE)],
    'C11': [deep('MC_types', ['C11'], MaxLevel=3, Rich=0), deep('MC_types', ['C11'], MaxLevel=2, Rich=1), long('MC_types', ['C11'], **LONGTYPES)],
    'C12': [deep('MC_types', ['C12'], MaxLevel=3, Rich=0), deep('MC_types', ['C12'], MaxLevel=2, Rich=1), long('MC_types', ['C12'], **LONGTYPES)],
    'C13': [deep('MC_life', ['C13'], MaxLevel=8), long('MC_life', ['C13'], **LONGLIFE)],
    'C14': [deep('MC_data', ['C14'], Part=Q % 'pack', MaxLevel=2)],
    'C15': [long('MC_data', ['C15'], **LONGCOLL)],
    'C16': [long('MC_data', ['C16'], **LONGCOLL, f=0.5)],
    'C17': [deep('MC_comms', ['C17'], Part=Q % 'groups', MaxLevel=3), long('MC_comms', ['C17'], **LONGCOMMS, Part=Q % 'groups')],
    'C18': [deep('MC_comms', ['C18'], MaxLevel=5), long('MC_comms', ['C18'], **LONGCOMMS)],
    'C19': [long('MC_req', ['C05'], f=1.0), long('MC_comms', ['C18'], **LONGCOMMS, f=1.0), long('MC_types', ['C12'], **LONGTYPES, f=1.0)],
    'C20': [deep('MC_life', ['C20'], MaxLevel=8), long('MC_life', ['C20'], **LONGLIFE)],
    'C21': [deep('MC_predef', ['C21', 'C12'], MaxLevel=2), deep('MC_predef', ['C21', 'C12'], MaxLevel=2, Fr=8, Fd=16)],
    'C22': [deep('MC_null', ['C22'], Part=Q % 'bad', MaxLevel=3), deep('MC_comms', ['C22'], Part=Q % 'groups', MaxLevel=3)],
    'C23': [deep('MC_comms', ['C23'], Part=Q % 'cart', MaxLevel=6), long('MC_comms', ['C23'], **LONGCOMMS, Part=Q % 'cart')],
    'C24': [deep('MC_comms', ['C24'], MaxLevel=5), deep('MC_life', ['C24'], MaxLevel=8), long('MC_life', ['C24'], **LONGLIFE)],
    'C25': [deep('MC_life', ['C25'], MaxLevel=8), M('MC_life', ['C25'], take=6000, MaxLevel=7, StartPre='FALSE', emitter='EmitCycle', repeat=True, timeout=6000)],
    'C26': [long('MC_match', ['C01'], variants=('checks', 'tycheck', 'o3')), long('MC_life', ['C10'], **LONGLIFE, variants=('checks', 'asan'))],
}
for p in THOROUGH:
    PLAN[p]['mc_thorough'] = wide(p) + THOROUGH[p]
