"""The properties and how each is explored (see axv.py for what a unit is)."""

import axv


def U(comp, spec, pkg='colls', **kw):
    return dict(comp=comp, spec=spec, pkg=pkg, **kw)


PROPS = {}


def P(id, *units, **kw):
    PROPS[id] = dict(units=list(units), **kw)


P('H01', U('hashset', 'HashSet', profiles={'conc': 2500, 'seq': 200}, race={'conc': 250},
           mc=[dict(conc=2)], gen=[dict(hist=6, n=1200, par=600)]))
P('M01', U('locks', 'Locks', profiles={'conc': 2500, 'seq': 200}, race={'race': 250}, race_any=True,
           mc=[dict(conc=3)], gen=[dict(conc=3, hist=6, n=1800)]))
P('M02', U('simplemap', 'Maps', profiles={'conc': 2500, 'seq': 200}, race={'conc': 250},
           mc=[dict(conc=2, defs={'OneCfg': '{[sh |-> 0]}'}, **{'with': {'McCfgs': 'OneCfg'}})],
           gen=[dict(hist=5, n=1000, par=600, defs={'OneCfg': '{[sh |-> 0]}'}, **{'with': {'McCfgs': 'OneCfg'}})]))
P('M03', U('shardmap', 'Maps', profiles={'conc': 2500, 'seq': 200}, race={'conc': 250},
           mc=[dict(conc=2)],
           gen=[dict(hist=5, n=1000, par=600, defs={'OneCfg': '{[sh |-> 1, fa |-> 1, fb |-> 0], [sh |-> 2, fa |-> 1, fb |-> -3], [sh |-> 3, fa |-> -2, fb |-> 1]}'}, **{'with': {'McCfgs': 'OneCfg'}})]))
P('S01', U('set', 'Sets', profiles={'seq': 800}, mc=[dict(conc=1)], gen=[dict(hist=6, n=2500)]))
P('T01', U('twokey', 'TwoKey', profiles={'conc': 2500, 'seq': 200}, race={'conc': 250},
           mc=[dict(conc=1), dict(conc=2, **{'with': {'McOps': 'McOps2'}})], gen=[dict(hist=6, n=1500, par=600)]))


def GU(prof, ops, cfgs, conc=2, mcops=None, **kw):
    w = {'McOps': ops, 'McCfgs': cfgs}
    return U('guava', 'Guava', profiles={prof: 2200, 's' + prof: 250}, race={prof: 250},
             mc=[dict(conc=conc, **{'with': dict(w, McOps=mcops or ops)})], gen=[dict(hist=6, n=1000, par=500, **{'with': w})], **kw)


P('G01', GU('ops', 'McOps', 'McCfgsPlain', mcops='McOps2'))
P('G02', GU('max', 'McOps', 'McCfgsMax', mcops='McOps2'))
P('G03', GU('ttl', 'McOpsTtl', 'McCfgsTtl', mcops='McOps2'))
P('G04', GU('load', 'McOpsLoad', 'McCfgsLoad'))
P('G05', GU('unl', 'McOps2', 'McCfgsUnl', conc=1))
P('G06', GU('upd', 'McOpsUpd', 'McCfgsUpd'))

CC = dict(pkg='pipes', relabel=axv.relabel_items)
CR = dict(pkg='pipes', relabel=axv.relabel_tasks, hint=axv.hint_times)
HC = dict(hint=axv.hint_chunks, **CC)
HS = dict(hint=axv.hint_items, **CC)
P('C01', U('chunk', 'Chunk', profiles={'batch': 2200, 'lbatch': 150}, race={'batch': 200}, mc=[dict(conc=2)],
           gen=[dict(hist=6, conc=2, n=1000)], **HC))
P('C02', U('chunk', 'Chunk', profiles={'time': 2200, 'ltime': 150}, race={'time': 200}, mc=[dict(conc=2)],
           gen=[dict(hist=6, conc=2, n=1000)], **HC))
P('C03', U('shard', 'Shard', profiles={'conc': 2200, 'long': 150}, race={'conc': 200}, mc=[dict(conc=2)],
           gen=[dict(hist=6, conc=2, n=1200)], **HS))
P('C04', U('shardchunk', 'Chunk', profiles={'batch': 1200, 'time': 1000, 'lbatch': 100}, race={'batch': 200},
           mc=[dict(conc=1, **{'with': {'McCfgs': 'McCfgsSc'}})],
           gen=[dict(hist=5, conc=2, n=1000, **{'with': {'McCfgs': 'McCfgsSc'}})], **HC))
P('C05', U('chunk', 'Chunk', profiles={'stop': 1200, 'lstop': 60}, race={'stop': 120}, mc=[dict(conc=1)], **HC),
  U('shard', 'Shard', profiles={'stop': 1200}, race={'stop': 120}, mc=[dict(conc=1)], **HS),
  U('shardchunk', 'Chunk', profiles={'stop': 1000, 'lstop': 60}, race={'stop': 120}, **HC))
P('W01', U('runner', 'Runner', profiles={'conc': 2400}, race={'conc': 200}, mc=[dict(conc=1), dict(conc=2, **{'with': {'McOps': 'McOps2', 'McBound': 'McBound2'}})],
           gen=[dict(hist=6, conc=3, n=1200)], **CR))
P('W02', U('runner', 'Runner', profiles={'stop': 2000, 'full': 100}, race={'stop': 200}, mc=[dict(conc=1), dict(conc=2, **{'with': {'McOps': 'McOps2', 'McBound': 'McBound2'}})],
           gen=[dict(hist=6, conc=3, n=1200)], **CR))
P('U01', U('uniq', 'UniqSet', profiles={'conc': 2200, 'seq': 200}, race={'conc': 250}, mc=[dict(conc=2)], gen=[dict(hist=5, n=1200, par=600)]))
P('U02', U('uniq', 'UniqSet', profiles={'time': 2200, 'stime': 200}, race={'time': 250}, mc=[dict(conc=1)], gen=[dict(hist=6, n=1500, par=500)]))
P('R01', U('request', 'Request', profiles={'conc': 2400}, race={'conc': 250}, mc=[dict(conc=2)], gen=[dict(hist=5, n=1000, par=600, **{'with': {'McCfgs': 'McCfgs1'}})]))
P('R02', U('request', 'Request', profiles={'ttl': 2400}, race={'ttl': 250}, mc=[dict(conc=2)], gen=[dict(hist=6, n=1500, par=500)]))
P('R03', U('request', 'Request', profiles={'to': 2400}, race={'to': 250}, mc=[dict(conc=2, **{'with': {'McOps': 'McOpsTo'}})], gen=[dict(hist=5, conc=2, n=800, **{'with': {'McOps': 'McOpsTo'}})]))
P('P01', U('response', 'Response', profiles={'conc': 2600}, race={'conc': 250}, mc=[dict(conc=2)], gen=[dict(hist=6, conc=3, n=1000)]))
P('P02', U('response', 'Response', profiles={'time': 2600}, race={'time': 250}, mc=[dict(conc=2)], gen=[dict(hist=7, conc=2, n=1500)]))
P('A01', U('wait', 'Wait', profiles={'conc': 2600}, race={'conc': 250}, mc=[dict(conc=2)], gen=[dict(hist=6, conc=2, n=1200)]))
P('A02', U('wait', 'Wait', profiles={'time': 2200, 'stop': 400}, race={'time': 250}, mc=[dict(conc=2), dict(conc=3, **{'with': {'McOps': 'McOps2'}})], gen=[dict(hist=6, conc=2, n=1500)]))
P('D01', U('holder', 'Holder', profiles={'conc': 2600}, race={'conc': 250}, mc=[dict(conc=2)], gen=[dict(hist=5, conc=2, n=1200)]))
P('D02', U('holder', 'Holder', profiles={'time': 2000, 'stop': 600}, race={'time': 250}, mc=[dict(conc=2), dict(conc=3, **{'with': {'McOps': 'McOps2'}})], gen=[dict(hist=6, conc=2, n=1500)]))

MI = dict(pkg='misc')
P('E01', U('compare', 'Compare', profiles={'seq': 600, 'conc': 300}, race={'conc': 120}, mc=[dict(conc=1)], gen=[dict(hist=1, n=2500)], **MI))
P('E02', U('flow', 'Flow', profiles={'seq': 800, 'conc': 1000}, race={'conc': 200}, mc=[dict(conc=2)], gen=[dict(hist=1, n=1200, par=400)], **MI))
P('N01', U('read', 'Read', profiles={'conc': 1600, 'time': 1600}, race={'time': 200}, mc=[dict(conc=2)], gen=[dict(hist=6, conc=2, n=1500)], **MI))
P('N02', U('codec', 'Codec', profiles={'seq': 1200, 'conc': 400}, race={'conc': 150}, mc=[dict(conc=1)], gen=[dict(hist=1, n=3000)], **MI))
P('I01', U('decimal', 'Decimal', profiles={'seq': 1500, 'conc': 100}, race={'conc': 60}, mc=[dict(conc=1)], gen=[dict(hist=1, n=3000)], **MI))
P('K01', U('aes', 'Aes', profiles={'seq': 1200, 'conc': 500}, race={'conc': 120}, mc=[dict(conc=1)], gen=[dict(hist=5, n=1500)], **MI))
W2 = {'McOps': 'McOps2', 'McCfgs': 'McOneCfg'}
P('K02', U('cryptofs', 'CryptoFs', profiles={'build': 1500}, mc=[dict(conc=1, **{'with': {'McCfgs': 'McOneCfg'}})], gen=[dict(hist=6, n=1200, **{'with': {'McCfgs': 'McOneCfg'}})], **MI))
P('K03', U('cryptofs', 'CryptoFs', profiles={'use': 1500}, race={'use': 150}, mc=[dict(conc=1, **{'with': W2})],
           gen=[dict(hist=9, n=1200, par=800, **{'with': {'McOps': 'McOps2'}})], together=axv.fs_together, **MI))
P('K04', U('md5', 'Md5', profiles={'seq': 100, 'conc': 16}, race={'conc': 20}, mc=[dict(conc=1)], gen=[dict(hist=1, n=200)], **MI))
P('Z01', U('gzip', 'Gzip', profiles={'seq': 1200, 'conc': 300}, race={'conc': 100}, mc=[dict(conc=1)], gen=[dict(hist=5, n=1500)], **MI))

# every component that is made by a builder, whose builder is used further (profile b:...)
P('B01', U('chunk', 'Chunk', profiles={'b:batch': 500, 'b:time': 500, 'b:stop': 300}, race={'b:batch': 100}, mc=[dict(conc=1)], **HC),
  U('shard', 'Shard', profiles={'b:conc': 600, 'b:stop': 300}, race={'b:conc': 100}, **HS),
  U('shardchunk', 'Chunk', profiles={'b:batch': 400, 'b:time': 300, 'b:stop': 200}, race={'b:batch': 100}, **HC),
  U('runner', 'Runner', profiles={'b:conc': 400, 'b:stop': 300}, race={'b:conc': 100}, **CR),
  U('hashset', 'HashSet', profiles={'b:conc': 400}), U('shardmap', 'Maps', profiles={'b:conc': 500}),
  U('guava', 'Guava', profiles={'b:ops': 300, 'b:max': 300, 'b:ttl': 500, 'b:load': 300, 'b:unl': 400, 'b:upd': 200}, race={'b:load': 80}),
  U('response', 'Response', profiles={'b:conc': 200, 'b:time': 400}), U('wait', 'Wait', profiles={'b:time': 500}),
  U('holder', 'Holder', profiles={'b:time': 500}), U('uniq', 'UniqSet', profiles={'b:time': 500, 'b:conc': 300}),
  U('flow', 'Flow', profiles={'b:seq': 300, 'b:conc': 300}, race={'b:conc': 60}, **MI))


# a property is also exercised by some scripts of its siblings (the other profiles of the same component)
def cross(n, *ids):
    units = [(i, u) for i in ids for u in PROPS[i]['units']]
    for i, u in units:
        if not u.get('own'):
            u['own'] = dict(u['profiles'])
    for i, u in units:
        for j, v in units:
            if i != j and v['comp'] == u['comp']:
                for p in v['own']:
                    u['profiles'].setdefault(p, n if v['own'][p] > 300 else n // 5)


cross(200, 'G01', 'G02', 'G03', 'G04', 'G05', 'G06')
cross(400, 'C01', 'C02', 'C05')
cross(400, 'C03', 'C05')
cross(400, 'C04', 'C05')
for ids in ['W01 W02', 'U01 U02', 'R01 R02 R03', 'P01 P02', 'A01 A02', 'D01 D02', 'K02 K03']:
    cross(500, *ids.split())
