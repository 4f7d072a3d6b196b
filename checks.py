"""what is run for each property"""

ASSUME = [
    'the events of a run are recorded in an order which the real-time order of the calls and returns allows',
    'the models are bounded as their cfg says; the recorded runs are samples of the schedules of the Go scheduler',
    'cut and stalled transports are those of an in-memory pipe (and TCP on the loopback), not of a kernel network',
]


def run(scen, **kw):
    return dict(scen=scen, **kw)


def net(aspect, *bugs, num=250):
    """the model of a connection, Net.tla: checked, with faults, and generating schedules"""
    models = [dict(module='Net', cfg='Net.' + aspect, workers=3),
              dict(module='Net', cfg='Net.' + aspect + '.deep', workers=8, heap='12g', thorough=True, timeout=5000)]
    for b in bugs:
        cfg, bug = b.split('/') if '/' in b else (aspect, b)
        models.append(dict(module='Net', cfg='Net.' + cfg, bug=bug))
    return dict(models=models, gens=[dict(module='Net', cfg='Net.' + aspect + x + '.gen', num=num, depth=130, scen='sched', most=(250, 5000)) for x in ('', '.pre')])


def hand(*bugs):
    """the handshake, Hand.tla"""
    return dict(models=[dict(module='Hand', cfg='Hand'), dict(module='Hand', cfg='Hand.deep', workers=8, heap='8g', thorough=True, timeout=3000)]
                + [dict(module='Hand', cfg='Hand', bug=b) for b in bugs],
                gens=[dict(module='Hand', cfg='Hand.gen', num=400, depth=70, scen='hand', mod='TraceShake', most=(300, 5000))])


def both(a, *bs):
    for b in bs:
        for k in b:
            a[k] = a.get(k, []) + b[k]
    return a


PROPS = {
    'C01': dict(runs={'storm': run('raw:400,heavy:60,backlograw:1')}, **net('raw', 'directclose')),
    'C02': dict(runs={'storm': run('iso:400')}, **net('iso', 'cross')),
    'C03': dict(runs={'storm': run('msg:500')}, **net('msg', 'earlyack')),
    'C04': dict(runs={'storm': run('msg:400,heavy:60')}, **net('msg', 'lifo', 'twice')),
    'C05': dict(runs={'storm': run('rpc:400,heavy:60')}, **net('rpc', 'anyrsp')),
    'C06': dict(runs={'storm': run('route:500')}, **net('route', 'nonmatch')),
    'C07': dict(runs={'storm': run('backlogcut:1,backlogsmall:1,loss:500')}, **net('loss', 'nohub')),
    'C08': both(dict(runs={'storm': run('limit:200,ctxend:200')}), net('limit', 'early', 'noctx'), net('mlimit', 'nolimit')),
    'C09': dict(runs={'shake': run('shake:400', mod='TraceShake', budget=20, par=8),
                      'burst': run('shburst:600', mod='TraceShake', budget=15, procs=64), 'wire': run('wire:150', mod='TraceWire', budget=8, par=40)},
                **hand('latewait', 'empty', 'sameid', 'meta', 'norefuse')),
    'C10': dict(runs={'storm': run('open:500,openlate:60')}, **net('open', 'meta')),
    'C11': dict(runs={'storm': run('backlogstream:1,backlogspeer:1,closefull:60,sclose:500,openclose:200')}, **net('close', 'raw/directclose')),
    'C12': dict(runs={'storm': run('backlogclose:1,backlogpeer:1,eclose:500')}, **net('end', 'keepacc')),
    'C13': dict(runs={'storm': run('deadline:200,wdeadline:200,dlrace:150', budget=25)}, **net('dl', 'nomove', 'wdl')),
    'C14': dict(runs={'storm': run('async:500')}, **net('async', 'again')),
    'C15': dict(runs={'storm': run('check:500')}, **net('chk', 'noreg')),
    'C16': dict(runs={'retry': run('retry:200', mod='TraceRetry', budget=60, par=200)}, rounds=6,
                models=[dict(module='Redial', cfg='Redial'), dict(module='Redial', cfg='Redial.deep', workers=8, heap='8g', thorough=True, timeout=3000)]
                + [dict(module='Redial', cfg='Redial', bug=b) for b in ('reborn', 'leak', 'norestore', 'older', 'oldreg', 'twice', 'hang')]),
    'C17': dict(runs={'ids': run('idgen:250,idend:60,idburst:60', mod='TraceIds', budget=10), 'wire': run('wire:200', mod='TraceWire', budget=8, par=40)},
                models=[dict(module='IdGen', cfg='IdGen.' + m) for m in ('even', 'odd', 'inc', 'unique')]
                + [dict(module='IdGen', cfg='IdGen.inc', bug='split'), dict(module='IdGen', cfg='IdGen.inc', bug='noreserve'),
                   dict(module='IdGen', cfg='IdGen.unique', bug='forget')]),
    'C18': dict(runs={'hb': run('hb:400', mod='TraceWire', budget=22, par=32)}),
    'C19': dict(runs={'wire': run('forge:500,junk:400,wire:150', mod='TraceWire', budget=20, par=40)}),
    'C20': both(dict(runs={'storm': run('open:300,openclose:200,loss:300', budget=15), 'shake': run('shake:200', mod='TraceShake', budget=10, par=8)}),
                net('end', 'loss/nooff'), hand('nooff')),
}
