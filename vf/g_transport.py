"""C01-C06 and C08: the Modbus clients over RTU and TCP."""
import json
import random

ALL_MODES = {'ok', 'exc', 'silent', 'late', 'bad', 'wrong', 'sendfail', 'connfail'}
TCP_OPS = {'read', 'write', 'connect', 'disconnect'}
RTU_OPS = {'read', 'write'}
INV = ['NoViolation', 'NoLeak', 'SockAgrees', 'WrittenPrefix']
BASE = dict(Tp='tcp', MaxCalls=3, MaxAddr=2, Chunk=2, Mut='none', Record=False, Tracing=True, Ops=TCP_OPS,
            Modes=ALL_MODES, Counts={0, 1, 2, 3})
MUTS = {'C01': [('tcp', 'offset'), ('rtu', 'offset')], 'C02': [('tcp', 'offset'), ('rtu', 'offset'), ('rtu', 'swallow')],
        'C03': [], 'C04': [('tcp', 'noval'), ('rtu', 'noval'), ('tcp', 'swallow')],
        'C05': [('tcp', 'keepfailed'), ('tcp', 'noclose'), ('tcp', 'reconnectleak')],
        'C06': [('rtu', 'noflush'), ('tcp', 'nodrop')], 'C08': [('tcp', 'notrace'), ('rtu', 'notrace')]}

CONNFAIL = ['refuse', 'timeout', 'unreach', 'gai']
SENDFAIL = {'tcp': ['pipe', 'reset', 'timeout', 'oserror'], 'rtu': ['serialtimeout', 'serial', 'oserror']}
BADEND = {'tcp': ['timeout', 'eof', 'reset', 'oserror'], 'rtu': ['timeout', 'serial', 'oserror']}


def reply(rng, mode, tp, op):
    """a concrete reply for a mode of the model"""
    r = {}
    if mode == 'ok':
        pass
    elif mode == 'exc':
        r = {'base': 'exc', 'code': rng.choice([1, 2, 3, 4, 5, 6, 8, 10, 11, 0, 255, 128, rng.randrange(256)])}
    elif mode == 'silent':
        r = {'base': 'none'}
    elif mode == 'late':
        r = {'late': True}
        if rng.random() < .3:
            r.update(base='exc', code=rng.randrange(1, 12))
    elif mode == 'sendfail':
        r = {'sendfail': rng.choice(SENDFAIL[tp])}
    elif mode == 'wrong':
        # a well-formed reply to something else
        k = rng.randrange(6)
        if k == 0:
            r = {'pdu': [['set', 0, rng.choice([3, 4, 16, 6, 1])]]}
        elif k == 1 and tp == 'rtu':
            r = {'unit': rng.randrange(256)}
        elif k == 2:
            r = {'pdu': [['append', [rng.randrange(256), rng.randrange(256)]]] if op == 'write'
                 else [['append', [1, 2]], ['set', 1, 2]]}
        elif k == 3:
            r = {'pdu': [['xor', rng.randrange(1, 5), 1 << rng.randrange(8)]]} if op == 'write' else \
                {'pdu': [['trunc', -2], ['set', 1, rng.choice([0, 2, 4, 250])]]}
        elif k == 4:
            r = {'base': 'exc', 'code': 2, 'pdu': [['set', 0, rng.choice([0x83, 0x84, 0x90, 0x80, 0xff])]]}
        else:
            r = {'pdu': [['set', 0, rng.choice([3, 4, 16])], ['xor', 1, 1]]}
    elif mode == 'bad':
        k = rng.randrange(5)
        end = rng.choice(BADEND[tp])
        if k == 0:
            r = {'ops': [['trunc', rng.randrange(0, 12)]], 'end': end}
        elif k == 1:
            r = {'ops': [['xor', rng.randrange(0, 40), 1 << rng.randrange(8)]], 'end': end}
        elif k == 2:
            r = {'ops': [['trunc', -1 - rng.randrange(3)]], 'end': end}
        elif k == 3:
            r = {'ops': [['replace', [rng.randrange(256) for _ in range(rng.randrange(1, 14))]]], 'end': end}
        else:
            r = {'base': 'none', 'end': rng.choice([e for e in BADEND[tp] if e != 'timeout'])}
    if rng.random() < .3:
        r['frag'] = rng.choice([[1], [2], [3, 1], [4], [5], [7], [8], [9], [1, 100], [5, 1], [6, 3]])
    return r


def write_data(rng, cnt):
    k = rng.random()
    if k < .15:
        return [rng.choice([0, 0, 255, 128, 13, 10])] * (2 * cnt)
    if k < .3:
        return [rng.choice([0, 0, 0, 255, 1]) for _ in range(2 * cnt)]
    return [rng.randrange(256) for _ in range(2 * cnt)]


def new_cfg(rng, tp, mx=None, trace=None, via='modbus'):
    to = rng.choice([None, None, None, 1, .25, 3.5, 2, .1, 10, 60, 75.5, 300])
    trace = rng.random() < .5 if trace is None else trace
    return {'tp': tp, 'unit': rng.choice([1, 1, 2, 7, 17, 100, 126, 247, 255, 0, rng.randrange(256)]) if tp == 'tcp' else
            rng.choice([1, 2, 3, 17, 100, 247, rng.randrange(1, 248)]),
            'max': mx if mx is not None else rng.choice([0, 0, 125, 123, 124, 100, 64, 50, 10, 5, 3, 2, 1]),
            'host': rng.choice(['10.0.0.1', '192.168.7.20', 'inverter.local']), 'port': rng.choice([502, 1502, 65535, None, None, 802, 5020, 1, 80, rng.randrange(1, 65536)])
            if tp == 'tcp' else 0,
            'to': to, 'trace': trace, 'fill': rng.randrange(65536), 'pat': rng.choice([0, 0, 0, 0, 1, 1, 2]), 'via': via,
            'tracetrue': via == 'client' and trace and rng.random() < .7}


def from_script(rng, n, sc, trace):
    """a behaviour of the model made concrete; calls are scaled up around the real limits"""
    tp = sc['tp']
    cfg = new_cfg(rng, tp, trace=trace)
    mx = rng.choice([1, 2, 3, 5, 60])
    cfg['max'] = mx
    base = rng.choice([0, 1, 254, 255, 256, 1000, 40000, 65530 - 3 * mx])
    calls = []
    for c in sc['calls']:
        op = c['op']
        call = {'op': op}
        modes = list(c['modes'])
        plan = {}
        if modes and modes[0] in ('conn', 'connfail'):
            m = modes.pop(0)
            if m == 'connfail':
                plan['conn'] = rng.choice(CONNFAIL)
        plan['replies'] = [reply(rng, m, tp, op) for m in modes]
        if op in ('read', 'write'):
            # the model has 2 registers per request: 3 registers are two requests
            k = c['cnt']
            cnt = {0: 0, 1: rng.randrange(1, mx + 1), 2: mx, 3: mx + rng.randrange(1, mx + 1)}[k]
            call['addr'] = base + c['addr'] * rng.choice([1, mx])
            if op == 'read':
                call.update(fc=rng.choice([3, 3, 4]), cnt=cnt, noop=rng.random() < .5)
            else:
                call.update(data=write_data(rng, cnt), text=rng.random() < .2)
        elif op == 'connect' and rng.random() < .3:
            call['to'] = rng.choice([.5, 7, 2, 60, 100])
        elif op == 'disconnect' and rng.random() < .4:
            call['op'] = 'close'
        call['plan'] = plan
        calls.append(call)
    return {'id': 's%d' % n, 'cfg': cfg, 'calls': calls, 'forged': True}


def io_call(rng, op, addr, cnt, plan=None, fc=3):
    fc = 3 if fc == 16 else fc
    if op == 'read':
        return {'op': 'read', 'fc': fc, 'addr': addr, 'cnt': cnt, 'plan': plan or {}, 'noop': rng.random() < .5}
    return {'op': 'write', 'addr': addr, 'data': write_data(rng, cnt), 'plan': plan or {}, 'text': rng.random() < .2}


def sizes(rng, tp, thorough):
    """every interesting length against every interesting limit, good replies, fragmented"""
    out = []
    n = 0
    for op in ('read', 'write'):
        for mx in [0, 125, 124, 123, 122, 60, 7, 1]:
            lim = mx or 125
            wl = min(lim, 123) if op == 'write' else lim
            counts = {0, 1, 2, lim - 1, lim, lim + 1, 2 * lim - 1, 2 * lim, 2 * lim + 1, wl, wl + 1, 2 * wl, 2 * wl + 1,
                      3 * lim, 4 * lim + 3, 125, 123, 124, 126}
            counts = sorted(c for c in counts if 0 <= c <= (90 * lim if lim < 60 else 700))
            if not thorough:
                counts = [c for c in counts if c < 300 or rng.random() < .3]
            # requests by the hundred
            counts += {1: [260, 300], 7: [800], 125: [4400] if thorough else [], 0: [1500, 2700] + ([20000] if thorough else [])}.get(mx, [])
            calls = []
            for c in counts:
                addr = rng.choice([0, 1, 40000, 65536 - c, 255, 256, rng.randrange(0, 65536 - c)])
                frag = rng.choice([None, [1], [5], [3, 2], [8], [9, 1], [7, 100], [64], [rng.randrange(1, 260)]])
                calls.append(io_call(rng, op, addr, c, {'frag': frag} if frag else {}, fc=rng.choice([3, 4])))
            for g in range(0, len(calls), 4):
                cfg = new_cfg(rng, tp, mx=mx)
                out.append({'id': 'z%s%d' % (tp, n), 'cfg': cfg, 'calls': calls[g:g + 4]})
                n += 1
    return out


def frags(rng, tp):
    """every way of cutting short replies in two, and some in more"""
    out = []
    for op, cnt in (('read', 1), ('read', 2), ('write', 2)):
        length = {'rtu': {'read': 5 + 2 * cnt, 'write': 8}, 'tcp': {'read': 9 + 2 * cnt, 'write': 12}}[tp][op]
        for base in ('ok', 'exc'):
            for cut in range(1, length):
                plan = {'frag': [cut, 1000]}
                if base == 'exc':
                    if cut > (4 if tp == 'rtu' else 8):
                        continue
                    plan['replies'] = [{'base': 'exc', 'code': 1 + cut % 11}]
                cfg = new_cfg(rng, tp, mx=0)
                out.append({'id': 'f%s%s%d%s%d' % (tp, op, cnt, base, cut), 'cfg': cfg, 'calls': [
                    io_call(rng, op, 100, cnt, plan), io_call(rng, op, 7, cnt)]})
        for k in range(2, 9):
            out.append({'id': 'f%s%s%dk%d' % (tp, op, cnt, k), 'cfg': new_cfg(rng, tp, mx=0), 'calls': [
                io_call(rng, op, 100, cnt * 20, {'frag': [k]}), io_call(rng, op, 7, cnt, {'frag': [1] * k + [50]})]})
    return out


def damage(rng, tp, thorough):
    """every truncation and corruption of short replies, at the first or a later request, on connections opened by
    the user or not, each followed by a good call"""
    out = []
    n = 0
    for op, fc in (('read', 3), ('read', 4), ('write', 16)):
        cnt = 2
        length = {'rtu': {'read': 5 + 2 * cnt, 'write': 8}, 'tcp': {'read': 9 + 2 * cnt, 'write': 12}}[tp][op]
        variants = []
        for cut in range(0, length):
            for end in BADEND[tp]:
                variants.append({'ops': [['trunc', cut]], 'end': end})
        for pos in range(length):
            masks = [1, 2, 4, 8, 16, 32, 64, 128, 255] if thorough else [1, 128, 1 << rng.randrange(1, 7), rng.randrange(3, 256)]
            for mask in masks:
                variants.append({'ops': [['xor', pos, mask]], 'end': rng.choice(BADEND[tp])})
                if tp == 'rtu' and pos < length - 2:
                    variants.append({'ops': [['xor', pos, mask], ['fixcrc']], 'end': rng.choice(BADEND[tp])})
        for code in (range(256) if thorough else [0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 127, 128, 255]):
            variants.append({'base': 'exc', 'code': code})
        for f in [0x80, 0x83, 0x84, 0x90, 0x86, 0xff, 3, 4, 16, 0, 6]:
            variants.append({'base': 'exc', 'code': 2, 'pdu': [['set', 0, f]]})
            variants.append({'pdu': [['set', 0, f]]})
        for u in [0, 2, 255, 128]:
            variants.append({'unit': u})
        for c in [0, 1, 2, 3, 5, 6, 8, 255]:
            variants.append({'pdu': [['set', 1, c]]} if op == 'read' else {'pdu': [['set', 4, c]]})
        for c in [0, 1, 3, 5, 124]:
            # a well-formed answer with another number of registers
            if op == 'read':
                variants.append({'pdu': [['replace', [fc, (2 * c) % 256] + [9] * (2 * c)]]})
            else:
                variants.append({'pdu': [['replace', [fc, 0, c, 0, c]]]})
        for extra in [[0], [1, 2], [3] * 9]:
            variants.append({'ops': [['append', extra]]})
            variants.append({'base': 'exc', 'code': 3, 'ops': [['append', extra]]})
            variants.append({'ops': [['prepend', extra]]})
        for junk in ([0], [255] * 3, [1, 3], [1, 0x83, 2], [0] * 9, [0] * 30, [1, 3, 4, 0, 0], [0, 0, 0, 0, 0, 0, 1, 3, 4],
                     [0, 0, 0, 0, 0, 2, 1, 3], [0, 0, 0, 0, 0, 3, 1, 0x83, 2, 9]):
            variants.append({'ops': [['replace', junk]], 'end': rng.choice(BADEND[tp])})
        for end in BADEND[tp]:
            if end != 'timeout':
                variants.append({'base': 'none', 'end': end})
        for k in SENDFAIL[tp]:
            variants.append({'sendfail': k})
        variants.append({'base': 'none'})
        variants.append({'late': True})
        for v in variants:
            v = dict(v)
            where = rng.choice([0, 0, 1, 2])
            mx = 2 if where else rng.choice([0, 2])
            cfg = new_cfg(rng, tp, mx=mx)
            calls = []
            explicit = tp == 'tcp' and rng.random() < .5
            appended = any(o[0] == 'append' for o in v.get('ops', []))
            if explicit and not appended:
                calls.append({'op': 'connect', 'plan': {}})
            if rng.random() < .3:
                calls.append(io_call(rng, rng.choice(['read', 'write']), 50, 2))
            if rng.random() < .3 and 'frag' not in v:
                v['frag'] = rng.choice([[1], [2], [5], [3, 1]])
            calls.append(io_call(rng, op, 10, cnt * (where + 1), {'replies': [{}] * where + [v]}, fc=fc))
            calls.append(io_call(rng, rng.choice([op, op, 'read', 'write']), rng.choice([10, 300]), cnt, fc=fc))
            if rng.random() < .5:
                calls.append(io_call(rng, 'read', 10, cnt * (where + 1)))
            if explicit:
                calls.append({'op': 'close', 'plan': {}})
            out.append({'id': 'd%s%d' % (tp, n), 'cfg': cfg, 'calls': calls, 'forged': True})
            n += 1
    return out


def aftermath(rng, tp):
    """each way of losing a reply, with a read or a write before and after"""
    out = []
    n = 0
    for op in ('read', 'write'):
        length = {'rtu': {'read': 9, 'write': 8}, 'tcp': {'read': 13, 'write': 12}}[tp][op]
        variants = [{'ops': [['trunc', cut]], 'end': rng.choice(BADEND[tp])} for cut in range(length)]
        variants += [{'ops': [['trunc', cut]], 'end': 'timeout'} for cut in (1, 2, 3, 5, length - 1)]
        variants += [{'late': True}, {'base': 'none'}, {'late': True, 'base': 'exc', 'code': 2},
                     {'ops': [['append', [1, 2, 3]]]}, {'base': 'exc', 'code': 6}, {'sendfail': rng.choice(SENDFAIL[tp])}]
        for v in variants:
            for nxt in ('read', 'write'):
                cfg = new_cfg(rng, tp, mx=rng.choice([0, 0, 3]))
                calls = [io_call(rng, op, 10, 2, {'replies': [dict(v)]})]
                if tp == 'tcp' and rng.random() < .6 and 'append' not in str(v):
                    calls.insert(0, {'op': 'connect', 'plan': {}})
                if rng.random() < .3:
                    calls += [dict(calls[-1], plan={'replies': [rng.choice(variants)]})]
                calls += [io_call(rng, nxt, rng.choice([10, 200]), rng.choice([2, 2, 1, 5])), io_call(rng, op, 10, 2)]
                out.append({'id': 'a%s%d' % (tp, n), 'cfg': cfg, 'calls': calls, 'forged': True})
                n += 1
    return out


def edges(rng, tp):
    """calls of several requests that end with the last register or begin with the first"""
    out = []
    for n in range(12):
        mx = rng.choice([0, 1, 7, 125, 100, 2])
        lim = mx or 125
        calls = []
        for op in ('read', 'write', rng.choice(['read', 'write'])):
            cnt = lim * rng.randrange(1, 3) + rng.randrange(0, lim + 1)
            calls.append(io_call(rng, op, rng.choice([65536 - cnt, 65536 - cnt, 0, 32768 - lim]), cnt, fc=rng.choice([3, 4])))
        out.append({'id': 'e%s%d' % (tp, n), 'cfg': new_cfg(rng, tp, mx=mx), 'calls': calls})
    return out


def borders(rng, tp):
    """arguments at and beyond the edge of what Modbus can express"""
    out = []
    n = 0
    for via in ('modbus', 'client'):
        for mx in ([0, 3] if via == 'modbus' else [0]):
            calls = []
            for op in ('read', 'write'):
                for addr, cnt in [(65535, 1), (65535, 2), (65536, 1), (65536, 0), (65534, 2), (65534, 3), (65411, 125), (65411, 126),
                                  (-1, 1), (-1, 2), (-5, 3), (70000, 1), (0, 1), (0, 0), (65536 - 250, 250), (65536 - 250, 251),
                                  (131072, 2)]:
                    if mx == 3 and cnt > 100:
                        continue
                    calls.append(io_call(rng, op, addr, cnt))
            for ln in [1, 3, 5, 249, 247]:
                calls.append({'op': 'write', 'addr': 10, 'data': [rng.randrange(256) for _ in range(ln)], 'plan': {}})
            for g in range(0, len(calls), 3):
                part = calls[g:g + 3] + [io_call(rng, 'read', 10, 3)]
                if tp == 'tcp' and via == 'modbus' and rng.random() < .5:
                    part = [{'op': 'connect', 'plan': {}}] + part
                out.append({'id': 'b%s%d' % (tp, n), 'cfg': new_cfg(rng, tp, mx=mx, via=via), 'calls': part})
                n += 1
    return out


def histories(rng, tp, count, via='modbus', trace=None):
    out = []
    for n in range(count):
        cfg = new_cfg(rng, tp, via=via, trace=trace, mx=0 if via == 'client' else None)
        calls = []
        stale = False
        for _ in range(rng.randrange(2, 8)):
            k = rng.random()
            if tp == 'tcp' and k < .25 and via == 'modbus':
                op = rng.choice(['connect', 'connect', 'disconnect', 'close'])
                c = {'op': op, 'plan': {}}
                if op == 'connect':
                    if rng.random() < .3:
                        c['plan'] = {'conn': rng.choice(CONNFAIL)}
                    if rng.random() < .3:
                        c['to'] = rng.choice([1, .5, 9, 60, 120])
                calls.append(c)
                continue
            done = [c for c in calls if c['op'] in ('read', 'write')]
            if done and rng.random() < .25:
                # the same call again, with or without its fault
                calls.append(dict(rng.choice(done)))
                if rng.random() < .7:
                    calls[-1]['plan'] = {}
                continue
            op = rng.choice(['read', 'write'])
            lim = cfg['max'] or 125
            cnt = rng.choice([1, 2, rng.randrange(1, 3 * lim + 2), lim + 1])
            replies = []
            for _ in range(rng.randrange(0, 4)):
                replies.append(reply(rng, rng.choices(['ok', 'exc', 'silent', 'late', 'bad', 'wrong', 'sendfail'],
                                                      [8, 2, 1, 2, 2, 2, 1])[0], tp, op))
            plan = {'replies': replies}
            if rng.random() < .1 and tp == 'tcp':
                plan['conn'] = rng.choice(CONNFAIL)
            addr = rng.choice([0, 100, 100 + rng.randrange(10), rng.randrange(0, 65000)])
            cnt = min(cnt, 65536 - addr)
            calls.append(io_call(rng, op, addr, cnt, plan, fc=rng.choice([3, 4]) if via == 'modbus' else 3))
        out.append({'id': 'h%s%s%d' % (tp, via[0], n), 'cfg': cfg, 'calls': calls, 'forged': True})
    return out


def props_of(clause, trace, at, scenario):
    cfg = trace['cfg']
    ev = trace['ev']
    call = None
    ncalls = 0
    failed_before = False
    for k, e in enumerate(ev[:at]):
        if e['e'] == 'call':
            call = e
            ncalls += 1
        if e['e'] == 'ret' and k < at - 1 and e['kind'] != 'ok':
            failed_before = True
    op = call['op'] if call else ''
    io = {'read': 'C01', 'write': 'C02'}.get(op)
    ios = {io} if io else set()
    after = {'C06'} if failed_before else set()
    if cfg.get('via') == 'client':
        after = after | {'C25'}
    tcp = {'C05'} if cfg['tp'] == 'tcp' else set()
    head = clause.split('.')[0]
    if clause == 'frame.unit' or head in ('frame', 'pdu'):
        return {'C03'} | (ios if clause in ('pdu.count', 'frame.unit') else set())
    if clause in ('send.tainted', 'conn.kept'):
        return {'C06', 'C05'}
    if clause in ('send.closed', 'send.elsewhere') or head == 'conn':
        return {'C05'} | (after & {'C06'})
    if clause == 'port.timeout':
        return {'C07'}
    if clause == 'send.unasked':
        return {'C01', 'C02'} | tcp
    if clause == 'send.illegal':
        return {'C03'}
    if clause == 'send.afterfail':
        return {'C04'} | ios
    if head == 'send':
        return ios | after
    if clause == 'ret.accepted':
        return {'C03'} | ({'C25'} if cfg.get('via') == 'client' else set())
    if clause == 'ret.okfail':
        return {'C04'} | ios | after
    if clause in ('ret.kind', 'ret.code', 'ret.untyped'):
        return {'C04'} | after | (tcp if op == 'connect' else set())
    if clause == 'ret.hang':
        return {'C04'} | ios | tcp | after
    if clause == 'ret.refused':
        return ios | after | (tcp if failed_before or op in ('connect', 'disconnect', 'close') else set())
    if clause in ('ret.incomplete', 'ret.data'):
        return ios | after | ({'C04'} if clause == 'ret.incomplete' else set())
    if head == 'trace':
        return {'C08'}
    return None


def scenarios(run, rng, scripts, focus):
    big = run.thorough
    trace = None
    out = []
    rng.shuffle(scripts)
    take = len(scripts) if big else {'C05': 900, 'C06': 900, 'C04': 500}.get(focus, 350)
    for n, s in enumerate(scripts[:take]):
        out.append(from_script(rng, n, s, trace))
    for tp in ('rtu', 'tcp'):
        out += sizes(rng, tp, big)
        out += frags(rng, tp)
        d = damage(rng, tp, big)
        if not big and focus not in ('C04',):
            d = [x for x in d if rng.random() < .35]
        out += d
        out += aftermath(rng, tp)
        out += edges(rng, tp)
        out += borders(rng, tp)
        n = 150 if not big else 3000
        if focus in ('C01', 'C02', 'C06', 'C08'):
            n *= 2
        out += histories(rng, tp, n)
        out += histories(rng, tp, n // 4, via='client')
    return out


def main(run):
    prop = run.prop
    rng = random.Random(run.seed * 1000003 + 17)
    big = run.thorough
    tps = ['tcp'] if prop == 'C05' else ['tcp', 'rtu']
    for tp in tps:
        c = dict(BASE, Tp=tp, Ops=TCP_OPS if tp == 'tcp' else RTU_OPS)
        if big:
            c.update(MaxCalls=4)
        run.mc('MCTransport', c, INV, label='client model, %s, %d calls' % (tp, c['MaxCalls']))
    for tp, mut in MUTS[prop]:
        c = dict(BASE, Tp=tp, Mut=mut, Ops=TCP_OPS if tp == 'tcp' else RTU_OPS)
        run.mc('MCTransport', c, INV, label='client model, %s, design error %s' % (tp, mut), killed_by=['NoViolation', 'NoLeak'])
    if prop == 'C03':
        run.mc('MCFrames', {'Units': {1, 247}, 'Addrs': {0, 255, 40000, 65535} if big else {0, 40000, 65535},
                            'Counts': {0, 1, 2, 123, 124, 126} if big else {0, 1, 123, 124, 126},
                            'Masks': {1, 128, 255} if big else {1, 255}},
               ['RoundTrip', 'IllegalNamed', 'DamageSeen', 'ReplyOk', 'ReplyDamageSeen', 'ReplyCut'], label='frame codec')
    scripts = []
    for tp in tps:
        c = dict(BASE, Tp=tp, MaxCalls=2, Record=True, Ops=TCP_OPS if tp == 'tcp' else RTU_OPS, Counts={1, 3}, MaxAddr=2)
        r = run.mc('MCTransport', c, ['NoViolation', 'PrintScripts'], label='scripts, %s' % tp)
        scripts += [json.loads(p[7:]) for p in r.prints if p.startswith('SCRIPT ')]
    run.notes['model_behaviours_available'] = len(scripts)
    sc = scenarios(run, rng, scripts, prop)
    if prop == 'C08':
        on, off = [], []
        for s in sc:
            a = json.loads(json.dumps(s))
            a['cfg']['trace'] = False
            a['cfg']['tracetrue'] = False
            off.append(a)
            b = json.loads(json.dumps(s))
            b['cfg']['trace'] = True
            b['cfg']['tracetrue'] = s['cfg']['via'] == 'client' and rng.random() < .7
            on.append(b)
        _, v = run.conform('transport', off, 'TransportTrace', props_of, name='transport, not traced')
        clean = {s['id'] for s, x in zip(off, v) if x['ok']}

        def observed(clause, trace, at, scenario):
            ps = props_of(clause, trace, at, scenario)
            # correct without a trace function, wrong with one
            return ps | {'C08'} if ps is not None and scenario['id'] in clean else ps
        run.conform('transport', on, 'TransportTrace', observed, name='transport, traced')
    else:
        run.conform('transport', sc, 'TransportTrace', props_of)
    run.assumptions += [
        'the serial port and TCP stack are replaced by stand-ins with the interface of pyserial and socket',
        'the fault alphabet is: refused/timed-out connects, failing sends, silence, late replies, truncated, '
        'corrupted, misdirected and exception replies, end of stream and receive errors']
