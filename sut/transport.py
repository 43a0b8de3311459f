"""Histories of calls on a Modbus client device, against a scripted server and network."""
import builtins
import io
import re
import sys

from common import Hang, limit, main, octets
import fakes
fakes.install()
import sunspec.core.modbus.client as mc   # noqa: E402
import sunspec.core.client as sc          # noqa: E402

PORT = '/dev/fake0'


def entry(text):
    text = str(text)
    m = re.search(r'((?:[0-9A-Fa-f]{2}\s?)*)$', text)
    hexa = re.sub(r'\s', '', m.group(1))
    head = text[:m.start(1)]
    d = 'rx' if '<-' in head else 'tx' if '->' in head else '?'
    return {'d': d, 'b': list(bytes.fromhex(hexa)), 'nums': sorted(set(int(x) for x in re.findall(r'\d+', head) if len(x) < 9))}


def run(s):
    cfg = s['cfg']
    w = fakes.World(cfg['tp'], cfg['unit'], cfg['fill'], pat=cfg.get('pat', 0))
    fakes.use(w)
    mc.modbus_rtu_clients.clear()
    trc = []
    func = (lambda text: trc.append(entry(text))) if cfg['trace'] else None
    kw = {}
    if cfg['max']:
        kw['max_count'] = cfg['max']
    via = cfg.get('via', 'modbus')
    pp = {'ipport': cfg['port']}
    if cfg['port'] is None and not cfg.get('to'):
        pp = {}
    if via == 'client':
        # tracing on a SunSpec device: True prints, a function is called
        tr = (True if cfg.get('tracetrue') else func) if cfg['trace'] else False
        if cfg['tp'] == 'rtu':
            dev = sc.ClientDevice(sc.RTU, cfg['unit'], PORT, timeout=cfg.get('to'), trace=tr)
        else:
            dev = sc.ClientDevice(sc.TCP, cfg['unit'], ipaddr=cfg['host'], timeout=cfg.get('to'), trace=tr, **pp)
    elif cfg['tp'] == 'rtu':
        dev = mc.ModbusClientDeviceRTU(cfg['unit'], PORT, timeout=cfg.get('to'), trace_func=func, **kw)
    else:
        dev = mc.ModbusClientDeviceTCP(cfg['unit'], cfg['host'], timeout=cfg.get('to'), trace_func=func, **pp, **kw)
    ev = []
    for c in s['calls']:
        call = {'e': 'call', 'op': c['op'], 'fc': c.get('fc', 0), 'addr': c.get('addr', 0), 'cnt': c.get('cnt', 0),
                'data': c.get('data', []), 'odd': len(c.get('data', [])) % 2 == 1,
                'to': repr(float(c['to'])) if c.get('to') is not None else ''}
        if c['op'] == 'write':
            call['fc'] = 16
            call['cnt'] = len(call['data']) // 2
        ev.append(call)
        del trc[:]
        w.log = []
        out = io.StringIO()
        ret = {'e': 'ret', 'kind': 'ok', 'data': [], 'codes': [], 'trc': []}
        old = sys.stdout
        sys.stdout = out
        try:
            with limit(20):
                w.start_call(c.get('plan'))
                if c['op'] == 'read':
                    if via == 'client':
                        r = dev.read(c['addr'], c['cnt'])
                    elif c['fc'] == 3 and c.get('noop'):
                        r = dev.read(c['addr'], c['cnt'])
                    else:
                        r = dev.read(c['addr'], c['cnt'], c['fc'])
                    ret['data'] = octets(r)
                elif c['op'] == 'write':
                    data = bytes(c['data'])
                    if c.get('text'):
                        data = data.decode('latin-1')
                    dev.write(c['addr'], data)
                elif c['op'] == 'connect':
                    if c.get('to') is not None:
                        dev.connect(c['to'])
                    else:
                        dev.connect()
                elif c['op'] == 'disconnect':
                    dev.disconnect()
                elif c['op'] == 'close':
                    dev.close()
        except Hang:
            ret['kind'] = 'hang'
        except mc.ModbusClientException as e:
            ret['kind'] = 'exc'
            ret['codes'] = [int(x) for x in re.findall(r'\d+', str(e)) if len(x) < 9]
        except mc.ModbusClientTimeout:
            ret['kind'] = 'timeout'
        except mc.ModbusClientError:
            ret['kind'] = 'err'
        except sc.SunSpecClientError:
            ret['kind'] = 'err' if via == 'client' else 'other'
        except Exception as e:
            ret['kind'] = 'other'
            ret['what'] = '%s: %s' % (type(e).__name__, e)
        finally:
            sys.stdout = old
        ret['trc'] = list(trc)
        if cfg.get('tracetrue'):
            ret['trc'] += [entry(line) for line in out.getvalue().splitlines() if line.strip()]
        if via == 'client' and ret['kind'] in ('exc', 'timeout'):
            ret['kind'] = 'other'
        ev += w.log
        ev.append(ret)
        if ret['kind'] == 'hang':
            break
    return {'cfg': {'tp': cfg['tp'], 'unit': cfg['unit'], 'max': cfg['max'] or 125, 'host': cfg['host'],
                    'port': cfg['port'] if cfg['port'] is not None else 502,
                    'timeout': repr(float(cfg['to'])) if cfg.get('to') is not None else '' if cfg['tp'] == 'rtu' else '2.0',
                    'via': via,
                    'trace': cfg['trace'], 'fill': cfg['fill'], 'pat': cfg.get('pat', 0), 'forged': s.get('forged', False)}, 'ev': ev}


if __name__ == '__main__':
    main(run)
