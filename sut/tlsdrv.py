"""Modbus TCP clients, with and without TLS, against a server on the loopback interface."""
import fcntl
import os
import select
import socket
import ssl
import struct
import termios
import threading
import time

from common import Hang, limit, main, octets
import sunspec.core.modbus.client as mc
import sunspec.core.client as sc

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'tls')
UNIT = 7
IMAGE = {40000: 0x5375, 40001: 0x6e53, 40002: 0xffff, 40003: 0}


def path(name):
    return os.path.join(HERE, name)


class Server(object):
    """cfg.srv: tls, plain, mute (answers nothing), drop (closes what it accepts), refuse (is not there)"""

    def __init__(self, cfg):
        self.cfg = cfg
        self.log = []
        self.lock = threading.Lock()
        self.door = threading.Lock()
        self.conns = []
        self.mem = dict(IMAGE)
        self.sock = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
        self.sock.bind(('127.0.0.1', 0))
        self.port = self.sock.getsockname()[1]
        self.plan = 'ok'
        if cfg['srv'] == 'refuse':
            return
        if cfg['srv'] == 'tls':
            c = self.ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
            c.load_cert_chain(path(cfg['cert'] + '.pem'), path(cfg['cert'] + '.key'))
            if cfg['ver'] == 12:
                c.maximum_version = ssl.TLSVersion.TLSv1_2
            c.num_tickets = cfg['tickets']
            if cfg['mutual']:
                c.verify_mode = ssl.CERT_REQUIRED
                c.load_verify_locations(path('ca-clients.pem'))
        self.sock.listen(16)
        threading.Thread(target=self.accept, daemon=True).start()

    def note(self, **e):
        with self.lock:
            self.log.append(e)

    def accept(self):
        while True:
            try:
                select.select([self.sock], [], [])
                with self.door:
                    s, _ = self.sock.accept()
                    k = len(self.conns) + 1
                    self.note(e='open', k=k)
                    c = {'k': k, 'sock': s, 'idle': False, 'ended': False}
                    self.conns.append(c)
            except (OSError, ValueError):
                return
            threading.Thread(target=self.serve, args=(c,), daemon=True).start()

    def serve(self, c):
        s, k = c['sock'], c['k']
        raw = s
        gone = True
        try:
            if self.cfg['srv'] == 'drop':
                gone = False
                return
            if self.cfg['srv'] == 'mute':
                first = True
                while True:
                    c['idle'] = True
                    d = s.recv(4096)
                    c['idle'] = False
                    if not d:
                        return
                    if first:
                        self.note(e='hello', k=k, clear=d[0] != 22)
                    first = False
            c['idle'] = True
            d = s.recv(1, socket.MSG_PEEK)
            c['idle'] = False
            if not d:
                return
            clear = d[0] != 22
            self.note(e='hello', k=k, clear=clear)
            if clear != (self.cfg['srv'] == 'plain'):
                gone = False
                if self.cfg.get('loud'):
                    # says something of its own instead
                    s.recv(65536)
                    s.sendall([b'HTTP/1.0 400 Bad Request\r\n\r\n', b'\0\0\0\0\0\3\7\x83\2', b'\x15\3\3\0\2\2\x28'][0 if clear else self.cfg['fill'] % 3])
                return
            if not clear:
                try:
                    # the descriptor stays with raw
                    s = self.ctx.wrap_socket(raw.dup(), server_side=True)
                except (OSError, ValueError) as e:
                    self.note(e='shake', k=k, ok=False, who='')
                    if getattr(e, 'reason', '') in ('PEER_DID_NOT_RETURN_A_CERTIFICATE', 'CERTIFICATE_VERIFY_FAILED'):
                        # this side has refused the other
                        gone = False
                        return
                    while True:
                        c['idle'] = True
                        d = raw.recv(4096)
                        c['idle'] = False
                        if not d:
                            return
                peer = s.getpeercert()
                who = ''
                for rdn in (peer or {}).get('subject', ()):
                    for key, val in rdn:
                        if key == 'commonName':
                            who = val
                self.note(e='shake', k=k, ok=True, who=who)
            buf = b''
            while True:
                c['idle'] = True
                d = s.recv(4096)
                c['idle'] = False
                if not d:
                    return
                buf += d
                while len(buf) >= 6 and len(buf) >= 6 + struct.unpack('>H', buf[4:6])[0]:
                    n = 6 + struct.unpack('>H', buf[4:6])[0]
                    req, buf = buf[:n], buf[n:]
                    if not self.answer(c, s, req):
                        gone = False
                        return
        except OSError:
            pass
        finally:
            if gone:
                self.note(e='eof', k=k)
            else:
                self.note(e='hangup', k=k)
            for x in (s, raw):
                try:
                    x.close()
                except OSError:
                    pass
            c['ended'] = True

    def reg(self, a):
        return self.mem.get(a, (a * 7 + self.cfg['fill']) % 65536)

    def answer(self, c, s, req):
        plan = self.plan
        self.note(e='req', k=c['k'], b=list(req))
        fc, addr, cnt = struct.unpack('>BHH', req[7:12])
        if plan == 'silent':
            return True
        if plan == 'close':
            return False
        if plan == 'exc':
            pdu = bytes([fc | 128, 2])
        elif fc == 16:
            pdu = req[7:12]
            for i in range(cnt):
                self.mem[addr + i] = struct.unpack('>H', req[13 + 2 * i:15 + 2 * i])[0]
        else:
            pdu = struct.pack('>BB', fc, 2 * cnt) + b''.join(struct.pack('>H', self.reg(addr + i)) for i in range(cnt))
        rep = req[:4] + struct.pack('>HB', len(pdu) + 1, req[6]) + pdu
        if plan == 'cut':
            s.sendall(rep[:-1])
            return False
        if plan == 'frag':
            for i in range(len(rep)):
                s.sendall(rep[i:i + 1])
        else:
            s.sendall(rep)
        return True

    def settle(self):
        """until everything the client has done has been seen"""
        end = time.time() + 60
        while time.time() < end:
            with self.door:
                busy = self.cfg['srv'] != 'refuse' and bool(select.select([self.sock], [], [], 0)[0])
            for c in list(self.conns):
                if c['ended']:
                    continue
                try:
                    state = c['sock'].getsockopt(socket.IPPROTO_TCP, socket.TCP_INFO, 1)[0]
                    unread = struct.unpack('i', fcntl.ioctl(c['sock'], termios.FIONREAD, b'\0\0\0\0'))[0]
                except (OSError, ValueError):
                    busy = True
                    continue
                if state != 1 or unread or not c['idle']:
                    busy = True
            if not busy:
                break
            time.sleep(.001)
        else:
            raise Hang('settle')
        with self.lock:
            out, self.log = self.log, []
        return out

    def close(self):
        try:
            self.sock.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        self.sock.close()


def options(cfg):
    kw = {'tls': cfg['tls']} if cfg['tls'] or cfg['fill'] % 2 else {}
    if cfg['ca'] != '~':
        kw['cafile'] = path('ca-%s.pem' % cfg['ca'])
    if cfg['mine'] == 'missing':
        kw['certfile'], kw['keyfile'] = path('nosuch.pem'), path('nosuch.key')
    elif cfg['mine'] == 'mixed':
        kw['certfile'], kw['keyfile'] = path('alice.pem'), path('mallory.key')
    elif cfg['mine'] != '~' and cfg['fill'] % 4 == 1:
        # certificate and key in one file
        kw['certfile'] = path(cfg['mine'] + '-both.pem')
    elif cfg['mine'] != '~':
        kw['certfile'], kw['keyfile'] = path(cfg['mine'] + '.pem'), path(cfg['mine'] + '.key')
    if cfg['skip']:
        kw['insecure_skip_tls_verify'] = True
    return kw


def run(s):
    cfg = s['cfg']
    os.environ['SSL_CERT_FILE'] = path('ca-%s.pem' % cfg['sysca']) if cfg['sysca'] != '~' else '/nonexistent'
    os.environ['SSL_CERT_DIR'] = '/nonexistent'
    srv = Server(cfg)
    kw = options(cfg)
    to = cfg['to'] / 10.
    via = cfg['via']
    dev = None
    if via == 'modbus':
        dev = mc.ModbusClientDeviceTCP(UNIT, '127.0.0.1', srv.port, timeout=to, **kw)
    elif via == 'client':
        dev = sc.ClientDevice(sc.TCP, UNIT, ipaddr='127.0.0.1', ipport=srv.port, timeout=to, **kw)
    ev = []
    for c in s['calls']:
        srv.plan = c.get('plan', 'ok')
        ev.append({'e': 'call', 'op': c['op'], 'addr': c.get('addr', 0), 'cnt': c.get('cnt', 0), 'data': c.get('data', []),
                   'plan': srv.plan})
        ret = {'e': 'ret', 'kind': 'ok', 'data': []}
        try:
            with limit(60 if cfg['to'] > 10 else 15):
                if c['op'] == 'read':
                    ret['data'] = octets(dev.read(c['addr'], c['cnt']))
                elif c['op'] == 'write':
                    dev.write(c['addr'], bytes(c['data']))
                elif c['op'] == 'scan':
                    x = sc.SunSpecClientDevice(sc.TCP, UNIT, ipaddr='127.0.0.1', ipport=srv.port, timeout=to, **kw)
                    ret['data'] = octets(x.device.read(40000, 2)) if cfg['fill'] % 3 == 0 else [83, 117, 110, 83]
                    x.close()
                elif c['op'] == 'connect':
                    dev.connect()
                elif c['op'] == 'close':
                    dev.close()
        except Hang:
            ret['kind'] = 'hang'
        except mc.ModbusClientException as e:
            ret['kind'] = 'exc'
        except mc.ModbusClientTimeout:
            ret['kind'] = 'timeout'
        except mc.ModbusClientError:
            ret['kind'] = 'err'
        except sc.SunSpecClientError:
            ret['kind'] = 'err' if via != 'modbus' else 'other'
        except Exception as e:
            ret['kind'] = 'other'
            ret['what'] = '%s: %s' % (type(e).__name__, e)
        ev += srv.settle()
        ev.append(ret)
        if ret['kind'] == 'hang':
            break
    srv.close()
    dev = None
    return {'cfg': dict(cfg, unit=UNIT), 'ev': ev}


if __name__ == '__main__':
    main(run)
