"""Stand-ins for the serial port and the TCP socket.  They carry requests to a World, which is a Modbus
server behind a network whose behaviour a script decides, and log every observable step."""
import errno
import ssl  # before socket.socket is replaced
import socket as _socket

import serial as _serial

from common import Hang


def crc(data):
    c = 0xffff
    for b in data:
        c ^= b
        for _ in range(8):
            c = (c >> 1) ^ 0xa001 if c & 1 else c >> 1
    return bytes([c & 255, c >> 8])


class World(object):
    """A Modbus server with its memory, and the network or line to it."""

    def __init__(self, tp, unit=1, fill=0, regions=None, pat=0):
        self.tp = tp
        self.unit = unit
        self.fill = fill
        self.pat = pat              # 0: all registers differ, 1: runs of special values, 2: all alike
        self.mem = {}
        self.regions = regions      # None: every address exists
        self.log = []
        self.plan = {}              # of the current call: conn, replies
        self.sends = 0              # in the current call
        self.ops = 0                # in the current call
        self.socks = 0
        self.pending = []           # late replies: (channel, bytes)
        self.line = None            # serial input
        self.before_send = None     # hook: the device changes by itself
        self.io_budget = 20000

    # -- server
    def reg(self, fc, a):
        if fc != 4 and a in self.mem:
            return self.mem[a]
        n = (a * 7 + self.fill + (4099 if fc == 4 else 0)) % 65536
        if self.pat == 1:
            return [0, 65535, n, 32768][(a + self.fill + (16 if fc == 4 else 0)) // 16 % 4]
        if self.pat == 2:
            return [0, 65535, 32639, 32768][(self.fill + (1 if fc == 4 else 0)) % 4]
        return n

    def exists(self, fc, addr, cnt):
        if self.regions is None:
            return addr + cnt <= 65536
        return any(lo <= addr and addr + cnt <= hi for lo, hi in self.regions)

    def start_call(self, plan):
        self.plan = plan or {}
        self.sends = 0
        self.ops = 0
        for chan, data in self.pending:
            if chan.alive:
                chan.inp.append(bytearray(data))
                chan.merge()
        self.pending = []

    def tick(self):
        self.ops += 1
        if self.ops > self.io_budget:
            raise Hang('io')

    def request(self, chan, data):
        """The client transmits data; decides what it gets back and logs the event."""
        self.tick()
        data = bytes(data)
        reps = self.plan.get('replies', [])
        r = reps[self.sends] if self.sends < len(reps) else self.plan.get('then', {})
        self.sends += 1
        if self.sends > 700:
            raise Hang('sends')
        if self.before_send is not None:
            self.before_send(self.sends)
        ev = {'e': 'send', 'k': chan.k, 'to': chan.timeout_text(), 'b': list(data), 'ok': True, 'ap': False,
              'rep': [], 'end': 'timeout'}
        if r.get('sendfail'):
            ev['ok'] = False
            self.log.append(ev)
            raise self.error(r['sendfail'])
        pdu, ap = self.answer(data, r)
        ev['ap'] = ap
        rep = b''
        if pdu is not None:
            rep = self.frame(pdu, r, data)
            rep = self.damage(rep, r)
        if r.get('late'):
            self.pending.append((chan, rep))
            rep = b''
        end = r.get('end', 'timeout')
        if chan.stream:
            # what an earlier exchange left in the stream comes first
            left = chan.take_all()
            rep_all = left + rep
        else:
            rep_all = rep
        ev['rep'] = list(rep_all)
        ev['end'] = end
        self.log.append(ev)
        if chan.stream:
            chan.deliver(rep_all, r.get('frag') or self.plan.get('frag'), end)
        else:
            chan.deliver(rep, r.get('frag') or self.plan.get('frag'), end)

    @staticmethod
    def error(kind):
        return {'timeout': _socket.timeout('timed out'),
                'reset': ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer'),
                'pipe': BrokenPipeError(errno.EPIPE, 'Broken pipe'),
                'refuse': ConnectionRefusedError(errno.ECONNREFUSED, 'Connection refused'),
                'unreach': OSError(errno.EHOSTUNREACH, 'No route to host'),
                'gai': _socket.gaierror(-2, 'Name or service not known'),
                'serial': _serial.SerialException('device reports readiness to read but returned no data'),
                'serialtimeout': _serial.SerialTimeoutException('Write timeout'),
                'oserror': OSError(errno.EIO, 'Input/output error')}[kind]

    def parse(self, data):
        if self.tp == 'rtu':
            if len(data) < 8 or crc(data[:-2]) != data[-2:]:
                return None
            unit, pdu = data[0], data[1:-2]
        else:
            if len(data) < 12 or data[2:4] != b'\0\0' or data[4] * 256 + data[5] != len(data) - 6:
                return None
            unit, pdu = data[6], data[7:]
        if unit != self.unit:
            return None
        return pdu

    def answer(self, data, r):
        """reply PDU (None: no answer) and whether a write took effect"""
        if r.get('base') == 'none':
            return None, False
        pdu = self.parse(data)
        if pdu is None:
            return None, False
        fc, addr, cnt = pdu[0], pdu[1] * 256 + pdu[2], pdu[3] * 256 + pdu[4]
        if r.get('base') == 'exc':
            return bytes([fc | 128, r.get('code', 2)]), False
        if fc in (3, 4) and len(pdu) == 5:
            if not 1 <= cnt <= 125:
                return bytes([fc | 128, 3]), False
            if not self.exists(fc, addr, cnt):
                return bytes([fc | 128, 2]), False
            out = b''.join(self.reg(fc, addr + i).to_bytes(2, 'big') for i in range(cnt))
            return bytes([fc, 2 * cnt]) + out, False
        if fc == 16 and len(pdu) >= 6 and len(pdu) == 6 + 2 * cnt and pdu[5] == 2 * cnt and 1 <= cnt <= 123:
            if not self.exists(fc, addr, cnt):
                return bytes([fc | 128, 2]), False
            for i in range(cnt):
                self.mem[addr + i] = pdu[6 + 2 * i] * 256 + pdu[7 + 2 * i]
            return pdu[:5], True
        return bytes([fc | 128, 3]), False

    def frame(self, pdu, r, data):
        pdu = bytearray(pdu)
        for op in r.get('pdu', []):
            apply(op, pdu)
        unit = r.get('unit', self.unit) & 255
        if self.tp == 'rtu':
            f = bytearray([unit]) + pdu
            return bytes(f) + crc(f)
        n = len(pdu) + 1
        return data[:2] + b'\0\0' + bytes([n >> 8, n & 255, unit]) + bytes(pdu)

    def damage(self, rep, r):
        rep = bytearray(rep)
        for op in r.get('ops', []):
            if op[0] == 'fixcrc' and self.tp == 'rtu' and len(rep) > 2:
                rep[-2:] = crc(rep[:-2])
            else:
                apply(op, rep)
        return bytes(rep)


def apply(op, b):
    if op[0] == 'trunc':
        n = op[1] if op[1] >= 0 else len(b) + op[1]
        del b[max(0, n):]
    elif op[0] == 'xor':
        if b:
            b[op[1] % len(b)] ^= op[2]
    elif op[0] == 'set':
        if b:
            b[op[1] % len(b)] = op[2]
    elif op[0] == 'append':
        b += bytes(op[1])
    elif op[0] == 'prepend':
        b[0:0] = bytes(op[1])
    elif op[0] == 'replace':
        b[:] = bytes(op[1])


class Channel(object):
    """Input side of a connection: pieces, then an end."""
    stream = True

    def start(self, world, k):
        self.world = world
        self.k = k
        self.alive = True
        self.inp = []
        self.end = 'timeout'
        self.timeout = None

    def timeout_text(self):
        return 'none' if self.timeout is None else repr(float(self.timeout))

    def merge(self):
        whole = bytearray().join(self.inp)
        self.inp = [whole] if whole else []

    def take_all(self):
        whole = bytes(bytearray().join(self.inp))
        self.inp = []
        return whole

    def deliver(self, data, frag, end):
        data = bytearray(data)
        self.end = end
        n = 0
        frag = frag or [100000]
        while data:
            size = max(1, frag[n % len(frag)])
            n += 1
            self.inp.append(data[:size])
            data = data[size:]

    def get(self, n):
        """up to n bytes of the next piece, or None if nothing will come any more"""
        self.world.tick()
        if not self.inp:
            return None
        piece = self.inp[0]
        out = bytes(piece[:n])
        del piece[:n]
        if not piece:
            self.inp.pop(0)
        return out

    def waiting(self):
        return sum(len(p) for p in self.inp)


_current = [None]


def use(world):
    _current[0] = world


class FakeSocket(Channel):
    def __init__(self, *a, **kw):
        w = _current[0]
        w.tick()
        w.socks += 1
        self.start(w, w.socks)
        self.state = 'new'
        self.timeout = None
        w.log.append({'e': 'new', 'k': self.k})
        self.alive = False

    def settimeout(self, t):
        self.timeout = t

    def gettimeout(self):
        return self.timeout

    def setblocking(self, flag):
        self.timeout = None if flag else 0.0

    def setsockopt(self, *a):
        pass

    def getsockopt(self, *a):
        return 0

    def fileno(self):
        return -1 if self.state == 'closed' else 1000 + self.k

    def getpeername(self):
        return self.peer

    def connect(self, address):
        w = self.world
        w.tick()
        how = w.plan.get('conn', 'ok')
        ok = how == 'ok' and self.state == 'new'
        self.peer = address
        w.log.append({'e': 'open', 'k': self.k, 'ok': ok, 'host': str(address[0]), 'port': int(address[1]),
                      'to': self.timeout_text()})
        if not ok:
            raise World.error(how if how != 'ok' else 'oserror')
        self.state = 'open'
        self.alive = True

    def connect_ex(self, address):
        try:
            self.connect(address)
        except OSError as e:
            return e.errno or 1
        return 0

    def sendall(self, data, flags=0):
        if self.state != 'open':
            self.world.tick()
            raise World.error('pipe')
        self.world.request(self, data)

    def send(self, data, flags=0):
        self.sendall(data)
        return len(data)

    def recv(self, n, flags=0):
        if self.state != 'open':
            self.world.tick()
            raise OSError(errno.EBADF, 'Bad file descriptor')
        piece = self.get(n)
        if piece is None:
            if self.end == 'eof':
                return b''
            if self.end == 'timeout':
                raise World.error('timeout')
            raise World.error(self.end)
        return piece

    def recv_into(self, buf, n=0, flags=0):
        piece = self.recv(n or len(buf))
        buf[:len(piece)] = piece
        return len(piece)

    def shutdown(self, how):
        pass

    def close(self):
        if self.state != 'closed':
            self.state = 'closed'
            self.alive = False
            self.inp = []
            self.world.log.append({'e': 'closed', 'k': self.k})

    def detach(self):
        return -1

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def fake_create_connection(address, timeout=None, source_address=None, **kw):
    s = FakeSocket()
    try:
        s.settimeout(timeout)
        s.connect(address)
    except BaseException:
        s.close()
        raise
    return s


class FakeSerial(Channel):
    """Looks like serial.Serial; subclasses may add opening and closing events."""
    stream = False

    def __init__(self, port=None, baudrate=9600, bytesize=8, parity='N', stopbits=1, timeout=None, xonxoff=False,
                 rtscts=False, write_timeout=None, dsrdtr=False, inter_byte_timeout=None, exclusive=None,
                 writeTimeout=None, **kw):
        w = _current[0]
        self.start(w, 0)
        self.port = self.name = port
        self.portstr = port
        self.baudrate = baudrate
        self.parity = parity
        self.bytesize = bytesize
        self.stopbits = stopbits
        self.flow = bool(xonxoff or rtscts or dsrdtr)
        self.timeout = timeout
        self.write_timeout = write_timeout if write_timeout is not None else writeTimeout
        self.opening()

    writeTimeout = property(lambda self: self.write_timeout, lambda self, v: setattr(self, 'write_timeout', v))
    is_open = property(lambda self: self.alive)
    in_waiting = property(lambda self: self.waiting())
    out_waiting = 0

    def opening(self):
        self.world.line = self

    def closing(self):
        pass

    def isOpen(self):
        return self.alive

    def open(self):
        self.alive = True

    def inWaiting(self):
        return self.waiting()

    def flushInput(self):
        self.world.tick()
        self.inp = []

    def reset_input_buffer(self):
        self.flushInput()

    def flushOutput(self):
        pass

    def reset_output_buffer(self):
        pass

    def flush(self):
        pass

    def write(self, data):
        if not self.alive:
            raise World.error('serial')
        self.world.request(self, data)
        return len(data)

    def deliver(self, data, frag, end):
        # behind whatever was not discarded
        old = self.inp
        self.inp = []
        Channel.deliver(self, data, frag, end)
        self.inp = old + self.inp

    def read(self, n=1):
        if not self.alive:
            raise World.error('serial')
        piece = self.get(n)
        if piece is None:
            if self.end in ('timeout', 'eof'):
                return b''
            raise World.error(self.end)
        return piece

    def read_until(self, expected=b'\n', size=None):
        out = b''
        while not out.endswith(expected) and (size is None or len(out) < size):
            c = self.read(1)
            if not c:
                break
            out += c
        return out

    def read_all(self):
        return self.read(self.waiting()) if self.inp else b''

    def cancel_read(self):
        pass

    def cancel_write(self):
        pass

    def close(self):
        if self.alive:
            self.alive = False
            self.inp = []
            self.closing()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def install(serial_class=FakeSerial):
    _serial.Serial = serial_class
    _socket.socket = FakeSocket
    _socket.create_connection = fake_create_connection
