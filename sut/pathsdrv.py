"""Path lists and lookups of files, in scratch directories and zip files."""
import contextlib
import io
import os
import pathlib
import shutil
import zipfile

from common import Hang, limit, main

import sunspec.core.device as device      # noqa: E402
import sunspec.core.smdx as smdx          # noqa: E402
import sunspec.core.util as util          # noqa: E402
from sunspec.core.modbus.mbmap import ModbusMap, ModbusMapError  # noqa: E402
from sunspec.core.util import SunSpecError  # noqa: E402

SCRATCH = os.environ.get('VF_SCRATCH', '/tmp')
HASDEF = hasattr(device, 'model_type_path_default')


def content(name, c):
    base = name.split('/')[-1]
    if base.startswith('smdx_'):
        return ('<sunSpecModels v="1"><model id="%d" len="1" name="c%d"><block len="1"><point id="A" offset="0" type="uint16"/>'
                '</block></model></sunSpecModels>' % (int(base[5:-4]), c)).encode()
    if base.startswith('p'):
        return ('<sunSpecPics v="1"><device v="1" addr="%d"/></sunSpecPics>' % c).encode()
    if base.startswith('m'):
        return ('<mbmap addr="%d"><regs len="1" type="u16">7</regs></mbmap>' % c).encode()
    return b'' if c == 99 else bytes([c, 0, 255, 13, 10, 26, c]) + b'x' * c


class Session(object):
    def __init__(self, s):
        self.s = s
        self.root = os.path.join(SCRATCH, 'r')
        shutil.rmtree(self.root, ignore_errors=True)
        for d in ('cwd', 'default', s['places'].get('d1', 'd1'), 'd2', 'sub'):
            os.makedirs(os.path.join(self.root, d))
        zips = {}

        def zipped(at):
            n = (at + '/').find('.zip/')
            return at[:n + 4] if n >= 0 else None
        for f in s['cfg']['files']:
            at = {'local': 'cwd'}.get(f['at'], s['places'].get(f['at'], f['at']))
            data = content(f['name'], f['c'])
            z = zipped(at)
            if z:
                zips.setdefault(z, []).append(((at[len(z):] + '/' + f['name']).lstrip('/'), data))
            else:
                p = os.path.join(self.root, at, f['name'])
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, 'wb') as out:
                    out.write(data)
        for z in set(s.get('zips', [])) | set(zips):
            with zipfile.ZipFile(os.path.join(self.root, z), 'w', zipfile.ZIP_DEFLATED if s.get('deflate') else zipfile.ZIP_STORED) as out:
                names = [n for n, _ in zips.get(z, [])]
                if s.get('dirs'):
                    for d in sorted({'/'.join(n.split('/')[:i]) + '/' for n in names for i in range(1, n.count('/') + 1)}):
                        out.writestr(d, b'')
                for n, data in zips.get(z, []):
                    out.writestr(n, data)
        # directories that have the name of a file
        for f in s.get('named', []):
            at = {'local': 'cwd'}.get(f['at'], s['places'].get(f['at'], f['at']))
            if not zipped(at):
                os.makedirs(os.path.join(self.root, at, f['name']), exist_ok=True)
        os.chdir(os.path.join(self.root, 'cwd'))

    def path(self, p):
        return p.replace('{R}', self.root)

    def outcome(self, e, f, none):
        try:
            with limit(20), contextlib.redirect_stdout(io.StringIO()):
                e['c'] = f()
            e['kind'] = 'ok'
        except Hang:
            e['kind'] = 'hang'
        except none:
            e['kind'] = 'none'
        except Exception as x:
            e['kind'] = 'other'
            e['what'] = '%s: %s' % (type(x).__name__, x)
        e.setdefault('c', 0)

    def read(self, l, name):
        data = l.read(name)
        for f in self.s['cfg']['files']:
            if f['name'] == name and content(name, f['c']) == data:
                return f['c']
        return -1

    def model(self, mid):
        n = device.model_type_get(mid).name
        return int(n[1:]) if n[:1] == 'c' else -1

    def run(self):
        lists, stack, ev = [], [], []
        getattr(device, 'model_types', {}).clear()
        first = device.file_pathlist
        if HASDEF:
            default, device.model_type_path_default = device.model_type_path_default, os.path.join(self.root, 'default')
        device.file_pathlist = None
        active = 0
        try:
            for o in self.s['ops']:
                op = o['op']
                paths = [self.path(p) for p in o.get('p', [])]
                if op == 'list':
                    if o.get('how') == 'init':
                        l = util.PathList(paths)
                    else:
                        l = util.PathList()
                        for p in paths:
                            l.add(p)
                    lists.append(l)
                    ev.append({'e': 'list', 'at': o['at']})
                elif op == 'add':
                    l = o['l']
                    # 0: the active list, as the user who made it knows it
                    if l > len(lists) or l == 0 and active == 0:
                        continue
                    lists[(l or active) - 1].add(paths[0])
                    ev.append({'e': 'add', 'l': l, 'at': o['at']})
                elif op == 'assign':
                    if o['l'] > len(lists):
                        continue
                    device.file_pathlist = lists[o['l'] - 1] if o['l'] else None
                    active = o['l']
                    ev.append({'e': 'assign', 'l': o['l']})
                elif op == 'enter':
                    cm = device.fresh_file_pathlist(*[pathlib.Path(p) if o.get('how') == 'path' else p for p in paths])
                    lists.append(cm.__enter__())
                    stack.append((cm, active))
                    active = len(lists)
                    ev.append({'e': 'enter', 'at': o['at']})
                elif op == 'leave':
                    if not stack:
                        continue
                    cm, active = stack.pop()
                    out = False
                    if o['exc']:
                        x = KeyError('leaving')
                        try:
                            out = not cm.__exit__(KeyError, x, None)
                        except KeyError:
                            out = True
                    else:
                        cm.__exit__(None, None, None)
                    ev.append({'e': 'leave', 'in': o['exc'], 'out': out})
                elif op in ('read', 'pics', 'map', 'model'):
                    l = o.get('l', 0)
                    if l > len(lists) or op == 'read' and l == 0:
                        continue
                    e = {'e': op, 'l': l, 'name': o['name']}
                    pl = lists[l - 1] if l else None
                    if op == 'read':
                        self.outcome(e, lambda: self.read(pl, o['name']), NameError)
                    elif op == 'model':
                        self.outcome(e, lambda: self.model(o['id'] if not o.get('text') else str(o['id'])), SunSpecError)
                    elif op == 'pics':
                        def f():
                            d = device.Device(1)
                            d.from_pics(filename=o['name'], **({'pathlist': pl} if pl is not None else {}))
                            return int(d.base_addr)
                        self.outcome(e, f, SunSpecError)
                    else:
                        def f():
                            m = ModbusMap(1)
                            m.from_xml(o['name'], pl) if pl is not None else m.from_xml(filename=o['name'])
                            return int(m.base_addr)
                        self.outcome(e, f, ModbusMapError)
                    ev.append(e)
                elif op == 'file':
                    n = smdx.model_id_to_filename(o['id'] if not o.get('text') else str(o['id']))
                    back = smdx.model_filename_to_id(n)
                    ev.append({'e': 'file', 'id': o['id'], 'name': n, 'back': -1 if back is None else back})
                elif op == 'nofile':
                    back = smdx.model_filename_to_id(o['name'])
                    ev.append({'e': 'nofile', 'name': o['name'], 'back': -1 if back is None else back})
        finally:
            while stack:
                stack.pop()[0].__exit__(None, None, None)
            device.file_pathlist = first
            if HASDEF:
                device.model_type_path_default = default
            os.chdir(SCRATCH)
            shutil.rmtree(self.root, ignore_errors=True)
        return {'cfg': {'files': self.s['cfg']['files'], 'hasdef': HASDEF}, 'ev': ev}


def run(s):
    return Session(s).run()


if __name__ == '__main__':
    main(run)
