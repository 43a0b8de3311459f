"""Loads model definitions through sunspec.core.device and records what the definition objects say."""
import contextlib
import io
import os

from common import Hang, limit, main
from xmltree import document

import sunspec.core.device as device      # noqa: E402
import sunspec.core.suns as suns          # noqa: E402
from sunspec.core.util import SunSpecError  # noqa: E402

SCRATCH = os.environ.get('VF_SCRATCH', '/tmp')


def num(x):
    try:
        return int(x)
    except (TypeError, ValueError):
        return -99999


def text(x):
    return '' if x is None else x if isinstance(x, str) else 'not text: %r' % (x,)


def texts(x):
    return {'label': text(x.label), 'desc': text(x.description), 'notes': text(x.notes)}


def point(p):
    return dict(texts(p), id=text(p.id), off=num(p.offset), t=text(p.type), len=num(p.len), mand=p.mandatory == suns.SUNS_MANDATORY_TRUE,
                rw=p.access == suns.SUNS_ACCESS_RW, hassf=p.sf is not None, sf=text(p.sf), hasunits=p.units is not None, units=text(p.units),
                syms=[dict(texts(y), id=text(y.id), value=text(y.value)) for y in p.symbols])


def block(b):
    if b is None:
        return {'type': '', 'len': 0, 'name': '', 'pts': []}
    r = {'type': text(b.type), 'len': num(b.len), 'name': text(b.name), 'pts': [point(p) for p in b.points_list]}
    if sorted(b.points) != sorted(text(p.id) for p in b.points_list) or any(b.points[p.id] is not p for p in b.points_list):
        r['type'] = 'points and points_list differ'
    return r


def definition(m):
    return dict(texts(m), id=num(m.id), len=num(m.len), name=text(m.name), fixed=block(m.fixed_block),
                hasrep=m.repeating_block is not None, rep=block(m.repeating_block))


@contextlib.contextmanager
def place(where, d):
    """definitions are found in d: by the path list, as the working directory, or as the default place"""
    if where == 'default' and hasattr(device, 'model_type_path_default'):
        old, device.model_type_path_default = device.model_type_path_default, d
        try:
            yield
        finally:
            device.model_type_path_default = old
    elif where == 'local':
        old = os.getcwd()
        os.chdir(d)
        try:
            yield
        finally:
            os.chdir(old)
    else:
        with device.fresh_file_pathlist(d):
            yield


def run(s):
    d = os.path.join(SCRATCH, 'smdx')
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(d):
        os.remove(os.path.join(d, f))
    cfg = s['cfg']
    for x in cfg['docs']:
        with open(os.path.join(d, 'smdx_%05d.xml' % x['id']), 'wb') as f:
            f.write(x['broken'].encode() if 'broken' in x else document(x['doc'], x.get('style')))
    getattr(device, 'model_types', {}).clear()
    ev = []
    with place(s.get('where', 'list'), d):
        for o in s['ops']:
            e = {'e': 'load', 'n': o['n'], 'kind': 'ok'}
            try:
                with limit(20), contextlib.redirect_stdout(io.StringIO()):
                    if o.get('fresh'):
                        getattr(device, 'model_types', {}).clear()
                    e['def'] = definition(device.model_type_get(cfg['docs'][o['n'] - 1]['id']))
            except Hang:
                e['kind'] = 'hang'
            except SunSpecError:
                e['kind'] = 'sserr'
            except Exception as x:
                e['kind'] = 'other'
                e['what'] = '%s: %s' % (type(x).__name__, x)
            ev.append(e)
    return {'cfg': {'docs': [{'doc': x['doc'], 'wf': 'broken' not in x} for x in cfg['docs']], 'ints': cfg['ints']}, 'ev': ev}


if __name__ == '__main__':
    main(run)
