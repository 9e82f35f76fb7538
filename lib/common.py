"""Checks on saved files shared by several properties."""
import io
import os
import time
import avb
import refspec as R
import bridge as B


def need(ok, what, *a):
    if not ok:
        raise B.Mismatch(what % a if a else what)


def read(path):
    with open(path, 'rb') as f:
        return f.read()


def strip_legacy(doc):
    return doc


def check_bytes(exp, data, order, strict_dec=True):
    """data is a saved file: well formed, complete, and encodes exactly the model document exp"""
    got = R.decode_file(data)
    need(got.order == order, 'byte order %s', got.order)
    n = len(got.objs)
    need(got.root == n, 'root index %d of %d objects', got.root, n)
    for k, (cid, m) in got.objs.items():
        for r in R.refs_of(cid, m):
            need(r < k, 'object %d refers to object %d, stored after it', k, r)
        if '_legacy' in m and 'mob_id' in m:
            need(m['_legacy'] == R.legacy_words(m['mob_id']), 'object %d %r: old and new identifier differ', k, cid)
    need(len(R.reachable(got)) == n, 'unreachable objects stored')
    B.match_docs(exp, got, locks_default=True, strict_dec=strict_dec)
    want = time.strftime('%Y/%m/%d %H:%M:%S', time.localtime(exp.last_save)).encode()
    need(got.save_string == want, 'save time text %r, expected %r', got.save_string, want)
    return got


def save(f, path, order):
    f.write(path, order)
    return read(path)


def open_bytes(data, **kw):
    return avb.open(io.BytesIO(data), **kw)


def save_check(ctx, f, exp, order, name='out.avb', strict_dec=True):
    p = ctx.path(name)
    if os.path.exists(p):
        os.remove(p)
    data = save(f, p, order)
    check_bytes(exp, data, order, strict_dec)
    return data


ZONES = ['UTC0', 'EST5EDT,M3.2.0,M11.1.0', 'IST-5:30', 'CET-1CEST,M3.5.0,M10.5.0/3']


def set_zone(n):
    """the local time zone of this case"""
    os.environ['TZ'] = ZONES[n % len(ZONES)]
    time.tzset()
