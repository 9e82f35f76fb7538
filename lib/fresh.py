"""Description of a newly created object, in values comparable with lib/defaults.json."""
import datetime
import avb
import avb.utils
import avb.mobid


def describe(v, now=None, raw=False):
    """JSON value; unless raw, the parts that must differ each time are replaced by a marker"""
    if v is None or isinstance(v, (bool, int, float, str)):
        return v
    if isinstance(v, avb.mobid.MobID):
        if raw:
            return {'mobid': bytes(v.bytes_le).hex()}
        return {'mobid': 'zero' if not any(bytes(v.bytes_le)) else 'fresh'}
    if isinstance(v, datetime.datetime):
        return {'time': 'now' if not raw and (now is None or now[0] <= v <= now[1]) else str(v)}
    if hasattr(v, 'property_data') and not isinstance(v, (list, dict)):
        d = {n: describe(getattr(v, n), now, raw) for n in list(v.property_data)}
        if 'uid' in d and not raw:
            d['uid'] = {'uid': type(d['uid']).__name__ + ('' if 0 <= d['uid'] < 1 << 64 else ' out of range')}
        return {'class': type(v).__name__, 'id': idtext(v), 'fields': d}
    if isinstance(v, dict):
        d = {'dict': {str(k): describe(x, now, raw) for k, x in v.items()}}
        if hasattr(v, 'class_id'):
            d['class'], d['id'] = type(v).__name__, idtext(v)
        return d
    if isinstance(v, (list, tuple)):
        d = {'list': [describe(x, now, raw) for x in v]}
        if getattr(v, 'class_id', None):
            d['class'], d['id'] = type(v).__name__, idtext(v)
        return d
    if isinstance(v, (bytes, bytearray)):
        return {'bytes': bytes(v).hex()}
    return {'other': repr(v)}


def idtext(o):
    c = getattr(o, 'class_id', None)
    return None if c is None else bytes(c).decode('latin1')


def names():
    return sorted(avb.utils.AVBClassName_dict)
