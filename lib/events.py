"""Events with the reports the specification demands, to fill the behaviours
of Stream.tla and Reader.tla with: drawn from random behaviours of Decode.tla."""
import zlib
from core import cfg


def pool(ctx, num=25):
    """(event with its report, by class)"""
    steps = 30
    out = {'event': [], 'unknown': [], 'hb': []}
    for c in ctx.simulate('Decode', cfg({'MIX': 'C15', 'STEPS': steps}), num, steps + 6, 2, seedbase=500):
        for it in c['segs'][0]:
            t = it['h'][4]
            if t == 15 or it['x'][0] != 'ok' or max(it['b'], default=0) > 255:
                continue
            k = 'unknown' if it['x'][1] == ['unknown'] or it['x'][1] == 'unknown' else 'hb' if t == 27 else 'event'
            out[k].append({'h': it['h'], 'b': it['b'], 'x': it['x'][1]})
    assert all(out.values()), {k: len(v) for k, v in out.items()}
    return out


def le(n, k):
    return list((n % 256 ** k).to_bytes(k, 'little'))


def with_length(h, n):
    return h[:9] + le(n, 4) + h[13:]


def take(e, crc):
    """an event of the pool, with or without checksum bytes"""
    c = 1 if crc else 0
    return {'h': with_length(e['h'], 19 + len(e['b']) + 4 * c), 'b': e['b'], 'c': c, 'x': ['ok', e['x']]}


def header(rng, t, n):
    return le(rng.randrange(2**32), 4) + [t] + le(rng.randrange(2**32), 4) + le(n, 4) + le(rng.randrange(2**32), 4) + le(rng.randrange(2**16), 2)


def big(rng, n, crc):
    """a rows-query or annotate event whose body has n bytes"""
    mysql = rng.random() < .5
    b = [rng.randrange(256)] if mysql and n else []
    fill, seed = n - len(b), rng.randrange(1000)
    c = 1 if crc else 0
    text = fill_text(fill, seed)
    x = ['ok', ['big', fill, zlib.crc32(text)]] if fill > 2000 else ['ok', ['rowsquery', list(text)]]
    return {'h': header(rng, 29 if mysql else 160, 19 + n + 4 * c), 'b': b, 'fill': fill, 'seed': seed, 'c': c, 'x': x}


def fill_text(n, seed):
    # 33 + ((k * 7 + (k >> 8) + seed) % 89)
    if n < 5000:
        return bytes(33 + (k * 7 + (k >> 8) + seed) % 89 for k in range(n))
    # k = 256 a + b: 7 * 256 a + 7 b + a + seed
    rows, out = {}, []
    for a in range((n + 255) // 256):
        m = (1793 * a + seed) % 89
        if m not in rows:
            rows[m] = bytes(33 + (m + 7 * b) % 89 for b in range(256))
        out.append(rows[m])
    return b''.join(out)[:n]


def unknown(rng, n, crc):
    t = rng.choice([0, 1, 13, 17, 18, 26, 28, 36, 37, 39, 40, 41, 42, 43, 50, 99, 128, 159, 164, 165, 169, 200, 254, 255])
    c = 1 if crc else 0
    return {'h': header(rng, t, 19 + n + 4 * c), 'b': [rng.randrange(256) for _ in range(n)] if n < 5000 else [],
            'fill': 0 if n < 5000 else n, 'seed': 1, 'c': c, 'x': ['ok', ['unknown']]}


def numbered(rng, i, crc):
    """XID event number i"""
    c, b = (1 if crc else 0), le(i * 0x100000001, 8)
    return {'h': header(rng, 16, 27 + 4 * c), 'b': b, 'c': c, 'x': ['ok', ['xid', b]]}


def bad(rng, n, crc):
    """a complete event that cannot be decoded, with a body of about n bytes"""
    r = rng.random()
    if n == 0:
        t, b, fill = rng.choice([2, 4, 5, 14, 16, 19, 30, 31, 32, 33, 23, 162]), [], 0
    elif n > 64:
        # rows of a table never defined; events that name more than they hold
        t, b = rng.choice([
            (rng.choice([30, 31, 32]), le(rng.randrange(2**30, 2**31), 6) + [1, 0, 2, 0]),
            (14, le(rng.choice([n - 3, n, 2 * n, 2**31, 2**32 - 1]), 4)),
            (162 + 1, le(rng.choice([n // 16 + 1, 2**27, 2**28 - 1]), 4)),
            (35, le(1, 8) + le(rng.randrange(2**30), 8) * 2 + le(rng.choice([n // 16 + 1, 2**40]), 8)),
            (19, le(rng.randrange(2**30), 6) + [1, 0, 1, 97, 0, 1, 98, 0, 253] + le(max(n, 2**24 - 1), 3))])
        fill = n - len(b)
    elif r < .3:
        t, b, fill = 16, [rng.randrange(256) for _ in range(rng.randrange(0, 8))], 0
    elif r < .6:
        t, b, fill = rng.choice([23, 24, 25, 30, 31, 32]), le(rng.randrange(2**30, 2**31), 6) + [0, 0, 2, 0, 1, 255, 0, 1, 0, 0, 0], 0
    elif r < .8:
        t, b, fill = 19, le(rng.randrange(2**30), 6) + [1, 0, 200] + [97] * rng.randrange(0, 30), 0
    else:
        t, b, fill = 2, [1, 0, 0, 0, 0, 0, 0, 0, 250, 0, 0, 0, 0][:rng.randrange(1, 14)], 0
    c = 1 if crc else 0
    return {'h': header(rng, t, 19 + len(b) + fill + 4 * c), 'b': b, 'fill': fill, 'seed': rng.randrange(99), 'c': c, 'x': ['err', '']}


def size(e):
    return len(e['h']) + len(e['b']) + e.get('fill', 0) + 4 * e['c'] if e.get('keep') is None else e['keep']
