"""Shared parts of the codec checks C02..C10."""
from gen import *
from vlib import scripts
ALL = set(range(256))
EDGE = {0, 1, 2, 30, 31, 0x3f, 0x40, 0x7f, 0x80, 0x81, 0x88, 0x9f, 0xbf, 0xc0, 0xfe, 0xff}
def exe(c): return c.build('codec', ['codec.cc'])
def boundary(c, x, kinds, ders=(), shorts=(1, 2), cuts=False, coarse=False, name='boundary'):
    r = c.model('CodecMC', consts=dict(Kinds=set(kinds), Ders=set(ders), Shorts=set(shorts), Cuts=cuts, Coarse=coarse),
                note='encode/decode behaviours of all boundary values (%s)' % ','.join(sorted(kinds)))
    s = scripts(c.printed(r['out'], 'SCRIPT'))
    c.conform('CodecTrace', x, group(s), name)
def strings(c, x, kinds, first, others, maxlen, lens, name='strings', apis=('ptr',)):
    r = c.model('DecodeMC', consts=dict(Kinds=set(kinds), First=set(first), Others=set(others), MaxLen=maxlen, Lens=set(lens), Apis2=set(apis)),
                note='all octet strings up to %d octets over an alphabet of %d/%d offered to %s' % (maxlen, len(first), len(others), ','.join(sorted(kinds))))
    c.conform('CodecTrace', x, group(scripts(c.printed(r['out'], 'SCRIPT'))), name)
def group(ss, n=60):
    """several independent scripts per session: each begins by replacing the buffer"""
    return [sum(ss[i:i + n], []) for i in range(0, len(ss), n)]
def continued(prefix=b''):
    """runs of equal continuation octets of every length, with each kind of end (groups of seven bits, also all zero ones)"""
    return [prefix + bytes([c]) * k + e for c in (0x80, 0x81, 0xff, 0xc0) for k in range(12) for e in (b'', b'\0', b'\1', b'\x7f', b'\x80\0', b'\x80\x81\1')]
