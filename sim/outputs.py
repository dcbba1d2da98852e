"""Read what a run left behind (plain I/O, outside the simulation)."""
import glob
import os

import fitsio
import numpy as np


class Delta:
    __slots__ = ('file', 'ext', 'hdr', 'names', 'wave', 'delta', 'ivar',
                 'weight', 'cont', 'reso', 'tid', 'arm', 'expid', 'tile',
                 'blindcol', 'bad')

    def key(self):
        return (self.tid, self.arm, self.expid, self.tile)


def read_deltas(outdir, pattern='delta-*.fits', unreadable=None):
    out = []
    for fn in sorted(glob.glob(os.path.join(outdir, pattern))):
        base = os.path.basename(fn)
        try:
            fitsio.FITS(fn).close()
        except OSError as e:
            if unreadable is None:
                raise
            unreadable.append((base, str(e).split('\n')[0]))
            continue
        with fitsio.FITS(fn) as f:
            for h in f[1:]:
                d = Delta()
                d.file = base
                d.ext = h.get_extname()
                d.hdr = dict(h.read_header())
                d.names = h.get_colnames()
                data = h.read()
                d.bad = ''
                d.wave = np.array(data['LAMBDA'], dtype='f8')
                d.blindcol = 'DELTA_BLIND' in d.names
                dc = 'DELTA_BLIND' if d.blindcol else 'DELTA'
                if dc not in d.names:
                    d.bad = f'no delta column in {d.names}'
                    out.append(d)
                    continue
                d.delta = np.array(data[dc], dtype='f8')
                d.ivar = np.array(data['IVAR'], dtype='f8')
                d.weight = np.array(data['WEIGHT'], dtype='f8')
                d.cont = np.array(data['CONT'], dtype='f8')
                d.reso = (np.array(data['RESOMAT'], dtype='f8')
                          if 'RESOMAT' in d.names else None)
                d.tid = int(d.hdr.get('TARGETID', d.hdr.get('LOS_ID', -1)))
                parts = d.ext.split('-')
                d.arm = parts[1] if len(parts) > 1 else ''
                d.expid = int(d.hdr['EXPID']) if 'EXPID' in d.hdr else None
                d.tile = int(d.hdr['TILEID']) if 'TILEID' in d.hdr else None
                out.append(d)
    return out


def read_chi2(outdir):
    fn = os.path.join(outdir, 'continuum_chi2_catalog.fits')
    if not os.path.exists(fn):
        return None
    with fitsio.FITS(fn) as f:
        return f['CHI2_CAT'].read()


def read_attr(outdir):
    """Ordered list of (extname, header, recarray)."""
    fn = os.path.join(outdir, 'attributes.fits')
    if not os.path.exists(fn):
        return None
    out = []
    with fitsio.FITS(fn) as f:
        for h in f[1:]:
            out.append((h.get_extname(), dict(h.read_header()), h.read()))
    return out


def read_tables(fn):
    out = []
    with fitsio.FITS(fn) as f:
        for h in f[1:]:
            out.append((h.get_extname(), dict(h.read_header()), h.read()))
    return out


class FitOut:
    def __init__(self, outdir):
        self.dir = outdir
        self.unreadable = []
        self.deltas = read_deltas(outdir, unreadable=self.unreadable)
        self.chi2 = read_chi2(outdir)
        self.attr = read_attr(outdir)
        self.attrd = ({a[0]: a[2] for a in self.attr}
                      if self.attr is not None else {})
        self.files = sorted(os.listdir(outdir)) \
            if os.path.isdir(outdir) else []

    def bykey(self):
        d = {}
        for x in self.deltas:
            d.setdefault(x.key(), []).append(x)
        return d
