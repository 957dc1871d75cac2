"""Factories for realistic and hostile corgidrp inputs (independent of corgidrp.mocks)."""
import numpy as np
import astropy.io.fits as fits
import corgidrp.data as data

FLAGS = [1, 2, 4, 8, 16, 32, 64, 128, 256]

# small detector with the same structure as the flight one (all sections consistent)
SMALL = {
    'SCI': {'frame_rows': 30, 'frame_cols': 52,
            'image': {'rows': 20, 'cols': 24, 'r0c0': [4, 22]},
            'prescan': {'rows': 30, 'cols': 22, 'r0c0': [0, 0], 'col_start': 10, 'col_end': 20},
            'prescan_reliable': {'rows': 30, 'cols': 10, 'r0c0': [0, 10]},
            'parallel_overscan': {'rows': 6, 'cols': 26, 'r0c0': [24, 22]},
            'serial_overscan': {'rows': 30, 'cols': 4, 'r0c0': [0, 48]}},
}


def pri_header(rng=None, **kw):
    h = fits.Header()
    base = dict(VISITID='0200001001001001001', INSTRUME='CGI', ORIGIN='SSC', FILETIME='2025-02-16T00:00:00',
                PROGNUM=2, EXECNUM=1, CAMPAIGN=1, SEGMENT=1, OBSNUM=1, VISNUM=1, VISTYPE='TDEMO', OBSNAME='MOCK',
                TARGET='Vega', RA=80.5, DEC=-69.5, EQUINOX='2000.0', ROLL=0.0, PITCH=0.0, YAW=0.0, PSFREF=0,
                PHTCNT=0, FRAMET=0.0, SATSPOTS=0)
    base.update(kw)
    for k, v in base.items():
        h[k] = v
    return h


def ext_header(rng=None, level='L1', arrtype='SCI', **kw):
    h = fits.Header()
    for k, v in (('XTENSION', 'IMAGE'), ('BITPIX', -64), ('NAXIS', 2), ('NAXIS1', 0), ('NAXIS2', 0), ('PCOUNT', 0),
                 ('GCOUNT', 1)):
        h[k] = v
    base = dict(BUNIT='DN', ARRTYPE=arrtype, SCTSRT='2025-02-16T00:00:00', SCTEND='2025-02-16T00:00:10',
                DATETIME='2025-02-16T00:00:05', FTIMEUTC='2025-02-16T00:00:05.30', OPMODE='NONE_DETON_0',
                EXPTIME=1.0, EMGAIN_C=1.0, EXCAMT=40.0, EMGAIN_A=-1.0, KGAINPAR=8.7, OVEREXP=False, FSMLOS=0,
                FSMX=0.0, FSMY=0.0, Z2RES=0.0, Z2VAR=0.0, Z3RES=0.0, Z3VAR=0.0, SPAMNAME='OPEN', FPAMNAME='HOLE',
                FPAM_H=1.0, FPAM_V=2.0, FSAMNAME='OPEN', FSAM_H=3.0, FSAM_V=4.0, CFAMNAME='1F', DPAMNAME='IMAGING',
                LSAMNAME='OPEN', ISPC=0, DATALVL=level, MISSING=False, STARLOCX=5.0, STARLOCY=6.0)
    base.update(kw)
    for k, v in base.items():
        h[k] = v
    h['HISTORY'] = 'raw frame %s' % (rng.integers(1 << 30) if rng is not None else 0)
    return h


def fname(i, level='L1', stamp='20250216T000000'):
    suf = {'L1': 'L1_', 'L2a': 'L2a', 'L2b': 'L2b', 'L3': 'L3_', 'L4': 'L4_'}[level]
    return 'CGI_0200001001001001001_%s%d_%s.fits' % (stamp, i, suf)


def dq_map(rng, shape, p=0.15, flags=FLAGS, dtype=int):
    dq = np.zeros(shape, dtype=np.int64)
    for f in flags:
        dq |= np.where(rng.random(shape) < p / 3, f, 0)
    return dq.astype(dtype)


def image(rng, shape, level='L2a', i=0, data_arr=None, dq=True, err=True, pri=None, ext=None, extra=True,
          dq_dtype=int, nlayers=1, dq_flags=FLAGS):
    d = rng.normal(100, 30, shape) if data_arr is None else data_arr
    e = np.abs(rng.normal(3, 1, (1,) + shape)) + 0.05 if err else None
    q = dq_map(rng, shape, flags=dq_flags, dtype=dq_dtype) if dq else None
    hl = None
    if extra:
        hl = fits.HDUList([fits.ImageHDU(rng.normal(0, 1, (4,)), name='XTRA')])
    img = data.Image(d, pri_hdr=pri_header(rng, **(pri or {})), ext_hdr=ext_header(rng, level, **(ext or {})), err=e,
                     dq=q, input_hdulist=hl)
    img.ext_hdr['NAXIS1'], img.ext_hdr['NAXIS2'] = shape[-1], shape[-2]
    img.filename = fname(i, level)
    if nlayers > 1:
        for k in range(nlayers - 1):
            img.add_error_term(np.abs(rng.normal(1, .2, shape)), 'pre_layer%d' % k)
    return img


def dataset(rng, n, shape, level='L2a', ext_list=None, pri_list=None, ext=None, pri=None, **kw):
    frames = []
    for i in range(n):
        e = dict(ext or {})
        p = dict(pri or {})
        if ext_list is not None:
            e.update(ext_list[i])
        if pri_list is not None:
            p.update(pri_list[i])
        frames.append(image(rng, shape, level, i, ext=e, pri=p, **kw))
    return data.Dataset(frames)


def stack(rng, arr, err=None, dq=None, level='L2a', ext_list=None, pri_list=None, ext=None, pri=None, **kw):
    """Dataset with the given values: arr (n,rows,cols); err the same or with error layers (n,k,rows,cols); dq like arr."""
    ds = dataset(rng, len(arr), np.shape(arr)[1:], level, ext_list, pri_list, ext, pri, **kw)
    for i, f in enumerate(ds):
        f.data[:] = arr[i]
        if err is not None:
            f.err[:] = err[i] if np.ndim(err) == 4 else err[i][None]
        if dq is not None:
            f.dq[:] = dq[i]
    return ds


# ------------------------------------------------------------ calibration products
def _parents(rng, n=2, level='L2b', shape=(2, 2)):
    return dataset(rng, n, shape, level, extra=False)


def cal_headers(rng, **kw):
    return pri_header(rng), ext_header(rng, level='L2b', **kw)


def dark(rng, shape, exptime=1.0, emgain=1.0, kgain=8.7, dq=True, parents=None, sctsrt='2025-02-16T00:00:00', **kw):
    p, e = cal_headers(rng, EXPTIME=exptime, EMGAIN_C=emgain, KGAINPAR=kgain, SCTSRT=sctsrt)
    return data.Dark(rng.normal(5, 2, shape), pri_hdr=p, ext_hdr=e, input_dataset=parents or _parents(rng),
                     err=np.abs(rng.normal(.5, .1, shape)) + 0.01, dq=dq_map(rng, shape, .08) if dq else None,
                     err_hdr=fits.Header())


def flat(rng, shape, zeros=True, parents=None, **kw):
    p, e = cal_headers(rng)
    d = rng.normal(1, .1, shape)
    if zeros:
        d[rng.random(shape) < .05] = 0.0
    f = data.FlatField(d, pri_hdr=p, ext_hdr=e, input_dataset=parents or _parents(rng))
    f.err = np.abs(rng.normal(.02, .005, (1,) + shape))
    return f


def kgain(rng, value=None, err=None, ptc=None, parents=None, rn=100.0, rn_err=5.0):
    p, e = cal_headers(rng)
    e['RN'] = rn
    e['RN_ERR'] = rn_err
    v = rng.uniform(2, 12) if value is None else value
    s = rng.uniform(0, .5) if err is None else err
    return data.KGain(np.array([[v]]), err=np.array([[[s]]]), ptc=rng.normal(10, 3, (5, 2)) if ptc is None else ptc,
                      pri_hdr=p, ext_hdr=e, input_dataset=parents or _parents(rng))


def nonlin_table(rng, gains=None, counts=None):
    gains = np.sort(rng.uniform(1, 6000, rng.integers(2, 7))) if gains is None else np.asarray(gains, float)
    counts = np.sort(rng.uniform(0, 16000, rng.integers(2, 9))) if counts is None else np.asarray(counts, float)
    t = np.full((len(counts) + 1, len(gains) + 1), np.nan)
    t[0, 1:] = gains
    t[1:, 0] = counts
    rel = rng.uniform(.85, 1.15, (len(counts), len(gains)))
    k = rng.integers(0, len(counts), len(gains))
    rel[k, np.arange(len(gains))] = 1.0      # straddles 1
    t[1:, 1:] = rel
    return t


def nonlin(rng, table=None, parents=None):
    p, e = cal_headers(rng)
    return data.NonLinearityCalibration(nonlin_table(rng) if table is None else table, pri_hdr=p, ext_hdr=e,
                                        input_dataset=parents or _parents(rng))


def bpmap(rng, shape, p=.1, dtype=np.uint16, parents=None, flags=(1, 4, 8)):
    pp, e = cal_headers(rng)
    return data.BadPixelMap(dq_map(rng, shape, p * 3, flags=list(flags), dtype=dtype), pri_hdr=pp, ext_hdr=e,
                            input_dataset=parents or _parents(rng))


def noise_maps(rng, shape, b_o=None, b_o_err=None, parents=None, dq=True, maps=None):
    p, e = cal_headers(rng)
    e['B_O'] = rng.uniform(-5, 5) if b_o is None else b_o
    e['B_O_ERR'] = rng.uniform(0, 2) if b_o_err is None else b_o_err
    if maps is None:
        maps = np.stack([rng.normal(30, 6, shape), np.abs(rng.normal(.01, .002, shape)),
                         np.abs(rng.normal(.003, .001, shape))])
    errs = np.abs(rng.normal(1, .2, (1,) + maps.shape)) * np.array([1, .001, .0005])[None, :, None, None]
    q = dq_map(rng, maps.shape, .06, flags=[1, 2, 4, 256]) if dq else np.zeros(maps.shape, int)
    par = parents or _parents(rng)
    for f in par:
        f.ext_hdr['DRPNFILE'] = 0
    return data.DetectorNoiseMaps(maps, pri_hdr=p, ext_hdr=e, input_dataset=par, err=errs, dq=q, err_hdr=fits.Header())


def astrom(rng, platescale=(21.8, 21.8), northangle=None, offset=(0.0, 0.0), coeffs=None, boresight=(80.5, -69.5)):
    p, e = cal_headers(rng)
    na = rng.uniform(-180, 180) if northangle is None else northangle
    c = np.zeros(0) if coeffs is None else np.asarray(coeffs, float)
    arr = np.concatenate([boresight, platescale, [na], offset, c]).astype(float)
    return data.AstrometricCalibration(arr, pri_hdr=p, ext_hdr=e, input_dataset=_parents(rng))


def trapcal(rng, n=6):
    p, e = cal_headers(rng)
    return data.TrapCalibration(rng.normal(1, .3, (n, 10)), pri_hdr=p, ext_hdr=e, input_dataset=_parents(rng))


def fluxcal(rng, value=None, err=None, cfam='3C', fpam='HOLE'):
    p, e = cal_headers(rng, CFAMNAME=cfam, FPAMNAME=fpam)
    v = rng.uniform(1e-14, 1e-13) if value is None else value
    s = rng.uniform(1e-16, 1e-15) if err is None else err
    return data.FluxcalFactor(np.array([[v]]), err=np.array([[[s]]]), pri_hdr=p, ext_hdr=e, input_dataset=_parents(rng))


def ndsweet(rng, n=9, parents=None):
    p, e = cal_headers(rng, FPAMNAME='ND225')
    k = int(np.sqrt(n))
    xs, ys = np.meshgrid(np.linspace(10, 50, k), np.linspace(20, 60, k))
    arr = np.stack([rng.uniform(2, 3, k * k), xs.ravel() + rng.normal(0, .5, k * k),
                    ys.ravel() + rng.normal(0, .5, k * k)], axis=1)
    return data.NDFilterSweetSpotDataset(arr, pri_hdr=p, ext_hdr=e, input_dataset=parents or _parents(rng, level='L3'))


def ctcal(rng, x=None, y=None, ct=None, psf=None, fpam=(1.0, 2.0), fsam=(3.0, 4.0)):
    n = 8 if x is None else len(x)
    x = rng.uniform(10, 60, n) if x is None else np.asarray(x, float)
    y = rng.uniform(10, 60, n) if y is None else np.asarray(y, float)
    ct = rng.uniform(.1, .9, n) if ct is None else np.asarray(ct, float)
    psf = rng.normal(1, .2, (n, 5, 5)) if psf is None else psf
    p, e = cal_headers(rng)
    e['EXTNAME'] = 'PSFCUBE'
    hl = [fits.ImageHDU(np.array([x, y, ct]), name='CTEXCAM'), fits.ImageHDU(np.array(fpam, float), name='CTFPAM'),
          fits.ImageHDU(np.array(fsam, float), name='CTFSAM')]
    return data.CoreThroughputCalibration(psf, pri_hdr=p, ext_hdr=e, input_hdulist=hl,
                                          dq=np.zeros(psf.shape, np.uint16), input_dataset=_parents(rng, level='L3'))


# ------------------------------------------------------------ CALSPEC stand-in (no network in the sandbox)
CALSPEC_SCALE = {}


def calspec_spectrum(name):
    """Deterministic smooth spectrum of each standard (flux in erg/s/cm2/AA)."""
    import zlib
    w = np.linspace(3000., 11000., 4001)
    r = np.random.default_rng(zlib.crc32(name.encode()))
    t = r.uniform(4000, 12000)
    x = 1.43877e8 / (w * t)
    f = 1.0 / (w ** 5 * (np.exp(x) - 1))
    f = f / f.max() * (3.4e-9 if 'alpha_lyr' in name else r.uniform(1e-15, 1e-10))
    f *= 1 + .03 * np.sin(w / r.uniform(80, 300))
    return w, f


def write_calspec(path, name=None, w=None, f=None):
    import os
    if w is None:
        w, f = calspec_spectrum(name or os.path.basename(path))
    t = fits.BinTableHDU.from_columns([fits.Column('WAVELENGTH', 'D', array=w), fits.Column('FLUX', 'D', array=f)])
    fits.HDUList([fits.PrimaryHDU(), t]).writeto(path, overwrite=True)


def install_calspec():
    """Replace the download of CALSPEC spectra (the only network access of the package) by a local stand-in."""
    import urllib.request
    import os

    def fetch(url, filename=None, *a, **k):
        name = os.path.basename(url)
        write_calspec(filename, name)
        return filename, {}
    urllib.request.urlretrieve = fetch


install_calspec()
