"""P29: photometry, flux calibration and magnitudes."""
import os
import warnings
import numpy as np
from scipy.integrate import simpson
import corgidrp.data as data
import corgidrp.fluxcal as fluxcal
import corgidrp.l4_to_tda as tda
import corgidrp.l2b_to_l3 as l3
from vlib.core import Suite, quiet
from vlib import build as B
from vlib import snap
from checks.p27 import BANDS
from checks import p28

SUITE = Suite("P29", "one distinct situation = quantity x band or photometry method x background x flags x layout; band quantities are integrated independently from the tables, photometry is compared "
              "with sums over the pixels and with synthetic stars of known brightness, calibrations and magnitudes are closed against each other")

STARS = {"109 Vir": "109vir", "Vega": "alpha_lyr", "Eta Uma": "etauma", "Lam Lep": "lamlep", "KSI2 CETI": "ksi2ceti", "TYC 4433-1800-1": "1808347", "TYC 4205-1677-1": "1812095",
         "TYC 4212-455-1": "1757132", "TYC 4209-1396-1": "1805292", "TYC 4413-304-1": "p041c", "UCAC3 313-62260": "kf08t3", "BPS BS 17447-0067": "1802271", "TYC 4424-1286-1": "1732526",
         "GSC 02581-02323": "p330e", "TYC 4207-219-1": "1740346"}


def img(rng, arr, err=None, dq=None, level="L3", ext=None, pri=None):
    arr = np.asarray(arr, float)
    return B.stack(rng, arr[None], (np.full(arr.shape, .01) if err is None else err)[None, None], (np.zeros(arr.shape) if dq is None else dq).astype(np.uint16)[None], level, ext=ext, pri=pri)[0]


@SUITE.workload(quick=40, thorough=400)
def spectra(c):
    """Band quantities of spectra read from files."""
    rng = c.rng
    name = sorted(BANDS)[c.index % len(BANDS)]
    with quiet(), c.scratch():
        im = img(rng, np.zeros((4, 4)), ext=dict(CFAMNAME=name))
        path = fluxcal.get_filter_name(im)
        c.equal(os.path.basename(path), BANDS[name], "filter-file", "transmission curve chosen for band %s" % name)
        w, t = p28.band(name)
        gw, gt = fluxcal.read_filter_curve(path)
        c.close(gw, w, "curve-wave", "wavelengths of %s" % name, rtol=1e-12)
        c.close(gt, t, "curve-trans", "transmission of %s" % name, rtol=1e-12)
        # spectra on an own grid, from well outside the band
        def spectrum():
            g = np.linspace(3000, 11000, int(rng.integers(2000, 6000)))
            f = 10. ** rng.uniform(-16, -9) * (1 + rng.uniform(-.5, .5) * (g - 7000) / 4000 + .1 * np.sin(g / rng.uniform(100, 500)))
            return g, f
        (g1, f1), (g2, f2) = spectrum(), spectrum()
        B.write_calspec("a.fits", w=g1, f=f1)
        B.write_calspec("b.fits", w=g2, f=f2)
        a, b = fluxcal.read_cal_spec("a.fits", gw), fluxcal.read_cal_spec("b.fits", gw)
        inner = slice(3, -3)
        c.close(a[inner], np.interp(w, g1, f1)[inner], "spectrum", "spectrum on the grid of the band", rtol=1e-9)
        I = lambda y: simpson(y, x=w)
        T = lambda y: np.trapezoid(y, w)
        checks = [("band flux", fluxcal.calculate_band_flux(t, a, w), I(a * t * w) / I(t * w)), ("effective wavelength", fluxcal.calculate_effective_lambda(t, a, w), I(a * t * w * w) / I(a * t * w)),
                  ("pivot wavelength", fluxcal.calculate_pivot_lambda(t, w), np.sqrt(I(t * w) / I(t / w))), ("irradiance", fluxcal.calculate_band_irradiance(t, a, w), I(a * t))]
        for q, got, want in checks:
            c.close(got, want, "band-" + q.split()[-1], q, rtol=1e-3)
        piv = checks[2][1]
        ref = lambda f: np.interp(piv, w, f)
        K = fluxcal.compute_color_cor(t, w, b, piv, a)
        c.close(K, (I(w * t * a) / ref(a)) / (I(w * t * b) / ref(b)), "colorcor", "color correction", rtol=1e-3)
        c.close(fluxcal.compute_color_cor(t, w, a, piv, 7 * a), 1, "colorcor-same", "color correction of the same spectral shape", rtol=1e-10)
        c.close(K * fluxcal.compute_color_cor(t, w, a, piv, b), 1, "colorcor-inverse", "color correction and its inverse", rtol=1e-10)
        c.close(fluxcal.calculate_flux_ref(w, a, piv), ref(a), "fluxref", "flux at the reference wavelength", rtol=1e-12)
        # with the correction, the flux density at the reference wavelength follows from the calibration
        c.close(checks[0][1] / ref(b) * ref(b) / I(b * t * w) * I(t * w) / K, ref(a) / ref(b), "colorcor-use", "flux density at the reference wavelength", rtol=1e-3)
        # a constant spectrum is its own average
        c.close(fluxcal.calculate_band_flux(t, np.full(len(w), 3e-14), w), 3e-14, "band-constant", "average of a constant spectrum", rtol=1e-10)
        vega = p28.band_flux("Vega", name)
        m = rng.uniform(-3, 20)
        c.close(fluxcal.calculate_vega_mag(vega * 10 ** (-.4 * m), path), m, "vega-mag", "magnitude of a source of known flux ratio to Vega", rtol=0, atol=1e-3)
        ds = B.dataset(rng, 2, (4, 4), "L3", ext=dict(CFAMNAME=name))
        out = tda.determine_color_cor(ds, "b.fits", "a.fits")
        for f in out:
            c.close([f.ext_hdr["COL_COR"], f.ext_hdr["LAM_REF"]], [K, piv], "colorcor-header", "color correction and reference wavelength in the header", rtol=1e-3)
        s1, s2 = [str(s) for s in rng.choice(sorted(STARS), 2, replace=False)]
        out = tda.determine_color_cor(ds, s1, s2)[0].ext_hdr["COL_COR"]
        v1, v2 = [p28.star_in_band(s, name)[2] for s in (s1, s2)]
        c.close(out, (I(w * t * v2) / ref(v2)) / (I(w * t * v1) / ref(v1)), "colorcor-names", "color correction between two standard stars", rtol=2e-3)
        c.raises(ValueError, lambda: fluxcal.get_filter_name(img(rng, np.zeros((4, 4)), ext=dict(CFAMNAME="9Z"))), "filter-unknown", "unknown band")
        c.raises(ValueError, lambda: fluxcal.get_calspec_file("Sirius C"), "star-unknown", "unknown star")
        s = sorted(STARS)[c.index % len(STARS)]
        c.ok(os.path.basename(fluxcal.get_calspec_file(s)).startswith(STARS[s]), "star-file", "spectrum of %s read from %s" % (s, fluxcal.calspec_names.get(s)))
    c.see("band quantities", 12)
    c.sig(name, s)


@SUITE.workload(quick=30, thorough=300)
def appmag(c):
    """Apparent magnitudes of standard stars and scaled ones, for frames of one target and band only."""
    rng = c.rng
    name, star = str(rng.choice(sorted(BANDS))), str(rng.choice(sorted(STARS)))
    scale = 10. ** rng.uniform(-3, 3)
    want = -2.5 * np.log10(p28.irradiance(star, name) / p28.irradiance("Vega", name))
    with quiet(), c.scratch():
        ds = B.dataset(rng, int(rng.integers(1, 4)), (4, 4), "L2b", ext=dict(CFAMNAME=name), pri=dict(TARGET=star))
        out = tda.determine_app_mag(ds, star)
        for f in out:
            c.close(f.ext_hdr["APP_MAG"], want, "appmag", "magnitude of %s in %s" % (star, name), rtol=0, atol=2e-3)
        c.close(tda.determine_app_mag(ds, star, scale_factor=scale)[0].ext_hdr["APP_MAG"], out[0].ext_hdr["APP_MAG"] - 2.5 * np.log10(scale), "appmag-scale", "magnitude of a scaled star", rtol=0, atol=1e-9)
        one = tda.determine_app_mag(ds[0], star)
        c.close(one[0].ext_hdr["APP_MAG"], out[0].ext_hdr["APP_MAG"], "appmag-image", "magnitude for a single image", rtol=0, atol=1e-12)
        p = fluxcal.get_calspec_file(star)
        c.close(tda.determine_app_mag(ds, p)[0].ext_hdr["APP_MAG"], out[0].ext_hdr["APP_MAG"], "appmag-file", "magnitude from the file of the star", rtol=0, atol=1e-12)
        c.close(tda.determine_app_mag(ds, "Vega")[0].ext_hdr["APP_MAG"], 0, "appmag-vega", "magnitude of Vega", rtol=0, atol=1e-9)
        other = str(rng.choice([b for b in sorted(BANDS) if b != name]))
        for key, lists in (("band", dict(ext_list=[dict(CFAMNAME=name)] * 2 + [dict(CFAMNAME=other)], pri=dict(TARGET=star))),
                           ("target", dict(ext=dict(CFAMNAME=name), pri_list=[dict(TARGET=star)] * 2 + [dict(TARGET=str(rng.choice(["HD 1", star + " B", star.swapcase(), star[:-1]])))]))):
            mixed = B.dataset(rng, 3, (4, 4), "L2b", **lists)
            order = rng.permutation(3)
            mixed = data.Dataset([mixed[int(i)] for i in order])
            c.raises(ValueError, lambda: tda.determine_app_mag(mixed, star), "appmag-mixed", "frames of more than one %s" % key)
    c.see("magnitudes", len(ds) + 4)
    c.sig(name, star)


def weights(shape, x, y, r, method, sub):
    n = {"center": 1, "subpixel": sub, "exact": 60}[method]
    o = (np.arange(n) + .5) / n - .5
    yy, xx = np.indices(shape).astype(float)
    d2 = (xx[..., None, None] + o[None, None, None, :] - x) ** 2 + (yy[..., None, None] + o[None, None, :, None] - y) ** 2
    return (d2 < r * r).mean((2, 3))


@SUITE.workload(quick=60, thorough=700)
def aperture(c):
    """Sums over the pixels of an arbitrary image."""
    rng = c.rng
    shape = (int(rng.integers(22, 40)), int(rng.integers(22, 40)))
    x, y = rng.uniform(6, shape[1] - 7), rng.uniform(6, shape[0] - 7)
    noise = rng.uniform(0, .3)
    arr = p28.psf(shape, x, y, rng.uniform(1e2, 1e4)) + rng.normal(0, noise, shape)
    level = rng.uniform(-2, 5) if rng.random() < .5 else 0.
    err = rng.uniform(.01, 1, shape)
    dq = np.where(rng.random(shape) < rng.choice([0, .05]), rng.choice(B.FLAGS, shape), 0)
    py, px = np.unravel_index(np.argmax(arr), shape)
    method, sub = str(rng.choice(["center", "subpixel", "exact"])), int(rng.choice([3, 5, 10]))
    r, fee = rng.uniform(2, 9), float(rng.choice([1., rng.uniform(.3, 1)]))
    roi = int(rng.choice([3, 5]))
    hint = rng.random() < .4
    if hint:                                   # another, brighter star elsewhere
        hx, hy = (x + shape[1] / 2) % shape[1], (y + shape[0] / 2) % shape[0]
        arr = arr + p28.psf(shape, hx, hy, arr.max() * 40)
    with quiet():
        im = img(rng, arr, err, dq)
        before = snap.img(im)
        kw = dict(encircled_radius=r, frac_enc_energy=fee, method=method, subpixels=sub, centroid_roi_radius=roi)
        if hint:
            kw["centering_initial_guess"] = (x + rng.uniform(-.4, .4), y + rng.uniform(-.4, .4))
            gx, gy = [int(round(v)) for v in kw["centering_initial_guess"]]
        else:
            gy, gx = np.unravel_index(np.argmax(arr), shape)
        sl = (slice(max(0, gy - roi), gy + roi + 1), slice(max(0, gx - roi), gx + roi + 1))
        yy, xx = np.indices(shape)
        s = arr[sl].sum()
        cx, cy = (arr[sl] * xx[sl]).sum() / s, (arr[sl] * yy[sl]).sum() / s
        w = weights(shape, cx, cy, r, method, sub)
        good = dq == 0
        flux, ferr = fluxcal.aper_phot(im, **kw)
        edge = .02 * np.abs(arr[(w > 0) & (w < 1)]).sum() + 1e-6 if method == "exact" else 1e-6
        want = (arr * w * good).sum() / fee
        c.close(flux, want, "aper-flux", "flux of the pixels in the aperture (%s)" % method, rtol=1e-6 if method != "exact" else 2e-4, atol=edge)
        c.close(ferr, np.sqrt((err ** 2 * w * good).sum()) / fee, "aper-err", "error of the pixels in the aperture (%s)" % method, rtol=1e-6 if method != "exact" else 2e-2)
        c.ok(not snap.diff(before, snap.img(im)), "phot-input", "photometry changed its input")
        # values of flagged pixels do not count
        if (~good).any() and not (~good)[sl].any():
            im2 = img(rng, np.where(good, arr, arr * rng.uniform(.2, .9)), err, dq)
            c.close(fluxcal.aper_phot(im2, **kw)[0], flux, "aper-flagged", "flux depends on flagged pixels", rtol=1e-9)
        # linear in the data
        k = 10. ** rng.uniform(-6, 6)
        f2 = fluxcal.aper_phot(img(rng, arr * k, err * k, dq), **kw)
        c.close(f2, [flux * k, ferr * k], "aper-scale", "photometry of a scaled image", rtol=1e-6, atol=0)
        # background
        rin, rout = rng.uniform(6, 7), rng.uniform(9, 11)
        b0 = fluxcal.aper_phot(im, background_sub=True, r_in=rin, r_out=rout, **kw)
        c.ok(len(b0) == 3 and len(fluxcal.aper_phot(im, **kw)) == 2, "aper-tuple", "number of returned values")
        used = (w * good).sum() / fee
        c.close(b0[0], flux - b0[2] * used, "aper-back", "flux less the background over the aperture", rtol=1e-4 if method == "exact" else 1e-7, atol=(abs(b0[2]) * .02 * (2 * np.pi * r) / fee if method == "exact" else 1e-6))
        ring = ((xx - cx) ** 2 + (yy - cy) ** 2 > rin ** 2) & ((xx - cx) ** 2 + (yy - cy) ** 2 < rout ** 2) & good
        if not hint and ring.sum() > 20:
            spread = np.sqrt(((arr[ring] - np.median(arr[ring])) ** 2).mean())
            c.close(b0[2], np.median(arr[ring]), "aper-background", "background next to the star", rtol=0, atol=.25 * spread + 1e-9)
        # a constant level: found as background, no effect on the flux
        if not hint and noise < .1:
            flat_ = img(rng, p28.psf(shape, x, y, 1e4, .8) + level, err, dq)
            v = fluxcal.aper_phot(flat_, 4., background_sub=True, r_in=6, r_out=8)
            c.close(v[2], level, "aper-level", "constant background", rtol=0, atol=1e-3)
        for bad in (0., -.1, 1.01):
            c.raises(ValueError, lambda: fluxcal.aper_phot(im, r, bad), "aper-fee", "encircled energy of %s" % bad)
        c.raises(ValueError, lambda: fluxcal.aper_phot(im, r, centering_method="peak"), "aper-centering", "unknown centering")
        c.raises(ValueError, lambda: fluxcal.phot_by_gauss2d_fit(im, 3., centering_method="peak"), "gauss-centering", "unknown centering")
    c.see("aperture sums", 5)
    c.sig(method, sub, hint, fee < 1, (~good).any(), roi)


@SUITE.workload(quick=40, thorough=500)
def stars(c):
    """The flux of a star of known brightness, by both methods, over a background, with flags, found by position on the sky or in the image."""
    rng = c.rng
    shape = (int(rng.integers(40, 56)), int(rng.integers(40, 56)))
    sky = rng.random() < .3
    total, sigma, level = 10. ** rng.uniform(1, 5), rng.uniform(1., 1.7), (rng.uniform(.05, .4) if rng.random() < .5 else 0.)
    cen = np.array([(shape[1] - 1) // 2, (shape[0] - 1) // 2], float)
    if sky:
        x, y = cen + rng.uniform(-.05, .05, 2)
    else:
        x, y = rng.uniform(17, shape[1] - 18), rng.uniform(17, shape[0] - 18)
    level *= total / 200
    arr = p28.psf(shape, x, y, total, sigma) + level
    hint = rng.random() < .3
    if hint:
        arr = arr + p28.psf(shape, (x + shape[1] / 2) % shape[1], (y + shape[0] / 2) % shape[0], total * 3, .8)
    dq = np.zeros(shape, int)
    yy, xx = np.indices(shape)
    far = np.hypot(xx - x, yy - y)
    out = (far > 9) & (far < 13) & (rng.random(shape) < .1)
    dq[out] = 4
    arr[out] += 3 * arr.max()                    # junk in flagged pixels
    guess = None
    kw = dict(centering_method="wcs") if sky else dict(centering_initial_guess=(x + rng.uniform(-1, 1), y + rng.uniform(-1, 1)), centroid_roi_radius=5)
    if level:
        kw.update(background_sub=True, r_in=9, r_out=13)
    with quiet():
        ds = data.Dataset([img(rng, arr, None, dq, "L2b", pri=dict(ROLL=float(rng.uniform(-180, 180)), RA=float(rng.uniform(0, 360)), DEC=float(rng.uniform(-80, 80))))])
        ds = l3.create_wcs(ds, B.astrom(rng, platescale=(rng.uniform(20, 23),) * 2))
        im = ds[0]
        got = fluxcal.aper_phot(im, 8., **kw)
        c.close(got[0], total, "star-aper", "aperture flux (sky %s)" % sky, rtol=4e-3)
        gau = fluxcal.phot_by_gauss2d_fit(im, 2.35482 * sigma, fit_shape=int(rng.choice([9, 11, 13])), **kw)
        c.close(gau[0], total, "star-gauss", "fitted flux (sky %s)" % sky, rtol=4e-3)
        if level:
            c.close([got[2], gau[2]], [level, level], "star-back", "background", rtol=2e-2, atol=total * 1e-6)
        if not hint and not sky:
            clean = img(rng, np.where(out, 0, arr - level), None, dq)
            c.close(fluxcal.phot_by_gauss2d_fit(clean, 2.35482 * sigma, centering_initial_guess=(x, y))[0], total, "star-gauss-default", "fitted flux with the default fit region, %s rows" % shape[0], rtol=4e-3)
        # a bad pixel in the star: the fit leaves it out, whatever its flag
        hurt = im.copy()
        bx, by = int(round(x)) + int(rng.integers(-1, 2)), int(round(y)) + int(rng.integers(-1, 2))
        hurt.dq[by, bx] = int(rng.choice([1, 2, 4, 8, 64, 128]))
        hurt.data[by, bx] *= rng.uniform(.6, 1.5)
        f3 = fluxcal.phot_by_gauss2d_fit(hurt, 2.35482 * sigma, fit_shape=int(rng.choice([9, 11, 13])), **kw)
        c.close(f3[0], total, "star-gauss-bad", "fitted flux with a bad pixel in the star", rtol=1e-2)
        k = 10. ** rng.uniform(-3, 3)
        im.data[:] *= k
        im.err[:] *= k
        f2 = fluxcal.phot_by_gauss2d_fit(im, 2.35482 * sigma, fit_shape=11, **kw)
        c.close(f2[0], total * k, "star-scale", "fitted flux of a scaled image", rtol=4e-3)
    c.see("stars measured", 4)
    c.sig(sky, hint, level > 0, shape[0] % 2)


@SUITE.workload(quick=30, thorough=400)
def calibrate(c):
    """Flux calibration factors, and what is derived with them: they close on the standard star itself."""
    rng = c.rng
    name, star = str(rng.choice(sorted(BANDS))), str(rng.choice(sorted(STARS)))
    fi, method = str(rng.choice(["flux", "irr"])), str(rng.choice(["aper", "gauss2d"]))
    shape = (int(rng.integers(42, 50)), int(rng.integers(42, 50)))
    fac = 10. ** rng.uniform(-15, -12)
    q = (p28.band_flux if fi == "flux" else p28.irradiance)(star, name)
    x, y = rng.uniform(18, shape[1] - 19), rng.uniform(18, shape[0] - 19)
    level = (q / fac / 200) if rng.random() < .4 else 0.
    arr = p28.psf(shape, x, y, q / fac) + level
    err = np.full(shape, rng.uniform(1e-4, 1e-3) * q / fac / 100)
    kw = dict(encircled_radius=8.) if method == "aper" else dict(fwhm=3., fit_shape=13)
    if level:
        kw.update(background_sub=True, r_in=9, r_out=13)
    kw0 = kw if level or rng.random() < .7 else None
    nd = str(rng.choice(["HOLE", "ND225"]))
    fn = fluxcal.calibrate_fluxcal_aper if method == "aper" else fluxcal.calibrate_fluxcal_gauss2d
    with quiet(), c.scratch():
        n = int(rng.integers(1, 4))
        ds = B.stack(rng, np.array([arr] * n), np.array([err] * n)[:, None], np.zeros((n,) + shape, np.uint16), "L3", ext=dict(CFAMNAME=name, FPAMNAME=nd), pri=dict(TARGET=star))
        single = rng.random() < .3
        inp = ds[0] if single else ds
        before = snap.obj(inp)
        res = fn(inp, fi, kw0)
        c.ok(not snap.diff(before, snap.obj(inp)), "cal-input", "flux calibration changed its input: %s" % snap.diff(before, snap.obj(inp)))
        tol = 3e-3 if kw0 else 3e-3
        c.close(res.fluxcal_fac, fac, "cal-factor", "calibration factor (%s, %s)" % (method, fi), rtol=tol)
        # the error of the photometry carries over relatively
        ph = fluxcal.aper_phot(ds[0], **(kw0 or dict(encircled_radius=5))) if method == "aper" else fluxcal.phot_by_gauss2d_fit(ds[0], **(kw0 or dict(fwhm=3)))
        c.close(res.fluxcal_err / res.fluxcal_fac, ph[1] / ph[0], "cal-error", "relative error of the factor", rtol=1e-6)
        c.ok(np.shape(res.data) == (1, 1) and res.data[0, 0] == res.fluxcal_fac and res.err[0, 0, 0] == res.fluxcal_err, "cal-attr", "attributes of the factor")
        c.ok(res.filter == name and res.nd_filter == (nd if nd.startswith("ND") else "ND0"), "cal-filter", "band %s or neutral filter %s of the factor" % (res.filter, res.nd_filter))
        unit = "erg/(s * cm^2%s)/(electron/s)" % (" * AA" if fi == "flux" else "")
        c.equal((res.ext_hdr["BUNIT"], res.err_hdr["BUNIT"]), (unit, unit), "cal-unit", "units of the factor")
        if level:
            c.close(res.ext_hdr["LOCBACK"], level, "cal-back", "background in the header", rtol=1e-2)
        c.ok(any("actor was determined by" in str(h) for h in res.ext_hdr["HISTORY"]) and res.ext_hdr["DATALVL"] == "CAL", "cal-history", "history or level of the factor")
        c.equal(sorted(v for k, v in res.ext_hdr.items() if k.startswith("FILE") and k[4:].isdigit()), sorted([ds[0].filename] if single else [f.filename for f in ds]), "cal-parents", "recorded parents")
        last = ds[0] if single else ds[-1]
        c.equal(res.filename, last.filename.replace("_L3_", "").replace(".fits", "_ABF_CAL.fits"), "cal-name", "file name")
        res.save(".")
        back = data.FluxcalFactor(res.filename)
        c.ok(back.fluxcal_fac == res.fluxcal_fac and back.fluxcal_err == res.fluxcal_err and back.filter == res.filter and back.ext_hdr["BUNIT"] == unit and back.err_hdr["BUNIT"] == unit, "cal-reload", "factor read back differs")
        c.raises(ValueError, lambda: fn(inp, "counts", kw0), "cal-kind", "unknown kind of flux")
        # applied to the standard star, the calibration gives its own flux and magnitude
        if fi == "flux":
            K = float(rng.choice([1., rng.uniform(.8, 1.2)]))
            m = int(rng.integers(1, 4))
            amp = rng.uniform(.5, 2, m)
            sc = B.stack(rng, arr[None] * amp[:, None, None], np.array([err] * m)[:, None], np.zeros((m,) + shape, np.uint16), "L4", ext=dict(CFAMNAME=name), pri=dict(TARGET=star))
            if K != 1:
                for f in sc:
                    f.ext_hdr["COL_COR"] = K
            out = tda.determine_flux(sc, res, "aperture" if method == "aper" else "2dgauss", kw0)
            meas = np.array([(fluxcal.aper_phot(f, **(kw0 or dict(encircled_radius=5))) if method == "aper" else fluxcal.phot_by_gauss2d_fit(f, **(kw0 or dict(fwhm=3)))) for f in sc]).mean(0)
            k_, e_ = res.fluxcal_fac / K, res.fluxcal_err / K
            F, dF = meas[0] * k_, np.hypot(meas[1] * k_, meas[0] * e_)
            for f in out:
                h = f.ext_hdr
                c.close([h["FLUX"], h["FLUXERR"], h["FLUXFAC"]], [F, dF, res.fluxcal_fac], "det-flux", "flux, its error and the factor in the header", rtol=1e-6)
                c.close(h["FLUX"], q * amp.mean() / K, "det-true", "flux of the star", rtol=6e-3)
                c.close(h["APP_MAG"], -2.5 * np.log10(F / p28.band_flux("Vega", name)), "det-mag", "apparent magnitude", rtol=0, atol=1e-3)
                c.close(h["MAGERR"], 2.5 / np.log(10) * dF / F, "det-magerr", "error of the magnitude", rtol=1e-6)
                c.close(h["LOCBACK"], meas[2] if level else 0, "det-back", "background in the header", rtol=1e-6)
            c.raises(ValueError, lambda: tda.determine_flux(sc, res, "psf", kw0), "det-method", "unknown photometry")
            c.see("fluxes determined", m)
            # whole images in flux units, each with its own correction
            cor = [float(rng.uniform(.5, 2)) if rng.random() < .7 else None for _ in sc]
            for f, k in zip(sc, cor):
                f.ext_hdr.remove("COL_COR", ignore_missing=True)
                if k:
                    f.ext_hdr["COL_COR"] = k
            with warnings.catch_warnings(record=True) as rec:
                warnings.simplefilter("always")
                conv = tda.convert_to_flux(sc, res)
            c.ok(any("COL_COR" in str(r.message) for r in rec) == (None in cor), "conv-warn", "warning about the color correction")
            for f, g, k in zip(sc, conv, cor):
                k = k or 1.
                c.close(g.data, f.data * res.fluxcal_fac / k, "conv-data", "image in flux units", rtol=1e-9)
                c.close(g.err[0], np.hypot(f.err[0] * res.fluxcal_fac / k, f.data * res.fluxcal_err / k), "conv-err", "error in flux units", rtol=1e-9)
                c.ok(g.ext_hdr["BUNIT"] == "erg/(s*cm^2*AA)" == g.err_hdr.get("BUNIT") and g.ext_hdr["FLUXFAC"] == res.fluxcal_fac and np.array_equal(f.dq, g.dq), "conv-header", "unit, factor or flags of the converted image")
    c.sig(name, fi, method, level > 0, kw0 is None, single, nd)


@SUITE.workload(quick=16, thorough=150)
def zeropoint(c):
    """The zero point is the star's magnitude plus 2.5 log10 of its counts: one number."""
    rng = c.rng
    name, star = str(rng.choice(sorted(BANDS))), str(rng.choice(sorted(STARS)))
    counts = 10. ** rng.uniform(2, 8)
    back = rng.random() < .4
    shape = (44, 46)
    with quiet(), c.scratch():
        arr = p28.psf(shape, rng.uniform(18, 26), rng.uniform(18, 26), counts) + (counts / 300 if back else 0)
        im = img(rng, arr, ext=dict(CFAMNAME=name), pri=dict(TARGET=star))
        kw = dict(background_sub=True, r_in=10, r_out=14, method="exact") if back else None
        zp = tda.calculate_zero_point(im, star, 8., kw)
        mag = -2.5 * np.log10(p28.irradiance(star, name) / p28.irradiance("Vega", name))
        if c.ok(np.ndim(zp) == 0, "zp-number", "the zero point is %r, not a number" % (zp,)):
            c.close(zp, mag + 2.5 * np.log10(counts), "zp", "zero point of %s in %s" % (star, name), rtol=0, atol=6e-3)
    c.see("zero points")
    c.sig(name, star, back)


@SUITE.workload(quick=12, thorough=60)
def refused(c):
    rng = c.rng
    with quiet(), c.scratch():
        h = lambda **k: dict(zip(("pri_hdr", "ext_hdr"), B.cal_headers(rng, **k)))
        par = B._parents(rng)
        c.raises(ValueError, lambda: data.FluxcalFactor(np.ones((1, 2)), err=np.ones((1, 1, 2)), input_dataset=par, **h(CFAMNAME="3C")), "factor-shape", "more than one number")
        for key in ("CFAMNAME", "FPAMNAME"):
            d = h(CFAMNAME="3C")
            d["ext_hdr"].remove(key)
            if key == "FPAMNAME":
                d["ext_hdr"].remove("FSAMNAME")
            c.raises(ValueError, lambda: data.FluxcalFactor(np.ones((1, 1)), err=np.ones((1, 1, 1)), input_dataset=par, **d), "factor-key", "no " + key)
        f = img(rng, np.ones((1, 1)), ext=dict(CFAMNAME="3C"))
        f.save(".")
        c.raises(ValueError, lambda: data.FluxcalFactor(f.filename), "factor-label", "another file read as a calibration factor")
        star = img(rng, p28.psf((40, 40), 20, 20, 1e4), ext=dict(CFAMNAME="3C"), pri=dict(TARGET="HD 1"))
        for fn, kw in ((fluxcal.calibrate_fluxcal_aper, dict(encircled_radius=5)), (fluxcal.calibrate_fluxcal_gauss2d, dict(fwhm=3))):
            c.raises(ValueError, lambda: fn(star, "flux", kw), "factor-star", "a star that is no standard")
    c.see("refusals", 6)
    c.sig(c.index % 3)
