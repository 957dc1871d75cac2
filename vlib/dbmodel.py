"""Plain-python model of the calibration database (from its documentation)."""
import csv
import os
import numpy as np
from astropy.time import Time

TYPE = {"NDFilterSweetSpotDataset": "NDFilterSweetSpot"}
COLS = ["Filepath", "Type", "MJD", "EXPTIME", "Files Used", "Date Created", "DRPVERSN", "OBSNUM", "NAXIS1", "NAXIS2",
        "OPMODE", "EMGAIN_C", "EXCAMT"]


def row(cal):
    """What the database must say about a calibration object."""
    e = cal.ext_hdr
    shp = np.shape(cal.data)
    return {"Filepath": os.path.abspath(os.path.join(cal.filedir, cal.filename)), "Type": TYPE.get(type(cal).__name__, type(cal).__name__),
            "MJD": Time(e["SCTSRT"]).mjd, "EXPTIME": float(e["EXPTIME"]), "Files Used": int(e.get("DRPNFILE", 0)),
            "Date Created": Time(e["DRPCTIME"]).mjd if "DRPCTIME" in e else -1.0, "DRPVERSN": str(e.get("DRPVERSN", "")),
            "OBSNUM": int(cal.pri_hdr["OBSNUM"]), "NAXIS1": int(shp[-1]), "NAXIS2": int(shp[-2]) if len(shp) > 1 else 0,
            "OPMODE": str(e["OPMODE"]), "EMGAIN_C": float(e["EMGAIN_C"]), "EXCAMT": float(e["EXCAMT"])}


def read(path):
    with open(path, newline="") as f:
        return list(csv.DictReader(f))


def same(a, b):
    """CSV text vs model value."""
    if isinstance(b, str):
        return a == b
    try:
        return abs(float(a) - b) <= 1e-9 * max(1.0, abs(b))
    except (TypeError, ValueError):
        return False


def compare(c, path, model, where):
    rows = read(path)
    c.see("db_rows_compared", len(rows))
    names = [r["Filepath"] for r in rows]
    dup = sorted({n for n in names if names.count(n) > 1})
    c.ok(not dup, "duplicate-row", "%s: %s registered more than once" % (where, dup[:2]))
    miss, extra = set(model) - set(names), set(names) - set(model)
    c.ok(not miss, "row-missing", "%s: %s not in the database" % (where, sorted(miss)[:2]))
    c.ok(not extra, "row-extra", "%s: %s should not be in the database" % (where, sorted(extra)[:2]))
    for r in rows:
        m = model.get(r["Filepath"])
        if m is None:
            continue
        for k in COLS:
            if not same(r[k], m[k]):
                c.fail("row-value:" + k, "%s: %s of %s is %r, expected %r" % (where, k, os.path.basename(r["Filepath"]), r[k], m[k]))
        if "Hash" in m:
            c.ok(r["Hash"] == m["Hash"], "row-value:Hash", "%s: hash of %s is %r, expected %r" % (
                where, os.path.basename(r["Filepath"]), r["Hash"], m["Hash"]))
    c.ok(True, "db")
