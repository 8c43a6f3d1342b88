"""Environment model of the TargetCalib library (not installable offline).

Only the calls CHECLabPy makes are modelled.  The camera has up to 32 modules
of 8x8 pixels on a 6x6 grid without its corners; a module has 16 superpixels
of 2x2 pixels.  Pixels are numbered so that superpixel = pixel // 4.
"""
import os
import numpy as np
import pandas as pd

HERE = os.path.dirname(os.path.abspath(__file__))
REFERENCE_PULSE_PATH = os.path.join(HERE, "reference_pulse.txt")
PIXEL_SIZE = 0.00675
GAP = 0.0021

# calls made on the environment, for checks that look at them
CALLS = []


def tm_grid():
    """(module row, module column) of each slot"""
    grid = []
    for r in range(6):
        for c in range(6):
            if r in (0, 5) and c in (0, 5):
                continue
            grid.append((r, c))
    return grid


def build_dataframe(n_modules):
    rows = []
    grid = tm_grid() if n_modules > 1 else [(0, 0)]
    pixel = 0
    for slot in range(n_modules):
        tr, tc = grid[slot]
        for tmpix in range(64):
            sp, inner = divmod(tmpix, 4)
            spr, spc = divmod(sp, 4)
            ir, ic = divmod(inner, 2)
            row = tr * 8 + spr * 2 + ir
            col = tc * 8 + spc * 2 + ic
            rows.append(dict(
                pixel=pixel, slot=slot, asic=tmpix // 16, channel=tmpix % 16,
                tmpix=tmpix, row=row, col=col, sipmpix=tmpix,
                superpixel=slot * 16 + sp,
                xpix=col * PIXEL_SIZE + tc * GAP,
                ypix=row * PIXEL_SIZE + tr * GAP,
            ))
            pixel += 1
    df = pd.DataFrame(rows)
    if n_modules > 1:
        df['xpix'] -= (47 * PIXEL_SIZE + 5 * GAP) / 2
        df['ypix'] -= (47 * PIXEL_SIZE + 5 * GAP) / 2
    return df


class Mapping:
    fOTUpRow_l, fOTUpRow_u = 1, 3
    fOTUpCol_l, fOTUpCol_u = 2, 5
    fOTUpX_l, fOTUpX_u = -0.15, -0.11
    fOTUpY_l, fOTUpY_u = -0.16, -0.13

    def __init__(self, cfgfile, is_single_module=False):
        if not isinstance(cfgfile, str):
            raise TypeError("cfgfile must be a string")
        self.cfgfile = cfgfile
        self.single = bool(is_single_module)
        self.n_modules = 1 if self.single else 32
        self.df = build_dataframe(self.n_modules)

    def as_dataframe(self):
        return self.df.copy()

    def GetCfgPath(self):
        return self.cfgfile

    def IsSingleModule(self):
        return self.single

    def GetNPixels(self):
        return self.n_modules * 64

    def GetNModules(self):
        return self.n_modules

    def GetNTMPix(self):
        return 64

    def GetNSuperPixels(self):
        return self.n_modules * 16

    def GetNRows(self):
        return int(self.df['row'].max() + 1)

    def GetNColumns(self):
        return int(self.df['col'].max() + 1)

    def GetSize(self):
        return PIXEL_SIZE


class CameraConfiguration:
    def __init__(self, version):
        if not isinstance(version, str):
            raise TypeError("camera version must be a string")
        CALLS.append(("CameraConfiguration", version))
        self.version = version

    def GetMapping(self, singleModule=False):
        CALLS.append(("GetMapping", bool(singleModule)))
        return Mapping("/cfg/camera_%s.cfg" % self.version, singleModule)

    def GetNCells(self):
        return 4096

    def GetVersion(self):
        return self.version

    def GetReferencePulsePath(self):
        return REFERENCE_PULSE_PATH


class Calibrator:
    """calibrated = raw - pedestal(pixel) - 0.25 * (first cell id % 4)"""
    def __init__(self, path):
        self.path = path

    def ApplyEvent(self, waveforms, fci, out):
        if waveforms.dtype != np.uint16:
            raise TypeError("R0 waveforms are uint16")
        if fci.dtype != np.uint16 or fci.shape != (waveforms.shape[0],):
            raise TypeError("one uint16 first cell id per pixel")
        if out.dtype != np.float32:
            raise TypeError("R1 waveforms are float32")
        ped = 100 + np.arange(waveforms.shape[0]) % 7
        out[...] = (np.asarray(waveforms, dtype=np.float32)
                    - ped[:, None] - 0.25 * (fci % 4)[:, None])


class CalibratorMultiFile(Calibrator):
    def __init__(self, path, sn_list):
        super().__init__(path)
        self.sn_list = list(sn_list)
        CALLS.append(("CalibratorMultiFile", path, tuple(self.sn_list)))
