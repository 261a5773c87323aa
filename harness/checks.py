"""The checks: for each property, which model checks, generated behaviours and
recorded histories decide it."""
import json, os
import vlib
from vlib import Check, build, gen_behaviours, model_check, run_driver, validate, TIER

THOROUGH = TIER == 'thorough'


def n(quick, thorough=None):
    return (thorough if thorough is not None else quick * 10) if THOROUGH else quick


def mc(c, sc, spec, cfg=None, thorough_cfg=None, **kw):
    """Exhaustive check of a specification."""
    cfg = cfg or spec
    if THOROUGH and thorough_cfg:
        cfg = thorough_cfg
    R = model_check(spec, cfg, sc, workers=8, timeout=840, heap='8g', **kw)
    c.add_mc(cfg, R)


def traces(c, bld, sc, driver, spec, mode, num, label=None, known=None, tag='', extra=(), shards=0):
    shards = shards or (4 if THOROUGH and num >= 100 else 1)
    trs = vlib.run_shards(bld, driver, mode, num, sc, shards, timeout=800, tag=tag or '-' + mode.replace(',', '-'), extra=extra)
    rej, st = validate(spec, spec, trs, sc, timeout=800, workers=6)
    c.add_traces(trs, rej, st, label or '%s %s' % (driver, mode), known)
    return trs


def replayed(c, bld, sc, driver, trace_spec, gen_spec, cfg, num, depth, known=None, tag=''):
    R, behs = gen_behaviours(gen_spec, cfg, sc, num, depth, seed=vlib.SEED)
    if len(behs) < num // 2:
        raise vlib.MachineryError('only %d behaviours were generated' % len(behs))
    c.add_mc(cfg, R)
    f = os.path.join(sc, 'behs-%s.json' % cfg)
    with open(f, 'w') as fh:
        json.dump(behs, fh)
    trs = run_driver(bld, driver, ['--mode', 'behaviours', '--behs', f], sc, tag='-' + cfg, timeout=800)
    rej, st = validate(trace_spec, trace_spec, trs, sc, timeout=800, workers=6)
    c.cov['behaviours_generated'] = c.cov.get('behaviours_generated', 0) + len(behs)
    c.add_traces(trs, rej, st, 'replay of %s' % cfg, known)


# ---------------------------------------------------------------- UV data sets
def U01(c, bld, sc):
    mc(c, sc, 'UVMC', 'UVMC', 'UVMCBig')
    replayed(c, bld, sc, 'uv', 'UVTrace', 'UVGen', 'UVGen', n(60, 700), 420)
    traces(c, bld, sc, 'uv', 'UVTrace', 'records', n(42, 250))
    traces(c, bld, sc, 'uv', 'UVTrace', 'wide', 3, known=wide)


def wide(t, r):
    o = r.get('observed', {})
    if t['meta'].get('history') == 'wide' and r.get('op') == 'read' and o.get('k') == 'err':
        return 'record wider than the first'
    return None


def U02(c, bld, sc):
    mc(c, sc, 'UVMC', 'UVMCVars', 'UVMCVarsBig')
    replayed(c, bld, sc, 'uv', 'UVTrace', 'UVGen', 'UVGen', n(60, 700), 420)
    traces(c, bld, sc, 'uv', 'UVTrace', 'vars', n(48, 350))


def U03(c, bld, sc):
    mc(c, sc, 'UVMC', 'UVMCApp', 'UVMCAppBig')
    replayed(c, bld, sc, 'uv', 'UVTrace', 'UVGen', 'UVGenApp', n(60, 700), 420)
    traces(c, bld, sc, 'uv', 'UVTrace', 'append', n(48, 350))


def U04(c, bld, sc):
    mc(c, sc, 'UVMC', 'UVMC', 'UVMCBig')
    replayed(c, bld, sc, 'uv', 'UVTrace', 'UVGen', 'UVGen', n(100, 800), 420)
    traces(c, bld, sc, 'uv', 'UVTrace', 'multi', n(80, 1500))
    traces(c, bld, sc, 'uv', 'UVTrace', 'manybad', n(3, 10))


def U05(c, bld, sc):
    mc(c, sc, 'UVSel', 'UVSel', 'UVSelBig')
    mc(c, sc, 'UVMC', 'UVMCSel', 'UVMCSelBig')
    replayed(c, bld, sc, 'uv', 'UVTrace', 'UVGen', 'UVGenSel', n(60, 700), 420)
    traces(c, bld, sc, 'uv', 'UVTrace', 'select', n(100, 800))
    traces(c, bld, sc, 'uv', 'UVTrace', 'kinds', n(100, 800))


def U06(c, bld, sc):
    mc(c, sc, 'UVPipeMC', 'UVPipeMC', 'UVPipeMCBig')
    replayed(c, bld, sc, 'uv', 'UVTrace', 'UVGen', 'UVGenPipe', n(80, 700), 420)
    traces(c, bld, sc, 'uv', 'UVTrace', 'pipe', n(120, 2000))


def U07(c, bld, sc):
    mc(c, sc, 'AntsMC', 'AntsMCBl', 'AntsMCBlBig')
    traces(c, bld, sc, 'ants', 'AntsTrace', 'codes', 1)


def U08(c, bld, sc):
    mc(c, sc, 'ScaleMC', 'ScaleMC', 'ScaleMCBig')
    traces(c, bld, sc, 'scale', 'ScaleTrace', 'j', n(120, 1500))


def U09(c, bld, sc):
    mc(c, sc, 'AntsMC', 'AntsMC', 'AntsMCBig')
    traces(c, bld, sc, 'ants', 'AntsTrace', 'files', n(40, 500))


def S01(c, bld, sc):
    mc(c, sc, 'AntsMC', 'AntsMC', 'AntsMCBig')
    traces(c, bld, sc, 'ants', 'AntsTrace', 'parse', n(80, 1000))
    traces(c, bld, sc, 'ants', 'AntsTrace', 'uvsel', n(40, 500))


def S02(c, bld, sc):
    mc(c, sc, 'StringsMC', 'StringsMC', 'StringsMCBig')
    traces(c, bld, sc, 'strings', 'StringsTrace', 'chans', n(60, 800))
    traces(c, bld, sc, 'strings', 'StringsTrace', 'srcs', n(60, 800))


def S03(c, bld, sc):
    mc(c, sc, 'StringsMC', 'StringsMC', 'StringsMCBig')
    traces(c, bld, sc, 'strings', 'StringsTrace', 'prms', n(80, 1000))


# ---------------------------------------------------------------- parameters
def P01(c, bld, sc):
    mc(c, sc, 'ParamsMC', 'ParamsMC', 'ParamsMCBig')
    traces(c, bld, sc, 'params', 'ParamsTrace', 'flat', n(120, 2000))


def P02(c, bld, sc):
    mc(c, sc, 'ParamsMC', 'ParamsMC', 'ParamsMCBig')
    traces(c, bld, sc, 'params', 'ParamsTrace', 'srcs', n(120, 1500))
    traces(c, bld, sc, 'params', 'ParamsTrace', 'ants', n(120, 1500))


# ---------------------------------------------------------------- arrays
def A01(c, bld, sc):
    mc(c, sc, 'ArrayMC', 'ArrayMC', 'ArrayMCBig')
    traces(c, bld, sc, 'array', 'ArrayTrace', 'sim', n(250, 3000))


def A02(c, bld, sc):
    mc(c, sc, 'ArrayMC', 'ArrayMC', 'ArrayMCBig')
    traces(c, bld, sc, 'array', 'ArrayTrace', 'geo', n(250, 3000))


def A03(c, bld, sc):
    mc(c, sc, 'BeamsMC', 'BeamsMC', 'BeamsMCBig')
    traces(c, bld, sc, 'beams', 'BeamsTrace', 'beams', n(300, 5000))


# ---------------------------------------------------------------- catalogues
def C01(c, bld, sc):
    mc(c, sc, 'CatalogMC', 'CatalogMC', 'CatalogMCBig')
    traces(c, bld, sc, 'catalog', 'CatalogTrace', 'history', n(220, 4000))
    traces(c, bld, sc, 'catalog', 'CatalogTrace', 'real', n(25, 300))


def C02(c, bld, sc):
    mc(c, sc, 'CatalogMC', 'CatalogMC', 'CatalogMCBig')
    traces(c, bld, sc, 'catalog', 'CatalogTrace', 'format', n(240, 4500))
    traces(c, bld, sc, 'catalog', 'CatalogTrace', 'builtin', 8)


# ---------------------------------------------------------------- maps
def C03(c, bld, sc):
    mc(c, sc, 'SrcListMC', 'SrcListMC', 'SrcListMCBig')
    traces(c, bld, sc, 'srclist', 'SrcListTrace', '', n(120, 1500))


def M01(c, bld, sc):
    mc(c, sc, 'HealpixMC', 'HealpixMC', 'HealpixMCBig')
    traces(c, bld, sc, 'hpx', 'HealpixTrace', 'maps', n(260, 5000))
    traces(c, bld, sc, 'hpx', 'HealpixTrace', 'grid', n(40, 600))


def M02(c, bld, sc):
    mc(c, sc, 'HealpixMC', 'HealpixMC', 'HealpixMCBig')
    traces(c, bld, sc, 'hpx', 'HealpixTrace', 'sky', n(300, 5000))


def M03(c, bld, sc):
    mc(c, sc, 'AlmMC', 'AlmMC', 'AlmMCBig')
    traces(c, bld, sc, 'alm', 'AlmTrace', 'coefs', n(400, 8000))
    traces(c, bld, sc, 'alm', 'AlmTrace', 'values', n(200, 4000))


def D01(c, bld, sc):
    mc(c, sc, 'CleanMC', 'CleanMC', 'CleanMCBig')
    traces(c, bld, sc, 'clean', 'CleanTrace', 'exact', n(1000, 20000))
    traces(c, bld, sc, 'clean', 'CleanTrace', 'laws', n(1000, 20000))


# ---------------------------------------------------------------- images
def I01(c, bld, sc):
    mc(c, sc, 'GridMC', 'GridMC', 'GridMCBig')
    traces(c, bld, sc, 'grid', 'GridTrace', 'planes', n(700, 12000))
    traces(c, bld, sc, 'grid', 'GridTrace', 'arrays', n(700, 15000))


def I02(c, bld, sc):
    mc(c, sc, 'FitsMC', 'FitsMC', 'FitsMCBig')
    traces(c, bld, sc, 'fits', 'FitsTrace', '', n(500, 10000))


# ---------------------------------------------------------------- coordinates
def K01(c, bld, sc):
    mc(c, sc, 'CoordMC', 'CoordMC', 'CoordMCBig')
    mc(c, sc, 'CoordMC', 'CoordMCSys', 'CoordMCSys')
    traces(c, bld, sc, 'coord', 'CoordTrace', 'walk', n(900, 20000))
    traces(c, bld, sc, 'coord', 'CoordTrace', 'systems', n(500, 10000))
    traces(c, bld, sc, 'coord', 'CoordTrace', 'places', n(400, 8000))


def X01(c, bld, sc):
    mc(c, sc, 'ScriptsMC', 'ScriptsMC', 'ScriptsMCBig')
    traces(c, bld, sc, 'scripts', 'ScriptsTrace', 'data', n(210, 1500), shards=6)


def X02(c, bld, sc):
    mc(c, sc, 'ScriptsMC', 'ScriptsMC', 'ScriptsMCBig')
    traces(c, bld, sc, 'scripts', 'ScriptsTrace', 'flags', n(210, 1500), shards=6)


def X03(c, bld, sc):
    mc(c, sc, 'ScriptsMC', 'ScriptsMC', 'ScriptsMCBig')
    traces(c, bld, sc, 'scripts', 'ScriptsTrace', 'cal', n(210, 1500), shards=6)


def X04(c, bld, sc):
    mc(c, sc, 'ImagingMC', 'ImagingMC', 'ImagingMCBig')
    traces(c, bld, sc, 'imaging', 'ImagingTrace', '', n(210, 2000), shards=6)


def X05(c, bld, sc):
    mc(c, sc, 'FitMC', 'FitMC', 'FitMCBig')
    traces(c, bld, sc, 'fitmdl', 'FitTrace', '', n(120, 1200), shards=6)


def X06(c, bld, sc):
    mc(c, sc, 'FilterMC', 'FilterMC', 'FilterMCBig')
    traces(c, bld, sc, 'filtersrc', 'FilterTrace', 'histories', n(240, 2400), shards=6)


ALL = {k: v for k, v in globals().items() if len(k) == 3 and k[0].isupper() and k[1:].isdigit()}
