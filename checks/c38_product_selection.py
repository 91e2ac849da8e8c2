"""C38: files are read by the product whose signature they have, of the highest priority, or by the product which is named."""
import contextlib
import importlib
import os
import sys
from symx import fakenc
from symx import symstr as X
from symx.build import quiet_metadata, STUB_NOTE
import cis
import cis.plugin as plugin
from cis.exceptions import ClassNotFoundError
import cis.data_io.products.products as PP
from cis.data_io.products.AProduct import AProduct, get_data, get_coordinates, get_variables, get_product_full_name
from cis.data_io.products.NCAR_NetCDF_RAF import NCAR_NetCDF_RAF

AP = importlib.import_module('cis.data_io.products.AProduct')
fakenc.install()
quiet_metadata()
STUBS = [X.NOTE, fakenc.NOTE, 'made-up products, for the order of the products: arbitrary priorities, signatures and verdicts on the file',
         'os.path.basename of symbolic strings']
BOUNDS = {'quick': 'the signatures of all of the products of CIS, with 0-2 arbitrary characters in front, 0-1 between and 0-1 after them; 1-3 made-up '
                   'products of arbitrary priority; signatures of several forms and names of files of up to 4 arbitrary characters; global '
                   'attributes of netCDF files with 1-4 arbitrary characters; trees of up to 4 classes, abstract or not',
          'thorough': 'up to 4 made-up products, names of up to 5 characters, trees of up to 5 classes'}
OUTSIDE = 'the files of a directory of plugins (importing them); signatures with inline flags; longer names'
ASSUMPTIONS = []

# what the documentation says: (parts of the name in order, the last one at its end; whether the first one is at its start)
SIGNATURES = [
    ('Aeronet', ['.lev20'], False), ('Aeronet', ['.lev15'], False), ('Aeronet', ['.ONEILL_lev20'], False), ('Aeronet', ['.all'], False),
    ('Aerosol_CCI_L2', ['ESACCI-L2P_AEROSOL', '.nc'], False), ('Aerosol_CCI_L3', ['ESACCI-L3C_AEROSOL', '.nc'], False),
    ('Cloud_CCI_L2', ['ESACCI-L2_CLOUD', '.nc'], False), ('Cloud_CCI_L3', ['ESACCI-L3C_CLOUD', '.nc'], False),
    ('Cloud_CCI_L3', ['ESACCI-L3U_CLOUD', '.nc'], False),
    ('Caliop_L1', ['CAL_LID_L1', '.hdf'], True), ('Caliop_L2', ['CAL_LID_L2_05kmAPro', '.hdf'], True),
    ('CloudSat', ['_CS_', 'GRANULE', '.hdf'], False), ('ASCII_Hyperpoints', ['.txt'], False), ('HadGEM_PP', ['.pp'], False),
    ('EarthCARE_MSI_ATL', ['ATL_EBD_2A', '.h5'], False), ('EarthCARE_MSI_ATL', ['MSI_AOT_2A', '.h5'], False),
    ('MODIS_L2', ['MYD06_L2', '.hdf'], False), ('MODIS_L2', ['MOD04_L2', '.hdf'], False), ('MODIS_L3', ['MYD08_D3', '.hdf'], False),
    ('MODIS_L3', ['MOD08_E3', '.hdf'], False), ('NetCDF_Gridded', ['.nc'], False)]
PATTERNS = [r'a', r'a|b', r'a|ab', r'.*a', r'a.*', r'(a|b)b', r'a\.b', r'[ab]+', r'.*a$', r'.*a|.*b', r'a?b?']


def configs(tier):
    q = tier == 'quick'
    out = []
    for k in range(len(SIGNATURES)):
        for pre in ((0, 1) if q else (0, 1, 2)):
            for mid in ((0, 1) if len(SIGNATURES[k][1]) > 1 else (0,)):
                for post in (0, 1):
                    if q and len(SIGNATURES[k][1]) > 1 and pre != mid:
                        continue
                    for case in ('', 'upper', 'lower'):
                        if not q or case == ['', 'upper', 'lower'][(k + pre + post) % 3]:
                            out.append(dict(harness='builtin', k=k, pre=pre, mid=mid, post=post, case=case, _w=5 * 4 ** (pre + mid + post)))
    out.append(dict(harness='convsh', _w=60))
    for n in range(1, 4 if q else 5):
        for named in (None, 0, n - 1, 'no'):
            if named is None or named == 'no' or n > 1:
                out.append(dict(harness='ranking', n=n, named=named, _w=10 ** n / (1 if named is None else 10)))
    for p in range(len(PATTERNS)):
        for n in range(1, 5 if q else 6):
            out.append(dict(harness='signature', p=p, n=n, _w=3 ** n))
    for src in ((None, 3, 4) if q else (None, 1, 3, 4, 5)):
        for conv in (None, 'nimbus', 'text'):
            for gassp in (None, 'GASSP_Version', 'gassp_version'):
                out.append(dict(harness='attributes', source=src, conventions=conv, gassp=gassp, _w=20))
    for n in range(1, 5 if q else 6):
        out.append(dict(harness='classes', n=n, _w=5 ** n))
    for what in ('data', 'coordinates', 'variables'):
        out.append(dict(harness='calls', what=what, _w=2))
    return out


@contextlib.contextmanager
def symbolic_modules(S):
    """`re` and os.path.basename for symbolic strings"""
    if not S.symbolic:
        yield
        return
    real, base, split = sys.modules['re'], os.path.basename, os.path.split

    def basename(p):
        return p[p.rfind('/') + 1:] if type(p) is X.SymStr else base(p)

    def split_(p):
        k = p.rfind('/') + 1
        return (p[:k].rstrip('/'), p[k:]) if type(p) is X.SymStr else split(p)
    sys.modules['re'], os.path.basename, os.path.split = X.re, basename, split_
    try:
        yield
    finally:
        sys.modules['re'], os.path.basename, os.path.split = real, base, split


@contextlib.contextmanager
def patched(*items):
    old = [(o, k, getattr(o, k)) for o, k, v in items]
    for o, k, v in items:
        setattr(o, k, v)
    try:
        yield
    finally:
        for o, k, v in old:
            setattr(o, k, v)


def selected(S, filename, product=None):
    """the name of the product which is selected, None if there is none"""
    X.install(AP)
    with symbolic_modules(S):
        try:
            return AP.get_product_full_name([filename], product).split('/')[1]
        except ClassNotFoundError:
            return None


def builtin(S, cfg):
    name, parts, anchored = SIGNATURES[cfg['k']]
    parts = [getattr(p, cfg['case'])() if cfg['case'] else p for p in parts]
    pre, mid, post = (X.text(S, k, cfg[k], 'aZ_.') for k in ('pre', 'mid', 'post'))
    f = pre + parts[0]
    for p in parts[1:]:
        f = f + mid + p
    f = 'x.pp/' + f + post
    is_cis, is_ncar = S.bool('cis'), S.bool('ncar')
    asked = []

    def error(which, verdict):
        def get(self, filename):
            asked.append(filename)
            return None if verdict else ['not of %s' % which]
        return get
    with patched((PP.cis, 'get_file_type_error', error('cis', is_cis)), (NCAR_NetCDF_RAF, 'get_file_type_error', error('ncar', is_ncar))):
        got = selected(S, f)
    if parts[-1].lower() == '.nc' and cfg['post'] == 0 and bool(is_cis):
        want = 'cis'
    elif parts[-1].lower() == '.nc' and cfg['post'] == 0 and bool(is_ncar):
        want = 'NCAR_NetCDF_RAF'
    elif cfg['post'] and name not in ('Aerosol_CCI_L2', 'Cloud_CCI_L2') or anchored and cfg['pre']:
        want = None
    else:
        want = name
    S.check(got == want, 'a file is read by the product which has its signature', '%s, not %s' % (got, want))
    S.check(all(bool(a == f) for a in asked), 'products are asked about the file itself')


def convsh(S, cfg):
    c = X.text(S, 'c', 3, 'a0._')
    f = 'abcde' + c[0] + c[1] + 'pm' + c[2] + '123.nc'
    with patched((PP.cis, 'get_file_type_error', lambda self, f: ['no']), (NCAR_NetCDF_RAF, 'get_file_type_error', lambda self, f: ['no'])):
        got = selected(S, f)
    hadgem = bool((c[0] == 'a') & ((c[1] == '.') | (c[1] == '_')) & (c[2] == '0'))
    S.check(got == ('HadGEM_CONVSH' if hadgem else 'NetCDF_Gridded'), 'a file is read by the product which has its signature', str(got))


class Fake(object):
    """a made-up product"""

    def get_file_signature(self):
        return type(self).signature

    def get_file_type_error(self, filename):
        type(self).asked.append(filename)
        return type(self).verdict


def made_up(S, n, signatures=None):
    out = []
    for i in range(n):
        if signatures is None:
            sig = S.choice('sig%d' % i, [['no', 'f.x'], ['f.x'], ['no']] if i == 0 else [['no', 'f.x'], ['no']])
        else:
            sig = signatures[i]
        out.append(type('P%d' % i, (Fake,), dict(signature=sig, asked=[], verdict=S.choice('verdict%d' % i, [None, ['wrong'], []] if i == 0 else [None, ['wrong']])
                                                 if signatures is None else None, priority=S.int('priority%d' % i, -100, 200))))
    return out


def ranking(S, cfg):
    classes = made_up(S, cfg['n'])
    named = cfg['named']
    name = None if named is None else 'P%s' % named
    order = S.choice('order', [1, -1]) if cfg['n'] > 1 else 1
    with patched((plugin, 'find_plugins', lambda *a: []), (plugin, 'get_all_subclasses', lambda *a: classes[::order])):
        got = selected(S, 'd/f.x', name)
    if named is not None:
        S.check(got == (name if named != 'no' else None), 'the product which is named is the one which is used', str(got))
        S.check(all(not c.asked for c in classes), 'the product which is named is used whatever the file')
        return
    fits = [c for c in classes if 'f.x' in c.signature and c.verdict is None]
    S.check((got is None) == (not fits), 'it is an error if there is no product for a file', str(got))
    for c in classes:
        S.check(all(a == 'd/f.x' for a in c.asked), 'products are asked about the file with its path')
        if c.__name__ == got:
            S.check(c in fits, 'a product has the signature of the file and accepts it')
            for i, o in enumerate(fits):
                S.check(o.priority <= c.priority, 'the product of the highest priority is used')
                if o.__name__ < got:
                    S.check(o.priority < c.priority, 'of products of the same priority, the first by name is used')


def signature(S, cfg):
    pat = PATTERNS[cfg['p']]
    classes = made_up(S, 2, [[pat], ['zzz', pat]])
    f = X.text(S, 'f', cfg['n'], 'aB.\n')
    with patched((plugin, 'find_plugins', lambda *a: []), (plugin, 'get_all_subclasses', lambda *a: classes)):
        got = selected(S, f)
    whole = X.re.fullmatch(pat, f, X.re.I) is not None
    if pat.endswith('$') and f[-1] == '\n':
        whole = whole or X.re.match(pat, f, X.re.I) is not None
        return S.check(whole or got is None, 'a signature stands for the whole of the name')
    S.check((got is not None) == whole, 'a signature stands for the whole of the name, in upper or lower case')


def attributes(S, cfg):
    fakenc.fresh()
    atts = {}
    if cfg['source'] is not None:
        atts['source'] = X.text(S, 'source', cfg['source'], 'CISx')
    if cfg['conventions'] == 'nimbus':
        atts['Conventions'] = 'NCAR-RAF/nimbu' + X.text(S, 'conv', 1, 'stS')
    elif cfg['conventions'] == 'text':
        atts[S.choice('name', ['conventions', 'Conventions'])] = 'CF-1.' + X.text(S, 'conv', 1, '0123456789')
    if cfg['gassp'] is not None:
        atts[cfg['gassp']] = '1.' + X.text(S, 'gassp', 1, '0123456789')
    f = fakenc.path('some', '.nc')
    fakenc.write(S, f, [('v', [S.real('v')], ['x'], {}, None)], attrs=atts)
    got = selected(S, f)
    if cfg['source'] is not None and bool(atts['source'][:3] == 'CIS'):
        want = 'cis'
    elif cfg['gassp'] is not None or cfg['conventions'] == 'nimbus' and bool(atts['Conventions'] == 'NCAR-RAF/nimbus'):
        want = 'NCAR_NetCDF_RAF'
    else:
        want = 'NetCDF_Gridded'
    S.check(got == want, 'netCDF files are read as their attributes say', '%s, not %s' % (got, want))


def classes(S, cfg):
    class Root(object):
        pass
    made = [Root]
    for i in range(cfg['n']):
        base = made[S.int('base%d' % i, 0, i)] if not S.symbolic else made[S.choice('base%d' % i, list(range(i + 1)))]
        name = S.choice('abstract%d' % i, ['', 'abstract', 'Abstract']) if i < 3 else S.choice('abstract%d' % i, ['', 'abstract'])
        made.append(type('%s%s' % (name, 'DBCAE'[i]), (base,), {}))
    os.environ.pop('CIS_PLUGIN_HOME', None)
    got = plugin.find_plugin_classes(Root, 'cis.data_io.products', False)
    want = sorted((c for c in made[1:] if not c.__name__.lower().startswith('abstract')), key=lambda c: c.__name__)
    S.check(got == want, 'the products are all of the classes which are not abstract, sorted by name', repr((got, want)))


class Trouble(Exception):
    pass


def calls(S, cfg):
    kind = S.choice('outcome', ['fine', 'error', 'message', 'number'])
    product = S.choice('named', [None, 'P0'])
    seen = []

    def do(self, *a):
        seen.append(a)
        if kind == 'fine':
            return 'result'
        raise Trouble(*{'error': (), 'message': ('m',), 'number': (3, 'n')}[kind])
    c = type('P0', (Fake,), dict(priority=10, signature=['f.x'], asked=[], verdict=None, create_data_object=do, create_coords=do, get_variable_names=do))
    files = ['d/f.x', 'g.y']
    call = {'data': lambda: AP.get_data(files, 'v', product), 'coordinates': lambda: AP.get_coordinates(files, product),
            'variables': lambda: AP.get_variables(files, product, 'SD')}[cfg['what']]
    with patched((plugin, 'find_plugins', lambda *a: []), (plugin, 'get_all_subclasses', lambda *a: [c])):
        try:
            r = call()
        except AP.ProductPluginException as e:
            S.check(kind != 'fine' and isinstance(e.original_exception, Trouble), 'what goes wrong in a product is reported')
            S.check('P0' in str(e), 'the user is told which product it was')
            r = None
    S.check((r == 'result') == (kind == 'fine'), 'the result is that of the product')
    S.check(seen == [{'data': (files, 'v'), 'coordinates': (files,), 'variables': (files, 'SD')}[cfg['what']]],
            'the product is given all of the files')


HARNESSES = dict(builtin=builtin, convsh=convsh, ranking=ranking, signature=signature, attributes=attributes, classes=classes, calls=calls)
