"""C30: output files are not overwritten unasked, and hold all of the output."""
import builtins
import contextlib
import io
import os
from symx import fakenc, fakefs
from symx import symstr as X
from symx.build import coord, ug, quiet_metadata, STUB_NOTE, CoordList, UngriddedDataList
from symx.harness import masked_at, val_at
import cis.parse as P
import cis.cis_main as M
import cis.data_io.data_reader as DR

fakenc.install()
quiet_metadata()
STUBS = [fakefs.NOTE, fakenc.NOTE, STUB_NOTE, X.NOTE, 'what is typed at the prompt: up to two arbitrary answers, then "y" or "n"',
         'the collocation, subsetting etc. themselves: arbitrary data on the coordinates of the sample']
BOUNDS = {'quick': 'every command which writes data or plots, with output names with and without extensions, variable prefixes and '
                   'directories, 1-2 data groups, every state of the files concerned (absent, present, link to another one), '
                   'every setting of --force-overwrite (before or after the command) and CIS_FORCE_OVERWRITE, every sequence of answers; '
                   'output names of up to 5 arbitrary characters; 1-3 collocated groups of 1-2 variables of 2 points',
          'thorough': 'names of up to 6 characters; all combinations'}
OUTSIDE = 'values of CIS_FORCE_OVERWRITE other than TRUE, FALSE (of any case) or none; files created while a command is running; names which start with dots'
ASSUMPTIONS = []
OUTPUTS = ['out', 'out.nc', 'v:out', 'v:out.nc', 'in', 'in.nc', 'b.nc', 'r1.5', 'd/out', 'd/in.nc', './in.nc', 'out.png']
COMMANDS = {'subset': (['v:in.nc'], ['x=[1,2]']), 'aggregate': (['v:in.nc'], ['x,y']), 'collapse': (['v:in.nc'], ['x']),
            'col': (['v:in.nc', 'b.nc:collocator=bin'], []), 'col2': (['v:in.nc', 'w:d/in.nc', 'b.nc:collocator=bin'], []),
            'eval': (['v:in.nc', 'w:b.nc', 'v+w', '1'], []), 'stats': (['v:in.nc', 'w:b.nc'], []),
            'plot': (['v:in.nc', 'w:b.nc'], [])}


def configs(tier):
    out = []
    k = 0
    for c in COMMANDS:
        for o in OUTPUTS + [None]:
            for flag in ('none', 'before', 'after'):
                k += 1
                if tier == 'quick' and k % 2 and c not in ('subset', 'col2') and flag != 'none':
                    continue
                out.append(dict(harness='overwrite', command=c, output=o, flag=flag, _w=3))
    for n in range(1, 6 if tier == 'quick' else 7):
        out.append(dict(harness='suffix', n=n, _w=4 ** n / 20))
    for groups in ((1,), (1, 1), (2,), (1, 2), (2, 1), (1, 1, 1)):
        for same in (False, True):
            for mask in (False, True):
                out.append(dict(harness='collocated', groups=groups, same=same, mask=mask, _w=10 ** len(groups)))
    return out


@contextlib.contextmanager
def prompting(S, answers, prompts):
    def ask(prompt=''):
        prompts.append(prompt)
        k = len(answers)
        answers.append(S.choice('answer%d' % k, ['y', 'n', '', 'Y']) if k < 2 else S.choice('last', ['n', 'y']))
        return answers[-1]
    import six
    old = builtins.input, six.moves.input
    builtins.input = six.moves.input = ask
    try:
        with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
            yield
    finally:
        builtins.input, six.moves.input = old


def overwrite(S, cfg):
    fs = fakefs.FS(S, ['in.nc', 'b.nc', 'd/in.nc', 'out.nc', 'out', 'd/out.nc', 'out.png', 'out.png.nc', 'd/out.png', 'r1.5', 'r1.5.nc',
                       'in', 'b.png', 'd/out', 'in.png'], dirs=['d'], sure=['in.nc', 'b.nc', 'd/in.nc'])
    env = S.choice('env', [None, '', 'TRUE', 'true', 'FALSE', 'False'])
    files, rest = COMMANDS[cfg['command']]
    args = [cfg['command'].rstrip('2')] + list(files) + list(rest)
    if cfg['output'] is not None:
        args += ['-o', cfg['output']]
    if cfg['flag'] != 'none':
        args.insert(0 if cfg['flag'] == 'before' else 1, '--force-overwrite')
    answers, prompts = [], []
    os.environ.pop('CIS_FORCE_OVERWRITE', None)
    if env is not None:
        os.environ['CIS_FORCE_OVERWRITE'] = env
    try:
        with fs.mounted(), prompting(S, answers, prompts):
            try:
                r = P.parse_args(args)
                status = None
            except SystemExit as e:
                status = e.code or 0
            plain = cfg['output'] if cfg['output'] is not None else (None if cfg['command'] in ('plot', 'stats') else 'out')
            if plain is None:
                S.check(status is None and r.output is None and not answers, 'nothing is asked if there is no output file')
                return
            prefix, _, plain = plain.rpartition(':')
            if cfg['command'] == 'plot':
                path = plain if os.path.splitext(plain)[1] else plain + '.png'
            else:
                path = plain if plain.endswith('.nc') else plain + '.nc'
            exists = fs.isfile(path)
            inputs = ['in.nc'] + (['b.nc'] if cfg['command'] in ('col', 'col2', 'eval', 'stats', 'plot') else []) + \
                (['d/in.nc'] if cfg['command'] == 'col2' else [])
            is_input = exists and any(fs.samefile(path, i) for i in inputs)
    finally:
        os.environ.pop('CIS_FORCE_OVERWRITE', None)
    forced = cfg['flag'] != 'none' or (env or '').lower() == 'true'
    if cfg['flag'] != 'none':
        asked, allowed = False, True
    elif env:
        asked, allowed = False, env.lower() == 'true'
    else:
        asked, allowed = True, bool(answers) and answers[-1] == 'y'
    S.check(bool(answers) == (exists and asked), 'the user is asked just if the file exists and it has not been decided otherwise')
    S.check(all(path in p for p in prompts), 'the user is told which file it is')
    if status is None:
        S.check(r.output == path, 'the output file is the one named, with its extension')
        S.check(not exists or allowed, 'an existing file is overwritten only if asked for')
        S.check(not is_input, 'an input file is never overwritten')
        S.check((r.output_var or '') == prefix, 'the name of the output variable is the one before the colon')
    else:
        S.check(exists and (not allowed or is_input), 'commands are not refused without reason', str(status))
        S.check((status == 0) == (not allowed), 'a command which would overwrite its input is an error')
    S.check(all(a not in ('y', 'n', '') for a in answers[:-1]), 'the user is asked until there is an answer')


class Parser(object):
    def error(self, msg):
        raise ValueError()

    def exit(self, *a, **k):
        raise ValueError()


def suffix(S, cfg):
    X.install(P)
    X.instrument(S, P)
    t = X.text(S, 's', cfg['n'], 'n.c:')
    colons = [i for i in range(len(t)) if t[i] == ':']

    class Args(object):
        output, force_overwrite, datagroups = t, False, []
    with fakefs.FS(S, ['x']).mounted(), symbolic_paths(S):
        try:
            P._validate_output_file(Args, Parser())
        except ValueError:
            S.check(len(colons) > 1, 'names with one colon at most are accepted')
            return
    S.check(len(colons) < 2, 'more than one colon is an error')
    name = t[colons[0] + 1:] if colons else t
    if colons:
        S.check(Args.output_var == t[:colons[0]], 'the variable is what is before the colon')
    else:
        S.check(Args.output_var is None, 'there is no variable without a colon')
    got = Args.output
    S.check(bool(got == name + '.nc') or bool(got == name), 'only an extension is added to the name')
    S.check(got[-3:] == '.nc', 'output files have the extension .nc')
    if len(name) > 3 and name[-3:] == '.nc' and not bool(name[0] == '.'):
        S.check(got == name, 'the extension is not added twice')


@contextlib.contextmanager
def symbolic_paths(S):
    old = os.path.splitext

    def splitext(p):
        if type(p) is not X.SymStr:
            return old(p)
        k = p.rfind('.')
        if k <= p.rfind('/'):
            return p, ''
        i = p.rfind('/') + 1
        while i < k:
            if not bool(p[i] == '.'):
                return p[:k], p[k:]
            i += 1
        return p, ''
    os.path.splitext = splitext
    try:
        yield
    finally:
        os.path.splitext = old


class Reader(object):
    """stands in for DataReader"""
    data = None

    def read_coordinates(self, *a):
        return 'sample'

    def read_data_list(self, *a):
        return ['sample']

    def read_single_datagroup(self, group):
        return Reader.data[group]


class Collocatable(object):
    def __init__(self, out):
        self.out = out

    def collocated_onto(self, sample, **kw):
        return self.out


def collocated(S, cfg):
    import netCDF4
    fakenc.fresh()
    names = ('latitude', 'longitude')
    cs = {c: S.reals(c[:3], 2, -80, 80) for c in names}
    Reader.data, vars_ = {}, []
    for g, k in enumerate(cfg['groups']):
        ds = []
        for j in range(k):
            vals = S.reals('d%d%d_' % (g, j), 2, -1000, 1000)
            miss = S.missing('m%d%d_' % (g, j), 2) if cfg['mask'] and g == 0 else [False, False]
            name = 'rain%d' % j if cfg['same'] else 'rain%d%d' % (g, j)
            d = ug(S, vals, CoordList([coord(S, c, cs[c], var_name=c[:3]) for c in names]), mask=miss, name=name)
            d.metadata.missing_value = -9999.0
            ds.append(d)
            vars_.append((name, vals, miss))
        Reader.data[g] = Collocatable(UngriddedDataList(ds))

    class Args(object):
        samplevariable, samplefiles, sampleproduct = None, ['s.nc'], None
        samplegroup = {'collocator': ('bin', {})}
        datagroups = list(range(len(cfg['groups'])))
        output = fakenc.path('c30')
    old = M.DataReader
    M.DataReader = Reader
    try:
        M.col_cmd(Args)
    finally:
        M.DataReader = old
    nc = netCDF4.Dataset(Args.output)
    got = {v: nc.variables[v][:] for v in nc.variables}
    nc.close()
    for name, vals, miss in vars_:
        S.check(any(v.startswith(name) and a.size == 2 and
                    all(masked_at(a, i) == bool(miss[i]) and (bool(miss[i]) or bool(S.eq(val_at(a, i), vals[i]))) for i in range(2))
                    for v, a in got.items()), 'the output file has the variables of all of the data groups')
    for c in cs:
        S.check(all(bool(S.eq(val_at(got[c], i), cs[c][i])) for i in range(2)), 'the output file has the coordinates of the sample')


HARNESSES = {'overwrite': overwrite, 'suffix': suffix, 'collocated': collocated}
