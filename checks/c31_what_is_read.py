"""C31: the files and variables which are read are exactly those which the user named."""
import importlib
import os
import cis
import cis.data_io.data_reader as DR
import cis.parse as P
from symx import fakefs
from symx import symstr as X
from symx.build import quiet_metadata, STUB_NOTE
from cis.data_io.ungridded_data import UngriddedData

AP = importlib.import_module('cis.data_io.products.AProduct')
quiet_metadata()
STUBS = [fakefs.NOTE, X.NOTE, 'the product which reads the files: knows an arbitrary set of variables and records what it is asked for',
         'fnmatch.filter/fnmatch/fnmatchcase, while exploring: the meaning of * and ? as Python documents it, of symbolic strings']
BOUNDS = {'quick': 'lists of 1-3 names, directories and wildcards (as one string or as a list) over 8 names (one hidden) which may or may not be files, '
                   '2 directories; 1-2 names or wildcards of variables of 1-2 arbitrary characters of "a", "b", "*", "?" each, with and '
                   'without aliases, of files with 1-2 variables of 1-2 arbitrary characters',
          'thorough': 'up to 4 names; 1-3 variables'}
OUTSIDE = 'names with [ ] { } in them, directories the user may not read; more variables and longer names'
ASSUMPTIONS = ['the names of the variables of a file differ']
FILES = ['a', 'ab', 'b', 'd/.h', 'd/a', 'd/b', 'd/e/a', 'f/c']
DIRS = ['d', 'd/e', 'f']
PICK = ['a', 'b', 'd', 'd/', 'd/a', '*', '?', 'a*', 'd/*', 'd/.*', '*/a', 'f', 'z', 'z*']


def configs(tier):
    out = []
    for n in range(1, 4 if tier == 'quick' else 5):
        for first in PICK:
            for how in ('string', 'list'):
                if n > 1 and how == 'list' and tier == 'quick':
                    continue
                if n < 3:
                    out.append(dict(harness='files', n=n, first=[first], how=how, _w=3 ** n))
                else:
                    for second in (PICK if tier != 'quick' else ['a', 'd', '*', 'd/*']):
                        out.append(dict(harness='files', n=n, first=[first, second], how=how, _w=3 ** n))
    shapes = [((1,), (1,)), ((1,), (2,)), ((2,), (2,)), ((1,), (1, 1)), ((2,), (1, 2)), ((1, 1), (1,)), ((1, 1), (1, 1)), ((1, 2), (2,)),
              ((2, 1), (1,)), ((2, 1), (1, 2))]
    if tier != 'quick':
        shapes += [((2, 2), (2, 1)), ((2, 2), (2, 2)), ((1, 1, 1), (1, 1)), ((1, 1, 2), (2, 1)), ((3,), (2, 1))]
    for specs, have in shapes:
        for aliases in ('none', 'own', 'given', 'fewer', 'more'):
            if aliases == 'fewer' and len(specs) == 1:
                continue
            out.append(dict(harness='variables', specs=specs, have=have, aliases=aliases, _w=4 ** (sum(specs) + sum(have) / 2.0)))
    return out


def files(S, cfg):
    fs = fakefs.FS(S, FILES, dirs=DIRS, links=False)
    picked = list(cfg['first'])
    while len(picked) < cfg['n']:
        picked.append(S.choice('name%d' % len(picked), PICK))
    with fs.mounted():
        arg = ','.join(picked) if cfg['how'] == 'string' else picked
        asked = []
        old = DR.DataReader.read_data_list, AP.get_variables
        DR.DataReader.read_data_list = lambda self, f, *a: asked.append(list(f)) or 'data'
        AP.get_variables = lambda f, *a, **k: asked.append(list(f)) or 'variables'
        try:
            for what in ('expand', 'read', 'variables', 'command'):
                try:
                    if what == 'expand':
                        asked.append(list(DR.expand_filelist(arg)))
                    elif what == 'read':
                        cis.read_data_list(arg, 'v')
                    elif what == 'variables':
                        cis.get_variables(arg)
                    else:
                        asked.append(list(P.expand_file_list(arg, Parser)))
                except (ValueError if what == 'expand' else IOError if what in ('read', 'variables') else Refused):
                    asked.append(None)
        finally:
            DR.DataReader.read_data_list, AP.get_variables = old
        want, wrong = [], False
        for p in picked:
            if '*' in p or '?' in p:
                new = [f for f in FILES if wild(f, p) and fs.isfile(f)]
            elif p.rstrip('/') in DIRS:
                new = [f for f in FILES if os.path.dirname(f) == p.rstrip('/') and fs.isfile(f)]
            elif p in FILES and fs.isfile(p):
                new = [p]
            else:
                wrong = True
                break
            want += [f for f in sorted(new) if f not in want]
    got = asked[0]
    S.check((got is None) == wrong, 'it is an error if a name is neither a file nor a directory', repr((picked, got)))
    if not wrong:
        S.check(got == want, 'the files are those named, each once, in the order of the names, and sorted in each', repr((picked, got, want)))
    for g in asked[1:]:
        S.check(g == (want if not wrong and want else None), 'reading uses these files, and it is an error if there are none', repr((g, want)))


class Refused(Exception):
    pass


class Parser(object):
    @staticmethod
    def error(msg):
        raise Refused(msg)


def wild(name, pat):
    """glob, for one path"""
    a, b = name.split('/'), pat.split('/')
    return len(a) == len(b) and all(matches(x, y) and (x[0] != '.' or y[0] == '.') for x, y in zip(a, b))


def matches(name, pat):
    """does the whole of name match pat -> bool or SymBool, without branching on the characters (names have no *)"""
    row = [True] + [False] * len(name)
    for p in range(len(pat)):
        c = pat[p]
        star, one = c == '*', c == '?'
        new = [star & row[0]]
        for j in range(len(name)):
            new.append((star & (new[j] | row[j + 1])) | ((one | (name[j] == c)) & row[j]))
        row = new
    return row[-1]


class Fnmatch(object):
    """fnmatch of symbolic strings, by branching"""
    @staticmethod
    def fnmatchcase(name, pat):
        if not len(pat):
            return not len(name)
        if pat[0] == '*':
            return any(Fnmatch.fnmatchcase(name[i:], pat[1:]) for i in range(len(name) + 1))
        return len(name) > 0 and bool((pat[0] == '?') or (pat[0] == name[0])) and Fnmatch.fnmatchcase(name[1:], pat[1:])
    fnmatch = fnmatchcase

    @staticmethod
    def filter(names, pat):
        return [n for n in names if Fnmatch.fnmatchcase(n, pat)]


class Data(UngriddedData):
    def __init__(self, name):
        self.name = name

    def coords(self, *a, **k):
        return []

    var_name = property(lambda self: self.name)
    standard_name = long_name = units = ''
    metadata = None


class NoSuch(Exception):
    pass


def variables(S, cfg):
    X.install(DR)
    X.instrument(S, DR)
    have = [X.text(S, 'have%d_' % i, n, 'ab') for i, n in enumerate(cfg['have'])]
    for i in range(len(have)):
        for j in range(i):
            S.assume(not bool(have[i] == have[j]))
    specs = [X.text(S, 'spec%d_' % i, n, '*?ab') for i, n in enumerate(cfg['specs'])]
    given = ['p', 'q', 'r'][:len(specs)]
    aliases = {'none': None, 'own': list(specs), 'given': given, 'fewer': given[:-1], 'more': given + ['s']}[cfg['aliases']]

    def get(files, v, product):
        assert files == ['f', 'g'] and product == 'P'
        if not any(bool(v == h) for h in have):
            raise NoSuch()
        return Data(v)
    reader = DR.DataReader(get, None, lambda f, p: list(have))
    old = DR.fnmatch
    if S.symbolic:
        DR.fnmatch = Fnmatch
    try:
        got = reader.read_data_list(['f', 'g'], specs, 'P', aliases)
    except ValueError:
        got = 'error'
    except NoSuch:
        got = 'missing'
    finally:
        DR.fnmatch = old
    groups = []
    for s in specs:
        if any(bool((s[i] == '*') | (s[i] == '?')) for i in range(len(s))):
            groups.append((True, [h for h in have if bool(matches(h, s))]))
        else:
            groups.append((False, [s]))
    missing = any(not w and not any(bool(m[0] == h) for h in have) for w, m in groups)
    wrong = not any(m for w, m in groups) or cfg['aliases'] in ('fewer', 'more') or \
        (cfg['aliases'] == 'given' and any(len(m) > 1 for w, m in groups))
    if missing or wrong:
        S.check(isinstance(got, str), 'variables which are not there, and aliases which do not fit, are errors')
        S.check(wrong or got == 'missing', 'a variable which is not there is reported')
        return
    S.check(not isinstance(got, str), 'the variables are read')
    S.check(len(got) == sum(len(m) for w, m in groups), 'all of the variables, and only those, are read')
    k = 0
    for g, (w, m) in enumerate(groups):
        part = list(got)[k:k + len(m)]
        k += len(m)
        for x in m:
            S.check(sum(1 for d in part if bool(d.name == x)) == 1, 'each variable which is named or matches is read, in the order of the names')
        for d in part:
            S.check(d.filenames == ['f', 'g'], 'the data know their files')
            if cfg['aliases'] == 'given':
                S.check(d.alias == given[g], 'a variable has the alias which was given for it', repr(d.alias))
            else:
                S.check(d.alias == d.name, 'a variable without alias has its own name')


HARNESSES = {'files': files, 'variables': variables}
