"""A small filesystem whose contents are arbitrary: each of a list of names is absent, a file (possibly another link to an
earlier one) or a directory.  While exploring, the functions of os.path, os.listdir and glob answer from it, each name
being decided when it is first asked about; concrete replays make the files in a scratch directory and use the real ones."""
import contextlib
import fnmatch
import glob as _glob
import os
import shutil
import tempfile

NOTE = ('the filesystem: a list of names, each absent, a file, another link to an earlier file or a directory, as decided by the '
        'solver; os.path.isfile/isdir/exists/samefile, os.stat, os.listdir and glob.glob answer from it (concrete replays make real '
        'files in a scratch directory)')


def norm(p):
    return os.path.normpath(str(p))


class FS(object):
    def __init__(self, S, names, dirs=(), links=True, sure=()):
        """names: what may be a file; dirs: which are directories; sure: names which are files for sure"""
        self.S, self.names, self.dirs, self.links, self.sure = S, [norm(n) for n in names], [norm(d) for d in dirs], links, [norm(n) for n in sure]
        self.known = {}

    def ident(self, p):
        """None if there is no such file, else the number of its contents"""
        p = norm(p)
        if p not in self.names:
            return None
        i = self.names.index(p)
        if i not in self.known:
            opts = [] if p in self.sure else [None]
            opts.append(i)
            if self.links:
                opts += [j for j in range(i) if self.names[j] in self.sure or self.links == 'all']
            k = self.S.choice('file:' + p, opts)
            if k is not None and k < i:
                base = self.ident(self.names[k])
                self.S.assume(base == k)          # links are to files which are not links
            self.known[i] = k
        return self.known[i]

    def isfile(self, p):
        return self.ident(p) is not None

    def isdir(self, p):
        return norm(p) in self.dirs or norm(p) == '.'

    def exists(self, p):
        return self.isdir(p) or self.isfile(p)

    def samefile(self, a, b):
        for p in (a, b):
            if not self.exists(p):
                raise FileNotFoundError(p)
        if self.isdir(a) or self.isdir(b):
            return norm(a) == norm(b)
        return self.ident(a) == self.ident(b)

    def listdir(self, p='.'):
        if not self.isdir(p):
            raise (NotADirectoryError if self.isfile(p) else FileNotFoundError)(p)
        d = norm(p)
        return [os.path.basename(n) for n in reversed(self.dirs + self.names)
                if n != '.' and (os.path.dirname(n) or '.') == d and self.exists(n)]

    def glob(self, pat, **kw):
        parts = pat.split('/')
        found = ['']
        for k, part in enumerate(parts):
            nxt = []
            for base in found:
                if _glob.has_magic(part):
                    if self.isdir(base or '.'):
                        nxt += [os.path.join(base, x) for x in self.listdir(base or '.')
                                if fnmatch.fnmatchcase(x, part) and (x[0] != '.' or part[0] == '.')]
                elif part == '':
                    if self.isdir(base):
                        nxt.append(os.path.join(base, ''))
                else:
                    x = os.path.join(base, part)
                    if self.exists(x):
                        nxt.append(x)
            found = [x for x in nxt if k == len(parts) - 1 or self.isdir(x)]
        return found

    @contextlib.contextmanager
    def mounted(self):
        if self.S.symbolic:
            old = (os.path.isfile, os.path.isdir, os.path.exists, os.path.samefile, os.listdir, _glob.glob, os.stat)

            def st(p, *a, **k):
                if norm(p) not in self.names + self.dirs:
                    return old[6](p, *a, **k)
                if not self.exists(p):
                    raise FileNotFoundError(p)
                return ('stat', norm(p) if self.isdir(p) else self.ident(p))
            os.path.isfile, os.path.isdir, os.path.exists, os.path.samefile, os.listdir, _glob.glob, os.stat = \
                self.isfile, self.isdir, self.exists, self.samefile, self.listdir, self.glob, st
            try:
                yield self
            finally:
                os.path.isfile, os.path.isdir, os.path.exists, os.path.samefile, os.listdir, _glob.glob, os.stat = old
            return
        here, d = os.getcwd(), tempfile.mkdtemp(dir=os.environ.get('SYMX_SCRATCH'))
        try:
            os.chdir(d)
            for x in self.dirs:
                os.makedirs(x, exist_ok=True)
            for i, n in enumerate(self.names):
                k = self.ident(n)
                if k is not None:
                    os.makedirs(os.path.dirname(n) or '.', exist_ok=True)
                    if k == i:
                        with open(n, 'w') as fh:
                            fh.write(n)
                    else:
                        os.link(self.names[k], n)
            yield self
        finally:
            os.chdir(here)
            shutil.rmtree(d)
