"""P36 Model download never installs wrong or partial data."""
import contextlib
import hashlib
import io
import os
import pathlib
import shutil
import sys
import tarfile
import tempfile
import threading
import warnings

import requests
import tqdm
import tqdm.auto
import urllib3

from lambeq.text2diagram.model_based_reader.base import ModelBasedReader
from lambeq.text2diagram.model_based_reader.model_downloader import (
    ModelDownloader)
from vf import crash
from vf.core import Family

RULE = 'distinct (local model, server, fault, verbosity) situations'
REQUIRED = ['fresh', 'older_local', 'same_local', 'forced', 'offline',
            'offline_first', 'not_downloaded_again', 'installed', 'kept_old',
            'refused', 'bad_checksum', 'bad_checksum_file', 'corrupt_archive',
            'short_archive', 'drop_in_body', 'status_model',
            'status_checksum', 'status_version', 'not_an_archive',
            'connection_model', 'connection_checksum', 'died',
            'interrupted', 'no_room', 'progress', 'text', 'suppress',
            'renamed_files', 'nested_files', 'given_path', 'cache_dir',
            'xdg_cache', 'direct', 'history', 'bobcat', 'oncilla',
            'file_in_the_way', 'announced', 'unversioned',
            'version_sorts_before']
SERVER = None


class Body(io.RawIOBase):
    """The bytes of an answer, whose delivery may break off."""

    def __init__(self, data, drop=None):
        self.data, self.pos, self.drop = data, 0, drop

    def readable(self):
        return True

    def readinto(self, b):
        end = len(self.data) if self.drop is None else self.drop
        n = min(len(b), end - self.pos)
        if n <= 0:
            if self.drop is not None:
                raise urllib3.exceptions.ProtocolError('connection broken')
            return 0
        b[:n] = self.data[self.pos:self.pos + n]
        self.pos += n
        return n


class Server:
    """Stands in for the network: real requests, made-up answers."""

    def __init__(self, version, files, c):
        self.version, self.files = version, files
        buf = io.BytesIO()
        self.zipped = c.p(.7)
        with tarfile.open(fileobj=buf, mode='w:gz' if self.zipped else 'w',
                          format=c.choice([tarfile.GNU_FORMAT,
                                           tarfile.PAX_FORMAT])) as t:
            if c.p(.5):
                i = tarfile.TarInfo('.')
                i.type, i.mode = tarfile.DIRTYPE, 0o755
                t.addfile(i)
            for k, v in files.items():
                i = tarfile.TarInfo(('./' if c.p(.5) else '') + k)
                i.size, i.mode = len(v), 0o644
                t.addfile(i, io.BytesIO(v))
        self.archive = buf.getvalue()
        self.checksum = hashlib.sha256(self.archive).hexdigest()
        self.tail = c.choice(['  model.tar.gz\n', ' *model.tar.gz\n',
                              '  model.tar.gz'])
        self.newline = c.choice(['', '\n', '\r\n'])
        self.fault = {}
        self.asked = []
        self.length = c.p(.8)

    def answer(self, request):
        name = request.url.rsplit('/', 1)[-1]
        what = {'version.txt': 'version',
                'model_checksum.sha256': 'checksum',
                'model.tar.gz': 'model'}.get(name, name)
        self.asked.append(what)
        f = self.fault
        if f.get('offline') or f.get('connection') == what:
            raise requests.ConnectionError('unreachable')
        if f.get('timeout') == what:
            raise requests.Timeout('too slow')
        body = {'version': (self.version + self.newline).encode(),
                'checksum': (self.checksum + self.tail).encode(),
                'model': self.archive}.get(what)
        status, drop = 200, None
        if body is None:
            status, body = 404, b'<html>not found</html>'
        if f.get('status', ('', 0))[0] == what:
            status = f['status'][1]
            body = b'<html>sorry</html>'
        if what in f.get('body', {}):
            body = f['body'][what]
        if f.get('drop', ('', 0))[0] == what:
            drop = f['drop'][1]
        r = requests.Response()
        r.status_code = status
        r.url = request.url
        r.request = request
        if self.length:
            r.headers['content-length'] = str(len(body))
        r.encoding = 'utf-8'
        r.raw = urllib3.HTTPResponse(
            body=io.BufferedReader(Body(body, drop)), status=status,
            preload_content=False)
        return r


def send(self, request, **kw):
    return SERVER.answer(request)


def worker_setup():
    warnings.simplefilter('ignore')
    requests.adapters.HTTPAdapter.send = send
    # forked children die while they hold it
    lock = threading.RLock()
    for cls in (tqdm.tqdm, tqdm.auto.tqdm):
        cls.monitor_interval = 0
        cls.set_lock(lock)
    for k in list(os.environ):
        if k.lower().endswith('_proxy'):
            del os.environ[k]


class Probe(ModelBasedReader):
    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self.seen = snapshot(self.model_dir)

    def _initialise_model(self, **kw):
        pass

    def sentence2diagram(self, sentence, tokenised=False):
        return None


def snapshot(folder):
    out = {}
    folder = pathlib.Path(folder)
    for f in sorted(folder.rglob('*')):
        if f.is_file():
            out[str(f.relative_to(folder))] = f.read_bytes()
    return out


def model(c, version, names):
    files = {}
    for n in names:
        size = c.choice([0, 5, 200, 3000, 20000])
        files[n] = c.np.bytes(size)
    return files


NAMES = ['config.json', 'model.bin', 'vocab.txt', 'sub/grammar.json',
         'sub/deep/x', 'tokenizer.json']


class World:
    """A cache, and what it may contain."""

    def __init__(self, c):
        self.c = c
        self.name = c.choice(['bobcat', 'oncilla'])
        c.ev(self.name)
        self.verbose = c.choice(['progress', 'text', 'suppress'])
        c.ev(self.verbose)

    def __enter__(self):
        global SERVER
        c = self.c
        self.tmp = pathlib.Path(tempfile.mkdtemp(prefix='vf-p36-'))
        self.cache = self.tmp / 'cache'
        (self.tmp / 'temp').mkdir()
        self.old_tempdir = tempfile.tempdir
        tempfile.tempdir = str(self.tmp / 'temp')
        self.old_cwd = os.getcwd()
        (self.tmp / 'cwd').mkdir()
        os.chdir(self.tmp / 'cwd')
        self.kw = {}
        self.env = {k: os.environ.get(k) for k in ('XDG_CACHE_HOME', 'HOME')}
        os.environ['HOME'] = str(self.tmp / 'home')
        os.environ.pop('XDG_CACHE_HOME', None)
        if c.p(.6):
            self.kw['cache_dir'] = c.choice([str(self.cache), self.cache])
            c.ev('cache_dir')
        elif c.p(.5):
            os.environ['XDG_CACHE_HOME'] = str(self.cache)
            c.ev('xdg_cache')
        else:
            self.cache = self.tmp / 'home' / '.cache'
        self.serial = 0
        self.start_at = c.choice([0, 8, 97])
        self.released = set()
        self.local = None       # (version, files) installed
        self.server = self.release()
        SERVER = self.server
        return self

    def __exit__(self, *a):
        global SERVER
        SERVER = None
        os.chdir(self.old_cwd)
        tempfile.tempdir = self.old_tempdir
        for k, v in self.env.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        shutil.rmtree(self.tmp)

    def release(self):
        """A new version of the model on the server."""
        global SERVER
        c = self.c
        self.serial += 1
        # any other version replaces the local one, also where it does not
        # come after it as a text or is a part of it
        n = self.start_at + self.serial
        last = getattr(self, 'server', None)
        version = c.choice([f'1.{n}.{c.int(0, 9)}', f'1.{n}', f'{n}',
                            f'{100 - n}-rc1'])
        if last is not None and c.p(.3):
            version = last.version + c.choice(['.1', '0', 'b'])
        elif last is not None and last.version[:-1].strip('.') and c.p(.2):
            version = last.version[:-1].strip('.')
        if version in self.released:
            version = f'{version}+{n}'
        if last is not None and version < last.version:
            c.ev('version_sorts_before')
        self.released.add(version)
        names = c.rng.sample(NAMES, c.int(1, len(NAMES)))
        if any('/' in n for n in names):
            c.ev('nested_files')
        self.server = SERVER = Server(version, model(c, version, names), c)
        return self.server

    def complete(self, server):
        """What a complete installation holds."""
        files = dict(server.files)
        files['version.txt'] = server.version.encode()
        return files

    def reader(self, **kw):
        """A reader, what it printed, or the error it gave."""
        out = io.StringIO()
        try:
            with contextlib.redirect_stdout(out), \
                    contextlib.redirect_stderr(out):
                r = Probe(self.name, verbose=self.verbose, **self.kw, **kw)
            return r, out.getvalue(), None
        except Exception as e:
            return None, out.getvalue(), e

    def install(self):
        """A healthy installation of the version on the server."""
        c = self.c
        r, out, err = self.reader()
        c.check(err is None, 'healthy-download-failed', lambda: repr(err))
        self.holds(r.seen, [self.server], 'installed')
        self.local = self.server
        c.ev('installed')

    def holds(self, seen, servers, mech):
        self.c.check(any(seen == self.complete(s) for s in servers), mech,
                     lambda: f'{describe(seen)} is none of '
                     f'{[describe(self.complete(s)) for s in servers]}')

    def start(self):
        c = self.c
        how = c.choice(['fresh', 'older_local', 'older_local', 'same_local',
                        'unversioned'])
        if how != 'fresh':
            self.install()
            if how == 'unversioned':
                # a download or copy of the past that was not finished
                d = self.cache / 'lambeq' / self.name / self.name
                (d / 'version.txt').unlink()
                for f in sorted(x for x in d.rglob('*') if x.is_file()):
                    if c.p(.5):
                        f.unlink()
                self.local = None
            if how in ('older_local', 'unversioned') and (
                    how == 'older_local' or c.p(.5)):
                old = set(self.server.files)
                self.release()
                if old - set(self.server.files):
                    c.ev('renamed_files')
        c.ev(how)
        self.how = how
        return how

    def settle(self, before):
        """After a fault: whatever is used offline is complete; the network
        healed, the newest version is installed and kept."""
        c = self.c
        s = self.server
        s.fault = {'offline': True}
        r, out, err = self.reader()
        if err is None:
            self.holds(r.seen, [x for x in (before, s) if x],
                       'partial-model-used')
        else:
            c.ev('refused')
        s.fault = {}
        r, out, err = self.reader()
        c.check(err is None, 'recovery-failed', lambda: repr(err))
        self.holds(r.seen, [s], 'recovered')
        s.asked.clear()
        r, out, err = self.reader()
        c.check(err is None, 'second-start-failed', lambda: repr(err))
        self.holds(r.seen, [s], 'recovered')
        c.check('model' not in s.asked, 'downloaded-again',
                lambda: str(s.asked))
        c.ev('not_downloaded_again')


def describe(files):
    return {k: (len(v), hashlib.md5(v).hexdigest()[:6])
            for k, v in sorted(files.items())}


def corrupt(c, data):
    data = bytearray(data)
    for _ in range(c.int(1, 3)):
        i = c.int(0, len(data) - 1)
        data[i] ^= 1 << c.int(0, 7)
    return bytes(data)


FAULTS = ['bad_checksum', 'bad_checksum_file', 'corrupt_archive',
          'short_archive', 'drop_in_body', 'status_model', 'status_checksum',
          'status_version', 'not_an_archive', 'connection_model',
          'connection_checksum', 'offline']


def inject(c, s, how):
    n = len(s.archive)
    code = c.choice([403, 404, 429, 500, 502, 503])
    other = hashlib.sha256(b'other').hexdigest()
    s.fault = {
        'bad_checksum': {'body': {'checksum': (other + s.tail).encode()}},
        'bad_checksum_file': {'body': {'checksum': c.choice(
            [b'', b'\n', b'<html>', s.checksum[:-1].encode(),
             b' ' + s.checksum.encode()])}},
        'corrupt_archive': {'body': {'model': corrupt(c, s.archive)}},
        'short_archive': {'body': {'model': s.archive[:c.int(0, n - 1)]}},
        'drop_in_body': {'drop': ('model', c.int(0, n - 1))},
        'status_model': {'status': ('model', code)},
        'status_checksum': {'status': ('checksum', code)},
        'status_version': {'status': ('version', code)},
        'connection_model': {c.choice(['connection', 'timeout']): 'model'},
        'connection_checksum': {c.choice(['connection',
                                          'timeout']): 'checksum'},
        'offline': {'offline': True}}.get(how)
    if how == 'not_an_archive':
        # the server's own file is bad
        bad = c.choice([b'', b'hello', bytes(1024)[:c.int(1, 100)]])
        if s.zipped:
            # cutting the very end off may lose nothing
            bad = c.choice([bad, s.archive[:c.int(0, n // 2)]])
        s.fault = {'body': {
            'model': bad, 'checksum': (hashlib.sha256(bad).hexdigest()
                                       + s.tail).encode()}}


def fam_fault(c):
    with World(c) as w:
        w.start()
        before = w.local
        s = w.server
        how = c.choice(FAULTS)
        inject(c, s, how)
        kw = {}
        if c.p(.3):
            kw['force_download'] = True
            c.ev('forced')
        c.note(start=w.how, fault=how, verbose=w.verbose, forced=bool(kw),
               server=s.fault)
        c.sig(w.how, how, w.verbose, bool(kw), tuple(sorted(s.files)))
        c.ev(how)
        needed = bool(kw) or before is not s
        s.asked.clear()
        here = w.cache / 'lambeq' / w.name / w.name
        there = snapshot(here) if here.is_dir() else None
        if c.p(.3):
            # the downloader on its own
            c.ev('direct')
            out = io.StringIO()
            with contextlib.redirect_stdout(out), \
                    contextlib.redirect_stderr(out):
                d = ModelDownloader(w.name, **w.kw)
                try:
                    d.download_model(w.verbose)
                    failed = None
                except Exception as e:
                    failed = e
            seen = snapshot(d.model_dir) if d.model_dir.is_dir() else None
            if failed is None:
                w.holds(seen, [s], 'fault-ignored')
                c.check(how in ('not_an_archive', 'bad_checksum_file'),
                        'fault-ignored', how)
            elif before is None:
                # (what was there may stay, but is not a model)
                c.check(not seen or seen == there, 'partial-model-left',
                        lambda: describe(seen))
            else:
                w.holds(seen, [before], 'model-changed-by-failure')
        else:
            r, out, err = w.reader(**kw)
            if err is not None:
                c.ev('refused')
                c.check(needed, 'failed-needlessly', lambda: repr(err))
            elif before is s:
                w.holds(r.seen, [s], 'model-changed-by-failure')
            elif before is None:
                # only faults that leave the data right
                w.holds(r.seen, [s], 'fault-ignored')
                c.check(how == 'bad_checksum_file', 'fault-ignored', how)
            else:
                w.holds(r.seen, [before], 'model-changed-by-failure')
                c.ev('kept_old')
                if how not in ('offline', 'status_version'):
                    c.check(out.strip(), 'old-model-used-silently', how)
                    c.ev('announced')
        if how == 'offline' and before is None:
            c.ev('offline_first')
        w.settle(before)


class Interrupt:
    """Raises at a call boundary."""

    def __init__(self, at):
        self.n, self.at = 0, at

    def __call__(self, frame, event, arg):
        self.n += 1
        if self.n == self.at:
            sys.setprofile(None)
            raise KeyboardInterrupt


def fam_crash(c):
    """The process dies, is interrupted or runs out of room while it
    installs a model."""
    with World(c) as w:
        w.start()
        if w.how == 'same_local':
            w.release()
        before = w.local
        s = w.server
        how = c.choice(['died', 'died', 'died', 'interrupted', 'no_room',
                        'no_room'])

        def work():
            Probe(w.name, verbose=w.verbose, **w.kw)
        # how long an undisturbed run is
        keep = w.tmp / 'copy'
        if w.cache.exists():
            shutil.copytree(w.cache, keep)
        with contextlib.redirect_stdout(io.StringIO()), \
                contextlib.redirect_stderr(io.StringIO()):
            total = crash.count(work)
        shutil.rmtree(w.cache)
        if keep.exists():
            keep.rename(w.cache)
        # mostly in the second half, where files are written
        at = c.int(1, total) if c.p(.3) else c.int(total // 2, total)
        c.note(start=w.how, fault=how, at=at, total=total,
               verbose=w.verbose)
        c.sig(w.how, how, at, tuple(sorted(s.files)))
        if how == 'died':
            end = crash.forked(crash.dying_at(work, at))
            c.check(end in ('died', 'ok'), 'crash-run', end)
        elif how == 'interrupted':
            def run():
                sys.setprofile(Interrupt(at))
                try:
                    work()
                finally:
                    sys.setprofile(None)
            crash.forked(run)
        else:
            room = c.choice([c.int(0, 64), c.int(0, 4000),
                             c.int(0, len(s.archive) + 20),
                             max(map(len, s.files.values())) - c.int(0, 9)])
            crash.forked(crash.with_room(work, max(0, room), c.p(.5)))
        c.ev(how)
        w.settle(before)


def fam_history(c):
    """Starts, releases and faults in any order."""
    with World(c) as w:
        log = []
        local = None
        for _ in range(c.int(3, 9)):
            s = w.server
            s.asked.clear()
            act = c.choice(['start', 'start', 'release', 'fault', 'offline',
                            'forced'])
            log.append(act)
            if act == 'release':
                w.release()
                continue
            if act == 'fault':
                inject(c, s, c.choice([f for f in FAULTS if f not in (
                    'bad_checksum_file', 'offline', 'status_version')]))
            elif act == 'offline':
                s.fault = {'offline': True}
            kw = {'force_download': True} if act == 'forced' else {}
            r, out, err = w.reader(**kw)
            s.fault = {}
            if act in ('start', 'forced'):
                c.check(err is None, 'healthy-start-failed',
                        lambda: f'{err!r} after {log}')
                w.holds(r.seen, [s], 'newest-not-used')
                c.eq('model' in s.asked, local is not s or bool(kw),
                     'download-needed', f'{log}')
                local = s
            elif local is None:
                c.check(err is not None, 'used-nothing', str(log))
            else:
                if act == 'offline' or local is s:
                    c.check(err is None, 'complete-model-not-used',
                            lambda: f'{err!r}')
                if err is None:
                    w.holds(r.seen, [local], 'other-model-used')
        c.ev('history')
        c.note(log=log)
        c.sig(tuple(log), w.verbose)


def fam_plain(c):
    with World(c) as w:
        kind = c.choice(['given_path', 'file_in_the_way', 'plain'])
        c.sig(kind, w.verbose, tuple(sorted(w.server.files)))
        if kind == 'given_path':
            # a model of one's own: the network is not asked
            d = w.tmp / 'mine'
            d.mkdir()
            (d / 'config.json').write_bytes(b'{}')
            r = Probe(c.choice([str(d), d]), verbose=w.verbose, **w.kw)
            c.eq(r.seen, {'config.json': b'{}'}, 'own-model-changed')
            c.eq(w.server.asked, [], 'network-asked-for-own-model')
            c.check(not w.cache.exists(), 'cache-touched-for-own-model')
            c.ev('given_path')
        elif kind == 'file_in_the_way':
            base = w.cache / 'lambeq'
            base.mkdir(parents=True)
            (base / w.name).write_bytes(b'a file')
            r, out, err = w.reader()
            c.check(err is not None, 'file-in-the-way-accepted')
            c.eq((base / w.name).read_bytes(), b'a file', 'file-changed')
            c.ev('file_in_the_way')
        else:
            w.install()
            left = [p for p in w.cache.rglob('*') if p.is_file()]
            c.eq(len(left), len(w.complete(w.server)), 'left-overs',
                 str(left))
            c.eq(list((w.tmp / 'temp').iterdir()), [], 'temporary-left')
            c.check(not list((w.tmp / 'cwd').iterdir()),
                    'files-in-working-folder')
            # another model beside it
            other = 'oncilla' if w.name == 'bobcat' else 'bobcat'
            first, s = w.name, w.server
            w.name = other
            w.release()
            w.install()
            w.name, w.server = first, s
            w.server.fault = {'offline': True}
            global SERVER
            SERVER = s
            r, out, err = w.reader()
            c.check(err is None, 'first-model-lost', lambda: repr(err))
            w.holds(r.seen, [s], 'first-model-changed')
        c.raises(ValueError, lambda: ModelDownloader('nonsense'),
                 mechanism='unknown-model')


FAMILIES = [
    Family('fault', fam_fault, 300),
    Family('crash', fam_crash, 200),
    Family('history', fam_history, 100),
    Family('plain', fam_plain, 40),
]
