"""Configuration files on a simulated disk (P14).

The driver side generates files and knows, from an independent model of the
file format, what each file means; the process side serves these files from a
simulated disk: every open, read and close goes through `Disk`, which may
return short reads or fail at a chosen call.
"""
import builtins
import errno
import io
import os
import re

from . import config

ROOT = '/qnet-sim-disk/'
ERRNO = ['EIO', 'EACCES', 'ENOENT', 'EMFILE', 'EISDIR', 'ENOMEM',
         'ESTALE', 'ENOTDIR', 'ELOOP']

SECTIONS = ['global', 'ascii', 'unicode', 'latex']


# --------------------------------------------------------------------------
# model of the file format
# --------------------------------------------------------------------------

class Bad(Exception):
    """the file must be rejected"""


class Unsure(Exception):
    """the model does not cover this file"""


def parse(text):
    """{section: {key: value}}, independent of the library"""
    out, cur, defaults = {}, None, {}
    if '\r' in text.replace('\r\n', '').rstrip('\r'):
        raise Unsure()
    option = False
    for raw in text.split('\n'):
        line = raw.strip()
        if not line or line[0] in '#;':
            continue
        if raw[0].isspace() and option:
            raise Unsure()      # continues the line before
        m = re.match(r'\[(.+)\]', line)
        option = not m
        if m:
            name = m.group(1)
            if name == 'DEFAULT':
                cur = defaults
            elif name in out:
                raise Bad('section twice')
            else:
                cur = out[name] = {}
            continue
        if cur is None:
            raise Bad('no section')
        pos = [p for p in (line.find('='), line.find(':')) if p >= 0]
        if not pos or min(pos) == 0:
            raise Bad('no option')
        key = line[:min(pos)].strip().lower()
        if key in cur:
            raise Bad('option twice')
        cur[key] = line[min(pos) + 1:].strip()
    return {s: {**defaults, **v} for s, v in out.items()}


def meaning(data):
    """the arguments of init_printing that say the same as the file, or None
    if the file must be rejected"""
    try:
        text = data.decode('utf-8')
    except UnicodeDecodeError:
        return None
    try:
        sections = parse(text)
    except Bad:
        return None
    kw = {}
    for s, opts in sections.items():
        if s not in SECTIONS:
            return None
        for k, v in opts.items():
            v = {'True': True, 'true': True, 'False': False,
                 'false': False}.get(v, v)
            if s == 'global':
                if k in kw:
                    return None     # not generated
                kw[k] = v
            elif k in ('printer', 'sympy_printer'):
                kw['%s_%s' % (s, k)] = v
            else:
                kw.setdefault(s + '_settings', {})[k] = v
    return kw


# --------------------------------------------------------------------------
# generation
# --------------------------------------------------------------------------

ODD_VALUES = ['', 'True # no comment', 'false', 'true', 'TRUE', '0', '1',
              'None', '"x"', 'a = b', 'a:b', '%(x)s', '%', '$\\hat{x}$', 'é',
              '[x]']


def _text(v):
    return str(v)


def gen_sections(rng):
    out = {}

    def put(sec, key, val):
        out.setdefault(sec, {})[key.lower()] = _text(val)
    for _ in range(rng.choice([0, 1, 2, 3])):
        for k, v in rng.choice(config.GLOBAL).items():
            put('global', k, v)
    if rng.random() < 0.5:
        put('global', 'str_format', rng.choice(config.FORMATS))
    if rng.random() < 0.5:
        put('global', 'repr_format', rng.choice(config.FORMATS))
    if rng.random() < 0.2:
        put('global', 'caching', rng.choice(['True', 'False']))
    for sec, sets in (('ascii', config.ASCII_SET),
                      ('unicode', config.UNICODE_SET),
                      ('latex', config.LATEX_SET)):
        if rng.random() < 0.4:
            for _ in range(rng.choice([1, 1, 2])):
                for k, v in rng.choice(sets).items():
                    put(sec, k, v)
        for what in ('printer', 'sympy_printer'):
            key = sec + '_' + what
            if rng.random() < 0.25 and key in config.PRINTERS:
                put(sec, what, rng.choice(config.PRINTERS[key]))
    return out


def spoil(rng, sections):
    """something that makes (most) files invalid"""
    z = rng.random()
    sec = rng.choice(sorted(sections)) if sections else 'global'
    sections = {s: dict(v) for s, v in sections.items()}
    opts = sections.setdefault(sec, {})
    if z < 0.2:
        sections[rng.choice(['sympy', 'Global', 'tree', 'x y'])] = {
            'show_hs_label': 'False'}
    elif z < 0.45 and sec != 'global':
        opts[rng.choice(['bogus', 'str_format', 'unicode_op_hats',
                         'tex_op_macro'])] = rng.choice(ODD_VALUES)
    elif z < 0.6:
        sections.setdefault('global', {})[
            rng.choice(['str_format', 'repr_format'])] = rng.choice(
                ['bogus', '', 'ASCII', '5', 'True'])
    elif z < 0.85:
        sections.setdefault(rng.choice(SECTIONS[1:]), {})[
            rng.choice(['printer', 'sympy_printer'])] = rng.choice(
                ['no.such.Printer', 'nodots', '', 'True',
                 'sympy.printing.str.StrPrinter', 'qnet.printing.dotprint',
                 'qnet.OperatorSymbol', 'sympy.printing.latex.latex',
                 'simprinters.Failing', 'simprinters.Broken',
                 'simprinters.FailingSympy'])
    else:
        opts[rng.choice(['show_hs_label', 'order', 'conjg_style'])] = \
            rng.choice(ODD_VALUES)
    return sections


def render(rng, sections):
    """the sections as text, in one of many equivalent ways"""
    lines = []

    def noise():
        while rng.random() < 0.15:
            lines.append(rng.choice([
                '', '# [global]', '; show_hs_label = False', '#', '  ',
                '# str_format = latex', '; \u2297']))
    names = sorted(sections)
    rng.shuffle(names)
    noise()
    for s in names:
        noise()
        lines.append('[%s]' % s)
        keys = sorted(sections[s])
        rng.shuffle(keys)
        for k in keys:
            noise()
            if rng.random() < 0.1:
                k = k.upper()
            lines.append(k + rng.choice([' = ', '=', ' : ', ': ', '= '])
                         + sections[s][k.lower()])
    noise()
    return '\n'.join(lines) + rng.choice(['\n', '\n', '', '\n\n'])


def gen_file(rng):
    """the bytes of a configuration file"""
    sections = gen_sections(rng)
    if rng.random() < 0.3:
        sections = spoil(rng, sections)
    if rng.random() < 0.05:
        sections['DEFAULT'] = dict(
            [(k, _text(v)) for k, v in rng.choice(config.ASCII_SET).items()])
    text = render(rng, sections)
    z = rng.random()
    if z < 0.04:
        text = text.replace('[', '', 1)
    elif z < 0.08:
        lines = text.split('\n')
        lines.insert(rng.randrange(len(lines)), rng.choice(lines))
        text = '\n'.join(lines)
    elif z < 0.11:
        text = text.replace('\n', '\r\n')
    data = text.encode('utf-8')
    if z > 0.96:
        p = rng.randrange(len(data) + 1)
        data = data[:p] + b'\xff\xfe' + data[p:]
    return data


def sure(data):
    try:
        meaning(data)
    except Unsure:
        return False
    return True


def gen_torn(rng, old, new):
    """what a reader finds after an interrupted, or during a running, update
    of a file"""
    while True:
        data = _torn(rng, old, new)
        if sure(data):
            return data


def _torn(rng, old, new):
    z = rng.random()
    p = rng.randrange(len(new) + 1)
    if z < 0.6:
        return new[:p]              # truncated
    if z < 0.8:
        return new[:p] + old[p:]    # overwritten in place
    q = min(len(new), p + rng.choice([1, 8, 64]))
    return new[:p] + b'\0' * (q - p) + new[q:]


# --------------------------------------------------------------------------
# process side
# --------------------------------------------------------------------------

class Raw(io.RawIOBase):
    def __init__(self, disk, data, plan):
        self.disk = disk
        self.data = data
        self.pos = 0
        self.plan = plan
        self.reads = 0

    def readable(self):
        return True

    def seekable(self):
        return False

    def readinto(self, b):
        self.reads += 1
        f = self.plan
        if f.get('at') == 'read' and (
                self.pos >= f['pos'] * len(self.data)):
            self.disk.fail(f)
        n = min(len(b), len(self.data) - self.pos)
        if f.get('chunk'):
            n = min(n, f['chunk'])
        if f.get('at') == 'read':
            n = min(n, max(1, int(f['pos'] * len(self.data)) - self.pos))
        b[:n] = self.data[self.pos:self.pos + n]
        self.pos += n
        return n

    def close(self):
        if not self.closed:
            super().close()
            self.disk.opened -= 1
            if self.plan.get('at') == 'close':
                self.disk.fail(self.plan)


class Disk:
    def __init__(self):
        self.files = {}
        self.plan = {}
        self.fired = 0
        self.opened = 0
        self.calls = 0

    def fail(self, f):
        self.fired += 1
        n = getattr(errno, f['errno'])
        raise OSError(n, os.strerror(n))

    def open(self, real, file, mode='r', buffering=-1, encoding=None,
             errors=None, newline=None, closefd=True, opener=None):
        try:
            name = os.fspath(file)
        except TypeError:
            name = None
        if isinstance(name, bytes):
            name = os.fsdecode(name)
        if not isinstance(name, str) or not name.startswith(ROOT):
            return real(file, mode, buffering, encoding, errors, newline,
                        closefd, opener)
        self.calls += 1
        if set(mode) & set('wax+'):
            raise OSError(errno.EROFS, 'read-only', name)
        if self.plan.get('at') == 'open':
            self.fail(self.plan)
        if name not in self.files:
            raise FileNotFoundError(errno.ENOENT, 'no such file', name)
        self.opened += 1
        buf = io.BufferedReader(Raw(self, self.files[name], self.plan),
                                self.plan.get('buffer', 8192))
        if 'b' in mode:
            return buf
        return io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline)


class Seam:
    """everything the process opens below ROOT comes from the simulated
    disk"""

    def __init__(self, disk):
        self.disk = disk

    def __enter__(self):
        real = builtins.open
        disk = self.disk

        def sim_open(file, *args, **kwargs):
            return disk.open(real, file, *args, **kwargs)
        self.undo = []
        exists, isfile = os.path.exists, os.path.isfile

        def sim_exists(path, fn=exists):
            if isinstance(path, str) and path.startswith(ROOT):
                return path in disk.files
            return fn(path)

        def sim_isfile(path, fn=isfile):
            if isinstance(path, str) and path.startswith(ROOT):
                return path in disk.files
            return fn(path)
        for owner, name, new in (
                (builtins, 'open', sim_open), (io, 'open', sim_open),
                (os.path, 'exists', sim_exists),
                (os.path, 'isfile', sim_isfile)):
            self.undo.append((owner, name, getattr(owner, name)))
            setattr(owner, name, new)

    def __exit__(self, *exc):
        for owner, name, fn in reversed(self.undo):
            setattr(owner, name, fn)


def printers():
    """printer classes of a client, some of which fail"""
    import sys
    import types
    if 'simprinters' in sys.modules:
        return
    from qnet.printing.asciiprinter import QnetAsciiPrinter
    from sympy.printing.str import StrPrinter
    mod = types.ModuleType('simprinters')

    class Failing(QnetAsciiPrinter):
        """cannot be instantiated"""
        def __init__(self, *args, **kwargs):
            raise RuntimeError('injected')

    class Custom(QnetAsciiPrinter):
        def _render_str(self, string):
            return '<' + super()._render_str(string) + '>'

    class FailingSympy(StrPrinter):
        def __init__(self, *args, **kwargs):
            raise OSError('injected')

    class Meta(type(QnetAsciiPrinter)):
        def __setattr__(cls, name, val):
            if name == 'sympy_printer_cls':
                raise KeyError('injected')
            super().__setattr__(name, val)

    class Broken(QnetAsciiPrinter, metaclass=Meta):
        """cannot be configured"""
    for c in (Failing, Custom, FailingSympy, Broken):
        c.__module__ = 'simprinters'
        setattr(mod, c.__name__, c)
    sys.modules['simprinters'] = mod


def do_ini(ses, st):
    """load a configuration file, or enter the scope of one"""
    import qnet
    printers()
    disk = Disk()
    name = ROOT + st.get('name', 'printing.ini')
    if st.get('data') is not None:
        disk.files[name] = st['data'].encode('latin-1')
    disk.plan = st.get('plan') or {}
    arg = name
    if st.get('path') == 'pathlib':
        import pathlib
        arg = pathlib.Path(name)
    kw = dict(st.get('kw', {}), inifile=arg)
    res = 'ok'
    with Seam(disk):
        try:
            if st.get('scope') is not None:
                cm = qnet.configure_printing(**kw)
                cm.__enter__()
                ses.cms[st['scope']] = cm
            else:
                qnet.init_printing(**kw)
        except Exception as exc:
            res = '!' + type(exc).__name__
    # a process that keeps files open runs out of them
    return {'ini': res, 'fired': disk.fired, 'calls': disk.calls,
            'opened': disk.opened}


def do_direct(ses, st):
    """(reference processes) the same configuration, given directly"""
    import qnet
    printers()
    res = 'ok'
    try:
        if st.get('scope') is not None:
            cm = qnet.configure_printing(**st['kw'])
            cm.__enter__()
            ses.cms[st['scope']] = cm
        else:
            qnet.init_printing(**st['kw'])
    except Exception as exc:
        res = '!' + type(exc).__name__
    return {'ini': res}
