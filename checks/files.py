"""Text files as sequences of lines: open() and StringIO() stand for a file object defined below."""
from .docmodel import *
from engine.interp import canonical_open
from engine.lib import split_str
from .base import Bad

FILE = '''
def closed(name, content): pass
def too_late(): pass

class ReadFile(object):
    def __init__(self, lines):
        self._lines = lines
        self._next = 0
        self._open = True
    def readline(self):
        if not self._open:
            too_late()
        if self._next >= len(self._lines):
            return ''
        self._next += 1
        return self._lines[self._next - 1]
    def __iter__(self):
        if not self._open:
            too_late()
        for line in self._lines[self._next:]:
            self._next += 1
            yield line
    def __next__(self):
        line = self.readline()
        if line == '':
            raise StopIteration()
        return line
    def readlines(self):
        rest = self._lines[self._next:]
        self._next = len(self._lines)
        return rest
    def read(self):
        return ''.join(self.readlines())
    def getvalue(self):
        return ''.join(self._lines)
    def close(self):
        if self._open:
            closed(None, None)
        self._open = False
    def __enter__(self):
        return self
    def __exit__(self, *args):
        self.close()

class WriteFile(object):
    def __init__(self, name):
        self._name = name
        self._content = ''
        self._open = True
    def write(self, s):
        if not self._open:
            too_late()
        self._content += s
    def writelines(self, lines):
        for s in lines:
            self.write(s)
    def getvalue(self):
        if not self._open:
            too_late()
        return self._content
    def flush(self):
        pass
    def close(self):
        if self._open:
            closed(self._name, self._content)
        self._open = False
    def __enter__(self):
        return self
    def __exit__(self, *args):
        self.close()
'''
OPENS = ('open', 'io.open', 'codecs.open')


def text_lines(text):
    """lines (with their ends) of a text whose line feeds are known"""
    parts = split_str(text, const('\n'))
    if parts is None or any(p[0] != 'el' for p in parts):
        raise Undecided('lines of %s' % show(text)[:200])
    out = [cat(p[1], const('\n')) for p in parts[:-1]]
    return out + ([parts[-1][1]] if parts[-1][1] is not const('') else [])


def file_hook(files, rest=None):
    """files: {name term: list of line terms}; other names are files to write"""
    def hook(I, f, args, kw, fr, s, node):
        fz = lambda x: I.freeze(x, s)
        if f.op == 'ext' and f.args[0] in OPENS:
            f, args, kw = canonical_open(f, args, kw)
            mode = kw.get('mode', const('r'))
            if mode.op != 'const' or cval(mode) not in ('r', 'w', 'a', 'x', 'w+') or set(kw) - {'mode', 'encoding', 'newline'} or \
                    f.args[0] == 'codecs.open' or kw.get('newline', NONE) not in (NONE, const(''), const('\n')):
                raise Undecided('open(%s)' % {k: show(v)[:40] for k, v in kw.items()})
            I.log(s, const('call'), mk('ext', 'open'), tup(fz(args[0]), mode, kw.get('encoding', NONE)), mk('kw', ()), NONE)
            if cval(mode) == 'r':
                if args[0] not in files:
                    raise Bad('opens %s' % show(args[0])[:100])
                return read_file(I, s, files[args[0]], fr, node)
            return I.call(I.glob('spec:WriteFile'), [args[0]], {}, fr, s, node)
        if f.op == 'ext' and f.args[0] in ('io.StringIO', 'StringIO'):
            if not args and not kw:
                return I.call(I.glob('spec:WriteFile'), [NONE], {}, fr, s, node)
            if len(args) == 1 and not kw:
                return read_file(I, s, text_lines(args[0]), fr, node)
            raise Undecided('StringIO with %d arguments' % len(args))
        q, recv, pos = callee(I, f, args)
        if q in ('spec:closed', 'spec:too_late'):
            I.log(s, const('call'), mk('ext', q[5:]), tup(*[fz(a) for a in pos]), mk('kw', ()), NONE)
            return NONE
        return rest(I, f, args, kw, fr, s, node) if rest is not None else None
    return hook


def read_file(I, s, lines, fr, node):
    return I.call(I.glob('spec:ReadFile'), [I.new_list(s, tuple(('el', x) for x in lines))], {}, fr, s, node)
