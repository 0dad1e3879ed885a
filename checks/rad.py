"""The Radiance programs raytools calls (pvalue, getinfo), on pictures held in memory.

A picture is the text lines of its header, its resolution line and its pixels as scanlines (top first,
left to right) of rgb.  Writing to files and pipes is recorded here, nothing is executed."""
import re
import shlex
import numpy

PIPE = -1
WEIGHTS = (.265, .67, .065)


class Picture:
    def __init__(self, lines, w, h, rows, yup=False):
        self.lines, self.w, self.h, self.rows = list(lines), w, h, rows


def numbers(env, data):
    """what a program that reads native 4-byte floats sees"""
    if isinstance(data, (bytes, bytearray)):
        return [float(x) for x in numpy.frombuffer(bytes(data), '<f4')]
    r = data.read_as('<f4')
    return [r[i] for i in range(len(r))]


class Floats:
    """output stream of native 4-byte floats"""
    def __init__(self, env, values):
        self.env, self.values = env, values

    def get(self):
        if self.env.symbolic:
            a = self.env.arr(self.values).astype('<f4')
            return a.tobytes()
        return numpy.asarray([float(x) for x in self.values], '<f4').tobytes()


class Stream:
    def __init__(self):
        self.parts = []
        self.closed = False

    def write(self, x):
        assert not self.closed
        self.parts.append(x)

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class OutFile(Stream):
    def __init__(self, rad, name):
        super().__init__()
        self.rad, self.name = rad, name

    def write(self, x):
        super().write(x)
        self.rad.files[self.name] = x

    def put(self, pic):
        self.rad.files[self.name] = pic


class Pipe:
    """readable end of a program"""
    def __init__(self, first, rest):
        self.first, self.rest = first, rest

    def readline(self):
        return self.first.pop(0) if self.first else b''

    def read(self):
        return self.rest() if callable(self.rest) else self.rest


class Radiance:
    def __init__(self, env, files=None):
        self.env = env
        self.files = dict(files or {})
        self.stdout = None
        self.calls = []

    def install(self):
        env = self.env
        io = env.m('io')
        env.setattr(io, 'Popen', self.popen)
        env.setattr(io, 'open', self.open)
        rad = self

        class Path:
            def __getattr__(self, n):
                return getattr(self._os, n)

        class FakeOs(Path):
            import os as _os

            class P(Path):
                import os.path as _os

                def isfile(self, f):
                    return f in rad.files

                exists = isfile
            path = P()
        env.setattr(io, 'os', FakeOs())
        try:
            it = env.m('imagetools')
        except KeyError:
            return self

        class Cst(Path):
            _os = it.cst

            @staticmethod
            def pipeline(cmds, *a, caperr=False, **k):
                out, err = rad.run(shlex.split(cmds[0]), None).communicate()
                out = out.decode()
                return (out, err) if caperr else out
        env.setattr(it, 'cst', Cst())
        return self

    def open(self, name, mode='r', *a, **k):
        if 'w' in mode:
            self.files[name] = None
            return OutFile(self, name)
        if name not in self.files:
            raise FileNotFoundError(name)

        class R(Stream):
            f = self.files[name]

            def read(self, n=-1):
                if not isinstance(self.f, (Picture, bytes)):
                    return self.f
                d = b'#?RADIANCE\n' if isinstance(self.f, Picture) else self.f
                return d if n < 0 else d[:n]
        return R()

    def popen(self, cmd, stdin=None, stdout=None, stderr=None, **k):
        cmd = shlex.split(cmd) if isinstance(cmd, str) else list(cmd)
        return self.run(cmd, stdin, stdout)

    def run(self, cmd, stdin, stdout=PIPE):
        self.calls.append(cmd)
        return Proc(self, cmd, stdin, stdout)


class Proc:
    returncode = 0

    def __init__(self, rad, cmd, stdin, stdout):
        self.rad, self.cmd, self.out = rad, cmd, stdout
        self.prog = cmd[0]
        self.stdin = Stream()
        self.source = stdin
        self.stderr = b''
        self.args = cmd[1:]
        self.stdout = None
        if self.prog == 'pvalue' and '-r' not in self.args:
            self.stdout = self.pvalue_out()
        elif stdout == PIPE:
            self.stdout = self

    # -- pvalue, picture to numbers
    def pvalue_out(self):
        flags, name = [], None
        for a in self.args:
            if a.startswith('-') or a.startswith('+'):
                flags.append(a)
            else:
                name = a
        if name is None:
            pic = self.source
        else:
            pic = self.rad.files.get(name)
        if not isinstance(pic, Picture):
            return Pipe([], b'')
        assert set(flags) <= {'-b', '-h', '-df', '-o', '-n'} and '-df' in flags and '-o' in flags
        first = []
        if '-h' not in flags:
            first += [(x + '\n').encode() for x in ['#?RADIANCE'] + pic.lines + ['']]
        first.append(f'-Y {pic.h} +X {pic.w}\n'.encode())
        if '-b' in flags:
            v = [sum(a * b for a, b in zip(WEIGHTS, p)) for row in pic.rows for p in row]
        elif '-n' in flags:
            v = [p[k] for k in range(3) for row in pic.rows for p in row]
        else:
            v = [c for row in pic.rows for p in row for c in p]
        return Pipe(first, Floats(self.rad.env, v).get)

    # -- pvalue -r, numbers to picture
    def picture(self):
        if self.prog == 'getinfo':
            if '-a' in self.args:
                src = self.source.picture()
                extra = self.args[self.args.index('-a') + 1:]
                return Picture(src.lines + extra, src.w, src.h, src.rows)
            raise AssertionError(self.cmd)
        args = list(self.args)
        grey = '-b' in args
        w = h = None
        flags = []
        while args:
            a = args.pop(0)
            if a in ('-y', '+y'):
                h, top = int(args.pop(0)), a == '-y'
                order = 'yx' if w is None else 'xy'
            elif a in ('+x', '-x'):
                w, left = int(args.pop(0)), a == '+x'
            else:
                flags.append(a)
        assert set(flags) <= {'-r', '-b', '-h', '-H', '-df', '-o'} and {'-r', '-df', '-h', '-H'} <= set(flags), self.cmd
        assert order == 'yx'
        v = [x for d in self.stdin.parts for x in numbers(self.rad.env, d)]
        n = 1 if grey else 3
        assert len(v) >= w * h * n, 'pvalue: read error'
        rows = [[[v[(y * w + x) * n + (0 if grey else k)] for k in range(3)] for x in range(w)] for y in range(h)]
        if not top:
            rows = rows[::-1]
        if not left:
            rows = [r[::-1] for r in rows]
        return Picture([' '.join(self.cmd)], w, h, rows)

    def communicate(self, data=None):
        if data is not None:
            self.stdin.write(data)
        if self.prog == 'getinfo' and '-a' not in self.args:
            return self.getinfo()
        if self.prog == 'pvalue' and '-r' not in self.args:
            return b''.join(self.stdout.first) + self.stdout.read(), b''
        pic = self.picture()
        if self.out is None:
            self.rad.stdout = pic
        elif isinstance(self.out, OutFile):
            self.out.put(pic)
        return b'', b''

    def getinfo(self):
        name = [a for a in self.args if not a.startswith('-')][0]
        f = self.rad.files.get(name)
        if f is None:
            return f'{name}: cannot open\n'.encode(), b''
        if not isinstance(f, Picture):
            return f'{name}:\n\tjunk\n'.encode(), f'{name}: bad header!\n'.encode()
        if '-d' in self.args:
            return f'{name}: -Y {f.h}        +X {f.w}       \n'.encode(), b''
        return (f'{name}:\n\t#?RADIANCE\n' + ''.join(f'\t{x}\n' for x in f.lines) + '\tFORMAT=32-bit_rle_rgbe\n\t\n').encode(), b''

    def wait(self, *a, **k):
        if self.prog == 'pvalue' and self.source is None:
            self.communicate()
        return 0

    def poll(self):
        return 0
