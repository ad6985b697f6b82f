"""ghost files: contracts of the C file functions over named files.

A file is a block of bytes (`raw`), and a block of records of 16 bytes (`tok`) for text output: one record per character
(its code) or converted number (1000: %d, 1001: %f; the number follows at +8).  `meta` holds the number of bytes (0) and of
records (8) written, and how often the file was opened (16).  A stream is an object of kind 'file' holding its position at 0; fclose ends its life, so that a
stream left open counts as leaked."""
from .terms import *
from .mem import *
from .mem import Unsupported
from .llparse import I32, Ty

HUGE = 1 << 40
CODE_D, CODE_F = 1000, 1001


class GFile:
    def __init__(self, name, raw, tok, meta, length=None, missing=False, lines=None, nums=None):
        self.lines, self.nums = lines, nums
        self.name, self.raw, self.tok, self.meta, self.length, self.missing = name, raw, tok, meta, length, missing


def _files(ex):
    return getattr(getattr(ex, 'cx', None), 'files', {})


def stream(ex, st, pv, what):
    """(stream block, file) or None for stdout and the like"""
    from .exec import WILD
    al = ex.feasible_alts(st, pv)
    if len(al) == 1 and al[0][1] not in (None, WILD) and getattr(al[0][1], 'gfile', None) is not None:
        ex.access(st, pv, P(8), what)
        return al[0][1], al[0][1].gfile
    if any(b is None or getattr(b, 'gfile', None) is not None for _, b, _ in al if b is not WILD):
        ex.access(st, pv, P(8), what)       # reports NULL
        raise Unsupported(what + ' of one of several streams')
    return None


def get(ex, st, b, off):
    return ex.as_s(st, ex.read(st, b, P(off), 'i64', 8))


def put(ex, st, b, off, v):
    ex.write(st, b, P(off), 8, 'i64', IV(v, 64))


def b_fopen(ex, st, args, ins):
    from .builtins import const_string
    fs = _files(ex)
    if not fs:
        raise Unsupported('fopen')
    path, mode = const_string(ex, st, args[0]), const_string(ex, st, args[1])
    nm = bytes(path).decode('latin1') if path is not None else None
    f = fs.get(nm)
    if f is None or mode is None:
        ex.oblige(st, FALSE, 'pre', 'the file opened is one of: ' + ', '.join(sorted(fs)) + ('' if nm is None else ' (it is %s)' % nm))
        return [(st, NULL)]
    if f.missing:
        return [(st, NULL)]
    if (mode[0] == ord('r')) != (f.length is not None):
        ex.oblige(st, FALSE, 'pre', '%s is opened for %s' % (nm, 'reading' if f.length is not None else 'writing'))
    b = Blk('stream:' + nm, P(8), 'file', 'undef', 16)
    b.gfile = f
    put(ex, st, b, 0, P(0))
    if f.length is None:
        put(ex, st, f.meta, 0, P(0))
        put(ex, st, f.meta, 8, P(0))
        put(ex, st, f.meta, 16, get(ex, st, f.meta, 16) + 1)
    return [(st, PV.to(b))]


def b_fclose(ex, st, args, ins):
    s = stream(ex, st, args[0], 'fclose')
    if s is not None:
        bs = st.bs(s[0])
        st.mem[s[0]] = BS(bs.cells, bs.chain, TRUE)
    return [(st, IV(P(0), 32))]


def b_fread(ex, st, args, ins):
    from .builtins import b_memcpy, size_arg
    s = stream(ex, st, args[3], 'fread')
    if s is None:
        raise Unsupported('fread of an unknown stream')
    fp, f = s
    sz, n = size_arg(ex, st, args[1]), size_arg(ex, st, args[2])
    if f.length is None:
        raise Unsupported('fread of an output file')
    pos = get(ex, st, fp, 0)
    ex.oblige(st, Le(pos + sz * n, f.length), 'pre', 'fread stays within the file')
    b_memcpy(ex, st, [args[0], PV.to(f.raw, pos), IV(sz * n, 64, 'u')], ins)
    put(ex, st, fp, 0, pos + sz * n)
    return [(st, IV(n, 64, 'u'))]


def b_fwrite(ex, st, args, ins):
    from .builtins import b_memcpy, size_arg
    s = stream(ex, st, args[3], 'fwrite')
    if s is None:
        raise Unsupported('fwrite to an unknown stream')
    fp, f = s
    sz, n = size_arg(ex, st, args[1]), size_arg(ex, st, args[2])
    if f.length is not None:
        ex.oblige(st, FALSE, 'pre', 'a file opened for reading is not written')
        return [(st, IV(P(0), 64, 'u'))]
    pos = get(ex, st, fp, 0)
    b_memcpy(ex, st, [PV.to(f.raw, pos), args[0], IV(sz * n, 64, 'u')], ins)
    put(ex, st, fp, 0, pos + sz * n)
    end = pos + sz * n
    put(ex, st, f.meta, 0, end)
    return [(st, IV(n, 64, 'u'))]


def b_fseek(ex, st, args, ins):
    s = stream(ex, st, args[0], 'fseek')
    if s is None:
        raise Unsupported('fseek of an unknown stream')
    fp, f = s
    w = ex.as_s(st, args[2]).const()
    off = ex.as_s(st, args[1])
    if w == 1:
        off = get(ex, st, fp, 0) + off
    elif w == 2 and f.length is not None:
        off = f.length + off
    elif w != 0:
        raise Unsupported('fseek')
    if f.length is None:
        raise Unsupported('fseek in an output file')
    ex.oblige(st, Le(0, off), 'pre', 'fseek to a place in the file')
    put(ex, st, fp, 0, off)
    return [(st, IV(P(0), 32))]


def b_ftell(ex, st, args, ins):
    s = stream(ex, st, args[0], 'ftell')
    if s is None:
        raise Unsupported('ftell of an unknown stream')
    return [(st, IV(get(ex, st, s[0], 0), 64))]


def token(ex, st, s, code, val=None):
    fp, f = s
    if f.length is not None:
        ex.oblige(st, FALSE, 'pre', 'a file opened for reading is not written')
        return
    k = get(ex, st, f.meta, 8)
    ex.write(st, f.tok, k * 16, 8, 'i64', IV(P(code), 64))
    if val is not None:
        ex.write(st, f.tok, k * 16 + 8, 8, 'f64' if isinstance(val, FV) else 'i64', val)
    put(ex, st, f.meta, 8, k + 1)


def chars(ex, st, s, pv):
    from .builtins import const_string
    x = const_string(ex, st, pv)
    if x is None:
        raise Unsupported('text of unknown contents')
    for c in x:
        token(ex, st, s, c)


def b_fputs(ex, st, args, ins):
    s = stream(ex, st, args[1], 'fputs')
    if s is not None:
        chars(ex, st, s, args[0])
    return [(st, IV(P(1), 32))]


def b_fputc(ex, st, args, ins):
    s = stream(ex, st, args[1], 'fputc')
    if s is not None:
        token(ex, st, s, ex.as_s(st, args[0]))
    return [(st, IV(ex.as_s(st, args[0]), 32))]


def b_fprintf(ex, st, args, ins):
    from .builtins import const_string
    s = stream(ex, st, args[0], 'fprintf')
    if s is None:
        return [(st, ex.undef_of(ins.ty))]
    fmt = const_string(ex, st, args[1])
    if fmt is None:
        raise Unsupported('format of unknown contents')
    rest = list(args[2:])
    i = 0
    while i < len(fmt):
        c = fmt[i]
        if c != 37:
            token(ex, st, s, c)
            i += 1
            continue
        d = chr(fmt[i + 1])
        i += 2
        if d == '%':
            token(ex, st, s, 37)
        elif d in 'di':
            token(ex, st, s, CODE_D, IV(ex.as_s(st, rest.pop(0)), 64))
        elif d == 'f':
            token(ex, st, s, CODE_F, FV(rest.pop(0).p, 64))
        elif d == 'c':
            token(ex, st, s, ex.as_s(st, rest.pop(0)))
        elif d == 's':
            chars(ex, st, s, rest.pop(0))
        else:
            raise Unsupported('conversion %' + d)
    return [(st, ex.undef_of(ins.ty))]


# ------------------------------------------------------------------ reading text
def lines_of(items):
    """text given as literal strings and (format, number), cut into lines of characters and numbers"""
    out, cur = [], []
    for x in items:
        for c in (x if isinstance(x, str) else [x]):
            cur.append(ord(c) if isinstance(c, str) else c[1])
            if c == '\n':
                out.append(cur)
                cur = []
    return out + ([cur] if cur else [])


def b_fgets(ex, st, args, ins):
    """the next line of a text file; a number is kept as its (unknown) first digit, which sscanf recognises"""
    s = stream(ex, st, args[2], 'fgets')
    if s is None or s[1].lines is None:
        raise Unsupported('fgets of a file of unknown text')
    fp, f = s
    k = get(ex, st, fp, 0)
    if ex.light:
        put(ex, st, fp, 0, k + 1)
        return [(st, ex.undef_of(ins.ty))]
    k, size = k.const(), ex.as_s(st, args[1]).const()
    if k is None or size is None:
        raise Unsupported('fgets at an unknown place')
    if k >= len(f.lines):
        return [(st, NULL)]
    ln = f.lines[k]
    if sum(1 if isinstance(c, int) else 11 for c in ln) + 1 > size:
        raise Unsupported('a line longer than the buffer')
    al = ex.access(st, args[0], P(size), 'fgets')
    if len(al) != 1:
        raise Unsupported('fgets to one of several objects')
    g, b, o = al[0]
    put(ex, st, fp, 0, P(k + 1))
    for i, c in enumerate(ln + [0]):
        if not isinstance(c, int):
            if not ex.prove(st, Le(0, c)):
                raise Unsupported('a negative number in a text file')
            ex.push_node(st, b, Node('H', (), TRUE, o + i, P(min(64, size - i))))
            ex.write(st, b, o + i, 1, 'i8', IV(App('digit0', [c], INT, 48, 57), 8, 'u'))
            break                           # the rest of the line is not looked at
        ex.write(st, b, o + i, 1, 'i8', IV(P(c), 8, 'u'))
    return [(st, args[0])]


def number_at(v):
    a = v.p.as_atom() if isinstance(v, IV) else None
    if a is not None and ATOMS[a.id].kind == 'app' and ATOMS[a.id].data[0] == 'digit0':
        return ATOMS[a.id].data[1]
    return None


def b_sscanf(ex, st, args, ins):
    """sscanf of a line with known characters: %d, %c, %[^x], %*[^x] and literal characters"""
    from .builtins import const_string
    if ex.light:
        return [(st, ex.undef_of(ins.ty))]
    fmt = const_string(ex, st, args[1])
    al = ex.feasible_alts(st, args[0])
    if fmt is None or len(al) != 1 or al[0][1] is None:
        raise Unsupported('sscanf of an unknown text')
    g, b, o = al[0]

    def at(i):
        ex.access(st, PV.to(b, o + i), ONE, 'sscanf read')
        v = ex.read(st, b, o + i, 'i8', 1)
        c = v.p.const() if isinstance(v, IV) else None
        return (c if c is None else c & 255), v
    rest = list(args[2:])
    i = pos = n = 0

    def done():
        return [(st, IV(P(n), 32))]

    def space():
        nonlocal pos
        while at(pos)[0] in (9, 10, 11, 12, 13, 32):
            pos += 1

    def sto(c, off=0):
        p = rest[0]
        al2 = ex.access(st, PV([(g, x, y + off if x is not None else y) for g, x, y in p.alts]), ONE, 'sscanf write')
        if len(al2) != 1:
            raise Unsupported('sscanf to one of several objects')
        ex.write(st, al2[0][1], al2[0][2], 1, 'i8', IV(P(c), 8, 'u'))
    while i < len(fmt):
        c = fmt[i]
        if chr(c).isspace():
            space()
            i += 1
            continue
        if c != 37:
            x = at(pos)[0]
            if x is None:
                raise Unsupported('sscanf of an unknown text')
            if x != c:
                return done()
            pos, i = pos + 1, i + 1
            continue
        i += 1
        sup = fmt[i] == 42
        i += sup
        if bytes(fmt[i:i + 2]) == b'[^' and fmt[i + 3] == 93:
            stop = fmt[i + 2]
            i += 4
            k = 0
            while True:
                x = at(pos)[0]
                if x is None:
                    raise Unsupported('sscanf of an unknown text')
                if x in (0, stop):
                    break
                if not sup:
                    sto(x, k)
                pos, k = pos + 1, k + 1
            if not k:
                return done()
            if not sup:
                sto(0, k)
                rest.pop(0)
                n += 1
        elif fmt[i] == 99 and not sup:
            i += 1
            x = at(pos)[0]
            if x is None:
                raise Unsupported('sscanf of an unknown text')
            if x == 0:
                return done()
            sto(x)
            rest.pop(0)
            pos, n = pos + 1, n + 1
        elif fmt[i] == 100 and not sup:
            i += 1
            space()
            x, v = at(pos)
            q = number_at(v)
            known = q is None
            if known:
                t = b''
                while x is not None and (x in b'0123456789' or x in b'+-' and not t):
                    t += bytes([x])
                    pos += 1
                    x, v = at(pos)
                if x is None:
                    raise Unsupported('sscanf of an unknown number')
                if not t.lstrip(b'+-'):
                    return done()
                q = P(int(t))
            ex.store(st, rest.pop(0), IV(q, 32), I32)
            n += 1
            if i < len(fmt) and not known:
                raise Unsupported('sscanf of an unknown text')
        else:
            raise Unsupported('sscanf conversion')
    return done()


def b_fscanf(ex, st, args, ins):
    """fscanf("%f") over a file of numbers (separated by white space): the next number, or EOF after the last"""
    from .builtins import const_string
    s = stream(ex, st, args[0], 'fscanf')
    fmt = const_string(ex, st, args[1])
    if s is None or s[1].nums is None or fmt is None or bytes(fmt).strip() not in (b'%f', b'%lf'):
        raise Unsupported('fscanf')
    fp, f = s
    pos = get(ex, st, fp, 0)
    more = Lt(pos, f.nums[1])
    t, e = ex.decide(st, more)
    out = []
    if t:
        st1 = st.copy()
        if e:
            st1.br = st1.br + (more,)
        v = ex.read(st1, f.nums[0], pos * 4, 'f32', 4)
        d = bytes(fmt).strip() == b'%lf'
        ex.store(st1, args[2], FV(v.p, 64) if d else v, Ty('double') if d else Ty('float'))
        put(ex, st1, fp, 0, pos + 1)
        out.append((st1, IV(ONE, 32)))
    if e:
        st2 = st.copy()
        if t:
            st2.br = st2.br + (Not(more),)
        out.append((st2, IV(P(-1), 32)))
    return out


def b_strchr(ex, st, args, ins):
    """the first occurrence of a character in a text"""
    al = ex.feasible_alts(st, args[0])
    want = ex.as_s(st, args[1]).const()
    if len(al) == 1 and al[0][1] is not None and want is not None:
        g, b, o = al[0]
        for i in range(4096):
            if not ex.light:
                ex.access(st, PV.to(b, o + i), ONE, 'strchr read')
            v = ex.read(st, b, o + i, 'i8', 1)
            c = v.p.const() if isinstance(v, IV) else None
            if c is None:
                break
            if c & 255 == want & 255:
                return [(st, PV.to(b, o + i))]
            if c == 0:
                return [(st, NULL)]
    if ex.light:
        return [(st, ex.undef_of(ins.ty))]
    raise Unsupported('strchr of an unknown text')


def b_atof(ex, st, args, ins):
    from .builtins import const_string
    import re
    from fractions import Fraction
    if ex.light:
        return [(st, ex.undef_of(ins.ty))]
    t = const_string(ex, st, args[0])
    if t is None:
        raise Unsupported('atof of an unknown text')
    m = re.match(r'\s*([+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?)', bytes(t).decode('latin1'))
    return [(st, FV(P(norm_c(Fraction(m.group(1)))) if m else ZERO, 64))]


def text_at(ex, st, pv, what):
    """(object, offset, characters) of a text of known contents"""
    from .builtins import const_string
    t = const_string(ex, st, pv)
    if t is None:
        raise Unsupported(what + ' of an unknown text')
    g, b, o = ex.feasible_alts(st, pv)[0]
    ex.access(st, PV.to(b, o), P(len(t) + 1), what)
    return t


def put_text(ex, st, pv, t, what, at=0):
    al = ex.access(st, PV([(g, b, o + at if b is not None else o) for g, b, o in pv.alts]), P(len(t) + 1), what)
    if len(al) != 1:
        raise Unsupported(what + ' to one of several objects')
    for i, c in enumerate(list(t) + [0]):
        ex.write(st, al[0][1], al[0][2] + i, 1, 'i8', IV(P(c), 8, 'u'))


def b_strcpy(ex, st, args, ins):
    if not ex.light:
        put_text(ex, st, args[0], text_at(ex, st, args[1], 'strcpy'), 'strcpy')
    elif ex.inloop:
        raise Unsupported('strcpy in a loop')
    return [(st, args[0])]


def b_strcat(ex, st, args, ins):
    if not ex.light:
        put_text(ex, st, args[0], text_at(ex, st, args[1], 'strcat'), 'strcat', len(text_at(ex, st, args[0], 'strcat')))
    elif ex.inloop:
        raise Unsupported('strcat in a loop')
    return [(st, args[0])]


def sprintf(ex, st, dst, fmt, rest, size=None):
    from .builtins import const_string
    if ex.light and ex.inloop:
        raise Unsupported('sprintf in a loop')
    f = const_string(ex, st, fmt)
    if f is None:
        raise Unsupported('format of unknown contents')
    out, i, rest = [], 0, list(rest)
    while i < len(f):
        if f[i] != 37:
            out.append(f[i])
            i += 1
            continue
        d = chr(f[i + 1])
        i += 2
        if d == '%':
            out.append(37)
        elif d == 's':
            out += text_at(ex, st, rest.pop(0), 'sprintf')
        elif d == 'c' and ex.as_s(st, rest[0]).const() is not None:
            out.append(ex.as_s(st, rest.pop(0)).const() & 255)
        elif d == 'd' and ex.as_s(st, rest[0]).const() is not None:
            out += b'%d' % ex.as_s(st, rest.pop(0)).const()
        else:
            raise Unsupported('sprintf of an unknown value')
    n = len(out)
    if size is not None:
        out = out[:max(size - 1, 0)]
    if size != 0:
        put_text(ex, st, dst, out, 'sprintf')
    return [(st, IV(P(n), 32))]


def b_sprintf(ex, st, args, ins):
    return sprintf(ex, st, args[0], args[1], args[2:])


def b_snprintf(ex, st, args, ins):
    n = ex.as_u(st, args[1]).const()
    if n is None:
        raise Unsupported('snprintf')
    return sprintf(ex, st, args[0], args[2], args[3:], n)


def b_atoi(ex, st, args, ins):
    """atoi/atol of known text, or of a number read by fgets"""
    if ex.light:
        return [(st, ex.undef_of(ins.ty))]
    al = ex.feasible_alts(st, args[0])
    if len(al) != 1 or al[0][1] is None:
        raise Unsupported('atoi of an unknown text')
    g, b, o = al[0]
    t = b''
    for i in range(64):
        ex.access(st, PV.to(b, o + i), ONE, 'atoi read')
        v = ex.read(st, b, o + i, 'i8', 1)
        q = number_at(v)
        if q is not None and not t.strip():
            return [(st, IV(q, ins.ty.w))]
        c = v.p.const() if isinstance(v, IV) else None
        if c is None:
            break
        if chr(c & 255) in ' \t\n' and not t.strip() or c & 255 in b'0123456789' or c & 255 in b'+-' and not t.strip():
            t += bytes([c & 255])
            continue
        t = t.strip()
        return [(st, IV(P(int(t) if t.strip(b'+-') else 0), ins.ty.w))]
    raise Unsupported('atoi of an unknown text')


TABLE = {'fscanf': b_fscanf, '__isoc99_fscanf': b_fscanf, 'strcpy': b_strcpy, 'strcat': b_strcat, 'sprintf': b_sprintf, 'snprintf': b_snprintf, 'atoi': b_atoi, 'atol': b_atoi,
         'atof': b_atof, 'strchr': b_strchr, 'fgets': b_fgets, 'sscanf': b_sscanf, '__isoc99_sscanf': b_sscanf, 'fopen': b_fopen, 'fclose': b_fclose, 'fread': b_fread, 'fwrite': b_fwrite, 'fseek': b_fseek, 'ftell': b_ftell,
         'fputs': b_fputs, 'fputc': b_fputc, 'putc': b_fputc, 'fprintf': b_fprintf}
