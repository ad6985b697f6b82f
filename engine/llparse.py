"""Parser for the textual LLVM IR (clang 18, opaque pointers) that is extracted from /repo on every run."""
import re


class Ty:
    __slots__ = ('k', 'w', 'el', 'n', 'fields', 'name', '_size', '_align', '_offs')

    def __init__(self, k, w=0, el=None, n=0, fields=None, name=None):
        self.k, self.w, self.el, self.n, self.fields, self.name = k, w, el, n, fields, name
        self._size = None

    def __repr__(self):
        if self.k == 'int':
            return 'i%d' % self.w
        if self.k in ('arr', 'vec'):
            return '[%d x %r]' % (self.n, self.el)
        if self.k == 'struct':
            return self.name or '{%s}' % ', '.join(map(repr, self.fields))
        return self.k

    def size(self):
        if self._size is None:
            k = self.k
            if k == 'int':
                self._size = max(1, 1 << ((self.w + 7) // 8 - 1).bit_length())
                self._align = self._size
            elif k == 'float':
                self._size = self._align = 4
            elif k in ('double', 'ptr'):
                self._size = self._align = 8
            elif k == 'x86_fp80':
                self._size = self._align = 16
            elif k in ('arr', 'vec'):
                self._size = self.el.size() * self.n
                self._align = self.el.align() if k == 'arr' else self._size
            elif k == 'struct':
                o = 0
                al = 1
                self._offs = []
                packed = self.w == 1
                for f in self.fields or []:
                    a = 1 if packed else f.align()
                    o = (o + a - 1) // a * a
                    self._offs.append(o)
                    o += f.size()
                    al = max(al, a)
                self._size = (o + al - 1) // al * al
                self._align = al
            else:
                self._size = 0
                self._align = 1
        return self._size

    def align(self):
        self.size()
        return self._align

    def offs(self):
        self.size()
        return self._offs


I1, I8, I16, I32, I64 = [Ty('int', w) for w in (1, 8, 16, 32, 64)]
PTR, FLOAT, DOUBLE, VOID = Ty('ptr'), Ty('float'), Ty('double'), Ty('void')
FP80 = Ty('x86_fp80')
OTHER = {'label': Ty('label'), 'metadata': Ty('metadata'), 'token': Ty('token')}
_ints = {1: I1, 8: I8, 16: I16, 32: I32, 64: I64}

TOK = re.compile(r'''
   c"(?:[^"\\]|\\.|\\[0-9A-F]{2})*" | "(?:[^"\\]|\\.)*"
 | [%@](?:"[^"]*"|[-a-zA-Z$._0-9]+)
 | \#\d+ | !(?:[a-zA-Z_.0-9]+|\{)?
 | -?\d+\.\d+(?:e[+-]?\d+)? | 0x[KLMHR]?[0-9A-Fa-f]+ | -?\d+
 | [a-zA-Z_][a-zA-Z_0-9.]*
 | \.\.\. | [()\[\]{}<>=,*:|;]
''', re.X)


def tokenize(s):
    return TOK.findall(s)


class Toks:
    def __init__(self, toks, mod):
        self.t, self.i, self.mod = toks, 0, mod

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise SyntaxError('expected %r got %r in %s' % (x, y, ' '.join(self.t)))


ATTRS = set('''noundef nonnull signext zeroext nocapture readonly writeonly returned noalias inreg nofree immarg
 dso_local internal private unnamed_addr local_unnamed_addr constant global external linkonce_odr comdat hidden
 nsw nuw exact inbounds volatile tail notail musttail fast nnan ninf nsz arcp contract afn reassoc nest swiftself
 weak_odr available_externally mustprogress common noinline nneg disjoint thread_local dso_preemptable weak allocptr
 protected appending ccc fastcc coldcc spir_func externally_initialized noreturn nounwind willreturn dead_on_unwind writable allocalign initializes dead_on_return personality fixed'''.split())


def parse_type(t):
    x = t.next()
    if x[0] == 'i' and x[1:].isdigit():
        w = int(x[1:])
        ty = _ints.get(w) or Ty('int', w)
    elif x == 'ptr':
        ty = PTR
    elif x == 'float':
        ty = FLOAT
    elif x == 'double':
        ty = DOUBLE
    elif x == 'void':
        ty = VOID
    elif x == 'x86_fp80':
        ty = FP80
    elif x in OTHER:
        ty = OTHER[x]
    elif x == '[':
        n = int(t.next())
        t.expect('x')
        el = parse_type(t)
        t.expect(']')
        ty = Ty('arr', el=el, n=n)
    elif x == '<':
        if t.peek() == '{':
            ty = parse_type(t)
            ty.w = 1
            t.expect('>')
        else:
            n = int(t.next())
            t.expect('x')
            el = parse_type(t)
            t.expect('>')
            ty = Ty('vec', el=el, n=n)
    elif x == '{':
        fs = []
        while not t.accept('}'):
            fs.append(parse_type(t))
            t.accept(',')
        ty = Ty('struct', fields=fs)
    elif x[0] == '%':
        ty = t.mod.struct(x)
    else:
        raise SyntaxError('type? %r in %s' % (x, ' '.join(t.t)))
    while t.peek() == '(':      # function type
        depth = 0
        while True:
            y = t.next()
            if y == '(':
                depth += 1
            elif y == ')':
                depth -= 1
                if depth == 0:
                    break
        ty = Ty('fn', el=ty)
    return ty


def skip_attrs(t):
    """skips parameter attributes; returns list of names seen"""
    seen = []
    while True:
        x = t.peek()
        if x is None:
            return seen
        if x in ATTRS or (x.startswith('#') and x[1:].isdigit()):
            t.next()
            seen.append(x)
        elif x in ('align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'addrspace', 'allocsize',
                   'preallocated', 'elementtype', 'memory', 'nofpclass', 'range'):
            t.next()
            seen.append(x)
            if t.peek() == '(':
                d = 0
                while True:
                    y = t.next()
                    if y == '(':
                        d += 1
                    elif y == ')':
                        d -= 1
                        if d == 0:
                            break
            else:
                if x == 'align':
                    t.next()
        else:
            return seen


def parse_float(tok, ty):
    import struct
    if tok.startswith('0x'):
        if tok[2] in 'KLMHR':
            return ('fp80', tok)
        return struct.unpack('>d', bytes.fromhex(tok[2:].rjust(16, '0')))[0]
    return float(tok)


class Val:
    """operand: kind in local/global/int/fp/null/undef/zero/gep/cast/agg/str/bool"""
    __slots__ = ('k', 'ty', 'v', 'x')

    def __init__(self, k, ty, v=None, x=None):
        self.k, self.ty, self.v, self.x = k, ty, v, x

    def __repr__(self):
        return '%s:%s' % (self.k, self.v)


def parse_val(t, ty):
    x = t.next()
    if x[0] == '%':
        return Val('local', ty, x)
    if x[0] == '@':
        return Val('global', ty, x)
    if x in ('true', 'false'):
        return Val('int', ty, 1 if x == 'true' else 0)
    if x == 'null':
        return Val('null', ty)
    if x in ('undef', 'poison'):
        return Val('undef', ty)
    if x == 'zeroinitializer':
        return Val('zero', ty)
    if x in ('getelementptr',):
        skip_attrs(t)
        t.expect('(')
        sty = parse_type(t)
        t.expect(',')
        args = []
        while True:
            a = parse_tv(t)
            args.append(a)
            if not t.accept(','):
                break
        t.expect(')')
        return Val('gep', ty, sty, args)
    if x in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'sext', 'zext'):
        t.expect('(')
        a = parse_tv(t)
        t.expect('to')
        parse_type(t)
        t.expect(')')
        return Val('cast', ty, x, [a])
    if x in ('sub', 'add'):
        skip_attrs(t)
        t.expect('(')
        a = parse_tv(t)
        t.expect(',')
        b = parse_tv(t)
        t.expect(')')
        return Val('cexpr', ty, x, [a, b])
    if x[0] == 'c' and x[1:2] == '"':
        s = x[2:-1]
        bs = bytearray()
        i = 0
        raw = s
        while i < len(raw):
            if raw[i] == '\\':
                if raw[i + 1] == '\\':
                    bs.append(92)
                    i += 2
                    continue
                bs.append(int(raw[i + 1:i + 3], 16))
                i += 3
            else:
                bs += raw[i].encode('utf8')
                i += 1
        return Val('str', ty, bytes(bs))
    if x in ('[', '{', '<'):
        close = {'[': ']', '{': '}', '<': '>'}[x]
        if x == '<' and t.peek() == '{':
            t.next()
            close = '}'
            xs = []
            while not t.accept('}'):
                xs.append(parse_tv(t))
                t.accept(',')
            t.expect('>')
            return Val('agg', ty, None, xs)
        xs = []
        while not t.accept(close):
            xs.append(parse_tv(t))
            t.accept(',')
        return Val('agg', ty, None, xs)
    if ty.k in ('float', 'double', 'x86_fp80'):
        return Val('fp', ty, parse_float(x, ty))
    if re.fullmatch(r'-?\d+', x):
        return Val('int', ty, int(x))
    if x == 'metadata' or x[0] == '!':
        return Val('undef', ty)
    raise SyntaxError('value? %r in %s' % (x, ' '.join(t.t)))


def parse_tv(t):
    ty = parse_type(t)
    skip_attrs(t)
    return parse_val(t, ty)


class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'x', 'line', 'flags', 'txt')

    def __repr__(self):
        return self.txt


class Block:
    def __init__(self, name):
        self.name = name
        self.ins = []
        self.succ = []


class Function:
    def __init__(self, name):
        self.name = name
        self.params = []      # (name, Ty, attrs)
        self.ret = VOID
        self.blocks = {}
        self.order = []
        self.declared_only = False
        self.file = None
        self.line = 0


class Global:
    def __init__(self, name, ty, init, const):
        self.name, self.ty, self.init, self.const = name, ty, init, const


def never_written(mod, name):
    """a file-local object whose address is only ever used to load from it"""
    import re
    rx = re.compile(re.escape(name) + r'(?![\w.$])')
    for f in mod.functions.values():
        ins = [i for blk in (f.blocks.values() if isinstance(f.blocks, dict) else f.blocks) for i in blk.ins]
        deriv, held = set(), set()
        for _ in range(6):
            n = len(deriv) + len(held)
            for i in ins:
                ops = [getattr(v, 'v', None) if getattr(v, 'k', None) == 'local' else None for v in i.a]
                hit = [bool(v is not None and v in deriv) for v in ops]
                g = rx.search(i.txt) is not None
                if i.op == 'load':
                    if ops and ops[-1] in held:
                        deriv.add(i.res)
                    continue
                if not g and not any(hit):
                    continue
                if i.op in ('getelementptr', 'select', 'phi') and len(rx.findall(i.txt)) <= 1:
                    deriv.add(i.res)
                    continue
                if i.op == 'icmp':
                    continue
                if i.op == 'store' and len(i.a) == 2 and not hit[1] and ops[1] is not None and own_slot(ins, ops[1]) and \
                        not rx.search(i.txt.rsplit(', ptr ', 1)[-1]):
                    held.add(ops[1])          # kept in a local variable
                    continue
                return False
            if len(deriv) + len(held) == n:
                break
        else:
            return False
    return True


def own_slot(ins, v):
    """a local variable whose address goes nowhere: it is only loaded and stored"""
    ok = False
    for i in ins:
        if i.op == 'alloca' and i.res == v:
            ok = True
        for k, o in enumerate(i.a):
            if getattr(o, 'k', None) == 'local' and o.v == v and not (i.op == 'load' or i.op == 'store' and k == 1):
                if not (i.op == 'call' and 'llvm.dbg' in i.txt):
                    return False
    return ok


class Module:
    def __init__(self):
        self.structs = {}
        self.functions = {}
        self.globals = {}
        self.meta = {}
        self.files = {}

    def struct(self, name):
        s = self.structs.get(name)
        if s is None:
            s = Ty('struct', fields=None, name=name)
            self.structs[name] = s
        return s


def strip_comment(line):
    i = line.find(';')
    if i < 0:
        return line
    inq = False
    for j, c in enumerate(line):
        if c == '"':
            inq = not inq
        elif c == ';' and not inq:
            return line[:j]
    return line


def parse_module(text, mod=None, rename=None):
    mod = mod or Module()
    meta = {}
    lines = text.split('\n')
    for ln in lines:
        if ln.startswith('!') and ' = ' in ln:
            k, v = ln.split(' = ', 1)
            meta[k] = v
    i = 0
    n = len(lines)
    # structs first
    for ln in lines:
        if ln.startswith('%') and ' = type ' in ln:
            name, rest = ln.split(' = type ', 1)
            st = mod.struct(name.strip())
            if rest.strip() == 'opaque':
                continue
            if st.fields is not None:
                continue
            t = Toks(tokenize(rest), mod)
            ty = parse_type(t)
            st.fields, st.w = ty.fields, ty.w
    while i < n:
        ln = lines[i]
        if ln.startswith('@'):
            _parse_global(ln, mod)
        elif ln.startswith('define '):
            body = []
            j = i + 1
            while lines[j] != '}':
                body.append(lines[j])
                j += 1
            _parse_function(ln, body, mod, meta)
            i = j
        elif ln.startswith('declare '):
            t = Toks(tokenize(ln), mod)
            names = [x for x in t.t if x[0] == '@']
            if names and names[0] not in mod.functions:
                f = Function(names[0])
                f.declared_only = True
                t.next()
                skip_attrs(t)
                try:
                    f.ret = parse_type(t)
                except SyntaxError:
                    pass
                mod.functions[names[0]] = f
        i += 1
    return mod


def _parse_global(ln, mod):
    ln = strip_comment(ln)
    name, rest = ln.split(' = ', 1)
    t = Toks(tokenize(rest), mod)
    const = inter = False
    ext = False
    while True:
        x = t.peek()
        if x == 'constant':
            const = True
        if x == 'external':
            ext = True
        if x in ('internal', 'private'):
            inter = True
        if x in ATTRS:
            t.next()
            continue
        if x == 'comdat':
            t.next()
            continue
        break
    if t.peek() == 'alias':
        return
    try:
        ty = parse_type(t)
        skip_attrs(t)
        init = None
        if t.peek() is not None and t.peek() not in (',',):
            init = parse_val(t, ty)
    except (SyntaxError, IndexError):
        return
    if name in mod.globals and init is None:
        return
    mod.globals[name] = Global(name, ty, init, const)
    mod.globals[name].internal = inter


def _dbg_line(ln, meta, cache):
    m = re.search(r'!dbg !(\d+)', ln)
    if not m:
        return 0
    k = m.group(1)
    if k not in cache:
        v = meta.get('!' + k, '')
        mm = re.search(r'line: (\d+)', v)
        cache[k] = int(mm.group(1)) if mm else 0
    return cache[k]


def _parse_function(hdr, body, mod, meta):
    t = Toks(tokenize(hdr), mod)
    t.next()
    skip_attrs(t)
    while t.peek() in ATTRS:
        t.next()
    ret = parse_type(t)
    skip_attrs(t)
    name = t.next()
    f = Function(name)
    f.ret = ret
    t.expect('(')
    pn = 0
    while not t.accept(')'):
        if t.accept('...'):
            continue
        ty = parse_type(t)
        at = skip_attrs(t)
        if t.peek() and t.peek()[0] == '%':
            pname = t.next()
        else:
            pname = '%%%d' % pn
        pn += 1
        f.params.append((pname, ty, at))
        t.accept(',')
    m = re.search(r'!dbg !(\d+)', hdr)
    if m:
        v = meta.get('!' + m.group(1), '')
        mm = re.search(r'line: (\d+)', v)
        f.line = int(mm.group(1)) if mm else 0
        fm = re.search(r'file: !(\d+)', v)
        if fm:
            fv = meta.get('!' + fm.group(1), '')
            mm = re.search(r'filename: "([^"]*)"', fv)
            f.file = mm.group(1) if mm else None
    cache = {}
    cur = None
    k = 0
    while k < len(body):
        ln = body[k]
        k += 1
        if not ln.strip():
            continue
        if not ln.startswith(' '):
            lab = strip_comment(ln).strip()
            if lab.endswith(':'):
                cur = Block('%' + lab[:-1].strip('"') if not lab.startswith('"') else '%' + lab[:-1])
                f.blocks[cur.name] = cur
                f.order.append(cur.name)
            continue
        if cur is None:
            cur = Block('%entry')
            # unnamed entry: number = count of params
            f.blocks[cur.name] = cur
            f.order.append(cur.name)
        s = ln.strip()
        if s.startswith('switch ') or ' switch ' in s and s.endswith('['):
            while not body[k - 1].strip().startswith(']'):
                s += ' ' + body[k].strip()
                k += 1
        elif re.search(r'\binvoke\b', s) and ' unwind label ' not in s:
            s += ' ' + body[k].strip()
            k += 1
        elif s.startswith('%') and ' landingpad ' in s:
            while k < len(body) and body[k].strip().startswith(('catch', 'cleanup', 'filter')):
                s += ' ' + body[k].strip()
                k += 1
        line = _dbg_line(s, meta, cache)
        s2 = s.split(', !dbg')[0]
        s2 = re.sub(r', !(srcloc|tbaa|llvm\.loop|range|heapallocsite|prof|nosanitize) !\d+', '', s2)
        if 'llvm.dbg.' in s2:
            continue
        try:
            ins = _parse_instr(s2, mod)
        except (SyntaxError, IndexError, KeyError) as e:
            ins = Instr()
            ins.op, ins.res, ins.ty, ins.a, ins.x, ins.flags = 'unsupported', None, VOID, [], str(e), ()
            ins.txt = s2
        ins.line = line
        cur.ins.append(ins)
    for b in f.blocks.values():
        if b.ins:
            last = b.ins[-1]
            if last.op == 'br':
                b.succ = list(last.x)
            elif last.op == 'switch':
                b.succ = [last.x[0]] + [l for _, l in last.x[1]]
            elif last.op == 'invoke':
                b.succ = [last.x['normal']]
    old = mod.functions.get(name)
    mod.functions[name] = f
    return f


BIN = set('add sub mul sdiv udiv srem urem and or xor shl lshr ashr fadd fsub fmul fdiv frem'.split())
CAST = set('sext zext trunc fptosi fptoui sitofp uitofp fpext fptrunc ptrtoint inttoptr bitcast'.split())


def _parse_instr(s, mod):
    t = Toks(tokenize(s), mod)
    ins = Instr()
    ins.txt = s
    ins.res = None
    ins.flags = ()
    ins.x = None
    ins.a = []
    ins.ty = VOID
    if t.peek()[0] == '%' and t.peek(1) == '=':
        ins.res = t.next()
        t.next()
    op = t.next()
    while op in ('tail', 'notail', 'musttail'):
        op = t.next()
    ins.op = op
    if op == 'alloca':
        ins.x = parse_type(t)
        ins.ty = PTR
        if t.accept(','):
            if t.peek() != 'align':
                ins.a = [parse_tv(t)]
    elif op == 'load':
        skip_attrs(t)
        ins.ty = parse_type(t)
        t.expect(',')
        ins.a = [parse_tv(t)]
    elif op == 'store':
        skip_attrs(t)
        v = parse_tv(t)
        t.expect(',')
        p = parse_tv(t)
        ins.a = [v, p]
    elif op == 'getelementptr':
        skip_attrs(t)
        ins.x = parse_type(t)
        ins.ty = PTR
        while t.accept(','):
            ins.a.append(parse_tv(t))
    elif op in BIN:
        ins.flags = tuple(skip_attrs(t))
        ty = parse_type(t)
        a = parse_val(t, ty)
        t.expect(',')
        b = parse_val(t, ty)
        ins.ty = ty
        ins.a = [a, b]
    elif op == 'fneg':
        skip_attrs(t)
        a = parse_tv(t)
        ins.ty = a.ty
        ins.a = [a]
    elif op in ('icmp', 'fcmp'):
        skip_attrs(t)
        ins.x = t.next()
        skip_attrs(t)
        ty = parse_type(t)
        a = parse_val(t, ty)
        t.expect(',')
        b = parse_val(t, ty)
        ins.ty = I1
        ins.a = [a, b]
    elif op in CAST:
        ins.flags = tuple(skip_attrs(t))
        a = parse_tv(t)
        t.expect('to')
        ins.ty = parse_type(t)
        ins.a = [a]
    elif op == 'br':
        if t.peek() == 'label':
            t.next()
            ins.x = [t.next()]
        else:
            c = parse_tv(t)
            t.expect(',')
            t.expect('label')
            a = t.next()
            t.expect(',')
            t.expect('label')
            b = t.next()
            ins.a = [c]
            ins.x = [a, b]
    elif op == 'switch':
        v = parse_tv(t)
        t.expect(',')
        t.expect('label')
        d = t.next()
        t.expect('[')
        cs = []
        while not t.accept(']'):
            cv = parse_tv(t)
            t.expect(',')
            t.expect('label')
            cs.append((cv.v, t.next()))
        ins.a = [v]
        ins.x = (d, cs)
    elif op == 'ret':
        if t.peek() != 'void':
            ins.a = [parse_tv(t)]
    elif op in ('call', 'invoke'):
        skip_attrs(t)
        rty = parse_type(t)
        if rty.k == 'fn':
            rty = rty.el
        callee = t.next()
        if callee == 'asm':
            raise SyntaxError('inline asm')
        ins.ty = rty
        t.expect('(')
        args = []
        while not t.accept(')'):
            if t.peek() == 'metadata':
                while t.peek() not in (',', ')'):
                    t.next()
                t.accept(',')
                continue
            args.append(parse_tv(t))
            t.accept(',')
        ins.a = args
        ins.x = {'callee': callee}
        if op == 'invoke':
            skip_attrs(t)
            t.expect('to')
            t.expect('label')
            ins.x['normal'] = t.next()
            t.expect('unwind')
            t.expect('label')
            ins.x['unwind'] = t.next()
    elif op == 'phi':
        skip_attrs(t)
        ins.ty = parse_type(t)
        inc = []
        while t.accept('['):
            v = parse_val(t, ins.ty)
            t.expect(',')
            l = t.next()
            t.expect(']')
            inc.append((v, l))
            t.accept(',')
        ins.x = inc
    elif op == 'select':
        skip_attrs(t)
        c = parse_tv(t)
        t.expect(',')
        a = parse_tv(t)
        t.expect(',')
        b = parse_tv(t)
        ins.ty = a.ty
        ins.a = [c, a, b]
    elif op in ('extractvalue',):
        a = parse_tv(t)
        idx = []
        while t.accept(','):
            idx.append(int(t.next()))
        ins.a = [a]
        ins.x = idx
        ty = a.ty
        for q in idx:
            ty = ty.fields[q] if ty.k == 'struct' else ty.el
        ins.ty = ty
    elif op in ('insertvalue',):
        a = parse_tv(t)
        t.expect(',')
        b = parse_tv(t)
        idx = []
        while t.accept(','):
            idx.append(int(t.next()))
        ins.a = [a, b]
        ins.x = idx
        ins.ty = a.ty
    elif op in ('insertelement',):
        a = parse_tv(t)
        t.expect(',')
        b = parse_tv(t)
        t.expect(',')
        c = parse_tv(t)
        ins.a = [a, b, c]
        ins.ty = a.ty
    elif op in ('extractelement',):
        a = parse_tv(t)
        t.expect(',')
        b = parse_tv(t)
        ins.a = [a, b]
        ins.ty = a.ty.el
    elif op in ('unreachable', 'landingpad', 'resume'):
        pass
    elif op == 'freeze':
        a = parse_tv(t)
        ins.a = [a]
        ins.ty = a.ty
    else:
        raise SyntaxError('op ' + op)
    return ins
