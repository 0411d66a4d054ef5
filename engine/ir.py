"""Parser for the textual LLVM IR that clang-18 emits from /repo's headers.

Bodies are parsed lazily (a translation unit has tens of thousands of lines and a proof
touches a small part of it)."""
import re, struct

TOK = re.compile(r'''
   c"(?:[^"\\]|\\.)*"            # c string
 | [%@]"(?:[^"\\]|\\.)*"         # quoted names
 | "(?:[^"\\]|\\.)*"
 | [%@][-a-zA-Z$._0-9]+
 | \#\d+
 | ![-a-zA-Z$._0-9]*
 | \.\.\.
 | 0x[KLMHR]?[0-9A-Fa-f]+
 | -?\d+\.\d+(?:e[+-]?\d+)?
 | -?\d+
 | [a-zA-Z_][-a-zA-Z_0-9.$]*
 | [(){}\[\]<>,=*:]
''', re.X)

class IRError(Exception):
    pass

def unquote(n):
    if len(n) > 1 and n[1] == '"':
        body = n[2:-1]
        return n[0] + re.sub(r'\\([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)), body)
    return n

# types: ('i',n) ('ptr',) ('f32',) ('f64',) ('f80',) ('void',) ('arr',n,T) ('st',(T...),packed) ('named',name) ('vec',n,T)
class TP:
    """token cursor with type/operand parsing"""
    def __init__(self, toks, mod):
        self.t = toks; self.i = 0; self.mod = mod
    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None
    def next(self):
        x = self.t[self.i]; self.i += 1
        return x
    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False
    def expect(self, x):
        if not self.eat(x):
            raise IRError('expected %s got %s in %s' % (x, self.peek(), ' '.join(self.t)))
    def type(self):
        t = self.next()
        if t == 'void': ty = ('void',)
        elif t == 'ptr': 
            ty = ('ptr',)
            if self.peek() == 'addrspace': raise IRError('addrspace')
        elif t == 'float': ty = ('f32',)
        elif t == 'double': ty = ('f64',)
        elif t == 'x86_fp80': ty = ('f80',)
        elif t == 'metadata': ty = ('metadata',)
        elif t == 'label': ty = ('label',)
        elif t == 'token': ty = ('token',)
        elif re.fullmatch(r'i\d+', t): ty = ('i', int(t[1:]))
        elif t == '[':
            n = int(self.next()); self.expect('x'); e = self.type(); self.expect(']')
            ty = ('arr', n, e)
        elif t == '{':
            fs = []
            while not self.eat('}'):
                fs.append(self.type()); self.eat(',')
            ty = ('st', tuple(fs), False)
        elif t == '<':
            if self.eat('{'):
                fs = []
                while not self.eat('}'):
                    fs.append(self.type()); self.eat(',')
                self.expect('>')
                ty = ('st', tuple(fs), True)
            else:
                n = int(self.next()); self.expect('x'); e = self.type(); self.expect('>')
                ty = ('vec', n, e)
        elif t[0] == '%':
            ty = ('named', unquote(t)[1:])
        else:
            raise IRError('type? %s in %s' % (t, ' '.join(self.t)))
        # function type suffix (only in indirect/vararg call types)
        if self.peek() == '(' and ty[0] != 'metadata':
            save = self.i
            depth = 0
            # only treat as function type if followed (after parens) by a callee token
            j = self.i
            while j < len(self.t):
                if self.t[j] == '(': depth += 1
                elif self.t[j] == ')':
                    depth -= 1
                    if depth == 0: break
                j += 1
            nxt = self.t[j+1] if j+1 < len(self.t) else None
            if nxt and (nxt[0] in '%@') :
                self.i = j+1
                return ('fn', ty)
            self.i = save
        return ty
    ATTR = {'noundef','nonnull','zeroext','signext','noalias','nocapture','readonly','readnone','writeonly','returned','inreg','nest','nofree','immarg','swiftself','noreturn','nounwind','allocptr','dead_on_unwind','writable','nocapture'}
    def attrs(self):
        while True:
            p = self.peek()
            if p is None: return
            if p in self.ATTR: self.i += 1; continue
            if p in ('align',):
                self.i += 1
                if self.eat('('): self.next(); self.expect(')')
                else: self.next()
                continue
            if p in ('dereferenceable','dereferenceable_or_null','sret','byval','byref','elementtype','preallocated','inalloca','allocsize','memory','range','captures'):
                self.i += 1
                if self.peek() == '(':
                    d = 0
                    while True:
                        x = self.next()
                        if x == '(': d += 1
                        if x == ')':
                            d -= 1
                            if d == 0: break
                continue
            return
    def const(self, ty):
        """operand of the given type"""
        t = self.next()
        c = t[0]
        if c == '%': return ('reg', unquote(t)[1:])
        if c == '@': return ('glob', unquote(t)[1:])
        if t == 'null': return ('null',)
        if t in ('undef','poison'): return ('undef', ty)
        if t == 'zeroinitializer': return ('zero', ty)
        if t == 'true': return ('int', 1)
        if t == 'false': return ('int', 0)
        if t == 'none': return ('undef', ty)
        if ty[0] in ('f32','f64','f80'):
            return ('fp', fpbits(t, ty))
        if re.fullmatch(r'-?\d+', t):
            v = int(t)
            return ('int', v & ((1 << ty[1]) - 1) if ty[0] == 'i' else v)
        if c == 'c' and t[1] == '"':
            raw = t[2:-1]
            out = bytearray(); i = 0
            while i < len(raw):
                if raw[i] == '\\':
                    if raw[i+1] == '\\': out.append(92); i += 2
                    else: out.append(int(raw[i+1:i+3], 16)); i += 3
                else:
                    out += raw[i].encode('latin1') if ord(raw[i]) < 256 else raw[i].encode('utf8'); i += 1
            return ('bytes', bytes(out))
        if t == '[' or t == '{' or (t == '<'):
            packed = False
            close = {'[': ']', '{': '}', '<': '>'}[t]
            if t == '<' and self.peek() == '{':
                self.next(); close = '}'; packed = True
            els = []
            while not self.eat(close):
                et = self.type(); els.append((et, self.const(et))); self.eat(',')
            if packed: self.expect('>')
            return ('agg', els)
        if t == 'getelementptr':
            while self.peek() in ('inbounds','nuw','nusw'): self.next()
            if self.peek() == 'inrange':
                self.next(); 
                while self.next() != ')': pass
            self.expect('(')
            bt = self.type(); self.expect(',')
            ops = []
            while True:
                if self.peek() == 'inrange': self.next()
                ot = self.type(); ops.append((ot, self.const(ot)))
                if not self.eat(','): break
            self.expect(')')
            return ('gep', bt, ops)
        if t in ('ptrtoint','inttoptr','bitcast','trunc','zext','sext','addrspacecast'):
            self.expect('('); st = self.type(); v = self.const(st); self.expect('to'); dt = self.type(); self.expect(')')
            return ('cast', t, st, v, dt)
        if t in ('sub','add','mul','and','or','xor','shl','lshr'):
            while self.peek() in ('nuw','nsw','exact'): self.next()
            self.expect('('); st = self.type(); a = self.const(st); self.expect(','); st2 = self.type(); b = self.const(st2); self.expect(')')
            return ('cbin', t, st, a, b)
        raise IRError('const? %s in %s' % (t, ' '.join(self.t)[:300]))

def fpbits(t, ty):
    if t.startswith('0x'):
        if t[2] == 'K': return int(t[3:], 16)
        d = int(t[2:], 16)
        if ty[0] == 'f32':
            f = struct.unpack('>d', d.to_bytes(8, 'big'))[0]
            return int.from_bytes(struct.pack('>f', f), 'big')
        return d
    f = float(t)
    return int.from_bytes(struct.pack('>f' if ty[0] == 'f32' else '>d', f), 'big')

class Ins:
    __slots__ = ('op','dst','a','ty','line','text')
    def __init__(s, op, dst, ty, a, line, text):
        s.op = op; s.dst = dst; s.ty = ty; s.a = a; s.line = line; s.text = text

class Func:
    def __init__(self, name, header, lines, mod):
        self.name = name; self.header = header; self.lines = lines; self.mod = mod
        self._parsed = False
    def parse(self):
        if self._parsed: return self
        self._parsed = True
        mod = self.mod
        h = self.header
        toks = TOK.findall(h)
        i = toks.index('@' + self.name) if '@' + self.name in toks else next(k for k, t in enumerate(toks) if t[0] == '@' and unquote(t)[1:] == self.name)
        tp = TP(toks, mod); tp.i = i + 1
        tp.expect('(')
        self.params = []
        self.vararg = False
        self.sret = False
        while not tp.eat(')'):
            if tp.eat('...'): self.vararg = True; tp.eat(','); continue
            ty = tp.type(); 
            st = tp.i
            tp.attrs()
            if 'sret' in toks[st:tp.i]: self.sret = True
            nm = None
            if tp.peek() and tp.peek()[0] == '%': nm = unquote(tp.next())[1:]
            self.params.append((ty, nm)); tp.eat(',')
        # numbering of unnamed params
        k = 0
        ps = []
        for ty, nm in self.params:
            if nm is None: nm = str(k)
            if nm.isdigit(): k = int(nm) + 1
            ps.append((ty, nm))
        self.params = ps
        self.blocks = {}
        self.order = []
        cur = None
        first = True
        for (ln, text) in joined(self.lines):
            m = re.match(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):', text)
            if m and not text.startswith(' '):
                lab = m.group(1)
                if lab[0] == '"': lab = unquote('%' + lab)[1:]
                cur = []; self.blocks[lab] = cur; self.order.append(lab); first = False
                continue
            if not text.strip() or text.strip().startswith(';'): continue
            if cur is None:
                cur = []; self.blocks['entry'] = cur; self.order.append('entry')
            ins = parse_ins(text, mod, ln)
            if ins is not None: cur.append(ins)
        self.entry = self.order[0]
        return self
    # -------- loops
    def defs(self):
        if getattr(self, '_defs', None) is None:
            self._defs = {i.dst: i for b in self.blocks.values() for i in b if i.dst is not None}
        return self._defs
    def loops(self):
        if hasattr(self, '_loops'): return self._loops
        self.parse()
        succ = {}
        for b, ins in self.blocks.items():
            t = ins[-1] if ins else None
            s = []
            if t is not None:
                if t.op == 'br': s = list(t.a[1:]) if t.a[0] is not None else [t.a[1]]
                elif t.op == 'switch': s = [t.a[1]] + [l for _, l in t.a[2]]
                elif t.op == 'invoke': s = [t.a['normal'], t.a['unwind']]
            succ[b] = s
        # dominators
        order = []
        seen = set()
        st = [(self.entry, iter(succ[self.entry]))]; seen.add(self.entry)
        while st:
            b, it = st[-1]
            adv = False
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(succ[s]))); adv = True; break
            if not adv:
                order.append(b); st.pop()
        rpo = order[::-1]
        idx = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in succ[b]: preds[s].append(b)
        idom = {rpo[0]: rpo[0]}
        ch = True
        def inter(a, b):
            while a != b:
                while idx[a] > idx[b]: a = idom[a]
                while idx[b] > idx[a]: b = idom[b]
            return a
        while ch:
            ch = False
            for b in rpo[1:]:
                n = None
                for p in preds[b]:
                    if p in idom: n = p if n is None else inter(p, n)
                if idom.get(b) != n: idom[b] = n; ch = True
        def dom(a, b):
            while True:
                if a == b: return True
                if b == rpo[0]: return False
                b = idom[b]
        loops = {}
        for b in rpo:
            for s in succ[b]:
                if dom(s, b):
                    body = loops.setdefault(s, {s})
                    stack = [b]
                    while stack:
                        x = stack.pop()
                        if x in body: continue
                        body.add(x)
                        stack.extend(preds[x])
        self._loops = loops
        self.succ = succ
        return loops

def joined(lines):
    """merge multi-line instructions (switch, landingpad clauses, invoke)"""
    out = []
    depth = 0
    for ln, t in lines:
        s = t.strip()
        if out and (depth > 0 or s.startswith(('to label', 'cleanup', 'catch ', 'filter ')) and not re.match(r'^[-\w.$"]+:', t)):
            out[-1] = (out[-1][0], out[-1][1] + ' ' + s)
        else:
            out.append((ln, t))
        if re.match(r'^\s*switch ', out[-1][1]):
            depth = out[-1][1].count('[') - out[-1][1].count(']')
        else:
            depth = 0
    return out

BIN = {'add','sub','mul','udiv','sdiv','urem','srem','and','or','xor','shl','lshr','ashr','fadd','fsub','fmul','fdiv','frem'}
CAST = {'trunc','zext','sext','fptrunc','fpext','fptoui','fptosi','uitofp','sitofp','ptrtoint','inttoptr','bitcast','addrspacecast'}
FM = {'nuw','nsw','exact','fast','nnan','ninf','nsz','arcp','contract','afn','reassoc','inbounds','disjoint','nneg','nusw'}

def parse_ins(text, mod, ln):
    dbg = None
    m = re.search(r', !dbg !(\d+)', text)
    if m: dbg = int(m.group(1))
    body = re.sub(r', ![a-zA-Z.]+ !\d+', '', text)
    body = re.sub(r', !(?:srcloc|heapallocsite|nosanitize|annotation|range|noundef|nonnull|align|tbaa) ?!\d+', '', body)
    body = body.split(' ; ')[0] if '; preds' in body else body
    if '#dbg_' in body: return None
    toks = TOK.findall(body)
    if not toks: return None
    tp = TP(toks, mod)
    dst = None
    if len(toks) > 1 and toks[1] == '=' and toks[0][0] == '%':
        dst = unquote(tp.next())[1:]; tp.next()
    op = tp.next()
    while op in ('tail','musttail','notail'): op = tp.next()
    def mk(op, ty, a): return Ins(op, dst, ty, a, dbg, text.strip())
    def flags():
        while tp.peek() in FM: tp.next()
    if op == 'alloca':
        if tp.peek() == 'inalloca': tp.next()
        ty = tp.type(); n = None
        if tp.eat(','):
            if tp.peek() != 'align':
                nt = tp.type(); n = (nt, tp.const(nt))
        return mk(op, ty, n)
    if op == 'load':
        atomic = tp.eat('atomic'); tp.eat('volatile')
        ty = tp.type(); tp.expect(','); pt = tp.type(); p = tp.const(pt)
        return mk(op, ty, p)
    if op == 'store':
        tp.eat('atomic'); tp.eat('volatile')
        ty = tp.type(); v = tp.const(ty); tp.expect(','); pt = tp.type(); p = tp.const(pt)
        return mk(op, ty, (v, p))
    if op == 'getelementptr':
        flags()
        bt = tp.type(); tp.expect(',')
        ops = []
        while True:
            ot = tp.type(); ops.append((ot, tp.const(ot)))
            if not tp.eat(','): break
            if tp.peek() and tp.peek()[0] == '!': break
        return mk(op, bt, ops)
    if op in BIN:
        flags(); ty = tp.type(); a = tp.const(ty); tp.expect(','); b = tp.const(ty)
        return mk(op, ty, (a, b))
    if op == 'fneg':
        flags(); ty = tp.type(); return mk(op, ty, tp.const(ty))
    if op in ('icmp','fcmp'):
        flags(); pred = tp.next(); flags(); ty = tp.type(); a = tp.const(ty); tp.expect(','); b = tp.const(ty)
        return mk(op, ty, (pred, a, b))
    if op in CAST:
        flags(); st = tp.type(); v = tp.const(st); tp.expect('to'); dt = tp.type()
        return mk(op, dt, (st, v))
    if op == 'br':
        if tp.peek() == 'label':
            tp.next(); return mk(op, None, (None, unquote(tp.next())[1:]))
        ty = tp.type(); c = tp.const(ty); tp.expect(','); tp.expect('label'); a = unquote(tp.next())[1:]
        tp.expect(','); tp.expect('label'); b = unquote(tp.next())[1:]
        return mk(op, None, (c, a, b))
    if op == 'switch':
        ty = tp.type(); v = tp.const(ty); tp.expect(','); tp.expect('label'); d = unquote(tp.next())[1:]
        tp.expect('['); cs = []
        while not tp.eat(']'):
            ct = tp.type(); cv = tp.const(ct); tp.expect(','); tp.expect('label'); cs.append((cv[1], unquote(tp.next())[1:]))
        return mk(op, ty, (v, d, cs))
    if op == 'phi':
        flags(); ty = tp.type(); inc = []
        while True:
            tp.expect('['); v = tp.const(ty); tp.expect(','); l = unquote(tp.next())[1:]; tp.expect(']')
            inc.append((v, l))
            if not tp.eat(','): break
        return mk(op, ty, inc)
    if op == 'select':
        flags(); ct = tp.type(); c = tp.const(ct); tp.expect(','); ty = tp.type(); a = tp.const(ty); tp.expect(','); tp.type(); b = tp.const(ty)
        return mk(op, ty, (c, a, b))
    if op == 'ret':
        ty = tp.type()
        return mk(op, ty, None if ty[0] == 'void' else tp.const(ty))
    if op == 'unreachable': return mk(op, None, None)
    if op == 'resume':
        ty = tp.type(); return mk(op, ty, tp.const(ty))
    if op == 'extractvalue':
        ty = tp.type(); v = tp.const(ty); ix = []
        while tp.eat(','): ix.append(int(tp.next()))
        return mk(op, ty, (v, ix))
    if op == 'insertvalue':
        ty = tp.type(); v = tp.const(ty); tp.expect(','); et = tp.type(); e = tp.const(et); ix = []
        while tp.eat(','): ix.append(int(tp.next()))
        return mk(op, ty, (v, et, e, ix))
    if op == 'freeze':
        ty = tp.type(); return mk(op, ty, tp.const(ty))
    if op in ('call','invoke'):
        flags()
        while tp.peek() in ('fastcc','coldcc','ccc'): tp.next()
        tp.attrs()
        rt = tp.type()
        if rt[0] == 'fn': rt = rt[1]
        callee = tp.const(('ptr',))
        tp.expect('(')
        args = []
        while not tp.eat(')'):
            at = tp.type()
            if at[0] == 'metadata':
                d = 0
                while not (d == 0 and tp.peek() in (',', ')')):
                    x = tp.next()
                    if x == '(': d += 1
                    if x == ')': d -= 1
                args.append((at, None)); tp.eat(','); continue
            tp.attrs()
            args.append((at, tp.const(at))); tp.eat(',')
        info = {'callee': callee, 'args': args}
        if op == 'invoke':
            while tp.peek() != 'to': tp.next()
            tp.next(); tp.expect('label'); info['normal'] = unquote(tp.next())[1:]
            tp.expect('unwind'); tp.expect('label'); info['unwind'] = unquote(tp.next())[1:]
        return mk(op, rt, info)
    if op == 'landingpad':
        ty = tp.type(); cl = []; cleanup = False
        while tp.peek() is not None:
            x = tp.next()
            if x == 'cleanup': cleanup = True
            elif x == 'catch':
                t = tp.type(); cl.append(('catch', tp.const(t)))
            elif x == 'filter':
                t = tp.type(); cl.append(('filter', tp.const(t)))
            else: break
        return mk(op, ty, (cleanup, cl))
    if op == 'atomicrmw':
        tp.eat('volatile'); o = tp.next(); tp.type(); p = tp.const(('ptr',)); tp.expect(','); ty = tp.type(); v = tp.const(ty)
        return mk(op, ty, (o, p, v))
    if op == 'fence': return None
    return mk('unsupported:' + op, None, None)

class Module:
    def __init__(self, path):
        self.types = {}; self.funcs = {}; self.decls = {}; self.globals = {}; self.gparsed = {}
        self.aliases = {}
        self.locs = {}; self.dimeta = {}
        lines = open(path, encoding='utf8', errors='surrogateescape').read().split('\n')
        i = 0; n = len(lines)
        while i < n:
            L = lines[i]
            if L.startswith('define '):
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', L)
                name = unquote('@' + m.group(1))[1:]
                body = []
                j = i + 1
                while lines[j] != '}':
                    body.append((j, lines[j])); j += 1
                self.funcs[name] = Func(name, L, body, self)
                md = re.search(r'!dbg !(\d+)', L)
                i = j + 1
                continue
            if L.startswith('declare '):
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', L)
                if m: self.decls[unquote('@' + m.group(1))[1:]] = L
            elif L.startswith('%') and ' = type ' in L:
                nm, rest = L.split(' = type ', 1)
                self.types[unquote(nm)[1:]] = rest
            elif L.startswith('@'):
                m = re.match(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+) = (.*)$', L)
                nm = unquote('@' + m.group(1))[1:]
                if ' alias ' in m.group(2).split('@')[0]: self.aliases[nm] = m.group(2)
                else: self.globals[nm] = m.group(2)
            elif L.startswith('!'):
                m = re.match(r'^!(\d+) = (?:distinct )?!(DILocation|DISubprogram|DIFile|DILexicalBlock|DILexicalBlockFile)\((.*)\)$', L)
                if m: self.dimeta[int(m.group(1))] = (m.group(2), m.group(3))
            i += 1
        self._ty = {}
    def named(self, nm):
        if nm not in self._ty:
            body = self.types.get(nm)
            if body is None or body.strip() == 'opaque':
                self._ty[nm] = ('opaque', nm)
            else:
                self._ty[nm] = TP(TOK.findall(body), self).type()
        return self._ty[nm]
    def resolve(self, ty):
        while ty[0] == 'named': ty = self.named(ty[1])
        return ty
    def align(self, ty):
        ty = self.resolve(ty)
        k = ty[0]
        if k == 'i': 
            b = (ty[1] + 7) // 8
            return 1 if b <= 1 else 2 if b <= 2 else 4 if b <= 4 else 8 if b <= 8 else 16
        if k in ('ptr','f64'): return 8
        if k == 'f32': return 4
        if k == 'f80': return 16
        if k == 'arr': return self.align(ty[2])
        if k == 'st': return 1 if ty[2] else max([self.align(f) for f in ty[1]] + [1])
        if k == 'vec': return self.size(ty)
        raise IRError('align %s' % (ty,))
    def size(self, ty):
        ty = self.resolve(ty)
        k = ty[0]
        if k == 'i':
            b = (ty[1] + 7) // 8
            return b if b in (1, 2, 4, 8, 16) else (1 if b < 2 else 2 if b < 3 else 4 if b < 5 else 8 if b < 9 else 16)
        if k in ('ptr','f64'): return 8
        if k == 'f32': return 4
        if k == 'f80': return 16
        if k == 'arr': return ty[1] * self.size(ty[2])
        if k == 'vec': return ty[1] * self.size(ty[2])
        if k == 'st': return self.layout(ty)[1]
        raise IRError('size %s' % (ty,))
    def layout(self, ty):
        ty = self.resolve(ty)
        key = ('L', ty)
        if key in self._ty: return self._ty[key]
        offs = []; o = 0
        for f in ty[1]:
            a = 1 if ty[2] else self.align(f)
            o = (o + a - 1) // a * a
            offs.append(o); o += self.size(f)
        a = self.align(ty)
        o = (o + a - 1) // a * a
        self._ty[key] = (offs, o)
        return self._ty[key]
    def glob(self, nm):
        """-> (type, init const or None, constant?)"""
        if nm in self.gparsed: return self.gparsed[nm]
        d = self.globals[nm]
        d = re.sub(r', (section|comdat|align|!dbg|partition)\b.*$', '', d)
        toks = TOK.findall(d)
        k = 0
        ext = 'external' in toks[:6] or 'extern_weak' in toks[:6]
        while toks[k] not in ('global', 'constant'): k += 1
        const = toks[k] == 'constant'
        tp = TP(toks, self); tp.i = k + 1
        ty = tp.type()
        init = None
        if tp.peek() is not None and not ext:
            init = tp.const(ty)
        self.gparsed[nm] = (ty, init, const)
        return self.gparsed[nm]
    def line(self, dbg):
        """(file, line) of a debug location id"""
        m = self.dimeta.get(dbg)
        if not m: return None
        a = m[1]
        l = re.search(r'line: (\d+)', a); sc = re.search(r'scope: !(\d+)', a)
        f = None
        s = int(sc.group(1)) if sc else None
        while s is not None and s in self.dimeta:
            k, b = self.dimeta[s]
            fm = re.search(r'file: !(\d+)', b)
            if fm:
                fd = self.dimeta.get(int(fm.group(1)))
                if fd:
                    f = re.search(r'filename: "([^"]*)"', fd[1]).group(1)
                break
            sm = re.search(r'scope: !(\d+)', b)
            s = int(sm.group(1)) if sm else None
        return (f, int(l.group(1)) if l else 0)
