"""Mechanical extraction of Rust items from /repo's current source text.

A small Rust lexer plus an item finder.  Nothing here interprets the code: items are located by
name, copied verbatim (minus attributes and doc comments, see `Item.emit`), and annotations are
inserted at structural positions (after the signature, at the n-th loop, at the start of a body).
"""
import re, hashlib

class Lost(Exception):
    """An anchor (file, item, loop, pattern) is not where the contract expects it."""

def lex(s):
    i, n, out = 0, len(s), []
    while i < n:
        c = s[i]; st = i
        if c.isspace():
            while i < n and s[i].isspace(): i += 1
            k = 'ws'
        elif s.startswith('//', i):
            while i < n and s[i] != '\n': i += 1
            k = 'com'
        elif s.startswith('/*', i):
            d = 1; i += 2
            while i < n and d:
                if s.startswith('/*', i): d += 1; i += 2
                elif s.startswith('*/', i): d -= 1; i += 2
                else: i += 1
            k = 'com'
        elif (m := re.compile(r'b?r(#*)"').match(s, i)):
            e = s.find('"' + m.group(1), m.end()); i = e + 1 + len(m.group(1)); k = 'str'
        elif c == '"' or (c in 'bc' and s[i+1:i+2] == '"'):
            i += 1 if c == '"' else 2
            while s[i] != '"': i += 2 if s[i] == '\\' else 1
            i += 1; k = 'str'
        elif c == "'" or (c == 'b' and s[i+1:i+2] == "'"):
            j = i + (2 if c == 'b' else 1)
            if s[j] == '\\':
                j += 2
                while s[j] != "'": j += 1
                i = j + 1; k = 'char'
            elif s[j+1:j+2] == "'":
                i = j + 2; k = 'char'
            else:
                i = j
                while i < n and (s[i].isalnum() or s[i] == '_'): i += 1
                k = 'life'
        elif c.isalpha() or c == '_':
            while i < n and (s[i].isalnum() or s[i] == '_'): i += 1
            k = 'id'
        elif c.isdigit():
            while i < n and (s[i].isalnum() or s[i] == '_'): i += 1
            if i < n and s[i] == '.' and i + 1 < n and s[i+1].isdigit():
                i += 1
                while i < n and (s[i].isalnum() or s[i] == '_'): i += 1
            k = 'num'
        else:
            i += 1; k = 'p'
        out.append((k, s[st:i], st, i))
    return out

OPEN, CLOSE = '([{', ')]}'

class Toks:
    def __init__(self, s):
        self.s = s
        self.t = [t for t in lex(s) if t[0] not in ('ws', 'com')]
    def match(self, i):
        """index just past the group opened at token i"""
        d = 0
        while i < len(self.t):
            x = self.t[i][1] if self.t[i][0] == 'p' else ''
            if x and x in OPEN: d += 1
            elif x and x in CLOSE:
                d -= 1
                if d == 0: return i + 1
            i += 1
        raise Lost('unbalanced brackets')

class Item:
    def __init__(self, **kw): self.__dict__.update(kw)
    def sha(self): return hashlib.sha256(self.text.encode()).hexdigest()[:12]
    def __repr__(self): return f'<{self.kind} {self.qname} {self.path}:{self.line}>'

MODS = {'pub', 'const', 'async', 'unsafe', 'extern', 'default'}

class File:
    def __init__(self, root, path):
        self.path = path
        try: self.s = open(f'{root}/{path}').read()
        except OSError: raise Lost(f'file {path} not found')
        self.T = Toks(self.s)
        self.items = []
        self._scan(0, len(self.T.t), None, False)

    def _add(self, kind, name, st, en, attrs, imp, test, **kw):
        t = self.T.t
        a, b = t[st][2], t[en-1][3]
        q = name
        if imp: q = (f'{imp["trait"]} for ' if imp['trait'] else '') + imp['type'] + '::' + name
        self.items.append(Item(kind=kind, name=name, qname=q, path=self.path, start=a, end=b,
            text=self.s[a:b], line=self.s.count('\n', 0, a) + 1, attrs=attrs, imp=imp, test=test, **kw))

    def _scan(self, i, end, imp, test):
        T, t = self.T, self.T.t
        while i < end:
            attrs, is_test = [], test
            st = i
            while i < end and t[i][1] == '#':
                j = i + 1
                if t[j][1] == '!': j += 1
                e = T.match(j)
                a = self.s[t[i][2]:t[e-1][3]]
                attrs.append(a)
                if re.search(r'cfg\(\s*(all\(\s*)?test', a) or re.match(r'#\[\s*(tokio\s*::\s*)?test', a): is_test = True
                i = e
            if i >= end: break
            st = i
            # visibility / modifiers
            while i < end and t[i][1] in MODS:
                if t[i][1] == 'const' and t[i+1][0] == 'id' and t[i+1][1] not in ('fn', 'unsafe', 'async', 'extern'): break
                if t[i][1] == 'pub' and t[i+1][1] == '(' : i = T.match(i+1)
                elif t[i][1] == 'extern' and t[i+1][0] == 'str': i += 2
                elif t[i][1] == 'unsafe' and t[i+1][1] == 'impl': i += 1
                else: i += 1
            if i >= end: break
            w = t[i][1]
            if w == 'fn':
                name = t[i+1][1]; j = i + 2
                while t[j][1] not in '{;' or t[j][0] != 'p':
                    j = T.match(j) if t[j][1] in ('(', '[') else j + 1
                e = T.match(j) if t[j][1] == '{' else j + 1
                self._add('fn', name, st, e, attrs, imp, is_test)
                i = e
            elif w in ('impl', 'trait'):
                j = i + 1
                while t[j][1] != '{': j = T.match(j) if t[j][1] in ('(', '[') else j + 1
                e = T.match(j)
                hdr = self.s[t[i][2]:t[j][2]].strip()
                if w == 'impl':
                    info = self._impl_header(i, j)
                else:
                    info = dict(trait=None, type='trait ' + t[i+1][1])
                info.update(header=hdr, start=t[i][2], end=t[e-1][3], body_start=t[j][3])
                name = (info['trait'] + ' for ' if info['trait'] else '') + info['type']
                self._add(w, name, st, e, attrs, None, is_test, info=info)
                self._scan(j + 1, e - 1, info, is_test)
                i = e
            elif w == 'mod':
                if t[i+2][1] == '{':
                    e = T.match(i+2)
                    self._scan(i + 3, e - 1, None, is_test or t[i+1][1] in ('test', 'tests'))
                    i = e
                else: i += 3
            elif w in ('struct', 'enum', 'union'):
                j = i + 1
                while t[j][1] not in ('{', ';'):
                    j = T.match(j) if t[j][1] in ('(', '[') else j + 1
                e = T.match(j) if t[j][1] == '{' else j + 1
                self._add(w, t[i+1][1], st, e, attrs, imp, is_test)
                i = e
            elif w in ('const', 'static', 'type', 'use'):
                j = i + 1
                while t[j][1] != ';': j = T.match(j) if t[j][1] in OPEN and t[j][0] == 'p' else j + 1
                nm = t[i+1][1] if t[i+1][1] not in ('mut', 'ref') else t[i+2][1]
                self._add(w, nm, st, j + 1, attrs, imp, is_test)
                i = j + 1
            else:
                # macro invocation or anything else: skip one group / token
                if t[i][0] == 'p' and t[i][1] in OPEN: i = T.match(i)
                else: i += 1

    def _impl_header(self, i, j):
        t = self.T.t
        k = i + 1
        if t[k][1] == '<':
            d = 0
            while True:
                if t[k][1] == '<': d += 1
                elif t[k][1] == '>' and t[k-1][1] not in ('-', '='): d -= 1
                k += 1
                if d == 0: break
        parts, cur, d = [], [], 0
        while k < j:
            x = t[k][1]
            if x == '<': d += 1
            elif x == '>' and t[k-1][1] not in ('-', '='): d -= 1
            if d == 0 and x == 'where': break
            if d == 0 and x == 'for':
                parts.append(cur); cur = []
            else: cur.append(x)
            k += 1
        parts.append(cur)
        def norm(p):
            s = ''
            for x in p:
                if s and (s[-1].isalnum() or s[-1] == '_') and (x[0].isalnum() or x[0] == '_'): s += ' '
                s += x
            return s
        ty = norm(parts[-1])
        m = re.match(r"[&]?(?:'\w+ )?(?:mut )?((?:\w+::)*)(\w+)", ty)
        base = m.group(2) if m else ty
        tr = norm(parts[0]) if len(parts) > 1 else None
        return dict(trait=tr, type=base, ty=ty)

    def find(self, sel, nth=0):
        """sel: 'fn name' | 'Type::name' | 'Trait for Type::name' | 'struct X' | 'enum X' | 'const X' | 'impl Trait for Type'"""
        kind, _, nm = sel.partition(' ')
        if kind in ('struct', 'enum', 'const', 'static', 'type', 'trait'):
            c = [x for x in self.items if x.kind == kind and x.name == nm.strip() and not x.test]
            if kind == 'trait': c = [x for x in self.items if x.kind == 'trait' and x.name == 'trait ' + nm.strip() and not x.test]
        elif kind == 'impl':
            c = [x for x in self.items if x.kind == 'impl' and x.name == nm.strip() and not x.test]
        elif kind == 'fn' and '::' not in nm:
            c = [x for x in self.items if x.kind == 'fn' and x.name == nm.strip() and not x.imp and not x.test]
        else:
            if kind == 'fn': sel = nm
            c = [x for x in self.items if x.kind in ('fn', 'const') and x.qname == sel.strip() and not x.test]
        if len(c) <= nth: raise Lost(f'{sel} not found in {self.path}')
        return c[nth]

# ---------------------------------------------------------------------------------------------
LOGMAC = r'(?:trace::|log::|tracing::)?(?:trace|debug|info|warn|error)'

def strip_attrs_docs(s):
    """remove outer attributes and doc comments anywhere in s"""
    out, i = [], 0
    toks = lex(s)
    k = 0
    while k < len(toks):
        kind, x, a, b = toks[k]
        if kind == 'com' and (x.startswith('///') or x.startswith('//!') or x.startswith('/**') or x.startswith('/*!')):
            k += 1; continue
        if kind == 'p' and x == '#':
            j = k + 1
            while toks[j][0] == 'ws' or toks[j][1] == '!': j += 1
            if toks[j][1] == '[':
                d = 0
                while True:
                    if toks[j][0] == 'p' and toks[j][1] in OPEN: d += 1
                    if toks[j][0] == 'p' and toks[j][1] in CLOSE:
                        d -= 1
                        if d == 0: break
                    j += 1
                k = j + 1; continue
        out.append(x); k += 1
    return ''.join(out)

def drop_log(s):
    while True:
        T = Toks(s); t = T.t
        for i in range(len(t) - 2):
            if t[i][0] == 'id' and t[i][1] in ('trace', 'debug', 'info', 'warn', 'error') and t[i+1][1] == '!' \
               and t[i+2][1] == '(' :
                a = i
                while a >= 2 and t[a-1][1] == ':' and t[a-2][1] == ':': a -= 3
                e = T.match(i + 2)
                end = t[e-1][3]
                if e < len(t) and t[e][1] == ';': end = t[e][3]
                s = s[:t[a][2]] + s[end:]
                break
        else: return s

def drop_async(s):
    s = re.sub(r'\.\s*await\b', '', s)
    s = re.sub(r'\basync\s+(?=fn|unsafe)', '', s)
    return re.sub(r'\basync\s+(move\s+)?(?=\{)', '', s)

class FnText:
    """Positions inside the text of one fn item."""
    def __init__(self, s):
        self.s = s
        T = self.T = Toks(s); t = T.t
        i = next(k for k, x in enumerate(t) if x[1] == 'fn')
        self.name = t[i+1][1]
        j = i + 2
        self.arrow = None; self.where = None
        while not (t[j][0] == 'p' and t[j][1] in '{;'):
            if t[j][1] == '-' and t[j+1][1] == '>' and self.arrow is None and self.where is None: self.arrow = j + 2
            if t[j][1] == 'where' and self.where is None: self.where = j
            j = T.match(j) if t[j][1] in ('(', '[') else j + 1
        self.open = j
        self.has_body = t[j][1] == '{'
        self.close = T.match(j) - 1 if self.has_body else j
        self.loops = []
        k = j + 1
        while k < self.close:
            if t[k][0] == 'id' and t[k][1] in ('for', 'while', 'loop') and t[k+1][1] != '<':
                h = k + 1; in_pos = None
                while t[h][1] != '{' or t[h][0] != 'p':
                    if t[h][1] == 'in' and in_pos is None: in_pos = h
                    if t[h][1] in ('match', 'unsafe') and t[h][0] == 'id':
                        h += 1
                        while t[h][1] != '{': h = T.match(h) if t[h][1] in ('(', '[') else h + 1
                        h = T.match(h); continue
                    h = T.match(h) if t[h][1] in ('(', '[') else h + 1
                self.loops.append(dict(kw=t[k][1], kwi=k, open=h, close=T.match(h) - 1, in_pos=in_pos))
            k += 1

    def calls(self):
        t = self.T.t; out = []
        for k in range(self.open, self.close):
            if t[k][0] == 'id':
                p = t[k-1][1] if k else ''
                pp = t[k-2][1] if k > 1 else ''
                nx = t[k+1][1]
                if nx == '(' or (nx == ':' and t[k+2][1] == ':' and t[k+3][1] == '<'):
                    if p == '.' : out.append(('method', t[k][1], pp))
                    elif p == ':' : out.append(('path', t[k][1], t[k-3][1] if k > 2 else ''))
                    elif p != 'fn': out.append(('free', t[k][1], ''))
                elif p == ':' and pp == ':' :
                    out.append(('path', t[k][1], t[k-3][1]))
        return out
    def idents(self):
        return {x[1] for x in self.T.t[self.open:self.close] if x[0] == 'id'}

def drop_vis(s):
    """visibility qualifiers: a single-module extraction needs none"""
    T = Toks(s); t = T.t; cut = []
    for i, x in enumerate(t):
        if x[0] == 'id' and x[1] == 'pub':
            e = x[3]
            if t[i+1][1] == '(' and t[i+2][1] in ('crate', 'super', 'self', 'in'): e = t[T.match(i+1)-1][3]
            while e < len(s) and s[e] in ' \n\t': e += 1
            cut.append((x[2], e))
    for a, b in reversed(cut): s = s[:a] + s[b:]
    return s
