"""Template engine: a proof/replay template is ordinary text in which

    //@extract <path> <selector>
    @directive ...
    @end

blocks are replaced by the named item, copied from /repo's current source, with annotations
inserted.  Directives inside a block (payload = following non-@ lines):

  @ret NAME            name the return value (-> T  becomes  -> (NAME: T))
  @spec                text inserted between signature and body (requires/ensures/...)
  @loops N             number of loops the contract was written for (mismatch => Lost)
  @loop K              text inserted before the body of loop K (invariant/decreases)
  @iter K NAME         for-loop K: name Verus' ghost iterator
  @at WHERE            text inserted at: start | tail | loop-start K | loop-end K | before-loop K | after-loop K
  @attr                text placed in front of the item
  @derive A, B         derive list of a struct/enum (others are dropped)
  @subst /RE/ => TEXT  textual substitution on the item (recorded in evidence as a declared drop)
  @header TEXT         replaces the impl header (recorded)
  @inside TEXT         ghost declaration placed first inside an impl or trait
  @fn NAME             (whole-impl extraction) following directives apply to that method
  @skip A, B           (whole-impl extraction) methods left out (recorded)
  @log                 drop logging macro statements (recorded)
  @opt                 item may be absent
  @nth N               pick the N-th match
"""
import re, os
import rx
from rx import Lost, FnText, File, Toks

class Overlay:
    def __init__(self):
        self.ret = self.spec = None; self.loops = {}; self.nloops = None; self.iters = {}
        self.at = []; self.attr = ''; self.derive = None; self.subst = []; self.header = None
        self.fns = {}; self.skip = []; self.log = False; self.opt = False; self.nth = 0; self.vis = None; self.inside = ''

class Gen:
    def __init__(self, root, mode='verus'):
        self.root = root; self.mode = mode
        self.files = {}; self.drops = []; self.used = []; self.out = []; self.line = 1
        self.ranges = []      # (first line, last line, qname, contracted, auto)
        self.names = {}       # (path, fn name) extracted
        self.tainted = {}     # qname -> reason
        self.defs = set()     # names defined by the template itself

    def file(self, p):
        if p not in self.files: self.files[p] = File(self.root, p)
        return self.files[p]

    def emit(self, s):
        self.out.append(s); self.line += s.count('\n')

    # -- template parsing
    def parse_block(self, lines):
        top = Overlay(); o = top; sink = None
        for ln in lines:
            if not ln.startswith('@'):
                if sink is not None: sink.append(ln)
                elif ln.strip(): raise Lost('template: stray line ' + ln)
                continue
            d, _, arg = ln[1:].partition(' '); arg = arg.strip(); sink = None
            if d == 'ret': o.ret = arg
            elif d == 'spec': sink = o.spec = []
            elif d == 'loops': o.nloops = int(arg)
            elif d == 'loop': sink = o.loops[int(arg)] = []
            elif d == 'iter':
                k, nm = arg.split(); o.iters[int(k)] = nm
            elif d == 'at': sink = []; o.at.append((arg, sink))
            elif d == 'attr': o.attr += arg + '\n'
            elif d == 'derive': o.derive = arg
            elif d == 'subst':
                m = re.match(r'/(.*)/ => ?(.*)$', arg); o.subst.append((m.group(1), m.group(2)))
            elif d == 'header': o.header = arg
            elif d == 'inside': top.inside += arg + '\n'
            elif d == 'fn': o = top.fns[arg] = Overlay()
            elif d == 'skip': o.skip += [x.strip() for x in arg.split(',')]
            elif d == 'log': o.log = True
            elif d == 'opt': o.opt = True
            elif d == 'nth': o.nth = int(arg)
            elif d == 'vis': o.vis = arg
            elif d == '#': pass
            else: raise Lost('template: unknown directive ' + ln)
        return top

    def annotate_fn(self, s, o, qname):
        for pat, rep in o.subst:
            s2, n = re.subn(pat, rep, s, flags=re.S)
            if n: self.drops.append(f'{qname}: /{pat}/ rewritten to "{rep}"')
            s = s2
        if o.log:
            s2 = rx.drop_log(s)
            if s2 != s: self.drops.append(f'{qname}: logging macro statements dropped')
            s = s2
        s2 = rx.drop_async(s)
        if s2 != s: self.drops.append(f'{qname}: async/.await dropped (body run as sequential code)')
        s = s2
        if self.mode == 'replay': return s
        s = re.sub(r'\|\s*_\s*\|', '|_unused|', s)   # the verifier takes no pattern there; the name is not used
        f = FnText(s); t = f.T.t; ins = []   # (pos, order, text)
        if o.nloops is not None and len(f.loops) != o.nloops:
            raise Lost(f'{qname}: contract written for {o.nloops} loop(s), code has {len(f.loops)}')
        if o.ret and f.arrow is not None:
            end = f.where if f.where is not None else f.open
            a, b = t[f.arrow][2], t[end-1][3]
            ins.append((a, 0, f'({o.ret}: ')); ins.append((b, 0, ')'))
        elif o.ret and f.arrow is None:
            raise Lost(f'{qname}: no return type')
        if o.spec: ins.append((t[f.open][2], 0, '\n' + '\n'.join(o.spec) + '\n'))
        for k, txt in o.loops.items():
            if k >= len(f.loops): raise Lost(f'{qname}: loop {k} not found')
            ins.append((t[f.loops[k]['open']][2], 0, '\n' + '\n'.join(txt) + '\n'))
        for k, nm in o.iters.items():
            if k >= len(f.loops) or f.loops[k]['in_pos'] is None: raise Lost(f'{qname}: for-loop {k} not found')
            ins.append((t[f.loops[k]['in_pos'] + 1][2], 0, nm + ': '))
        for n, (where, txt) in enumerate(o.at):
            w, _, k = where.partition(' ')
            if w == 'start': p = t[f.open][3]
            elif w == 'tail':
                d = 0; p = t[f.open][3]; k2 = f.open + 1
                while k2 < f.close:
                    x = t[k2]
                    if x[0] == 'p' and x[1] in rx.OPEN: k2 = f.T.match(k2); continue
                    if x[1] == ';' and x[0] == 'p': p = x[3]
                    k2 += 1
                # a trailing loop statement also ends the statement list
                for L in f.loops:
                    if t[L['close']][3] > p and all(not (M['open'] < L['open'] and L['close'] < M['close']) for M in f.loops):
                        # only loops at depth 0
                        depth = sum(1 for q in t[f.open+1:L['kwi']] if q[0]=='p' and q[1] in rx.OPEN) - sum(1 for q in t[f.open+1:L['kwi']] if q[0]=='p' and q[1] in rx.CLOSE)
                        if depth == 0: p = t[L['close']][3]
            elif w == 'end': p = t[f.close][2]
            elif w in ('after', 'before'):
                m = re.match(r'/(.*)/$', k)
                body0 = t[f.open][3]
                mm = re.search(m.group(1), s[body0:], flags=re.S)
                if not mm: raise Lost(f'{qname}: statement /{m.group(1)}/ not found')
                p = body0 + (mm.end() if w == 'after' else mm.start())
            else:
                k = int(k)
                if k >= len(f.loops): raise Lost(f'{qname}: loop {k} not found')
                L = f.loops[k]
                lab = L['kwi']
                if t[lab-1][1] == ':' and t[lab-2][0] == 'life': lab -= 2
                p = {'loop-start': t[L['open']][3], 'loop-end': t[L['close']][2],
                     'before-loop': t[lab][2], 'after-loop': t[L['close']][3]}[w]
            ins.append((p, 1 + n, '\n' + '\n'.join(txt) + '\n'))
        out, last = [], 0
        for p, _, x in sorted(ins, key=lambda y: (y[0], y[1])):
            out.append(s[last:p]); out.append(x); last = p
        out.append(s[last:])
        return ''.join(out)

    def item_text(self, f, it, o):
        s = rx.strip_attrs_docs(it.text)
        if self.mode == 'verus': s = rx.drop_vis(s)
        if it.kind == 'fn':
            self.names[(it.path, it.name)] = it
            return self.annotate_fn(s, o, it.qname)
        for pat, rep in o.subst:
            s2, n = re.subn(pat, rep, s, flags=re.S)
            if n: self.drops.append(f'{it.qname}: /{pat}/ rewritten to "{rep}"')
            s = s2
        if it.kind in ('struct', 'enum') and o.derive:
            s = f'#[derive({o.derive})]\n' + s
        return s

    def emit_item(self, it, o, auto=False):
        f = self.file(it.path)
        if o.attr: self.emit(o.attr)
        if o.vis is not None:
            o.subst = [(r'^\s*(pub(\([^)]*\))?\s+)?', o.vis + ' ')] + o.subst
        if it.kind == 'trait' and self.mode == 'replay' and not o.fns and not o.skip:
            s = rx.drop_async(rx.strip_attrs_docs(it.text))
            for pat, rep in o.subst: s = re.sub(pat, rep, s, flags=re.S)
            self.emit(s + '\n')
            self.emitted.add((it.path, it.start))
            for x in f.items:
                if x.imp and x.imp['start'] == it.info['start']: self.emitted.add((x.path, x.start))
            return
        if it.kind in ('impl', 'trait'):
            hdr = o.header or it.info['header']
            if o.header: self.drops.append(f'{it.qname}: impl header replaced by "{o.header}"')
            self.emit(('pub ' if it.kind == 'trait' and self.mode != 'verus' else '') + hdr + ' {\n' + o.inside)
            members = [x for x in f.items if x.imp is it.info or (x.imp and x.imp['start'] == it.info['start'])]
            if it.kind == 'impl':
                for m in re.finditer(r'type\s+\w+\s*=[^;]*;', f.s[it.info['body_start']:it.info['end']]):
                    if not any(x.kind == 'type' for x in members): self.emit('    ' + m.group(0) + '\n')
            for m in members:
                if m.name in o.skip:
                    self.drops.append(f'{m.qname}: left out of the extraction'); continue
                mo = o.fns.get(m.name, Overlay())
                if not mo.subst and o.subst: mo.subst = o.subst
                mo.log = mo.log or o.log
                self.emit_one(m, mo, auto)
            self.emit('}\n')
        elif it.imp and it.imp['type'].startswith('trait '):
            self.emit_one(it, o, auto)
        elif it.imp and o.header != 'none':
            if o.header: self.drops.append(f'{it.qname}: impl header replaced by "{o.header}"')
            hdr = o.header or it.imp['header']
            self.emit(hdr + ' {\n'); self.emit_one(it, o, auto); self.emit('}\n')
        else:
            self.emit_one(it, o, auto)

    def emit_one(self, it, o, auto):
        f = self.file(it.path)
        txt = self.item_text(f, it, o)
        if False: pass
        a = self.line
        self.emit(txt + '\n')
        if it.kind == 'fn':
            self.ranges.append((a, self.line - 1, it.qname, bool(o.spec), auto))
        self.used.append(dict(item=it.qname, kind=it.kind, file=it.path, line=it.line, sha=it.sha(),
                              contract=bool(o.spec) and it.kind == 'fn', auto=auto))
        self.emitted.add((it.path, it.start))

    def run(self, template):
        self.emitted = set()
        src = open(template).read()
        base = os.path.dirname(os.path.abspath(template))
        def inc(txt, d):     # //@include FILE: template text shared between units
            return re.sub(r'^[ \t]*//@include[ \t]+(\S+)[ \t]*$', lambda m: inc(open(os.path.join(d, m.group(1))).read(), os.path.dirname(os.path.join(d, m.group(1)))), txt, flags=re.M)
        src = inc(src, base)
        # names defined by the template text itself
        for m in re.finditer(r'\b(?:fn|const|static|struct|enum|type)\s+(\w+)', re.sub(r'//@extract.*?\n@end', '', src, flags=re.S)):
            self.defs.add(m.group(1))
        lines = src.split('\n'); i = 0
        todo_marker = None
        while i < len(lines):
            ln = lines[i]
            m = re.match(r'\s*//@(\w+)\s*(.*)$', ln)
            if m and m.group(1) == 'extract':
                j = i + 1
                while lines[j].strip() != '@end': j += 1
                o = self.parse_block([re.sub(r'^\s*@', '@', x) if re.match(r'\s*@[a-z#]', x) else x for x in lines[i+1:j]])
                path, sel = m.group(2).split(None, 1)
                try:
                    it = self.file(path).find(sel.strip(), o.nth)
                    self.emit_item(it, o)
                except Lost:
                    if not o.opt: raise
                i = j + 1; continue
            if m and m.group(1) == 'helpers':
                self.emit_helpers(); i += 1; continue
            self.emit(ln + '\n'); i += 1
        return ''.join(self.out)

    def emit_helpers(self):
        """transitive closure over same-file functions/consts that the extracted code calls but the template does not name"""
        work = True
        while work:
            work = False
            for u in list(self.used):
                if u['kind'] not in ('fn', 'const'): continue
                f = self.file(u['file'])
                it = next(x for x in f.items if x.qname == u['item'] and x.line == u['line'])
                if it.kind == 'fn':
                    ft = FnText(rx.strip_attrs_docs(it.text))
                    if not ft.has_body: continue
                    calls = ft.calls(); ids = ft.idents()
                else:
                    calls = []; ids = {x[1] for x in Toks(it.text).t if x[0] == 'id'}
                for x in f.items:
                    if x.test or (x.path, x.start) in self.emitted or x.name in self.defs: continue
                    if x.kind in ('const', 'static') and not x.imp and x.name in ids:
                        self.emit_item(x, Overlay(), True); work = True
                    elif x.kind == 'const' and x.imp and x.name in ids and it.imp and x.imp['type'] == it.imp['type'] and not x.imp['trait']:
                        self.emit_item(x, Overlay(), True); work = True
                    elif x.kind == 'fn' and x is not it:
                        hit = False
                        for kind, nm, q in calls:
                            if nm != x.name: continue
                            if kind == 'free' and not x.imp: hit = True
                            if kind == 'path' and not x.imp and q in ('self', 'super', 'crate'): hit = True
                            if kind == 'path' and x.imp and not x.imp['trait'] and (q == 'Self' and it.imp and it.imp['type'] == x.imp['type'] or q == x.imp['type']): hit = True
                            if kind == 'method' and x.imp and not x.imp['trait'] and it.imp and it.imp['type'] == x.imp['type'] and q == 'self': hit = True
                        if hit and not any(a['item'] == x.qname for a in self.used):
                            self.emit_item(x, Overlay(), True); work = True
        # anything that calls an auto-pulled function has no contract to rely on
        autos = {u['item'].split('::')[-1] for u in self.used if u['auto'] and u['kind'] == 'fn'}
        for u in self.used:
            if u['kind'] != 'fn': continue
            if u['auto']: self.tainted[u['item']] = 'helper without a contract'; continue
            f = self.file(u['file']); it = next(x for x in f.items if x.qname == u['item'] and x.line == u['line'])
            ft = FnText(rx.strip_attrs_docs(it.text))
            if ft.has_body:
                c = {nm for _, nm, _ in ft.calls()} & autos
                if c: self.tainted[u['item']] = f'calls {sorted(c)} which has no contract yet'
