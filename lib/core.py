"""Runs the deductive back ends and the replay layer of one property, and writes its evidence."""
import os, sys, json, re, subprocess, time, threading, tempfile, shutil, hashlib
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(__file__))
import rx, vx
from rx import Lost

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
RUST = '1.82'

TRUST_RE = re.compile(r'\b(assume\s*\(|admit\s*\(|external_body|assume_specification|external_type_specification|external_fn_specification|axiom\s+fn|verifier::external\b|uninterp\s+spec)')
OBLIGATION = re.compile(r'postcondition not satisfied|precondition not satisfied|invariant not satisfied|assertion failed|'
                        r'arithmetic (underflow|overflow)|overflow|decreases not satisfied|could not (show|prove)|unreachable|'
                        r'division by zero|possible bit shift|bitvector|bit-vector|nonlinear|assertion failure|failed', re.I)
UNDEC = re.compile(r'Resource limit|rlimit|timed? ?out|not supported|unsupported', re.I)

def sh(cmd, timeout, cwd=None, env=None, stdin=None):
    e = dict(os.environ); e.update(env or {})
    t0 = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=cwd, env=e,
                         start_new_session=True, errors='replace')
    try:
        o, r = p.communicate(timeout=timeout); rc = p.returncode
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except OSError: pass
        o, r = p.communicate(); rc = 'timeout'
    return rc, o, r, time.time() - t0

class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix=f'verif-{prop}-')
        self.jobs = []; self.res = []
        self.lock = threading.Lock()
        self.udir = f'{VERIF}/units/{prop}'

    # ---------------------------------------------------------------- Verus
    def verus(self, template, rlimit=30, timeout=600, min_verified=1, args=()):
        self.jobs.append((self._verus, (template, rlimit, timeout, min_verified, list(args))))

    def _gen(self, template, vac=False):
        g = vx.Gen(REPO, 'verus')
        txt = g.run(f'{self.udir}/{template}')
        return g, txt

    def _verus(self, template, rlimit, timeout, minv, args):
        R = dict(engine='verus', unit=template, status='ok', verified=0, errors=[], undecided=[], used=[], drops=[],
                 trusted=[], probes=0, smt_ms=0, wall=0.0)
        try: g, txt = self._gen(template)
        except Lost as e:
            R.update(status='undecided', undecided=[f'anchor lost: {e}']); return R
        except Exception as e:
            R.update(status='undecided', undecided=[f'extraction failed: {type(e).__name__}: {e}']); return R
        R['used'] = g.used; R['drops'] = g.drops
        for ln in txt.split('\n'):
            code = ln.split('//')[0]
            if TRUST_RE.search(code): R['trusted'].append(f'{template}: {ln.strip()[:200]}')
        name = re.sub(r'\W', '_', template)
        src = f'{self.tmp}/{name}.rs'; open(src, 'w').write(txt)
        # vacuity probes: the same file with assert(false) at the start of every contracted body
        lines = txt.split('\n'); probes = []
        vlines = list(lines)
        for a, b, q, contracted, auto in g.ranges:
            if not contracted: continue
            body = '\n'.join(lines[a-1:b])
            try: ft = rx.FnText(body)
            except Exception: continue
            head = '\n'.join(lines[max(0, a-4):a])
            if not ft.has_body or 'external_body' in head: continue
            pos = self._body_open(body)
            if pos is None: continue
            nb = body[:pos+1] + ' proof { assert(false); } ' + body[pos+1:]
            nl = nb.split('\n')
            vlines[a-1:b] = nl
            probes.append((a, b, q))
        R['probes'] = len(probes)
        vsrc = f'{self.tmp}/{name}_vac.rs'; open(vsrc, 'w').write('\n'.join(vlines))
        cmd = ['verus', src, '--output-json', '--time', '--error-format=json', '--rlimit', str(rlimit), '--num-threads', '4', '--crate-type=lib'] + args
        vcmd = ['verus', vsrc, '--output-json', '--error-format=json', '--rlimit', '5', '--num-threads', '3', '--crate-type=lib', '--multiple-errors', '0'] + args
        R['cmd'] = ' '.join(cmd)
        with ThreadPoolExecutor(2) as ex:
            f1 = ex.submit(sh, cmd, timeout, self.tmp); f2 = ex.submit(sh, vcmd, timeout, self.tmp)
            rc, out, err, w = f1.result(); vrc, vout, verr, vw = f2.result()
        R['wall'] = w
        if rc == 'timeout':
            R.update(status='undecided', undecided=['verus timed out']); return R
        try: js = json.loads(out)
        except Exception: js = {}
        vr = js.get('verification-results', {})
        R['verified'] = vr.get('verified', 0); R['nerr'] = vr.get('errors', 0)
        R['smt_ms'] = (js.get('times-ms', {}).get('smt', {}) or {}).get('total', 0)
        diags = []
        for ln in err.split('\n'):
            try: d = json.loads(ln)
            except Exception: continue
            if d.get('level') == 'error' and not d['message'].startswith('aborting'): diags.append(d)
        def where(d):
            prim = [s['line_start'] for s in d['spans']] or [0]
            for a, b, q, c, au in g.ranges:
                if any(a <= p <= b for p in prim): return q
            # failing inside template text (lemma)
            p = prim[0]
            for i in range(min(p, len(lines)) - 1, -1, -1):
                m = re.search(r'\bfn\s+(\w+)', lines[i])
                if m: return 'lemma ' + m.group(1)
            return '?'
        if not vr or vr.get('encountered-vir-error') or (rc != 0 and not diags):
            msg = [d['message'][:300] for d in diags[:3]] or [err[-400:]]
            R.update(status='undecided', undecided=['verifier could not take the extracted text: ' + m for m in msg])
            R['stderr'] = '\n'.join(d.get('rendered') or '' for d in diags)[:6000] or err[-3000:]
            return R
        if R['nerr'] == 0 and diags:
            R.update(status='undecided', undecided=['verifier could not take the extracted text: ' + d['message'][:300] for d in diags[:3]])
            R['stderr'] = '\n'.join(d.get('rendered') or '' for d in diags)[:6000]
            return R
        for d in diags:
            q = where(d); m = d['message']
            if UNDEC.search(m): R['undecided'].append(f'{q}: {m[:200]}')
            elif q in g.tainted: R['undecided'].append(f'{q}: {m[:200]} ({g.tainted[q]})')
            else: R['errors'].append(dict(function=q, obligation=m, rendered=(d.get('rendered') or '')[:3000]))
        # lemma failures that merely follow an undecided function stay undecided
        if R['errors']: R['status'] = 'violated'
        elif R['undecided']: R['status'] = 'undecided'
        elif R['verified'] < minv: R.update(status='undecided', undecided=[f"only {R['verified']} obligations generated, expected at least {minv}"])
        # probes
        bad = []
        if vrc != 'timeout':
            hit = set()
            for ln in verr.split('\n'):
                try: d = json.loads(ln)
                except Exception: continue
                if d.get('level') == 'error':
                    for s in d['spans']:
                        for a, b, q in probes:
                            if a <= s['line_start'] <= b: hit.add(q)
            bad = [q for a, b, q in probes if q not in hit]
        else: bad = ['probe run timed out']
        R['vacuous'] = bad
        if bad and R['status'] == 'ok':
            R.update(status='undecided', undecided=[f'vacuity probe not refuted for {bad}'])
        return R

    @staticmethod
    def _body_open(body):
        """position of the '{' that opens the body of an annotated Verus fn: last top-level '{' group of the text"""
        T = rx.Toks(body); t = T.t
        # the body is the group that ends at the last '}' of the item
        last = None; i = 0
        while i < len(t):
            if t[i][0] == 'p' and t[i][1] in rx.OPEN:
                e = T.match(i)
                if t[i][1] == '{': last = i
                i = e
            else: i += 1
        return t[last][2] if last is not None else None

    # ---------------------------------------------------------------- Kani
    def kani(self, template, harnesses=None, timeout=600, bounded=None, args=(), jobs=1):
        """harnesses: None = all in file.  bounded: None, or text stating the bound (then never counted as proved)."""
        self.jobs.append((self._kani, (template, harnesses, timeout, bounded, list(args))))

    def _kani(self, template, harnesses, timeout, bounded, args):
        R = dict(engine='kani', unit=template, status='ok', verified=0, errors=[], undecided=[], used=[], drops=[], trusted=[],
                 bounded=bounded, smt_ms=0, wall=0.0, checks=0, covers=0)
        try:
            g = vx.Gen(REPO, 'kani'); txt = g.run(f'{self.udir}/{template}')
        except Lost as e:
            R.update(status='undecided', undecided=[f'anchor lost: {e}']); return R
        except Exception as e:
            R.update(status='undecided', undecided=[f'extraction failed: {type(e).__name__}: {e}']); return R
        R['used'] = g.used; R['drops'] = g.drops
        for ln in txt.split('\n'):
            if re.search(r'kani::(assume|stub)\b|kani::stub', ln.split('//')[0]): R['trusted'].append(f'{template}: {ln.strip()[:200]}')
        d = f'{self.tmp}/{re.sub(chr(92)+"W","_",template)}'; os.makedirs(d)
        src = f'{d}/k.rs'; open(src, 'w').write(txt)
        expected = re.findall(r'#\[kani::proof(?:_for_contract\([^)]*\))?\][^{]*?fn\s+(\w+)', txt, flags=re.S)
        cmd = ['kani', src, '-Z', 'function-contracts', '-Z', 'stubbing', '--output-format', 'regular'] + args
        for h in harnesses or []: cmd += ['--harness', h]
        R['cmd'] = ' '.join(cmd)
        rc, out, err, w = sh(cmd, timeout, d)
        R['wall'] = w
        if rc == 'timeout':
            R.update(status='undecided', undecided=['kani timed out']); return R
        blocks = re.split(r'Checking harness ', out)[1:]
        if not blocks:
            R.update(status='undecided', undecided=['kani could not take the extracted text: ' + (re.findall(r'^error.*', err + out, flags=re.M) or ['?'])[0][:300]])
            R['stderr'] = (err + out)[-3000:]
            return R
        done = 0
        for b in blocks:
            hn = b.split('...')[0].strip()
            m = re.search(r'\*\* (\d+) of (\d+) failed', b)
            if m: R['checks'] += int(m.group(2))
            mt = re.search(r'Verification Time: ([\d.]+)s', b)
            if mt: R['smt_ms'] += int(float(mt.group(1)) * 1000)
            cov = re.search(r'\*\* (\d+) of (\d+) cover properties satisfied', b)
            if cov:
                R['covers'] += int(cov.group(1))
                if cov.group(1) != cov.group(2): R['undecided'].append(f'{hn}: cover not satisfied (vacuous precondition?)')
            if 'VERIFICATION:- SUCCESSFUL' in b:
                done += 1; R['verified'] += 1; continue
            fails = re.findall(r'Failed Checks: (.*)', b)
            locs = re.findall(r'Check \d+: (\S+)\s+- Status: FAILURE\s+- Description: "(.*?)"\s+- Location: (.*)', b)
            tool = [f for f in fails if re.search(r'unwinding assertion|unsupported|not currently supported|recursion', f)]
            real = [f for f in fails if f not in tool]
            if real and not tool:
                R['errors'].append(dict(function=hn, obligation='; '.join(real)[:500], rendered='\n'.join(' '.join(x) for x in locs)[:3000]))
            else:
                R['undecided'].append(f'{hn}: ' + ('; '.join(fails)[:300] or 'no verdict'))
        if R['errors']:
            R['status'] = 'violated'
            # ask for the counterexample
            h = R['errors'][0]['function'].split('::')[-1]
            c2 = ['kani', src, '-Z', 'function-contracts', '-Z', 'stubbing', '-Z', 'concrete-playback', '--concrete-playback=print', '--harness', h] + args
            rc, o2, e2, w2 = sh(c2, 240, d)
            m = re.search(r'Concrete playback unit test.*?```(.*?)```', o2, flags=re.S)
            if m: R['errors'][0]['counterexample'] = m.group(1).strip()[:4000]
        elif R['undecided'] or done < len(harnesses or expected):
            R['status'] = 'undecided'
            if not R['undecided']: R['undecided'].append('not every harness was checked')
        return R

    # ---------------------------------------------------------------- replay on the real code
    def replay(self, template, timeout=300, rustflags=(), crate=None, profile=None):
        self.jobs.append((self._replay, (template, timeout, list(rustflags), crate)))

    def _replay(self, template, timeout, rustflags, crate):
        R = dict(engine='replay', unit=template, status='ok', fails=[], undecided=[], used=[], drops=[], evaluations=0, distinct=0, samples=[], wall=0.0)
        try:
            g = vx.Gen(REPO, 'replay'); txt = g.run(f'{self.udir}/{template}')
        except Lost as e:
            R.update(status='undecided', undecided=[f'anchor lost: {e}']); return R
        except Exception as e:
            R.update(status='undecided', undecided=[f'extraction failed: {type(e).__name__}: {e}']); return R
        R['used'] = g.used; R['drops'] = g.drops
        d = f'{self.tmp}/replay_{re.sub(chr(92)+"W","_",template)}'; os.makedirs(d)
        txt = txt.replace('//@prelude', open(f'{VERIF}/lib/prelude.rs').read()).replace('@REPO@', REPO)
        if crate is None:
            open(f'{d}/main.rs', 'w').write(txt)
            rc, o, e, w = sh(['rustc', '+' + RUST, '--edition', '2021', '-O', '-A', 'warnings', '-o', f'{d}/r', f'{d}/main.rs'] + rustflags, 300, d)
            exe = f'{d}/r'
        else:
            # cargo package: Cargo.toml and Cargo.lock committed in /verif/replay/<crate>, main.rs generated here
            os.makedirs(f'{d}/src'); open(f'{d}/src/main.rs', 'w').write(txt)
            base = f'{VERIF}/replay/{crate}'
            ct = open(f'{base}/Cargo.toml').read().replace('@VERIF@', VERIF).replace('@REPO@', REPO)
            open(f'{d}/Cargo.toml', 'w').write(ct)
            shutil.copy(f'{base}/Cargo.lock', f'{d}/Cargo.lock')
            tgt = f'{VERIF}/target/{crate}'
            os.makedirs(tgt, exist_ok=True)
            import fcntl
            with open(f'{tgt}/.vlock', 'w') as lk:
                fcntl.flock(lk, fcntl.LOCK_EX)
                rc, o, e, w = sh(['cargo', '+' + RUST, 'build', '--offline', '--release', '--quiet'] , 600, d,
                                 env=dict(CARGO_TARGET_DIR=tgt, RUSTFLAGS='-A warnings ' + ' '.join(rustflags)))
                name = re.search(r'name\s*=\s*"([^"]+)"', ct).group(1)
                exe = f'{d}/r'
                if rc == 0: shutil.copy(f'{tgt}/release/{name}', exe)
        if rc != 0:
            R.update(status='undecided', undecided=['replay harness does not compile against the current code: ' + (re.findall(r'^error.*', e, flags=re.M) or ['?'])[0][:300]])
            R['stderr'] = e[-4000:]
            return R
        env = dict(VERIF_SEED=str(self.seed), VERIF_TIER=self.tier, VX_TMP=d, RUST_BACKTRACE='0')
        rc, o, e, w = sh([exe], timeout, d, env)
        R['wall'] = w
        self._parse_replay(R, o)
        if rc not in (0, 'timeout') and not R['fails']:
            # crash: find the case
            rc2, o2, e2, _ = sh([exe], timeout, d, dict(env, VX_LOG=f'{d}/case'))
            try: idx = open(f'{d}/case').read().strip()
            except OSError: idx = ''
            rc3, o3, e3, _ = sh([exe], timeout, d, dict(env, VX_SHOW=idx or '0'))
            m = re.search(r'^SHOW (.*)$', o3, flags=re.M)
            if rc2 != 0 and rc2 != 'timeout':
                R['fails'].append(dict(key='crash', input=m.group(1) if m else f'case {idx}', msg=f'process ended with {rc}: {e[-500:]}'))
        elif rc == 'timeout' and not R['fails']:
            R['undecided'].append('replay ran out of its time'); R['status'] = 'undecided'
        if rc == 0 and R['evaluations'] == 0: R['undecided'].append('replay evaluated nothing'); R['status'] = 'undecided'
        if R['fails']: R['status'] = 'violated'
        R['exe_rerun'] = f'VERIF_SEED={self.seed} VERIF_TIER={self.tier} python3 {VERIF}/lib/check.py {self.prop} {self.tier}'
        return R

    @staticmethod
    def _parse_replay(R, o):
        for ln in o.split('\n'):
            if ln.startswith('FAIL '):
                try: R['fails'].append(json.loads(ln[5:]))
                except Exception: R['fails'].append(dict(key='?', input=ln[5:], msg=''))
            elif ln.startswith('CASES '):
                a, b = ln.split()[1:3]; R['evaluations'] += int(a); R['distinct'] += int(b)
            elif ln.startswith('SAMPLE '): R['samples'].append(ln[7:])
            elif ln.startswith('EXHAUSTIVE '): R.setdefault('exhaustive', []).append(ln[11:])

    # ---------------------------------------------------------------- verdict
    def finish(self, info):
        with ThreadPoolExecutor(max(1, len(self.jobs))) as ex:
            fs = [ex.submit(f, *a) for f, a in self.jobs]
            rs = []
            for (fn, a), x in zip(self.jobs, fs):
                try: rs.append(x.result())
                except Exception as e:
                    rs.append(dict(engine=fn.__name__[1:], unit=a[0], status='undecided', undecided=[f'{type(e).__name__}: {e}'],
                                   errors=[], fails=[], used=[], drops=[], trusted=[], verified=0))
        known = []
        try: known = json.load(open(f'{VERIF}/known_findings.json'))['findings']
        except OSError: pass
        known = [k for k in known if k['property'] == self.prop and k.get('status') == 'open']
        new_fails, kf = [], {}
        for r in rs:
            for f in r.get('fails', []):
                m = next((k for k in known if k['key'] == f['key'] and re.search(k.get('input', ''), f['input'])), None)
                if m: kf[m['id']] = m
                else: new_fails.append((r, f))
        failed = [(r, e) for r in rs for e in r.get('errors', [])]
        undec = [(r['engine'], r['unit'], u) for r in rs for u in r.get('undecided', [])]
        proof = [r for r in rs if r['engine'] in ('verus', 'kani') and not r.get('bounded')]
        bnd = [r for r in rs if r['engine'] == 'kani' and r.get('bounded')]
        reps = [r for r in rs if r['engine'] == 'replay']
        obligations = sum(r.get('verified', 0) + len(r.get('errors', [])) + len(r.get('undecided', [])) for r in proof)
        discharged = sum(r.get('verified', 0) for r in proof)
        fns, seen = [], set()
        for r in proof:
            for u in r['used']:
                k = (u['file'], u['item'])
                if u['kind'] == 'fn' and k not in seen:
                    seen.add(k); fns.append(f"{u['item']} ({u['file']}:{u['line']}, sha256 {u['sha']}, {r['engine']}{', contract' if u['contract'] else ', verified inside callers or under harness'})")
        bfns = sorted({f"{u['item']} ({u['file']}:{u['line']})" for r in bnd for u in r['used'] if u['kind'] == 'fn'})
        rfns = sorted({f"{u['item']} ({u['file']}:{u['line']})" for r in reps for u in r['used'] if u['kind'] == 'fn'})
        level = info.get('level', 'proof')
        cov = dict(
            obligations=obligations, discharged=discharged,
            checker_cmd='; '.join(r.get('cmd', '') for r in proof if r.get('cmd'))[:3000] or 'none',
            trusted_base=info.get('trusted', []) + sorted({t for r in rs for t in r.get('trusted', [])}) + [
                'Verus 0.2026.09.13 with its Z3, vstd specifications of the Rust standard library' if any(r['engine'] == 'verus' for r in rs) else '',
                'Kani 0.68.0 with CBMC/SAT' if any(r['engine'] == 'kani' for r in rs) else '',
                'the extractor /verif/lib (lexer, item finder, annotation inserter)'],
            functions_under_contract=fns,
            extraction_drops=sorted({x for r in rs for x in r.get('drops', [])}) + ['attributes, derives and doc comments of extracted items; items not named are not extracted'],
            back_ends={r['unit']: dict(engine=r['engine'], status=r['status'], verified=r.get('verified'), solver_ms=r.get('smt_ms'), wall_s=round(r.get('wall', 0), 1),
                                       probes_refuted=(r.get('probes', 0) - len(r.get('vacuous', []) or [])) if 'probes' in r else None,
                                       bounded=r.get('bounded'), cbmc_checks=r.get('checks'), covers_satisfied=r.get('covers')) for r in rs},
            bounded_standins=[dict(unit=r['unit'], bound=r['bounded'], harnesses_passed=r['verified'], functions=bfns) for r in bnd],
            undecided=[' | '.join(u) for u in undec],
            failed_obligations=[f"{e['function']}: {e['obligation']}" for _, e in failed],
            replay=dict(evaluations=sum(r['evaluations'] for r in reps if 'evaluations' in r), functions=rfns,
                        exhaustive_parts=[x for r in reps for x in r.get('exhaustive', [])]),
            known_findings_seen=sorted(kf),
        )
        cov['trusted_base'] = [x for x in cov['trusted_base'] if x]
        if level != 'proof' or True:
            cov['evaluations'] = sum(r.get('evaluations', 0) for r in reps)
            cov['distinct_nontrivial'] = sum(r.get('distinct', 0) for r in reps)
            cov['rule'] = info.get('rule', 'each case runs the extracted real code on one input and compares with the executable form of the contract; distinct = distinct inputs by hash, trivial (empty) inputs excluded')
            cov['samples'] = [s for r in reps for s in r.get('samples', [])][:8]
        if level == 'other': cov['explanation'] = info['explanation']
        viol = 0
        lines = []
        for k in kf.values(): lines.append(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        rd = f'{VERIF}/evidence/replay'; os.makedirs(rd, exist_ok=True)
        if new_fails or failed:
            viol = len(new_fails) + len(failed)
            p = f'{rd}/{self.prop}.json'
            json.dump(dict(property=self.prop, seed=self.seed, tier=self.tier,
                           failing_inputs=[dict(unit=r['unit'], **f) for r, f in new_fails][:20],
                           failed_obligations=[dict(engine=r['engine'], unit=r['unit'], **e) for r, e in failed][:20],
                           undecided=[' | '.join(u) for u in undec],
                           rerun=f'cd {VERIF} && VERIF_SEED={self.seed} python3 lib/check.py {self.prop} {self.tier}'), open(p, 'w'), indent=1)
            cex = any('counterexample' in e for _, e in failed)
            for r, f in new_fails[:5]: lines.append(f"  failing input ({r['unit']}, {f['key']}): {f['input'][:400]} -> {f['msg'][:300]}")
            for r, e in failed[:8]: lines.append(f"  failed obligation ({r['engine']} {r['unit']}): {e['function']}: {e['obligation'][:200]}")
            lines.append(f"VIOLATION property={self.prop} replay={p}" + ('' if new_fails else ' no-failing-input-found'))
        for u in undec: lines.append('UNDECIDED ' + ' | '.join(u)[:400])
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=info.get('assumptions', []), wall_s=round(time.time() - self.t0, 2), violations=viol)
        os.makedirs(f'{VERIF}/evidence', exist_ok=True)
        json.dump(ev, open(f'{VERIF}/evidence/{self.prop}.json', 'w'), indent=1)
        for l in lines: print(l)
        if os.environ.get('VX_DEBUG'):
            for r in rs:
                if r.get('stderr'): print('---', r['unit'], '\n', r['stderr'])
                for e in r.get('errors', []): print('---', r['unit'], e['function'], e['obligation'], '\n', e['rendered'])
        print(f"{self.prop} {self.tier}: {discharged}/{obligations} obligations discharged, {cov['evaluations']} replay cases, "
              f"{len(undec)} undecided, {viol} violations, {time.time()-self.t0:.1f}s " +
              ' '.join(f"[{r['unit']}:{r['status']} {r.get('wall',0):.0f}s]" for r in rs))
        if os.environ.get('VX_KEEP'): print('kept', self.tmp)
        else: shutil.rmtree(self.tmp, ignore_errors=True)
        if viol: return 1
        return 0 if any(r['status'] == 'ok' for r in rs) else 2
