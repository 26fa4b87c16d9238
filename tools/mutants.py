"""Mutant schemata: copies /repo to a scratch directory with every mutation compiled in behind a
run-time switch (environment variable MUTANT=<id>), builds the harness against the copy once, and runs the
checks against each mutant.  Development tool; no check uses it.
   mutants.py build DIR [FILE..]     mutants.py run DIR [ids..]     mutants.py list DIR
"""
import json, os, re, shutil, subprocess, sys
D = sys.argv[2]
FILES = ['parser/mod.rs', 'parser/choice.rs', 'parser/combinator.rs', 'parser/sequence.rs', 'parser/repeat.rs', 'parser/token.rs',
         'parser/range.rs', 'parser/byte.rs', 'parser/char.rs', 'parser/error.rs', 'parser/function.rs', 'parser/regex.rs', 'error.rs', 'lib.rs', 'future_ext.rs',
         'stream/mod.rs', 'stream/easy.rs', 'stream/position.rs', 'stream/buffered.rs', 'stream/read.rs', 'stream/state.rs', 'stream/span.rs',
         'stream/decoder.rs', 'stream/buf_reader.rs']
MU = '''
#[doc(hidden)]
#[allow(missing_docs)]
pub mod mu {
    use std::sync::atomic::{AtomicU32, Ordering::Relaxed};
    static M: AtomicU32 = AtomicU32::new(u32::MAX);
    #[cold]
    fn init() -> u32 {
        let v = std::env::var("MUTANT").ok().and_then(|x| x.parse().ok()).unwrap_or(0);
        M.store(v, Relaxed);
        v
    }
    #[inline]
    pub fn m(n: u32) -> bool { let v = M.load(Relaxed); (if v == u32::MAX { init() } else { v }) == n }
    #[inline]
    pub fn b(n: u32, x: bool) -> bool { x ^ m(n) }
    #[inline]
    pub fn i<T: From<u8>>(n: u32, x: u8) -> T { T::from(if m(n) { 1 - x } else { x }) }
    #[inline]
    pub fn lt<T: PartialOrd>(n: u32, x: T, y: T) -> bool { if m(n) { x <= y } else { x < y } }
    #[inline]
    pub fn le<T: PartialOrd>(n: u32, x: T, y: T) -> bool { if m(n) { x < y } else { x <= y } }
    #[inline]
    pub fn co<T, E>(n: u32, x: T) -> crate::error::ParseResult<T, E> { if m(n) { crate::error::ParseResult::PeekOk(x) } else { crate::error::ParseResult::CommitOk(x) } }
    #[inline]
    pub fn po<T, E>(n: u32, x: T) -> crate::error::ParseResult<T, E> { if m(n) { crate::error::ParseResult::CommitOk(x) } else { crate::error::ParseResult::PeekOk(x) } }
    #[inline]
    pub fn ce<T, E>(n: u32, x: E) -> crate::error::ParseResult<T, E> { if m(n) { crate::error::ParseResult::PeekErr(x.into()) } else { crate::error::ParseResult::CommitErr(x) } }
    #[inline]
    pub fn pe<T, E>(n: u32, x: crate::error::Tracked<E>) -> crate::error::ParseResult<T, E> { if m(n) { crate::error::ParseResult::CommitErr(x.error) } else { crate::error::ParseResult::PeekErr(x) } }
}
'''
P = '::combine::mu::'
def mutate(lines, muts, f, banned, nid):
    out = []
    intest = False
    for ln, l in enumerate(lines, 1):
        s = l.strip()
        if s.startswith('#[cfg(test)]') : intest = True
        if intest or s.startswith('//') or s.startswith('#') or s.startswith('use ') or s.startswith('*') and s.startswith('* '):
            out.append(l); continue
        def new(what):
            n = nid[0]; nid[0] += 1
            muts[n] = dict(file=f, line=ln, what=what, src=s)
            return n
        def ok(kind): return (f, ln, kind) not in banned and (f, ln, '*') not in banned
        t = l.rstrip('\n')
        # conditions
        m = re.match(r'^(\s*(?:\} else )?(?:if|while) )(?!let\b)([^{]*)( \{.*)$', t)
        if m and ' let ' not in m[2] and ok('cond'):
            c = m[2]
            for op in (' && ', ' || '):
                if op in c and c.count('&&') + c.count('||') <= 2 and not (' && ' in c and ' || ' in c):
                    parts = c.split(op)
                    if all(p.count('(') == p.count(')') for p in parts):
                        if op == ' && ':
                            c = op.join(f'({P}m({new("drop conjunct "+p)}) || ({p}))' for p in parts)
                        else:
                            c = op.join(f'(!{P}m({new("drop disjunct "+p)}) && ({p}))' for p in parts)
                    break
            else:
                q = re.match(r'^([^<>=!]+) (<|>|<=|>=) ([^<>=!]+)$', c)
                if q and ok('rel'):
                    a, o, b = q.groups()
                    n = new('boundary of ' + c)
                    c = {'<': f'{P}lt({n}, {a}, {b})', '>': f'{P}lt({n}, {b}, {a})', '<=': f'{P}le({n}, {a}, {b})', '>=': f'{P}le({n}, {b}, {a})'}[o]
            t = f'{m[1]}{P}b({new("negate condition")}, {c}){m[3]}'
        else:
            m = re.match(r'^(.* if )(?!let\b)([^{}]*?)( => .*)$', t)
            if m and ok('guard'):
                t = f'{m[1]}{P}b({new("negate guard")}, {m[2]}){m[3]}'
        # results
        i = t.find('=>')
        head, tail = (t[:i], t[i:]) if i >= 0 else ('', t)
        for name, fn in (('CommitOk', 'co'), ('PeekOk', 'po'), ('CommitErr', 'ce'), ('PeekErr', 'pe')):
            if ok(name) and not re.match(r'^\s*(CommitOk|PeekOk|CommitErr|PeekErr)\((T|E|Tracked<E>)\),$', t) and not re.match(r'^\s*(match|if let|\||fn |pub fn|///)', tail):
                tail = re.sub(r'(?<![\w:])(ParseResult::)?' + name + r'\(', lambda m: f'{P}{fn}({new("flip " + name)}, ', tail)
        t = head + tail
        # first and partial
        if ok('mode'):
            def fp(m):
                o = {'parse_first': 'parse_partial', 'parse_partial': 'parse_first'}[m[2]]
                return f'(if {P}m({new(m[2] + " -> " + o)}) {{ {m[1]}.{o}({m[3]}) }} else {{ {m[1]}.{m[2]}({m[3]}) }})'
            if not re.match(r'^\s*fn ', t):
                t = re.sub(r'([\w.\$\[\]]+)\.(parse_first|parse_partial)\(([^()]*)\)', fp, t)
        # numbers
        if ok('num') and not re.match(r'^\s*(fn|pub|const|static|\d)', t):
            t = re.sub(r'(?<=[+\-]= )1(?=;)|(?<=[+\-] )1\b(?![.\d])|(?<= = )[01](?=;)|(?<=[=<>]= )[01]\b(?![.\d])|(?<= [<>] )[01]\b(?![.\d])|(?<=\()[01](?=\))', lambda m: f'{P}i({new("number " + m[0])}, {m[0]})', t)
        # statements
        m = re.match(r'^(\s*)([A-Za-z_*\(&\$][^{}]*);\s*$', t)
        if ok('stmt') and m and not m[2].startswith('$crate') and not re.match(r'(?:let|return|use|type|pub|const|static|break|continue|mod|extern|where|fn|impl|struct|macro_rules|dispatch|unreachable|panic|forward_parser|parse_mode|impl_|tuple_|array_|seq_|clone_|\)|assert|debug_assert|derive)(?:\b|)', m[2]) and ('(' in m[2] or '=' in m[2]) and m[2].count('(') == m[2].count(')') and m[2].count('[') == m[2].count(']'):
            t = f'{m[1]}if !{P}m({new("delete statement")}) {{ {m[2]}; }}'
        elif ok('tail'):
            m = re.match(r'^(\s*)([\w.\$]+\.(?:add_error|add_committed_expected_error|add_error_choice)\([^;{}]*\))\s*$', t)
            if m: t = f'{m[1]}if !{P}m({new("delete tail")}) {{ {m[2]} }}'
            m = re.match(r'^(\s*)([\w.\$]+\.(?:is_partial|is_unexpected_end_of_input|is_empty|is_none|is_some|is_first)\(\))\s*$', t)
            if m: t = f'{m[1]}{P}b({new("negate tail")}, {m[2]})'
        out.append(t + '\n')
    return out

def gen(banned):
    nid = [1]; muts = {}
    for f in FILES:
        src = open(f'/repo/src/{f}').read().splitlines(True)
        open(f'{D}/repo/src/{f}', 'w').writelines(mutate(src, muts, f, banned, nid))
    open(f'{D}/repo/src/lib.rs', 'a').write('\nextern crate self as combine;\n' + MU)
    json.dump(muts, open(f'{D}/muts.json', 'w'), indent=1)
    return muts
def build():
    shutil.rmtree(f'{D}/repo', ignore_errors=True); shutil.rmtree(f'{D}/harness', ignore_errors=True)
    os.makedirs(D, exist_ok=True)
    shutil.copytree('/repo', f'{D}/repo', ignore=shutil.ignore_patterns('target', '.git'))
    shutil.copytree('/verif/harness', f'{D}/harness', ignore=shutil.ignore_patterns('target'))
    for c in ('core', 'io', 'rx'):
        p = f'{D}/harness/{c}/Cargo.toml'; t = open(p).read().replace('path = "/repo"', f'path = "{D}/repo"'); open(p, 'w').write(t)
    banned = set(map(tuple, json.load(open(f'{D}/banned.json')))) if os.path.exists(f'{D}/banned.json') else set()
    env = dict(os.environ, CARGO_TARGET_DIR=f'{D}/target', CARGO_NET_OFFLINE='true')
    while True:
        muts = gen(banned); before = len(banned)
        bad = False
        for c in ('io', 'rx', 'core'):
            r = subprocess.run(['cargo', 'check', '--release', '--offline', '--message-format=json', '--manifest-path', f'{D}/harness/{c}/Cargo.toml'], env=env, capture_output=True, text=True)
            if r.returncode == 0: continue
            bad = True
            for l in r.stdout.splitlines():
                try: j = json.loads(l)
                except ValueError: continue
                m = j.get('message')
                if not m or m.get('level') != 'error': continue
                def spans(sp):
                    while sp:
                        yield sp
                        sp = (sp.get('expansion') or {}).get('span')
                for sp0 in m['spans']:
                    for sp in spans(sp0):
                        if '/repo/src/' in sp['file_name'] or sp['file_name'].startswith('src/'):
                            f = sp['file_name'].split('src/', 1)[1]
                            for ln in range(sp['line_start'], min(sp['line_end'], sp['line_start'] + 3) + 1):
                                if any(x['file'] == f and x['line'] == ln for x in muts.values()): banned.add((f, ln, '*'))
            print(c, 'fails;', len(banned), 'lines without mutants')
            break
        json.dump(sorted(banned), open(f'{D}/banned.json', 'w'))
        if not bad: break
        if len(banned) == before: print(r.stdout[-3000:], r.stderr[-3000:]); sys.exit(1)
    for c in ('io', 'rx', 'core'):
        r = subprocess.run(['cargo', 'build', '--release', '--offline', '--manifest-path', f'{D}/harness/{c}/Cargo.toml'], env=env)
        if r.returncode: sys.exit(1)
    print(len(muts), 'mutants')
ORDER = [('mcl', 'P16'), ('mca', 'P14'), ('mcx', 'P15'), ('mcc', 'P02'), ('mcc', 'P01'), ('mct', 'P09'), ('mct', 'P10'), ('mct', 'P11'), ('mcl', 'P17'),
         ('mcs', 'P08'), ('mcd', 'P12'), ('mcd', 'P13'), ('mce', 'P06'), ('mce', 'P07'), ('mcc', 'P05'), ('mcc', 'P03'), ('mc-rx', 'P19'), ('mcp', 'P23'), ('mcf', 'P24'),
         ('mcq', 'P22'), ('mcr', 'P21'), ('mcr', 'P20'), ('mcc', 'P04'), ('mcw', 'P18')]
def run(ids):
    muts = json.load(open(f'{D}/muts.json'))
    done = {}
    if os.path.exists(f'{D}/results.json'): done = json.load(open(f'{D}/results.json'))
    ids = ids or list(muts)
    end = None
    if ids[0] == 'random':  # random SECONDS
        import random, time
        end = time.time() + int(ids[1]); ids = list(muts); random.Random(1).shuffle(ids)
    for i in ids:
        if end and time.time() > end: break
        if str(i) in done: continue
        x = muts[str(i)]; caught = None
        order = ORDER
        if x['file'] in ('stream/decoder.rs', 'stream/buf_reader.rs', 'future_ext.rs'): order = [o for o in ORDER if o[0] == 'mcd'] + [o for o in ORDER if o[0] in ('mca', 'mcf')]
        else: order = [o for o in ORDER if o[0] != 'mcd' and o[1] != 'P19'
                       and (o[1] != 'P18' or x['file'] in ('parser/choice.rs', 'parser/sequence.rs', 'parser/mod.rs', 'parser/function.rs', 'lib.rs'))
                       and (o[1] != 'P04' or x['file'] in ('parser/range.rs', 'parser/byte.rs', 'parser/char.rs', 'parser/combinator.rs', 'parser/repeat.rs') or x['file'].startswith('stream/'))]
        if x['file'] == 'parser/regex.rs': order = [o for o in ORDER if o[0] == 'mc-rx']
        for b, p in order:
            os.makedirs(f'{D}/vd', exist_ok=True)
            if os.path.exists('/verif/known_findings.txt'): shutil.copy('/verif/known_findings.txt', f'{D}/vd/')
            try:
                r = subprocess.run([f'{D}/target/release/{b}', p, 'quick'], env=dict(os.environ, MUTANT=str(i), VERIF_DIR=f'{D}/vd', VERIF_STOP='1'), capture_output=True, timeout=400)
                rc = r.returncode
            except subprocess.TimeoutExpired: rc = 'timeout'
            if rc != 0: caught = f'{p}:{rc}'; break
        done[str(i)] = caught
        json.dump(done, open(f'{D}/results.json', 'w'))
        print(i, x['file'], x['line'], x['what'], '|', x['src'][:90], '=>', caught, flush=True)
if sys.argv[1] == 'build': build()
elif sys.argv[1] == 'run': run(sys.argv[3:])
else:
    muts = json.load(open(f'{D}/muts.json')); done = json.load(open(f'{D}/results.json'))
    for i, c in done.items():
        if c is None: print(i, muts[i]['file'], muts[i]['line'], muts[i]['what'], '|', muts[i]['src'][:100])
    print(len(done), 'run,', sum(c is None for c in done.values()), 'survived, of', len(muts))
