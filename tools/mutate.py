#!/usr/bin/env python3
"""Development aid: small mechanical changes to the crate, to find what the checks miss.

  mutate.py list                      number of mutants per file
  mutate.py tests OUT W N [STEP]      worker W of N: which mutants build and pass the repository's tests
  mutate.py checks IN OUT W N         which of those the checks of their file catch
Works in /tmp/mt/wW (copies of /repo and /verif); nothing here is read by a check."""
import json, os, re, subprocess, sys, time, glob
R = '/repo'

RULES = [
    (r'(?<![<=>!-])<(?![<=>])(?= )', '<='), (r'(?<= )<=(?= )', '<'), (r'(?<= )>=(?= )', '>'), (r'(?<= )>(?= )', '>='),
    (r' == ', ' != '), (r' != ', ' == '), (r' && ', ' || '), (r' \|\| ', ' && '),
    (r' \+ 1\b', ''), (r' - 1\b', ''), (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' + '),
    (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r' as u32\b', ' as u16 as u32'), (r' as usize\b', ' as u8 as usize'), (r' as u64\b', ' as u32 as u64'),
    (r'\b8\b', '9'), (r'\b4\b', '5'), (r'\b1\b', '2'), (r'\b0\b', '1'), (r'to_le_bytes', 'to_be_bytes'), (r'from_le_bytes', 'from_be_bytes'),
    (r'checked_add\(', 'wrapping_add('), (r'\.is_some\(\)', '.is_none()'), (r'\.is_none\(\)', '.is_some()'), (r'\bis_empty\(\)', 'len() == 1'),
    (r'\.rev\(\)', ''), (r'\bif !', 'if '), (r'\bif (?!let|!)(?=[a-z(])', 'if false && '), (r'read_exact', 'read'), (r'\bOk\(true\)', 'Ok(false)'),
    (r'Some\(', 'None.or(Some('),
]
STMT = re.compile(r'^\s*(?!let |use |pub |return |//|#|\}|\{)[^{}]*;\s*$')


def sites(f):
    """(line number, new line) of every mutant of a file"""
    out, test = [], False
    for n, l in enumerate(open(f'{R}/{f}').read().split('\n')):
        if re.match(r'\s*(#\[cfg\(test\)\]|mod tests)', l):
            break
        s = l.strip()
        if not s or s.startswith(('//', '#[', 'use ', 'pub use', '///', '*')):
            continue
        code = l.split(' // ')[0]
        for pat, new in RULES:
            if new.startswith('None'):
                continue
            for m in re.finditer(pat, code):
                if code[:m.start()].count('"') % 2:
                    continue
                if pat == r' - ' and '->' in code[m.start():m.start() + 4]:
                    continue
                out.append((n, code[:m.start()] + new + code[m.end():]))
        if STMT.match(l):
            out.append((n, re.match(r'\s*', l).group(0) + '// gone'))
        elif re.search(r'return Err\(', s):
            pass
    return out


def files():
    o = subprocess.run("git ls-files 'src/*.rs' 'revision-derive/src/*.rs'", shell=True, cwd=R, stdout=subprocess.PIPE, text=True).stdout.split()
    return [f for f in o if 'test' not in f]


def mutants():
    return [(f, n, new) for f in files() for n, new in sites(f)]


def sh(cmd, t=900, **k):
    try:
        p = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=t, **k)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, ''


def setup(w):
    d = f'/tmp/mt/w{w}'
    os.makedirs(d, exist_ok=True)
    if not os.path.isdir(f'{d}/repo'):
        sh(f'cp -a /repo {d}/repo')
    return d


class Apply:
    def __init__(self, root, m):
        self.p, self.n, self.new = f'{root}/{m[0]}', m[1], m[2]

    def __enter__(self):
        self.s = open(self.p).read()
        l = self.s.split('\n')
        l[self.n] = self.new
        open(self.p, 'w').write('\n'.join(l))

    def __exit__(self, *a):
        open(self.p, 'w').write(self.s)


def tests(out, w, n, step):
    d = setup(w)
    env = dict(os.environ, PATH='/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1',
               CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='', HOME='/root')
    V = 'specialised-vectors,bytes,chrono,geo,imbl,ordered-float,regex,roaring,rust_decimal,uuid'
    ms = mutants()[::step]
    done = set()
    if os.path.exists(out):
        done = {tuple(json.loads(l)[0]) for l in open(out)}
    with open(out, 'a') as o:
        for i, m in enumerate(ms):
            if i % n != w or tuple(m) in done:
                continue
            with Apply(f'{d}/repo', m):
                r = 'survives'
                rc, t = sh('cargo check --offline --all-features -p revision -q', cwd=f'{d}/repo', env=env)
                if rc:
                    r = 'no build'
                else:
                    for c in ('cargo test -q -p revision --features %s --offline -- --test-threads 3' % V, 'cargo test -q --workspace --all-features --offline -- --test-threads 3'):
                        rc, t = sh(c, cwd=f'{d}/repo', env=env, t=240)
                        if rc:
                            r = 'killed'
                            break
            o.write(json.dumps([m, r]) + '\n')
            o.flush()


BY = [
    ('revision-derive/src/ast', ['P22', 'P11', 'P08']), ('revision-derive/src/expand/walk', ['P12', 'P13', 'P05', 'P06']), ('revision-derive/src/expand/skip', ['P04', 'P19', 'P10']),
    ('revision-derive/src/expand/de', ['P08', 'P09', 'P10', 'P19']), ('revision-derive/src/expand/ser', ['P08', 'P09', 'P19']), ('revision-derive/src/expand/validate', ['P22']),
    ('revision-derive/src/expand/optimised', ['P08', 'P09', 'P12', 'P13', 'P10', 'P06']), ('revision-derive/src/expand/reexport', ['P24', 'P22']), ('revision-derive/src/', ['P22', 'P24', 'P09', 'P13', 'P08', 'P12']),
    ('src/optimised/indexed/map', ['P16', 'P18']), ('src/optimised/indexed/seq', ['P17', 'P18']), ('src/optimised/indexed/struct', ['P17', 'P18', 'P12']),
    ('src/optimised/indexed', ['P16', 'P17', 'P18', 'P20']), ('src/optimised', ['P06', 'P18', 'P16', 'P17', 'P08', 'P02']),
    ('src/slice_reader', ['P21', 'P05', 'P04', 'P15']), ('src/walk', ['P14', 'P15']), ('src/implementations/walk', ['P14', 'P15']),
    ('src/implementations/skip', ['P04', 'P05', 'P06', 'P07']), ('src/implementations/primitives', ['P23', 'P02', 'P06', 'P04', 'P19', 'P07', 'P05']),
    ('src/implementations/specialised', ['P02', 'P01', 'P06', 'P19', 'P05', 'P04', 'P07']), ('src/', ['P01', 'P02', 'P04', 'P06', 'P05', 'P03', 'P07', 'P20', 'P14', 'P15', 'P23']),
]


def checks(src, out, w, n):
    d = setup(w)
    if not os.path.isdir(f'{d}/verif'):
        sh(f'mkdir -p {d}/verif && cd /verif && git archive HEAD | tar x -C {d}/verif && sed -i "s#\\"/repo#\\"{d}/repo#" {d}/verif/*/Cargo.toml && rm -rf {d}/verif/seeded')
    ms = []
    for g in sorted(glob.glob(src)):
        ms += [json.loads(l)[0] for l in open(g) if json.loads(l)[1] == 'survives']
    done = set()
    for g in glob.glob(out + '*'):
        done |= {tuple(json.loads(l)[0]) for l in open(g)}
    with open(f'{out}.{w}', 'a') as o:
        for i, m in enumerate(ms):
            if i % n != w or tuple(m) in done:
                continue
            ps = next(p for pre, p in BY if m[0].startswith(pre))
            r = []
            with Apply(f'{d}/repo', m):
                for p in ps:
                    t = time.time()
                    rc, txt = sh(f'VERIF_TIER=quick python3 check.py {p} quick', cwd=f'{d}/verif', t=900)
                    r.append((p, rc, round(time.time() - t)))
                    if rc == 1 and 'VIOLATION' in txt:
                        break
            o.write(json.dumps([m, 'caught' if r[-1][1] == 1 else 'missed', r]) + '\n')
            o.flush()


if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == 'list':
        from collections import Counter
        c = Counter(m[0] for m in mutants())
        for k, v in sorted(c.items(), key=lambda x: x[1]):
            print(v, k)
        print(sum(c.values()))
    elif a[0] == 'tests':
        tests(a[1], int(a[2]), int(a[3]), int(a[4]) if len(a) > 4 else 1)
    elif a[0] == 'checks':
        checks(a[1], a[2], int(a[3]), int(a[4]))
