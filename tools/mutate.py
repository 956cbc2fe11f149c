#!/usr/bin/env python3
"""Mutation campaign: finds small edits of the crate which compile, pass the unit tests and no driver
notices.  mutate.py OUT.jsonl [slots] [max] [seed] [file-regex]
Works in scratch copies /tmp/mut/w<n>; the survivors are read by hand (tools only, no check uses this)."""
import json, os, random, re, shutil, subprocess, sys, threading, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = sys.argv[1]; SLOTS = int(sys.argv[2]) if len(sys.argv) > 2 else 5
MAX = int(sys.argv[3]) if len(sys.argv) > 3 else 400; SEED = int(sys.argv[4]) if len(sys.argv) > 4 else 1
FILES = re.compile(sys.argv[5] if len(sys.argv) > 5 else '.')
R = os.environ.get('MUT_BASE', '/repo')  # a snapshot, when /repo is patched meanwhile
OPS = [
 (r' == ', ' != '), (r' != ', ' == '), (r' && ', ' || '), (r' \|\| ', ' && '), (r' < ', ' <= '), (r' > ', ' >= '),
 (r' <= ', ' < '), (r' >= ', ' > '), (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' + '), (r' / ', ' * '), (r' % ', ' / '),
 (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'(?<![\w\])])!(?=[\w(])', ''), (r'\bis_some\(\)', 'is_none()'), (r'\bis_none\(\)', 'is_some()'),
 (r'\brsplit_once\b', 'split_once'), (r'\bsplit_once\b', 'rsplit_once'), (r'\bfind\(', 'rfind('), (r'\brfind\(', 'find('),
 (r'\bstarts_with\b', 'ends_with'), (r'\bends_with\b', 'starts_with'), (r'\.any\(', '.all('), (r'\.all\(', '.any('),
 (r'\.min\(', '.max('), (r'\.max\(', '.min('), (r'\.\.=', '..'), (r'is_ascii_alphanumeric', 'is_alphanumeric'), (r'is_ascii_digit', 'is_ascii_hexdigit'),
 (r'is_ascii_lowercase', 'is_ascii_alphabetic'), (r'is_ascii_hexdigit', 'is_ascii_alphanumeric'), (r'is_ascii_alphabetic', 'is_ascii_alphanumeric'),
 (r'\bis_empty\(\)', 'is_empty() == false'), (r'\.or_else\(', '.and_then('), (r'\.take_while\(', '.skip_while('),
 (r'\bstrip_prefix\b', 'strip_suffix'), (r'\bstrip_suffix\b', 'strip_prefix'), (r'\btrim_start_matches\b', 'trim_matches'),
 (r'skip_serializing_if = "[^"]*"', 'skip_serializing_if = "x_never"'), (r'#\[serde\(default\)\]', ''), (r'default, ', ''), (r', flatten', ''),
 (r'Some\((\w+)\) => Some\(\1\)', r'Some(\1) => None'), (r'\bnext\(\)', 'next_back()'), (r'unwrap_or_default\(\)', 'unwrap()'),
 (r'Ok\(Some\(', 'Err(panic!("x")).or(Ok(None)) /* '), (r'\.push_str\(', '.insert_str(0, '), (r'\bchecked_', 'wrapping_'),
 (r'\bextend\(', 'extend(Vec::new()); let _ = ('), (r'\.insert\(', '.shift_remove('), (r"'(.)'", None), (r'"([^"\\]+)"', None), (r'\b(\d[\d_]*)\b', None),
 (r'u64', 'u32'), (r'u32', 'u16'), (r'i64', 'i32'), (r'u16', 'u8'), (r'\bSome\((\w+)\)', r'None::<_>.or(Some(\1)).filter(|_| false)'),
]
def files():
    o = []
    for b in ('src', 'compose_spec_macros/src'):
        for d, _, fs in os.walk(f'{R}/{b}'):
            o += [os.path.relpath(os.path.join(d, f), R) for f in fs if f.endswith('.rs')]
    return sorted(f for f in o if FILES.search(f))
def mutants():
    o = []
    for f in files():
        lines = open(f'{R}/{f}').read().split('\n')
        for i, l in enumerate(lines):
            if l.strip().startswith('#[cfg(test)]'): break
            s = l.strip()
            if not s or s.startswith('//') or s.startswith('use ') or 'expecting' in s or s.startswith('#[error') or s.startswith('pub fn ') or s.startswith('fn ') or 'rustdoc' in s: continue
            if s.startswith('#[') and 'serde' not in s: continue
            for pat, rep in OPS:
                for m in re.finditer(pat, l):
                    if '//' in l[:m.start()]: continue
                    if pat == 'default, ' and 'Option::is_none' in l and 'deserialize_with' not in l: continue  # derive treats an absent Option alike
                    if pat.startswith('"') and re.search(r'Error::|error\(|expect\(|custom\(|::new\("|check_duplicate|formatter', l): continue  # messages
                    r = rep
                    if r is None:
                        if pat.startswith("'"): 
                            for c in {'/', 'x'} - {m.group(1)}: o.append((f, i, l[:m.start()] + f"'{c}'" + l[m.end():]))
                            continue
                        if pat.startswith('"'): r = '"%sx"' % m.group(1)
                        else:
                            n = int(m.group(1).replace('_', '')); o.append((f, i, l[:m.start()] + str(n + 1) + l[m.end():]))
                            if n: o.append((f, i, l[:m.start()] + str(n - 1) + l[m.end():]))
                            continue
                    else: r = m.expand(r)
                    o.append((f, i, l[:m.start()] + r + l[m.end():]))
            if s.endswith(';') and not s.startswith(('let ', 'return', 'pub ', 'const', 'type', 'mod', 'break', 'continue', '}', ')', ']', '.')) and i and lines[i-1].rstrip().endswith((';', '{', '}')):
                o.append((f, i, '// deleted'))
            if re.match(r'^[\w:]+(\([\w, ]+\))? => [^{]*,$', s):
                o.append((f, i, '// deleted arm'))
            if re.match(r'^(\.\w+\([^()]*(\([^()]*\))?[^()]*\)\??),?$', s) and not s.endswith(','):
                o.append((f, i, '// deleted call'))
    return o
KNOWN = set(re.findall(r'^finding: property=(\S+) rule=(.*?) input=(.*)$', open(f'{V}/known-findings.txt').read(), re.M))
PR = [f'P{i:02}' for i in range(1, 21)]
def sh(cmd, cwd, t, env=None):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.Popen(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', env=e, start_new_session=True)
    try: out, _ = p.communicate(timeout=t); return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.communicate(); return 124, 'timeout'
lock = threading.Lock(); q = []; stat = {}
def worker(n):
    w = f'/tmp/mut/w{n}'
    if not os.path.isdir(w):
        os.makedirs(w); sh(f'cp -a /repo {w}/repo && cp -a {V}/driver {w}/driver && sed -i "s#path = \\".*repo\\"#path = \\"{w}/repo\\"#" {w}/driver/Cargo.toml', '/', 300)
    env = {'CARGO_INCREMENTAL': '1', 'CARGO_BUILD_JOBS': '3'}
    while True:
        with lock:
            if not q: return
            f, i, new = q.pop()
        p = f'{w}/repo/{f}'; src = open(f'{R}/{f}').read(); lines = src.split('\n'); old = lines[i]; lines[i] = new
        open(p, 'w').write('\n'.join(lines))
        t0 = time.time(); res, by = '?', ''
        try:
            rc, out = sh('cargo check --offline -q --lib', f'{w}/repo', 200, env)
            if rc: res = 'nocompile'
            else:
                rc, out = sh('cargo test --offline -q --workspace --lib', f'{w}/repo', 300, env)
                if rc: res = 'tests'
                else:
                    rc, out = sh(f'cargo build --offline -q --target-dir {w}/dt', f'{w}/driver', 300, env)
                    if rc: res = 'driver-build'; by = out[-300:]
                    else:
                        res = 'SURVIVED'
                        for pr in PR:
                            j = f'{w}/o.json'
                            if os.path.exists(j): os.remove(j)
                            rc, out = sh(f'{w}/dt/debug/driver {pr} --seed 1 --effort 1 --out {j}', w, 200)
                            if rc or not os.path.exists(j): res, by = 'driver', pr + ' crash ' + str(rc); break
                            fl = [x for x in json.load(open(j)).get('failures', []) if (pr, x['rule'], x['input']) not in KNOWN]
                            if fl: res, by = 'driver', pr + ' ' + fl[0]['rule']; break
                        if res == 'SURVIVED':
                            rc, out = sh('cargo test --offline -q --workspace --doc', f'{w}/repo', 400, env)
                            if rc: res = 'doctests'
        finally: open(p, 'w').write(src)
        with lock:
            stat[res] = stat.get(res, 0) + 1
            open(OUT, 'a').write(json.dumps(dict(file=f, line=i + 1, old=old.strip(), new=new.strip(), res=res, by=by, t=round(time.time() - t0))) + '\n')
ms = mutants(); random.Random(SEED).shuffle(ms)
print(len(ms), 'mutants'); done = set()
if os.path.exists(OUT): done = {(d['file'], d['line'], d['new']) for d in map(json.loads, open(OUT))}
q = [m for m in ms if (m[0], m[1] + 1, m[2].strip()) not in done][:MAX][::-1]
ts = [threading.Thread(target=worker, args=(n,)) for n in range(SLOTS)]
[t.start() for t in ts]; [t.join() for t in ts]
print(stat)
