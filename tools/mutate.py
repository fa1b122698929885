#!/usr/bin/env python3
"""Random small changes of /repo's sources against the checks: mutate.py SEED COUNT [WORKERS]

Works in scratch copies under /tmp/mut. A change counts when it builds and the repository's tests pass;
then the quick checks run, those nearest to the changed file first, until one reports a violation.
Survivors (no check reports) are printed with their diff, to be looked at by hand: equivalent, outside the
properties, or a gap. Nothing here is part of a check."""
import os, re, random, shutil, subprocess, sys, glob, json, threading
seed, count = int(sys.argv[1]), int(sys.argv[2])
W = int(sys.argv[3]) if len(sys.argv) > 3 else 2
rng = random.Random(seed)
ENV = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
ORDER = {
 'article_number.rs': 'P09 P10 P08 P16 P17 P12 P20 P01'.split(),
 'utils.rs': 'P11 P12 P13 P14'.split(),
 'parse_from_text.rs': 'P16 P15 P17 P18'.split(),
 'text.rs': 'P14 P01 P02 P19'.split(),
 'lib.rs': 'P01 P02 P04 P05 P06 P07 P18 P22'.split(),
 'result.rs': 'P06 P05'.split(),
}
REST = 'P01 P02 P06 P03 P04 P19 P05 P07 P14 P13 P11 P12 P16 P15 P18 P08 P09 P10 P17 P21 P22'.split()

def mutations(path):
    src = open(path).read()
    out = []
    pos = 0
    for ln, line in enumerate(src.split('\n')):
        st = line.strip()
        if st.startswith('//') or st.startswith('#[') or st.startswith('use ') or not st:
            pos += len(line) + 1; continue
        def add(a, b, new, kind): out.append((ln, pos + a, pos + b, new, kind))
        for pat, new in [(r' == ', ' != '), (r' != ', ' == '), (r' && ', ' || '), (r' \|\| ', ' && '), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
                         (r' < ', ' <= '), (r' > ', ' >= '), (r' <= ', ' < '), (r' >= ', ' > '), (r' \+ 1\b', ''), (r' - 1\b', ''), (r'\bcontinue\b', 'break'), (r'\bbreak\b', 'continue'),
                         (r'\bSome\(([a-z_]+)\)', 'None'), (r'\.unwrap_or\(1\)', '.unwrap_or(0)'), (r'\.unwrap_or\(0\)', '.unwrap_or(1)'), (r'is_empty\(\)', 'is_empty() == false'),
                         (r'\.iter\(\)', '.iter().rev()'), (r'\.trim\(\)', ''), (r'\.skip\(1\)', ''), (r'is_some\(\)', 'is_none()'), (r'is_none\(\)', 'is_some()'), (r'\.first\(\)', '.last()'), (r'\.last\(\)', '.first()'), (r'\.chars\(\)', '.chars().skip(1)')]:
            for m in re.finditer(pat, line): add(m.start(), m.end(), new, pat)
        for m in re.finditer(r'(?<![\w.])\d+(?![\w."])', line): add(m.start(), m.end(), str(int(m.group()) + 1), 'int')
        for m in re.finditer(r'"([^"\\{}]+)"', line): add(m.start(), m.end(), '"' + m.group(1)[:-1] + ('x' if m.group(1)[-1] != 'x' else 'y') + '"', 'string')
        if re.match(r'^[a-z_.0-9]+(\([^;{}]*\)|\.[a-z_]+\([^;{}]*\))+;?$', st) and not st.startswith('return'): add(len(line) - len(line.lstrip()), len(line), '()' if not st.endswith(';') else '', 'delete')
        if re.match(r'^[^{}]* => [^{}]*,$', st) and not st.startswith('_'): add(0, len(line), '', 'arm')
        pos += len(line) + 1
    return src, out

lock = threading.Lock()
todo = []
files = [f for f in glob.glob('/repo/src/*.rs') if not f.endswith('tests.rs')]
allm = []
for f in files:
    src, ms = mutations(f)
    allm += [(os.path.basename(f), m) for m in ms]
# by file size weight, one per line
rng.shuffle(allm)
seen = set()
for f, m in allm:
    if (f, m[0]) in seen: continue
    seen.add((f, m[0])); todo.append((f, m))
stats = dict(built=0, tests=0, killed=0, survived=0)

def sh(cmd, cwd, timeout, env=ENV):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired:
        return 124, ''

def prepare(d):
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d + '/verif')
    subprocess.check_call(['git', 'clone', '-q', '/repo', d + '/repo'])
    for x in ['check.sh', 'miri.sh', 'known_findings.txt']: shutil.copy('/verif/' + x, d + '/verif')
    subprocess.check_call(['cp', '-a', '/verif/harness', d + '/verif/'])
    shutil.rmtree(d + '/verif/harness/target/miri', ignore_errors=True); shutil.rmtree(d + '/verif/harness/target/tsan', ignore_errors=True)
    subprocess.check_call(f"sed -i 's#/verif#{d}/verif#g; s#/repo#{d}/repo#g' {d}/verif/check.sh {d}/verif/harness/Cargo.toml", shell=True)

def work(k):
    d = f'/tmp/mut{seed}/{k}'
    prepare(d)
    env = dict(ENV, VERIF_SEED='1', VERIF_TIER='quick', LAWMON_JOBS=str(8 // W))
    while True:
        with lock:
            if stats['killed'] + stats['survived'] >= count or not todo: return
            f, (ln, a, b, new, kind) = todo.pop()
        p = f'{d}/repo/src/{f}'
        orig = open(p).read()
        open(p, 'w').write(orig[:a] + new + orig[b:])
        try:
            rc, out = sh(['cargo', 'test', '--offline', '--quiet'], d + '/repo', 400)
            if rc != 0: continue
            order = ORDER.get(f, []) + [x for x in REST if x not in ORDER.get(f, [])]
            killer = None; notes = ''
            for c in order:
                rc, out = sh(['bash', 'check.sh', c, 'quick'], d + '/verif', 1500, env)
                if rc == 1 and 'VIOLATION' in out: killer = c; break
                if rc != 0: notes += f' {c}:rc{rc}'
            diff = subprocess.run(['git', 'diff', '-U1'], cwd=d + '/repo', stdout=subprocess.PIPE).stdout.decode()
            with lock:
                stats['killed' if killer else 'survived'] += 1
                print(f"{'killed '+killer if killer else 'SURVIVED'} {f}:{ln+1} {kind!r} -> {new!r}{notes}", flush=True)
                if not killer: print('\n'.join(diff.split('\n')[4:]), flush=True)
        finally:
            open(p, 'w').write(orig)

ts = [threading.Thread(target=work, args=(k,)) for k in range(W)]
for t in ts: t.start()
for t in ts: t.join()
print(stats)
shutil.rmtree(f'/tmp/mut{seed}', ignore_errors=True)
