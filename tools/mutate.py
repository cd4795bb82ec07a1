#!/usr/bin/env python3
"""Mutation testing of the checks: mutate.py FILE PROPS [--max N] [--seed S] [--par P] [--lines A-B]
Works on scratch copies (/tmp/mut.*), never on /repo. Prints the mutants that no check of PROPS notices."""
import sys, os, re, random, subprocess, shutil, argparse, threading, queue, time
ap = argparse.ArgumentParser()
ap.add_argument("file"); ap.add_argument("props"); ap.add_argument("--max", type=int, default=60)
ap.add_argument("--seed", type=int, default=1); ap.add_argument("--par", type=int, default=4)
ap.add_argument("--lines"); ap.add_argument("--list", action="store_true"); ap.add_argument("--ncpu", type=int, default=2)
a = ap.parse_args()
src = open(os.path.join("/repo", a.file)).read()

def blank(s):  # comments blanked, same length
    out, i = list(s), 0
    for m in re.finditer(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'', s, re.S):
        if s[m.start()] == '/':
            for k in range(m.start(), m.end()):
                if out[k] != '\n': out[k] = ' '
        elif s[m.start()] == '"':
            for k in range(m.start() + 1, m.end() - 1): out[k] = '~'
    return ''.join(out)
code = blank(src)
lines, pos = [], 0
for l in code.split('\n'):
    lines.append((pos, l)); pos += len(l) + 1
lo, hi = (1, len(lines)) if not a.lines else map(int, a.lines.split('-'))
OPS = [(r' <= ', [' < ']), (r' >= ', [' > ']), (r' < ', [' <= ']), (r' > ', [' >= ']), (r' == ', [' != ']), (r' != ', [' == ']),
       (r' && ', [' || ']), (r' \|\| ', [' && ']), (r' and ', [' or ']), (r' or ', [' and ']),
       (r' \+ 1\b(?!\.)', ['', ' + 2']), (r' - 1\b(?!\.)', ['', ' - 2']), (r' \+ (?!1\b)', [' - ']), (r' - (?!1\b)', [' + ']), (r' \* ', [' / ']), (r' / ', [' * ']),
       (r' \+= ', [' -= ', ' = ']), (r' -= ', [' += ']), (r'\+\+(?=[a-z_*])', ['--']), (r'--(?=[a-z_*])', ['++']),
       (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
       (r'(?<![\w.<\'"])(\d+)(?=[uUlL]*\b)(?![.\w]*[\'"<])', ['N+1', 'N-1']),
       (r'\bstd::min\b', ['std::max']), (r'\bstd::max\b', ['std::min']), (r'\bnotify_all\b', ['notify_one']), (r'\bnotify_one\b', ['get_id']),
       (r'!(?=[a-z_(*])', ['']), (r'\bnot (?=[a-z_(*])', ['']), (r'\bfront\(\)', ['back()']), (r'\bback\(\)', ['front()']),
       (r'\bbegin\(\)', ['end()']), (r'\bif \((?!.*\belse\b)', ['if (true || ', 'if (false && ']), (r'\bwhile \(', ['while (false && ']),
       (r'std::move\((\w+)\)', ['\\1'])]
muts = []
for n, (p, l) in enumerate(lines, 1):
    if not lo <= n <= hi: continue
    t = l.strip()
    if not t or t.startswith('#') or re.match(r'(template|using|static_assert|typedef|namespace|friend|explicit|\*)', t): continue
    if 'enable_if' in l or 'static_assert' in l or 'noexcept(' in l: continue
    for rx, reps in OPS:
        for m in re.finditer(rx, l):
            for r in reps:
                if r in ('N+1', 'N-1'):
                    v = int(m.group(1), 8 if len(m.group(1)) > 1 and m.group(1)[0] == '0' else 10) if not re.search('[89]', m.group(1)) or m.group(1)[0] != '0' else 0
                    if r == 'N-1' and v == 0: continue
                    r = str(v + 1 if r == 'N+1' else v - 1)
                elif '\\1' in r: r = m.group(1)
                muts.append((n, p + m.start(), p + m.end(), r))
    if re.match(r'(?!return|throw|case|default|break|continue|goto|public|private|else|if|for|while|do|using|const|auto|static|constexpr|inline)[\w:>.\-\[\]*+(]+.*;\s*$', t) and not re.match(r'[\w:<>&*, ]+ [\w]+( = .*|\{.*\}|\(.*\))?;$', t):
        muts.append((n, p + len(l) - len(l.lstrip()), p + len(l.rstrip()), ';'))
    if re.match(r'(continue|break);$', t): muts.append((n, p + len(l) - len(l.lstrip()), p + len(l.rstrip()), ';'))
random.Random(a.seed).shuffle(muts)
print(len(muts), "possible mutants;", min(a.max, len(muts)), "tried", flush=True)
muts = muts[:a.max]
if a.list:
    for m in sorted(muts): print(m[0], src[m[1]:m[2]], '->', m[3])
    sys.exit()
q = queue.Queue()
for m in muts: q.put(m)
lock = threading.Lock(); res = {"killed": 0, "nobuild": 0, "survived": 0}
def worker(k):
    d = "/tmp/mut.%d.%d" % (os.getpid(), k)
    shutil.copytree("/verif", d + "/verif", ignore=shutil.ignore_patterns("build", ".git", "seeded", "replay", "evidence", "__pycache__"))
    c = d + "/verif/check.py"; s = open(c).read(); s = re.sub(r"NCPU = .*", "NCPU = %d" % a.ncpu, s)
    open(c, "w").write(s)
    os.makedirs(d + "/repo")
    for x in ("include", "src"): shutil.copytree("/repo/" + x, d + "/repo/" + x)
    f = os.path.join(d, "repo", a.file)
    while True:
        try: n, b, e, r = q.get_nowait()
        except queue.Empty: break
        open(f, "w").write(src[:b] + r + src[e:])
        out, t0 = "survived", time.time()
        x = subprocess.run(["g++", "-std=c++14", "-fsyntax-only", "-w", "-DGUL_USING_STATIC_LIB_OR_OBJECTS", "-I" + d + "/repo/include", f], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode
        if x: out = "nobuild"
        else:
            how = []
            for p in a.props.split(','):
                y = subprocess.run(["python3", c, p], env=dict(os.environ, VERIF_REPO=d + "/repo", VERIF_SEED="1"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if y.returncode == 1: out = "killed"; how.append(p); break
                if y.returncode != 0: out = "nobuild"; how.append(y.stdout.decode(errors='replace')[-300:] if 'compiling' not in y.stdout.decode(errors='replace') else 'compile'); break
        with lock:
            res[out] += 1
            if out == "survived" or (out == "nobuild" and not x and how != ['compile']):
                L = src[src.rfind('\n', 0, b) + 1: src.find('\n', e)].strip()
                print("%s %s:%d  [%s] -> [%s]   in: %s %s" % (out.upper(), a.file, n, src[b:e], r, L[:140], how if out == 'nobuild' else ''), flush=True)
    shutil.rmtree(d)
ts = [threading.Thread(target=worker, args=(k,)) for k in range(a.par)]
[t.start() for t in ts]; [t.join() for t in ts]
print(a.file, res, flush=True)
