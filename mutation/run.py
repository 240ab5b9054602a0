"""Regression of the checks against small hand-written changes: python3 mutation/run.py C04 [...]
Each mNN.py lists changes that must be reported (B) and behaviour-preserving ones that must stay quiet (K).
Works on a scratch copy of /repo's sources; never touches /repo."""
import sys, subprocess, os, importlib, shutil, tempfile, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MUT_REPO', '/repo')


def one(w, pid, m):
    kind, name, edits = m
    mut = '/tmp/fmqmut/%d' % w
    os.makedirs(mut, exist_ok=True)
    subprocess.run('cd %s && git ls-files -z | tar --null -T - -cf - | tar -xf - -C %s' % (REPO, mut), shell=True, check=True)
    for f in os.listdir(REPO):
        if f.endswith(('.cpp', '.h')):
            a = open(REPO + '/' + f, 'rb').read()
            try:
                b = open(mut + '/' + f, 'rb').read()
            except FileNotFoundError:
                b = None
            if a != b:
                open(mut + '/' + f, 'wb').write(a)
    for f, old, new in edits:
        s = open(mut + '/' + f).read()
        if s.count(old) < 1:
            return (pid, kind, name, 'PATTERN MISSING %s %r' % (f, old[:50]), '')
        s = s.replace(old, new, 1)
        open(mut + '/' + f, 'w').write(s)
    env = dict(os.environ, FMQ_REPO=mut, FMQ_CACHE='/tmp/fmqmut/cache%d' % w, FMQ_CACHE_KEEP='2', FMQ_EVIDENCE='/tmp/fmqmut/ev%d' % w)
    r = subprocess.run([sys.executable, V + '/check', pid], env=env, capture_output=True, text=True)
    lines = [l.strip() for l in r.stdout.splitlines() if l.startswith('  ') and '[' in l and 'via' not in l or l.startswith('ERROR')]
    want = 1 if kind == 'B' else 0
    v = 'ok' if r.returncode == want else 'WRONG'
    return (pid, kind, name, '%s exit=%d' % (v, r.returncode), ' | '.join(lines)[:300] + (r.stderr[-400:] if r.returncode not in (0, 1) else ''))


def main():
    jobs = []
    for pid in sys.argv[1:]:
        sel = None
        if ':' in pid:
            pid, sel = pid.split(':', 1)
        m = importlib.import_module(pid.lower().replace('c', 'm', 1))
        jobs += [(pid, x) for x in m.M if not sel or sel in x[1]]
    W = int(os.environ.get("W", "6"))
    import queue
    q = queue.Queue()
    for w in range(W):
        q.put(w)

    def go(j):
        w = q.get()
        try:
            return one(w, *j)
        finally:
            q.put(w)
    wrong = 0
    with cf.ThreadPoolExecutor(W) as ex:
        for r in ex.map(go, jobs):
            wrong += not r[3].startswith('ok')
            print('%s %s %-38s %-14s %s' % r, flush=True)
    print('%d changes, %d wrong' % (len(jobs), wrong))


main()
