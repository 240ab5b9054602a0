"""Rewrites the whole tree in behaviour-preserving ways and runs the checks on the result: every alarm
is a false one.  refactor.py MODE[,MODE..] [CHECK...]   env: SEED, PCT"""
import os, sys, subprocess, shutil, glob
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from core import facts as F
HERE = os.path.dirname(os.path.abspath(__file__))
BIN = '/tmp/refactor'
MODES = 'hoist condlambda split splitor invert emptythen bodylambda demorgan flip rangefor while for ret arghoist memalias ternary'.split()


def build():
    s = os.path.join(HERE, 'refactor.cpp')
    if os.path.exists(BIN) and os.path.getmtime(BIN) > os.path.getmtime(s):
        return
    subprocess.run(['clang++', '-std=c++17', '-O1', '-fno-rtti', '-w', '-I' + F.LLVM + '/include', s, '-o', BIN, '-L' + F.LLVM + '/lib', '-l:libclang-cpp.so.18.1', '-lLLVM-18'], check=True)


def tree(mode, seed, pct):
    d = '/tmp/rf/' + mode
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    for f in glob.glob('/repo/*.cpp') + glob.glob('/repo/*.h') + ['/repo/CMakeLists.txt', '/repo/CMakeLists.shared']:
        shutil.copy(f, d)
    for x in os.listdir('/repo'):
        if os.path.isdir('/repo/' + x) and x not in ('_build', '.git', 'FlashMQTests', 'fuzzing', 'debian') and glob.glob('/repo/%s/**/*.h' % x, recursive=True):
            shutil.copytree('/repo/' + x, d + '/' + x)
    n = [0]; bad = []

    def one(f):
        p = os.path.join(d, f); o = p + '.new'
        # header includes resolve next to the file
        r = subprocess.run([BIN, mode, o, str(seed), str(pct), '--'] + F.compile_flags() + ['--', p], capture_output=True, text=True, cwd=d)
        if r.returncode or not os.path.exists(o):
            bad.append((f, r.stderr[-300:])); return
        n[0] += int(r.stderr.strip().split('\n')[-1])
        old = open(p).read(); os.rename(o, p)
        c = subprocess.run(['clang++', '-fsyntax-only'] + F.compile_flags() + [p], capture_output=True, text=True, cwd=d)
        if c.returncode:
            bad.append((f, [l for l in c.stderr.split('\n') if 'error' in l][:3])); open(p, 'w').write(old)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, F.translation_units()))
    return d, n[0], bad


def main():
    build()
    modes = MODES if sys.argv[1] == 'all' else sys.argv[1].split(',')
    ids = sys.argv[2:] or sorted(os.path.basename(f)[:-3].upper() for f in glob.glob(os.path.dirname(HERE) + '/checks/c[0-9]*.py'))
    for m in modes:
        d, n, bad = tree(m, os.environ.get('SEED', '1'), os.environ.get('PCT', '100'))
        print('== %s: %d rewrites, not compiled: %s' % (m, n, bad), flush=True)
        env = dict(os.environ, FMQ_REPO=d, FMQ_CACHE='/tmp/rf/cache', FMQ_EVIDENCE='/tmp/rf/ev')
        os.makedirs('/tmp/rf/ev', exist_ok=True)
        subprocess.run([sys.executable, '-m', 'core.facts'], env=env, cwd=os.path.dirname(HERE), capture_output=True)

        def run(c):
            r = subprocess.run([sys.executable, 'check', c], env=env, cwd=os.path.dirname(HERE), capture_output=True, text=True)
            return c, r
        with ThreadPoolExecutor(int(os.environ.get('W', '7'))) as ex:
            for c, r in ex.map(run, ids):
                if r.returncode:
                    print(c, r.returncode, '\n   '.join(l[:230] for l in (r.stdout + r.stderr[-400:]).strip().split('\n')[-int(os.environ.get('L', '6')):]), flush=True)


main()
