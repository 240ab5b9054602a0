"""Builds the extractor, runs it over every production translation unit of /repo's current tree and
loads the resulting facts. Results are cached under /verif/.cache keyed by the content of every input
(sources, headers, build file, extractor), so a check always describes the tree it is run on."""
import glob, hashlib, json, os, pickle, re, subprocess, sys, tempfile, fcntl, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('FMQ_REPO', '/repo')
CACHE = os.environ.get('FMQ_CACHE', os.path.join(VERIF, '.cache'))
TOOLSRC = os.path.join(VERIF, 'tool', 'fmqfacts.cpp')
LLVM = '/usr/lib/llvm-18'


class AnalysisError(Exception):
    """The analysis itself could not be carried out (exit 2)."""


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b'\0')
    return h.hexdigest()[:24]


def build_tool():
    src = open(TOOLSRC, 'rb').read()
    os.makedirs(CACHE, exist_ok=True)
    out = os.path.join(CACHE, 'fmqfacts-' + sha(src))
    if os.path.exists(out):
        return out
    tmp = out + '.%d.tmp' % os.getpid()
    cmd = ['clang++', '-std=c++17', '-O1', '-fno-rtti', '-w', '-I' + LLVM + '/include', TOOLSRC, '-o', tmp,
           '-L' + LLVM + '/lib', '-l:libclang-cpp.so.18.1', '-lLLVM-18']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise AnalysisError('cannot build extractor:\n' + r.stderr[-3000:])
    os.rename(tmp, out)
    return out


def translation_units():
    shared = open(os.path.join(REPO, 'CMakeLists.shared')).read()
    m = re.search(r'set\(FLASHMQ_IMPLS(.*?)\)', shared, re.S)
    if not m:
        raise AnalysisError('FLASHMQ_IMPLS not found in CMakeLists.shared')
    files = re.findall(r'\$\{RELPATH\}([\w./-]+\.cpp)', m.group(1))
    main = open(os.path.join(REPO, 'CMakeLists.txt')).read()
    m = re.search(r'add_executable\(flashmq(.*?)\)', main, re.S)
    if m:
        files += [f for f in re.findall(r'([\w./-]+\.cpp)', m.group(1))]
    seen = []
    for f in files:
        if f not in seen:
            seen.append(f)
    return seen


def compile_flags():
    main = open(os.path.join(REPO, 'CMakeLists.txt')).read()
    ver = re.search(r'VERSION\s+([\d.]+)\s+LANGUAGES', main)
    return ['-std=c++20', '-msse4.2', '-DOPENSSL_API_COMPAT=0x10100000L', '-DFLASHMQ_VERSION="%s"' % (ver.group(1) if ver else '0'),
            '-DNDEBUG', '-fvisibility=hidden', '-fvisibility-inlines-hidden', '-w', '-resource-dir=' + LLVM + '/lib/clang/18']


def input_key():
    h = [open(TOOLSRC, 'rb').read(), ' '.join(compile_flags())]
    for f in sorted(glob.glob(os.path.join(REPO, '*.cpp')) + glob.glob(os.path.join(REPO, '*.h')) +
                    [os.path.join(REPO, 'CMakeLists.txt'), os.path.join(REPO, 'CMakeLists.shared')]):
        h.append(os.path.basename(f)); h.append(open(f, 'rb').read())
    h.append(open(os.path.abspath(__file__), 'rb').read())
    h.append(REPO)
    return sha(*h)


def header_key():
    h = [open(TOOLSRC, 'rb').read(), ' '.join(compile_flags()), REPO]
    for f in sorted(glob.glob(os.path.join(REPO, '*.h'))):
        h.append(os.path.basename(f)); h.append(open(f, 'rb').read())
    return sha(*h)


def extract():
    """returns path of the merged facts pickle"""
    os.makedirs(CACHE, exist_ok=True)
    key = input_key()
    out = os.path.join(CACHE, 'facts-%s.pkl' % key)
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out):
            os.utime(out)
            return out
        tool = build_tool()
        files = translation_units()
        missing = [f for f in files if not os.path.exists(os.path.join(REPO, f))]
        if missing:
            raise AnalysisError('missing sources: %s' % missing)
        files.sort(key=lambda f: -os.path.getsize(os.path.join(REPO, f)))
        tud = os.path.join(CACHE, 'tu'); os.makedirs(tud, exist_ok=True)
        tmpd = tempfile.mkdtemp(prefix='fmqfacts')
        hk = header_key()
        try:
            procs = []; errs = []

            def work(f):
                k = os.path.join(tud, sha(hk, f, open(os.path.join(REPO, f), 'rb').read()) + '.jsonl')
                if not os.path.exists(k):
                    o = os.path.join(tmpd, f.replace('/', '_') + '.jsonl')
                    cmd = [tool, REPO, o, '--'] + compile_flags() + ['--', os.path.join(REPO, f)]
                    p = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, cwd=REPO)
                    if p.returncode != 0:
                        errs.append(p.stderr[-2000:]); return None
                    shutil.move(o, k + '.tmp'); os.rename(k + '.tmp', k)
                else:
                    os.utime(k)
                return k
            from concurrent.futures import ThreadPoolExecutor
            with ThreadPoolExecutor(min(8, os.cpu_count() or 4)) as ex:
                outs = list(ex.map(work, files))
            if errs:
                raise AnalysisError('front end failed on the current tree:\n' + '\n'.join(errs))
            facts = {'func': {}, 'record': {}, 'enum': {}, 'gvar': {}, 'tu': []}
            for o in [o for f, o in sorted(zip(files, outs))]:
                for line in open(o):
                    d = json.loads(line)
                    k = d['kind']
                    if k == 'tu':
                        facts['tu'].append(os.path.relpath(d['file'], REPO))
                    elif k == 'func':
                        facts['func'].setdefault(d['id'], d)
                    elif k == 'record':
                        facts['record'].setdefault(d['t'], d)
                    elif k == 'enum':
                        facts['enum'].setdefault(d['q'], d)
                    elif k == 'gvar':
                        if d.get('def') or d['q'] not in facts['gvar']:
                            facts['gvar'][d['q']] = d
            if len(facts['tu']) != len(files):
                raise AnalysisError('only %d of %d units analysed' % (len(facts['tu']), len(files)))
        finally:
            shutil.rmtree(tmpd, ignore_errors=True)
        with open(out + '.tmp', 'wb') as f:
            pickle.dump(facts, f, protocol=pickle.HIGHEST_PROTOCOL)
        os.rename(out + '.tmp', out)
        # keep the cache small
        tus = sorted(glob.glob(os.path.join(CACHE, 'tu', '*.jsonl')), key=os.path.getmtime)
        for f in tus[:-100]:
            os.unlink(f)
        old = sorted(glob.glob(os.path.join(CACHE, 'facts-*.pkl')), key=os.path.getmtime)
        for f in old[:-int(os.environ.get('FMQ_CACHE_KEEP', '3'))]:
            os.unlink(f)
        return out


def load():
    with open(extract(), 'rb') as f:
        return pickle.load(f)


if __name__ == '__main__':
    import time
    t = time.time(); p = extract(); print(p, os.path.getsize(p), time.time() - t)
    t = time.time(); d = load(); print({k: len(v) for k, v in d.items()}, time.time() - t)
