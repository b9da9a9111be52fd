"""Builds everything the checks need from /repo's current working tree, into /verif/build (never committed). Results are
kept under a hash of all the inputs, so nothing stale is ever used."""
import hashlib, os, subprocess, sys, concurrent.futures, shutil, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
OUT = os.path.join(ROOT, 'build')
CLANG, OPT = 'clang++-18', 'opt-18'
ADAPTERS = ['nlohmann', 'rapidjson', 'picojson', 'jsoncpp', 'boostjson', 'ptree', 'yaml', 'poco']
LIBS = {'jsoncpp': ['-ljsoncpp'], 'boostjson': ['-lboost_json', '-lboost_container'], 'yaml': ['-lyaml-cpp'], 'poco': ['-lPocoJSON', '-lPocoFoundation']}


class BuildError(Exception):
    pass


def hash_files(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        for d, ds, fs in sorted(os.walk(p)) if os.path.isdir(p) else [(os.path.dirname(p), [], [os.path.basename(p)])]:
            for f in sorted(fs):
                q = os.path.join(d, f)
                if q.endswith(('.hpp', '.h', '.cpp', '.txt')):
                    h.update(q.encode() + b'\0')
                    h.update(open(q, 'rb').read())
    return h.hexdigest()[:20]


def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout.decode('utf-8', 'replace')[-3000:]))


def cached(name, key, make):
    os.makedirs(OUT, exist_ok=True)
    base, ext = os.path.splitext(name)
    out = os.path.join(OUT, '%s-%s%s' % (base, key, ext))
    if not os.path.exists(out):
        for f in os.listdir(OUT):       # older versions of the same artefact
            if f.startswith(base + '-') and f.endswith(ext) and not f.startswith('%s-%s' % (base, key)):
                try:
                    os.unlink(os.path.join(OUT, f))
                except OSError:
                    pass
        tmp = '%s.%d%s' % (out, os.getpid(), ext)
        make(tmp)
        os.replace(tmp, out)
    return out


def ir(name='visitor'):
    src = os.path.join(ROOT, 'harness', name + '.cpp')
    key = hash_files([os.path.join(REPO, 'include'), os.path.join(ROOT, 'harness')])

    def make(tmp):
        a = tmp + '.0'
        sh([CLANG, '-std=c++17', '-O0', '-Xclang', '-disable-O0-optnone', '-DVALIJSON_USE_EXCEPTIONS=1', '-I' + REPO + '/include',
            '-I' + os.path.join(ROOT, 'harness'), *(['-fno-access-control'] if name == 'parser' else []), '-w', '-S', '-emit-llvm', src, '-o', a])
        sh([OPT, '-S', '-passes=function(sroa<modify-cfg>,early-cse,simplifycfg)', a, '-o', tmp])
        os.unlink(a)
    return cached('ir_%s.ll' % name, key, make)


FLAGS = ['-std=c++17', '-O0', '-g1', '-DVALIJSON_USE_EXCEPTIONS=1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all',
         '-fno-omit-frame-pointer', '-w']


def driver(adapters=('nlohmann',)):
    """the concrete driver with the given adapters -> path of the program"""
    adapters = [a for a in ADAPTERS if a in adapters]
    drv = os.path.join(ROOT, 'driver')
    key = hash_files([os.path.join(REPO, 'include'), drv], ' '.join(FLAGS))
    ign = os.path.join(drv, 'ignore.txt')
    fl = FLAGS + ['-fsanitize-ignorelist=' + ign, '-I' + REPO + '/include', '-I/usr/include/jsoncpp']

    def obj(n):
        return cached('drv_%s.o' % n, key, lambda tmp: sh([CLANG] + fl + ['-c', os.path.join(drv, 'drv_%s.cpp' % n), '-o', tmp]))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(obj, ['main'] + adapters))
    libs = [l for a in adapters for l in LIBS.get(a, [])]
    tag = '_'.join(adapters) if len(adapters) < len(ADAPTERS) else 'all'
    return cached('drv@%s.exe' % tag, key, lambda tmp: sh([CLANG, '-fsanitize=address,undefined'] + objs + ['-o', tmp] + libs))


def program(name, flags=FLAGS, libs=()):
    """another program of /verif/driver"""
    drv = os.path.join(ROOT, 'driver')
    key = hash_files([os.path.join(REPO, 'include'), drv], ' '.join(flags))
    return cached('prog_%s.exe' % name, key, lambda tmp: sh(
        [CLANG] + list(flags) + ['-I' + REPO + '/include', os.path.join(drv, name + '.cpp'), '-o', tmp] + list(libs)))


if __name__ == '__main__':
    import time
    t = time.time()
    print(ir(), driver(ADAPTERS), driver(), round(time.time() - t, 1))
