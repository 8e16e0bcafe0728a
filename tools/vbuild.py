"""Builds: the engine, LLVM bitcode of /repo's current sources, and native replay binaries. Everything is cached by content."""
import concurrent.futures as cf, fcntl, glob, hashlib, json, os, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VS_REPO', '/repo')
BUILD = os.environ.get('VS_BUILD', os.path.join(VERIF, '.build'))
LLVM = '/usr/lib/llvm-18/bin/'
INC = ['-I' + VERIF + '/stubs', '-I' + REPO, '-I' + REPO + '/vrs/oss', '-I' + REPO + '/vrs/oss/thread_safety_analysis', '-I' + VERIF + '/harness', '-I' + VERIF + '/runtime']
BCFLAGS = ['-std=c++17', '-O1', '-g0', '-fno-vectorize', '-fno-slp-vectorize', '-fno-strict-aliasing', '-w', '-DNDEBUG', '-DVS_SYMBOLIC=1', '-emit-llvm', '-c']
NATFLAGS = ['-std=c++17', '-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize=alignment,vptr,function,enum', '-fno-strict-aliasing', '-w', '-DNDEBUG', '-c']

CORE = sorted('vrs/' + f for f in """AsyncDiskFileChunk Compressor ContentBlockReader DataLayout DataLayoutConventions DataReference
DataSource Decompressor DescriptionRecord DiskFile ErrorCode FileCache FileDetailsCache FileFormat FileHandler FileHandlerFactory FileSpec
IndexRecord LegacyFormatsProvider MultiRecordFileReader ProgressLogger Record RecordFileReader RecordFileWriter RecordFormat
RecordFormatStreamPlayer RecordManager RecordReaders Recordable StreamId TagConventions TagsRecord TelemetryLogger""".split())
HELP = ['vrs/helpers/MemBuffer', 'vrs/helpers/Strings', 'vrs/helpers/Throttler', 'vrs/os/Event', 'vrs/os/Time', 'vrs/os/Utils', 'vrs/utils/xxhash/xxhash']
FILTER = ['vrs/utils/FilteredFileReader', 'vrs/utils/FilterCopyHelpers', 'vrs/utils/FilterCopy', 'vrs/utils/ThrottleHelpers']
UTILS = ['vrs/utils/FilteredFileReader', 'vrs/utils/FilterCopyHelpers', 'vrs/utils/FilterCopy', 'vrs/utils/ThrottleHelpers', 'vrs/utils/VideoFrameHandler', 'vrs/utils/AudioBlock',
         'vrs/utils/PixelConversions', 'vrs/utils/converters/Grey10PackedConverters', 'vrs/utils/converters/Raw10ToGrey10Converter']
RT_BC = ['rt_std', 'rt_libc', 'rt_io']
RT_BOTH = ['memfs', 'os_override', 'zstub', 'misc_stub']


def log(*a):
    print(*a, file=sys.stderr, flush=True)


_hash = {}


def fhash(p):
    if p not in _hash:
        try:
            with open(p, 'rb') as f:
                _hash[p] = hashlib.sha1(f.read()).hexdigest()
        except OSError:
            _hash[p] = 'absent'
    return _hash[p]


class BuildError(Exception):
    pass


def engine():
    d = os.path.join(BUILD, 'engine')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = hashlib.sha1(''.join(fhash(p) for p in sorted(glob.glob(VERIF + '/engine/*'))).encode()).hexdigest()
        kf = os.path.join(d, 'key')
        if not (os.path.exists(d + '/vsym') and os.path.exists(kf) and open(kf).read() == key):
            r = subprocess.run(['bash', VERIF + '/engine/build.sh', d], capture_output=True, text=True)
            if r.returncode:
                raise BuildError('engine build failed:\n' + r.stderr[-4000:])
            open(kf, 'w').write(key)
    return d + '/vsym'


def compile_one(src, out_ext, cc, flags):
    """src: absolute path. Returns the cached object path."""
    base = os.path.join(BUILD, 'obj')
    os.makedirs(base, exist_ok=True)
    fk = hashlib.sha1((src + '\0' + cc + '\0'.join(flags)).encode()).hexdigest()[:16]
    man = os.path.join(base, fk + '.json')
    try:
        m = json.load(open(man))
        if all(fhash(p) == h for p, h in m['deps'].items()) and os.path.exists(m['out']):
            return m['out']
    except (OSError, ValueError, KeyError):
        pass
    out = os.path.join(base, fk + '.%d.%d' % (os.getpid(), threading.get_ident()) + out_ext)
    dep = out + '.d'
    r = subprocess.run([cc] + flags + ['-MD', '-MF', dep, src, '-o', out], capture_output=True, text=True)
    if r.returncode:
        raise BuildError('compiling %s failed:\n%s' % (src, r.stderr[-3000:]))
    deps = open(dep).read().replace('\\\n', ' ').split(':', 1)[1].split()
    os.remove(dep)
    deps = {p: fhash(p) for p in deps if not p.startswith('/usr/')}
    fin = os.path.join(base, fk + out_ext)
    os.replace(out, fin)
    with open(man + str(os.getpid()), 'w') as f:
        json.dump({'deps': deps, 'out': fin}, f)
    os.replace(man + str(os.getpid()), man)
    return fin


def compile_many(jobs):
    with cf.ThreadPoolExecutor(8) as ex:
        return list(ex.map(lambda j: compile_one(*j), jobs))


def sources(mods):
    return [os.path.join(REPO, m + '.cpp') for m in mods]


def bc_objects(harness, mods, defs=()):
    fl = BCFLAGS + INC
    rt = [(VERIF + '/runtime/' + r + '.cpp', '.bc', 'clang++-18', fl + ['-fno-builtin']) for r in RT_BC]
    src = [(s, '.bc', 'clang++-18', fl) for s in sources(mods)]
    both = [(VERIF + '/runtime/' + r + '.cpp', '.bc', 'clang++-18', fl) for r in RT_BOTH]
    har = [(VERIF + '/harness/' + harness, '.bc', 'clang++-18', fl + ['-D' + d for d in defs])]
    o = compile_many(src + har + both + rt)
    n, m = len(src), len(both)
    return dict(src=o[:n], har=o[n:n + 1], both=o[n + 1:n + 1 + m], rt=o[n + 1 + m:])


def content_key(objs):
    h = hashlib.sha1()
    for o in objs:
        with open(o, 'rb') as f:
            h.update(hashlib.sha1(f.read()).digest())
    return h.hexdigest()[:20]


def prune(pattern, keep):
    for old in glob.glob(pattern):
        try:
            if old != keep and time.time() - os.path.getmtime(old) > 1800:
                os.remove(old)
        except OSError:
            pass


def bc_module(harness, mods, defs=(), tag=''):
    """Links harness + repo modules + runtime into one bitcode file; returns its path."""
    o = bc_objects(harness, mods, defs)
    d = os.path.join(BUILD, 'mod')
    os.makedirs(d, exist_ok=True)
    base = os.path.join(d, os.path.basename(harness).replace('.cpp', '') + tag)
    out = base + '-' + content_key(o['src'] + o['rt'] + o['har'] + o['both']) + '.bc'
    if not os.path.exists(out):
        tmp = out + str(os.getpid())
        # sources first; runtime definitions replace the ones listed in overrides
        cmd = [LLVM + 'llvm-link', '-o', tmp] + o['src'] + o['rt'] + o['har'] + sum((['--override', x] for x in o['both']), [])
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise BuildError('llvm-link failed: ' + r.stderr[-3000:])
        os.replace(tmp, out)
        prune(base + '-*.bc', out)
    return out


WRAPS = """fopen fopen64 fclose fread fwrite fflush fseeko fseek fseeko64 ftello ftello64 ftell rewind feof ferror clearerr fileno setvbuf
ftruncate ftruncate64 remove unlink rename statvfs statvfs64 open open64 close pread pread64 pwrite pwrite64 lseek64 aio_write aio_write64 aio_error aio_error64 aio_return aio_return64""".split()


def native(harness, mods, defs=(), asan=True):
    """Native binary of the same harness and sources, for replays. asan: compiled from source with ASan/UBSan; else from the very bitcode the engine executes."""
    if asan:
        fl = NATFLAGS + INC
        srcs = [(s, '.o', 'clang++-18', fl) for s in sources(mods)]
        rest = [(VERIF + '/runtime/' + r + '.cpp', '.o', 'clang++-18', fl) for r in RT_BOTH + ['native']] + [(VERIF + '/harness/' + harness, '.o', 'clang++-18', fl + ['-D' + d for d in defs])]
        objs = compile_many(srcs + rest)
        weak, strong = objs[:len(srcs)], objs[len(srcs):]
    else:
        o = bc_objects(harness, mods, defs)

        def low(bc):
            out = os.path.join(BUILD, 'obj', 'low-' + content_key([bc]) + '.o')
            if not os.path.exists(out):
                t = out + '.%d.%d' % (os.getpid(), threading.get_ident())
                r = subprocess.run(['clang++-18', '-O0', '-w', '-c', '-x', 'ir', bc, '-o', t], capture_output=True, text=True)
                if r.returncode:
                    raise BuildError('lowering failed: ' + r.stderr[-2000:])
                os.replace(t, out)
            return out
        with cf.ThreadPoolExecutor(8) as ex:
            weak = list(ex.map(low, o['src']))
            strong = list(ex.map(low, o['both'] + o['har']))
        strong.append(compile_one(VERIF + '/runtime/native.cpp', '.o', 'clang++-18', ['-std=c++17', '-O1', '-w', '-c', '-DVS_LIMIT=1'] + INC))
    d = os.path.join(BUILD, 'nat')
    os.makedirs(d, exist_ok=True)
    base = os.path.join(d, os.path.basename(harness).replace('.cpp', '') + ('-asan' if asan else '-bc'))
    out = base + '-' + content_key(weak + strong)
    if not os.path.exists(out):
        tmp = []
        ws = []
        for x in weak:
            # the path helpers of the in-memory file system take the place of the real ones
            if 'pathJoin' in subprocess.run(['nm', '--defined-only', x], capture_output=True, text=True).stdout:
                w = x[:-2] + '.' + str(os.getpid()) + '.w.o'
                subprocess.run(['objcopy', '--weaken', x, w], check=True)
                tmp.append(w)
                ws.append(w)
            else:
                ws.append(x)
        r = subprocess.run(['clang++-18'] + (['-fsanitize=address,undefined'] if asan else []) + ['-rdynamic', '-o', out + str(os.getpid())] + strong + ws + ['-Wl,--wrap=' + w for w in WRAPS] + ['-Wl,--allow-multiple-definition', '-lpthread', '-ldl'], capture_output=True, text=True)
        for w in tmp:
            os.remove(w)
        if r.returncode:
            raise BuildError('native link failed: ' + r.stderr[-3000:])
        os.replace(out + str(os.getpid()), out)
        prune(base + '-*', out)
    return out


if __name__ == '__main__':
    t = time.time()
    engine()
    log('engine ready %.1fs' % (time.time() - t))
    for a in sys.argv[1:]:
        print(bc_module(a, CORE + HELP))
        log('%s %.1fs' % (a, time.time() - t))
